"""The frame condition every contract has: what is shared between all requests, sessions and clients of
a process - the tables at module level, what the classes hold (parameter specifications, defaults) and
default argument values - is the same after a call as before it."""
import importlib
import pkgutil
import sys
import types

PREFIXES = ('oidcrp',)
SPECS = ('c_param', 'c_default', 'c_allowed_values')
CONTAINERS = (dict, list, set)
PLAIN = (str, int, float, bool, bytes, type(None), tuple) + CONTAINERS
LABEL = 'what all requests and clients share is unchanged'

_tables = None


def _own(mod):
    return any(mod == p or mod.startswith(p + '.') for p in PREFIXES)


def tables():
    """-> ([(name, container)], [(class, name, value)])"""
    global _tables
    if _tables is not None:
        return _tables
    import oidcrp
    for m in pkgutil.walk_packages(oidcrp.__path__, 'oidcrp.'):
        try:
            importlib.import_module(m.name)
        except Exception:
            pass
    conts, attrs, seen, classes = [], [], set(), []

    def add(name, v, empty=False):
        if type(v) in CONTAINERS and (v or empty) and id(v) not in seen:
            seen.add(id(v))
            conts.append((name, v))

    def func(name, f):
        f = getattr(f, '__func__', f)
        if isinstance(f, types.FunctionType):
            for i, d in enumerate(f.__defaults__ or ()):
                add('%s default %d' % (name, i), d, True)
            for k, d in (f.__kwdefaults__ or {}).items():
                add('%s default %s' % (name, k), d, True)

    for mn, m in sorted(sys.modules.items()):
        if m is None or not _own(mn):
            continue
        for k, v in sorted(vars(m).items()):
            if k.startswith('__'):
                continue
            if getattr(v, '__module__', mn) != mn:
                continue
            add(mn + '.' + k, v)
            func(mn + '.' + k, v)
            if isinstance(v, type):
                classes.append(v)
    from oidcmsg.message import Message

    def walk(c):
        for k in SPECS:
            if k in c.__dict__:
                add('%s.%s.%s' % (c.__module__, c.__name__, k), c.__dict__[k], True)
        for s in c.__subclasses__():
            walk(s)
    walk(Message)
    for c in classes:
        for k, v in sorted(vars(c).items()):
            if k.startswith('__'):
                continue
            nm = '%s.%s.%s' % (c.__module__, c.__name__, k)
            func(nm, v)
            if type(v) in PLAIN:
                add(nm, v)
                attrs.append((c, k, v))
    _tables = (conts, attrs)
    return _tables


def copy(v, depth=0):
    """structure of the containers, everything else by identity"""
    if depth > 12:
        return v
    if type(v) is dict:
        return {k: copy(x, depth + 1) for k, x in v.items()}
    if type(v) is list:
        return [copy(x, depth + 1) for x in v]
    if type(v) is set:
        return set(v)
    return v


def same(a, b):
    """a container and its earlier copy"""
    t = type(a)
    if t is not type(b):
        return False
    if t is dict:
        return len(a) == len(b) and all(k in b and same(x, b[k]) for k, x in a.items())
    if t is list:
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a is b or a == b


def put_back(v, c):
    """give container v the content of its copy c"""
    if type(v) is dict:
        old = dict(v)
        v.clear()
        for k, x in c.items():
            if k in old and type(old[k]) is type(x) and type(x) in CONTAINERS:
                put_back(old[k], x)
                v[k] = old[k]
            else:
                v[k] = x
    elif type(v) is list:
        old = list(v)
        v[:] = [o if type(o) in CONTAINERS and type(o) is type(x) and not put_back(o, x) else x
                for o, x in zip(old, c)] + c[len(old):]
    elif type(v) is set:
        v.clear()
        v |= c


class Frame:
    """around a native execution"""

    def __init__(self):
        conts, attrs = tables()
        self.conts = [(n, v, copy(v)) for n, v in conts]
        self.attrs = attrs

    def finish(self):
        """-> names of what was changed, which is put back"""
        bad = []
        for c, k, v in self.attrs:
            if c.__dict__.get(k, self) is not v:
                bad.append('%s.%s' % (c.__name__, k))
                setattr(c, k, v)
        for n, v, c in self.conts:
            if not same(v, c):
                bad.append(n)
                put_back(v, c)
        return bad


def symbolic_changes(I, patched):
    """-> names of what the path just executed changed"""
    from .values import PyDict, PyList, PySet, Sym
    conts, attrs = tables()

    def eq(m, h):
        t = type(h)
        if t is dict:
            if not isinstance(m, PyDict) or m.base is not None or len(m.entries) != len(h):
                return False
            for e in m.entries:
                if e.cond is not None or isinstance(e.key, Sym):
                    return False
                try:
                    if e.key not in h:
                        return False
                except TypeError:
                    return False
                if not eq(e.val, h[e.key]):
                    return False
            return True
        if t is list:
            return isinstance(m, PyList) and len(m.items) == len(h) and all(eq(x, y) for x, y in zip(m.items, h))
        if t is set:
            return isinstance(m, PySet) and len(m.items) == len(h) and \
                all(not isinstance(x, Sym) and x in h for x in m.items)
        if isinstance(m, Sym):
            return False
        if t is tuple:
            return m is h or (type(m) is tuple and len(m) == len(h) and all(eq(x, y) for x, y in zip(m, h)))
        if m is h:
            return True
        rec = I.imports.get(id(h))
        if rec is not None:
            return rec[1] is m
        return type(m) is t and t in PLAIN and m == h

    bad = []
    for n, v in conts:
        rec = I.imports.get(id(v))
        if rec is not None and rec[0] is v and not eq(rec[1], v):
            bad.append(n)
    for c, k, v in attrs:
        if (c, k) in patched:
            continue
        new = I.native_attrs.get((id(c), k), v)
        if new is not v and not eq(new, v):
            bad.append('%s.%s' % (c.__name__, k))
    return bad
