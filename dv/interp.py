"""Symbolic interpreter for the real Python source.

Functions are located through the imported code objects; their text is parsed
from the file on disk on every run and interpreted statement by statement.
Nothing is hand translated.  What has no semantics here raises Unsupported and
the path counts as undecided, never as proved.
"""
import re
import ast
import builtins
import functools
import inspect
import sys
import types

import z3

from .path import Path, zstr
from .values import *
from . import seqs

sys.setrecursionlimit(60000)

_FILES = {}
ALNUM = re.compile('[a-zA-Z0-9]*')
_ASSIGNED = {}


class FileIndex:
    def __init__(self, filename):
        with open(filename) as f:
            self.text = f.read()
        self.tree = ast.parse(self.text, filename)
        self.by_line = {}
        for node in ast.walk(self.tree):
            if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                line = node.lineno
                if not isinstance(node, ast.Lambda) and node.decorator_list:
                    line = min(line, min(d.lineno for d in node.decorator_list))
                self.by_line.setdefault(line, []).append(node)


def find_node(code):
    fi = _FILES.get(code.co_filename)
    if fi is None:
        try:
            fi = FileIndex(code.co_filename)
        except OSError:
            raise Unsupported('no source for %s' % code.co_name)
        _FILES[code.co_filename] = fi
    cands = fi.by_line.get(code.co_firstlineno, [])
    name = code.co_name
    res = []
    for n in cands:
        if isinstance(n, ast.Lambda):
            if name == '<lambda>':
                res.append(n)
        elif n.name == name:
            res.append(n)
    if not res:
        raise Unsupported('no source node for %s' % code.co_name)
    if len(res) > 1:
        vs = code.co_varnames[:code.co_argcount]
        res2 = [n for n in res if tuple(a.arg for a in n.args.posonlyargs + n.args.args) == vs]
        if len(res2) != 1:
            raise Unsupported('ambiguous lambda')
        res = res2
    return res[0]


def assigned_names(node):
    key = id(node)
    r = _ASSIGNED.get(key)
    if r is not None:
        return r[0]
    names, glob, nonl = set(), set(), set()

    def tgt(t):
        if isinstance(t, ast.Name):
            names.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                tgt(x)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name)
            for d in n.decorator_list:
                visit(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for sub in ast.walk(n):
                if isinstance(sub, ast.NamedExpr):
                    tgt(sub.target)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split('.')[0])
        elif isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            names.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            names.add(n.rest)
        for c in ast.iter_child_nodes(n):
            visit(c)

    body = node.body if isinstance(node.body, list) else [node.body]
    for s in body:
        visit(s)
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        names.add(x.arg)
    if a.vararg:
        names.add(a.vararg.arg)
    if a.kwarg:
        names.add(a.kwarg.arg)
    names -= glob
    names -= nonl
    is_gen = False
    stack = list(body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            is_gen = True
            break
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    _ASSIGNED[key] = ((names, glob, nonl, is_gen), node)
    return _ASSIGNED[key][0]


class Frame:
    __slots__ = ('vars', 'parent', 'globals', 'cells', 'locals', 'glob', 'nonl', 'name', 'yields',
                 'cls_cell', 'self_val', 'comp', 'cur_exc')

    def __init__(self, parent, globs, cells, info, name):
        self.vars = {}
        self.parent = parent
        self.globals = globs
        self.cells = cells
        if info:
            self.locals, self.glob, self.nonl = info[0], info[1], info[2]
        else:
            self.locals, self.glob, self.nonl = frozenset(), frozenset(), frozenset()
        self.name = name
        self.yields = None
        self.self_val = None
        self.comp = False
        self.cur_exc = None


MISSING = object()
_KEYS, _VALUES, _ITEMS = type({}.keys()), type({}.values()), type({}.items())
BREAK = ('break',)
CONTINUE = ('continue',)

INLINE_PREFIXES = ['oidcrp', 'oidcmsg', 'contracts', '_collections_abc', 'dvstub', 'cryptojwt.jws.utils', 'cryptojwt.jwt', 'cryptojwt.jwe.utils']
NATIVE_OK = set()
RND_CONTRACTS = []    # callables whose contract is used at call sites and proved on its own
MODELS = {}           # id(callable) -> (callable, fn)
METHOD_MODELS = {}    # (class, name) -> fn   for instances of non-inlined classes
CLASS_MODELS = {}     # class -> fn(interp,args,kw)


def model(*callables):
    def deco(fn):
        for c in callables:
            MODELS[id(c)] = (c, fn)
        return fn
    return deco


def inlinable_module(name):
    return any(name == p or name.startswith(p + '.') for p in INLINE_PREFIXES)


class Interp:
    def __init__(self, path):
        self.p = path
        self.imports = {}        # id(host container) -> (host, model)
        self.native_attrs = {}   # (id(obj), name) -> value
        self.native_keep = []
        self.overrides = {}      # id(callable) -> harness function (stub / summary)
        self.depth = 0
        self.S = None
        self.now = None
        self.first_now = None        # the time at the start, when the clock has moved on
        self.call_stack = []
        self.global_overlay = {}
        self.watch = None        # ids of the containers and objects whose changes are recorded
        self.writes = []
        self.undo = None         # the state of what is changed in the body of a loop that is only tried
        self.seq_bases = []
        self.cur_frame = None

    def save(self, obj):
        if self.undo is not None and id(obj) not in self.undo:
            self.undo[id(obj)] = (obj, seqs.snapshot(obj))

    def wrote(self, obj, key=None):
        self.save(obj)
        if self.watch is not None and id(obj) in self.watch:
            self.writes.append((obj, key))

    # ------------------------------------------------------------ utilities
    def decide(self, c):
        return self.p.decide(c)

    def raise_(self, cls, *args):
        raise PyRaise(self.make_exc(cls, *args))

    def make_exc(self, cls, *args):
        return PyObj(cls, {'args': tuple(args)})

    def fresh(self, kind, base, meta=None):
        n = '$' + self.p.fresh_name(base)
        if kind in ('str', 'bytes'):
            e = z3.Const(n, STR)
        elif kind == 'int':
            e = z3.Const(n, INT)
        elif kind == 'bool':
            e = z3.Const(n, BOOL)
        elif kind == 'val':
            e = z3.Const(n, JVal)
        else:
            raise EngineError(kind)
        return Sym(kind, e, meta)

    def load(self, v):
        """Bring a host value read from native state into the model heap."""
        t = type(v)
        if t in (dict, list, set):
            k = id(v)
            m = self.imports.get(k)
            if m is not None:
                return m[1]
            if t is dict:
                m = PyDict()
                self.imports[k] = (v, m)
                for kk, vv in v.items():
                    m.entries.append(DictEntry(self.load(kk), self.load(vv)))
            elif t is list:
                m = PyList()
                self.imports[k] = (v, m)
                m.items.extend(self.load(x) for x in v)
            else:
                m = PySet()
                self.imports[k] = (v, m)
                m.items.extend(sorted(v, key=repr))
            return m
        if t is tuple:
            if any(type(x) in (dict, list, set, tuple) for x in v):
                k = id(v)
                m = self.imports.get(k)
                if m is not None:
                    return m[1]
                r = tuple(self.load(x) for x in v)
                self.imports[k] = (v, r)
                return r
            return v
        if t is types.MappingProxyType:
            raise Unsupported('mappingproxy')
        if self.is_model_class(t) and not isinstance(v, type):
            # instance of an inlined class living in native state (module global)
            k = id(v)
            m = self.imports.get(k)
            if m is not None:
                return m[1]
            if isinstance(v, BaseException):
                return v
            o = PyObj(t)
            self.imports[k] = (v, o)
            d = getattr(v, '__dict__', None)
            if d is None:
                return v
            for kk, vv in d.items():
                o.attrs[kk] = self.load(vv)
            return o
        return v

    def is_model_class(self, cls):
        return inlinable_module(getattr(cls, '__module__', '') or '')

    def pytype(self, v):
        if isinstance(v, Sym):
            if v.kind == 'val':
                return self.pytype(self.refine(v))
            return {'str': str, 'bytes': bytes, 'int': int, 'bool': bool}[v.kind]
        if isinstance(v, PyDict):
            return v.cls
        if isinstance(v, PyList):
            return v.cls
        if isinstance(v, PySet):
            return v.cls
        if isinstance(v, PyObj):
            return v.cls
        if isinstance(v, (PyFunc,)):
            return types.FunctionType
        if isinstance(v, BoundMethod):
            return types.MethodType
        if isinstance(v, BuiltinMethod):
            return types.BuiltinMethodType
        if isinstance(v, PyIter):
            return types.GeneratorType
        if isinstance(v, Partial):
            return functools.partial
        if isinstance(v, OpaqueColl):
            return v.cls
        if isinstance(v, DictView):
            return {'keys': _KEYS, 'values': _VALUES, 'items': _ITEMS}[v.what]
        return type(v)

    def refine(self, v):
        """Resolve the type tag of a 'val'."""
        if not (isinstance(v, Sym) and v.kind == 'val'):
            return v
        if v.meta is not None and isinstance(v.meta, tuple) and v.meta[0] == 'refined':
            return v.meta[1]
        e = v.e
        if self.decide(JVal.is_jstr(e)):
            r = Sym('str', z3.simplify(JVal.s(e)))
        elif self.decide(JVal.is_jnone(e)):
            r = None
        elif self.decide(JVal.is_jbool(e)):
            r = Sym('bool', z3.simplify(JVal.b(e)))
        elif self.decide(JVal.is_jint(e)):
            r = Sym('int', z3.simplify(JVal.i(e)))
        elif self.decide(JVal.is_jlist(e)):
            r = PyList(cls=list)
            r = OpaqueColl(list, e)
        elif self.decide(JVal.is_jdict(e)):
            r = OpaqueColl(dict, e)
        else:
            raise InfeasiblePath()
        self.save(v)
        v.meta = ('refined', r)
        return r

    # ------------------------------------------------------------ truth / eq
    def truth(self, v):
        """host bool or z3 Bool"""
        if isinstance(v, Sym):
            if v.kind == 'bool':
                return v.e
            if v.kind == 'int':
                return v.e != 0
            if v.kind in ('str', 'bytes'):
                return v.e != zstr('')
            return self.truth(self.refine(v))
        if v is None or isinstance(v, (bool, int, float, str, bytes, tuple)):
            return bool(v)
        if isinstance(v, PyDict):
            if v.base is not None:
                raise Unsupported('truth of open dict')
            if any(e.cond is None for e in v.entries):
                return True
            if not v.entries:
                return False
            return z3.Or([e.cond for e in v.entries])
        if isinstance(v, (PyList, PySet)):
            if isinstance(v.items, seqs.Segs):
                return v.items.nonempty(self)
            return bool(v.items)
        if isinstance(v, OpaqueColl):
            raise Unsupported('truth of opaque collection')
        if isinstance(v, DictView):
            return self.truth(v.d)
        if isinstance(v, PyObj):
            f = self.class_attr(v.cls, '__bool__')
            if f is not MISSING:
                return self.truth(self.call(BoundMethod(f, v), []))
            f = self.class_attr(v.cls, '__len__')
            if f is not MISSING:
                return self.truth(self.call(BoundMethod(f, v), []))
            return True
        if isinstance(v, (PyFunc, BoundMethod, BuiltinMethod, PyIter, Partial, SuperProxy)):
            return True
        return bool(v)

    def istrue(self, v):
        return self.decide(self.truth(v))

    def fresh_excludes(self, e, part):
        """e is a random value of letters and digits, part a literal with another character"""
        if e.num_args() or not z3.is_string_value(part):
            return False
        b = self.p.rnd_birth.get(e.decl().name())
        return b is not None and b[1] and not ALNUM.fullmatch(part.as_string())

    def differs_by_freshness(self, r, other):
        """r is a random value and other something that was there before it was drawn"""
        birth = self.p.rnd_birth
        if r.e.num_args() or r.e.decl().name() not in birth:
            return False
        mine, alnum = birth[r.e.decl().name()]
        if isinstance(other, (str, bytes)):
            return True
        if not isinstance(other, Sym) or other.kind not in ('str', 'bytes'):
            return False
        name = r.e.decl().name()
        todo, seen = [other.e], 0
        while todo:
            e = todo.pop()
            seen += 1
            if seen > 60:
                return False
            if e.num_args():
                todo.extend(e.children())
                continue
            if z3.is_string_value(e) or z3.is_int_value(e):
                continue
            n = e.decl().name()
            if n == name:
                # part of a longer text?
                o = other.e
                if o.num_args() and o.decl().kind() == z3.Z3_OP_SEQ_CONCAT and any(
                        z3.is_string_value(c) and c.as_string() for c in o.children()) and any(
                        c.eq(r.e) for c in o.children()):
                    return True
                return False
            if n in birth:
                continue
            if not any(inp[0] == n for inp in self.p.inputs[:mine]):
                break
        else:
            return True
        e = other.e
        if alnum and e.num_args() and e.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            for part in e.children():
                if z3.is_string_value(part) and not ALNUM.fullmatch(part.as_string()):
                    return True
        return False

    def eq(self, a, b):
        if a is b:
            return True
        sa, sb = isinstance(a, Sym), isinstance(b, Sym)
        if sa or sb:
            if not sa:
                a, b = b, a
                sa, sb = sb, sa
            # a symbolic
            if a.kind == 'val':
                if sb and b.kind == 'val':
                    return a.e == b.e
                e = a.e
                if a.meta is not None and a.meta[0] == 'refined':
                    return self.eq(a.meta[1], b)
                if isinstance(b, str) or (sb and b.kind == 'str'):
                    return z3.And(JVal.is_jstr(e), JVal.s(e) == self.zs(b))
                if b is None:
                    return JVal.is_jnone(e)
                if isinstance(b, bool) or (sb and b.kind == 'bool'):
                    bb = b.e if sb else z3.BoolVal(b)
                    return z3.Or(z3.And(JVal.is_jbool(e), JVal.b(e) == bb),
                                 z3.And(JVal.is_jint(e), JVal.i(e) == z3.If(bb, 1, 0)))
                if isinstance(b, int) or (sb and b.kind == 'int'):
                    bb = b.e if sb else z3.IntVal(b)
                    return z3.Or(z3.And(JVal.is_jint(e), JVal.i(e) == bb),
                                 z3.And(JVal.is_jbool(e), z3.If(JVal.b(e), 1, 0) == bb))
                return self.eq(self.refine(a), b)
            if sb and b.kind == 'val':
                return self.eq(b, a)
            if a.kind in ('str', 'bytes'):
                t = str if a.kind == 'str' else bytes
                if self.p.rnd_birth and (self.differs_by_freshness(a, b) or
                                         (sb and self.differs_by_freshness(b, a))):
                    return False
                if sb:
                    if a.kind != b.kind:
                        return False
                    from . import models
                    r = models.struct_eq(self, a, b)
                    if r is not None:
                        return r
                    if a.e.get_id() > b.e.get_id():
                        a, b = b, a
                    return a.e == b.e
                if isinstance(b, t):
                    c = a.e == self.zs(b)
                    if self.p.rnd_birth and a.e.num_args():
                        # a text around a random value: does it come down to the random value being a literal?
                        c = z3.simplify(c)
                        for d in (c.children() if z3.is_and(c) else [c]):
                            if z3.is_eq(d) and any(z3.is_string_value(y) and not x.num_args() and
                                                   x.decl().name() in self.p.rnd_birth
                                                   for x, y in (d.children(), d.children()[::-1])):
                                return False
                    return c
                return False
            if a.kind == 'int':
                if sb:
                    if b.kind == 'int':
                        return a.e == b.e
                    if b.kind == 'bool':
                        return a.e == z3.If(b.e, 1, 0)
                    return False
                if isinstance(b, int):
                    return a.e == int(b)
                if isinstance(b, float):
                    return z3.ToReal(a.e) == z3.RealVal(repr(b))
                return False
            if a.kind == 'bool':
                if sb:
                    if b.kind == 'bool':
                        return a.e == b.e
                    return False
                if isinstance(b, int):
                    if b == 1:
                        return a.e
                    if b == 0:
                        return z3.Not(a.e)
                return False
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return self.conj(self.eq(x, y) for x, y in zip(a, b))
        if isinstance(a, (PyList, PySet)) and isinstance(b, (PyList, PySet)) and \
                isinstance(a.items, seqs.Segs) and a.items is b.items:
            return True
        if isinstance(a, PyList) and isinstance(b, PyList):
            for x, y in ((a, b), (b, a)):
                if isinstance(x.items, seqs.Segs) and not isinstance(y.items, seqs.Segs) and not y.items:
                    n = x.items.nonempty(self)
                    return z3.Not(n)
                if isinstance(x.items, seqs.Segs) and not isinstance(y.items, seqs.Segs) and len(y.items) == 1:
                    return x.items.is_list(self, y.items[0])
            if len(a.items) != len(b.items):
                return False
            return self.conj(self.eq(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, PyDict) and isinstance(b, PyDict):
            return self.dict_eq(a, b)
        if isinstance(a, PySet) and isinstance(b, PySet):
            return self.conj(self.contains(b, x) for x in a.items) is True and \
                self.conj(self.contains(a, x) for x in b.items) is True \
                if not (has_sym(a) or has_sym(b)) else \
                self.conj([self.conj(self.contains(b, x) for x in a.items),
                           self.conj(self.contains(a, x) for x in b.items)])
        if isinstance(a, DictView) or isinstance(b, DictView):
            va, vb = [x.what in ('keys', 'items') if isinstance(x, DictView) else isinstance(x, PySet) for x in (a, b)]
            if not (va and vb):
                return False
            a, b = [PySet(self.iterate(x)) if isinstance(x, DictView) else x for x in (a, b)]
            return self.eq(a, b)
        if isinstance(a, OpaqueColl) or isinstance(b, OpaqueColl):
            if isinstance(a, OpaqueColl) and isinstance(b, OpaqueColl):
                return a.e == b.e
            ta, tb = self.pytype(a), self.pytype(b)
            if ta is not tb:
                return False
            raise Unsupported('equality with an opaque collection')
        for x, y in ((a, b), (b, a)):
            if isinstance(x, PyObj):
                f = self.class_attr(x.cls, '__eq__')
                if f is not MISSING and isinstance(f, types.FunctionType):
                    r = self.call(BoundMethod(f, x), [y])
                    if r is NotImplemented:
                        continue
                    return self.truth(r)
        if isinstance(a, HEAP) or isinstance(b, HEAP):
            return a is b
        if isinstance(a, BoundMethod) and isinstance(b, BoundMethod):
            return a.self is b.self and a.func is b.func
        try:
            return bool(a == b)
        except Exception:
            return a is b

    def conj(self, it):
        out = []
        for c in it:
            if c is False:
                return False
            if c is True:
                continue
            out.append(c)
        if not out:
            return True
        return out[0] if len(out) == 1 else z3.And(out)

    def disj(self, it):
        out = []
        for c in it:
            if c is True:
                return True
            if c is False:
                continue
            out.append(c)
        if not out:
            return False
        return out[0] if len(out) == 1 else z3.Or(out)

    def dict_eq(self, a, b):
        if a.base is not None or b.base is not None:
            raise Unsupported('equality of open dicts')
        ea = self.entries(a)
        eb = self.entries(b)
        if len(ea) != len(eb):
            return False
        res = []
        for e in ea:
            f = self.find(b, e.key)
            if f is None:
                return False
            res.append(self.eq(e.val, f.val))
        return self.conj(res)

    def zs(self, v):
        if isinstance(v, Sym):
            if v.kind in ('str', 'bytes'):
                return v.e
            raise EngineError('zs %r' % v)
        if isinstance(v, bytes):
            return zstr(v.decode('latin-1'))
        return zstr(v)

    def zi(self, v):
        if isinstance(v, Sym):
            if v.kind == 'int':
                return v.e
            if v.kind == 'bool':
                return z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
            raise EngineError('zi')
        return z3.IntVal(int(v))

    def mkstr(self, e, kind='str'):
        e = z3.simplify(e)
        if z3.is_string_value(e):
            from .path import decode_z3_string
            s = decode_z3_string(e)
            return s if kind == 'str' else s.encode('latin-1')
        return Sym(kind, e)

    def mkint(self, e):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        return Sym('int', e)

    def mkbool(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return Sym('bool', c)

    # ------------------------------------------------------------ dict ops
    def entries(self, d):
        """resolved entries (forks on presence)"""
        if d.base is not None:
            raise Unsupported('iteration over an open dict')
        for e in list(d.entries):
            if e.cond is not None:
                self.save(d)
                if self.decide(e.cond):
                    e.cond = None
                else:
                    d.entries.remove(e)
        return list(d.entries)

    def hashable(self, key):
        if isinstance(key, (PyDict, PyList, PySet)) or isinstance(key, OpaqueColl):
            self.raise_(TypeError, "unhashable type: '%s'" % self.pytype(key).__name__)
        if isinstance(key, tuple):
            for k in key:
                self.hashable(k)
        if isinstance(key, Sym) and key.kind == 'val':
            key = self.refine(key)
            return self.hashable(key)
        return key

    def find(self, d, key):
        key = self.hashable(key)
        if not isinstance(key, (Sym, tuple, PyObj)):
            # fast path for concrete keys: exact match first
            symkeys = False
            for e in d.entries:
                k = e.key
                if isinstance(k, (Sym, tuple)):
                    symkeys = True
                elif type(k) is type(key) and k == key:
                    return self.resolve_entry(d, e)
            if not symkeys and d.base is None and isinstance(key, str):
                return None
        for e in list(d.entries):
            c = self.eq(e.key, key)
            if c is False:
                continue
            if c is True or self.decide(c):
                return self.resolve_entry(d, e)
        if d.base is not None:
            for (k, val, cond) in d.memo:
                c = self.eq(k, key)
                if c is True or (c is not False and self.decide(c)):
                    return None      # was materialised and is gone
            return self.materialise(d, key)
        return None

    def resolve_entry(self, d, e):
        if e.cond is not None:
            self.save(d)
            if self.decide(e.cond):
                e.cond = None
            else:
                d.entries.remove(e)
                return None
        return e

    def materialise(self, d, key):
        if not (isinstance(key, str) or (isinstance(key, Sym) and key.kind == 'str')):
            return None
        val, cond = d.base(self, key)
        self.save(d)
        d.memo.append((key, val, cond))
        if cond is True or self.decide(cond):
            e = DictEntry(key, val)
            d.entries.append(e)
            return e
        return None

    def dict_get(self, d, key, default=None):
        e = self.find(d, key)
        return default if e is None else e.val

    def dict_getitem(self, d, key):
        e = self.find(d, key)
        if e is None:
            self.raise_(KeyError, key)
        return e.val

    def dict_set(self, d, key, val):
        key = self.hashable(key)
        self.wrote(d, key)
        if d.base is not None:
            # a store needs no case split on the previous presence of the key
            for e in list(d.entries):
                c = self.eq(e.key, key)
                if c is not False and (c is True or self.decide(c)):
                    e.val, e.cond = val, None
                    return
            if not any(c is True or (c is not False and self.decide(c))
                       for c in (self.eq(k, key) for (k, _, _) in d.memo)):
                v0, c0 = d.base(self, key)
                d.memo.append((key, v0, c0))
            d.entries.append(DictEntry(key, val))
            return
        e = self.find(d, key)
        if e is not None:
            e.val = val
        else:
            d.entries.append(DictEntry(key if not (isinstance(key, Sym) and key.kind == 'val')
                                       else self.refine(key), val))

    def dict_del(self, d, key):
        e = self.find(d, key)
        if e is None:
            self.raise_(KeyError, key)
        self.wrote(d, key)
        d.entries.remove(e)
        if d.base is not None and not any(m[0] is e.key for m in d.memo):
            d.memo.append((e.key, None, False))

    def dict_copy(self, d, cls=dict):
        n = PyDict([DictEntry(e.key, e.val, e.cond) for e in d.entries], d.base, cls)
        n.memo = list(d.memo)
        return n

    def dict_update(self, d, other):
        if isinstance(other, PyDict):
            self.save(d)
            if other.base is not None:
                if not d.entries and d.base is None:
                    c = self.dict_copy(other)
                    d.entries, d.base, d.memo = c.entries, c.base, c.memo
                    return
                raise Unsupported('update from open dict')
            for e in list(other.entries):
                if e.cond is not None:
                    # keep the presence condition when the key is provably new
                    if not d.entries and d.base is None or (
                            d.base is None and all(isinstance(x.key, str) and isinstance(e.key, str)
                                                   and x.key != e.key for x in d.entries)):
                        d.entries.append(DictEntry(e.key, e.val, e.cond))
                        continue
                    if not self.decide(e.cond):
                        continue
                self.dict_set(d, e.key, e.val)
            return
        if self.is_mapping(other):
            for k in self.iterate(self.call_method(other, 'keys')):
                self.dict_set(d, k, self.getitem(other, k))
            return
        for pair in self.iterate(other):
            k, v = self.iterate(pair)
            self.dict_set(d, k, v)

    def is_mapping(self, v):
        if isinstance(v, PyDict):
            return True
        if isinstance(v, OpaqueColl):
            return v.cls is dict
        if isinstance(v, PyObj):
            return self.class_attr(v.cls, 'keys') is not MISSING
        return hasattr(v, 'keys') and not isinstance(v, type)

    # ------------------------------------------------------------ iteration
    def iterate(self, v):
        """host list of elements"""
        if isinstance(v, (PyList, PySet)):
            return list(v.items)
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, PyDict):
            return [e.key for e in self.entries(v)]
        if isinstance(v, DictView):
            es = self.entries(v.d)
            return [e.key if v.what == 'keys' else e.val if v.what == 'values' else (e.key, e.val)
                    for e in es]
        if isinstance(v, str):
            return list(v)
        if isinstance(v, bytes):
            return list(v)
        if isinstance(v, PyIter):
            if isinstance(v.items, seqs.Segs):
                raise Unsupported('list of unknown length')
            r = v.items[v.pos:]
            v.pos = len(v.items)
            return r
        if isinstance(v, range):
            return list(v)
        if isinstance(v, Sym):
            if v.kind == 'val':
                return self.iterate(self.refine(v))
            if v.kind in ('int', 'bool'):
                self.raise_(TypeError, "'%s' object is not iterable" % v.kind)
            raise Unsupported('iteration over symbolic %s' % v.kind)
        if isinstance(v, PyObj):
            f = self.class_attr(v.cls, '__iter__')
            if f is not MISSING:
                return self.iterate(self.call(BoundMethod(f, v), []))
            self.raise_(TypeError, "'%s' object is not iterable" % v.cls.__name__)
        if v is None or isinstance(v, (int, float, bool)):
            self.raise_(TypeError, "'%s' object is not iterable" % type(v).__name__)
        if isinstance(v, OpaqueColl):
            raise Unsupported('iteration over opaque collection')
        if isinstance(v, (types.FunctionType, PyFunc)):
            self.raise_(TypeError, 'not iterable')
        try:
            return [self.load(x) for x in v]
        except TypeError as e:
            self.raise_(TypeError, *e.args)

    def contains(self, container, item):
        """host bool or z3 Bool: item in container"""
        if isinstance(container, Sym) and container.kind == 'val':
            container = self.refine(container)
        if isinstance(container, PyDict):
            return self.find(container, item) is not None
        if isinstance(container, DictView):
            if container.what == 'keys':
                return self.find(container.d, item) is not None
            return self.disj(self.eq(x, item) for x in self.iterate(container))
        if seqs.is_seq(container):
            t = seqs.text_of(self, item)
            if t is None:
                if has_sym(item):
                    raise Unsupported('membership in a list of unknown length')
                return False
            return container.items.member(self, t)
        if isinstance(container, (PyList, PySet, tuple)):
            items = container if isinstance(container, tuple) else container.items
            return self.disj(self.eq(x, item) for x in items)
        if isinstance(container, PyIter):
            return self.disj(self.eq(x, item) for x in self.iterate(container))
        if isinstance(item, Sym) and item.kind == 'val':
            item = self.refine(item)
        if isinstance(container, (str, bytes)) or isinstance(container, Sym):
            ck = self.pytype(container)
            if ck in (int, bool):
                self.raise_(TypeError, "argument of type '%s' is not iterable" % ck.__name__)
            if self.pytype(item) is not ck:
                self.raise_(TypeError, "'in <string>' requires string as left operand, not %s" %
                            self.pytype(item).__name__)
            if isinstance(container, Sym) or isinstance(item, Sym):
                if self.fresh_excludes(self.zs(container), self.zs(item)):
                    return False
                return z3.Contains(self.zs(container), self.zs(item))
            return item in container
        if isinstance(container, PyObj):
            f = self.class_attr(container.cls, '__contains__')
            if f is not MISSING:
                return self.truth(self.call(BoundMethod(f, container), [item]))
            return self.disj(self.eq(x, item) for x in self.iterate(container))
        if container is None or isinstance(container, (int, bool, float)):
            self.raise_(TypeError, "argument of type '%s' is not iterable" %
                        type(container).__name__)
        if isinstance(container, OpaqueColl):
            raise Unsupported('membership in opaque collection')
        if has_sym(item):
            return self.disj(self.eq(x, item) for x in self.iterate(container))
        return item in container

    # ------------------------------------------------------------ attributes
    def class_attr(self, cls, name, after=None):
        mro = cls.__mro__
        started = after is None
        for c in mro:
            if not started:
                if c is after:
                    started = True
                continue
            ov = self.native_attrs.get((id(c), name), MISSING)
            if ov is not MISSING:
                return ov
            if name in c.__dict__:
                return c.__dict__[name]
        return MISSING

    def getattr(self, obj, name, default=MISSING):
        if isinstance(obj, Sym):
            if obj.kind == 'val':
                return self.getattr(self.refine(obj), name, default)
            t = self.pytype(obj)
            if hasattr(t, name):
                return BuiltinMethod(obj, name)
            return self.no_attr(obj, name, default)
        if isinstance(obj, PyObj):
            return self.obj_getattr(obj, name, default)
        if isinstance(obj, (PyDict, PyList, PySet, PyIter, OpaqueColl, DictView, str, bytes, tuple)) \
                or type(obj) in (int, float, bool):
            if name == '__class__':
                return self.pytype(obj)
            if isinstance(obj, tuple) and hasattr(obj, '_fields') and name not in obj._fields \
                    and has_sym(obj) and not name.startswith('_'):
                raise Unsupported('%s.%s of a symbolic value' % (type(obj).__name__, name))
            if isinstance(obj, tuple) and type(obj) is not tuple and hasattr(obj, name) \
                    and not callable(getattr(obj, name)):
                return self.load(getattr(obj, name))
            if hasattr(self.pytype(obj), name):
                return BuiltinMethod(obj, name)
            return self.no_attr(obj, name, default)
        if isinstance(obj, SuperProxy):
            v = self.class_attr(obj.cls, name, after=obj.start)
            if v is MISSING:
                return self.no_attr(obj, name, default)
            return self.bind(v, obj.obj, obj.cls)
        if isinstance(obj, BoundMethod):
            if name == '__self__':
                return obj.self
            if name == '__func__':
                return obj.func
            return self.getattr(obj.func, name, default)
        if isinstance(obj, PyFunc):
            if name in obj.attrs:
                return obj.attrs[name]
            if name in ('__name__', '__qualname__'):
                return obj.name
            return self.no_attr(obj, name, default)
        if isinstance(obj, BuiltinMethod):
            if name == '__name__':
                return obj.name
            return self.no_attr(obj, name, default)
        if isinstance(obj, type):
            ov = MISSING
            for c in obj.__mro__:
                ov = self.native_attrs.get((id(c), name), MISSING)
                if ov is not MISSING or name in c.__dict__:
                    break
            if ov is not MISSING:
                return ov
            v = self.class_attr(obj, name)
            if v is not MISSING and isinstance(v, (classmethod,)):
                return BoundMethod(v.__func__, obj)
            if v is not MISSING and isinstance(v, staticmethod):
                return v.__func__
            try:
                return self.load(getattr(obj, name))
            except AttributeError:
                return self.no_attr(obj, name, default)
        # native object / module
        ov = self.native_attrs.get((id(obj), name), MISSING)
        if ov is not MISSING:
            return ov
        try:
            v = getattr(obj, name)
        except AttributeError:
            return self.no_attr(obj, name, default)
        return self.load(v)

    def no_attr(self, obj, name, default):
        if default is not MISSING:
            return default
        self.raise_(AttributeError, "'%s' object has no attribute '%s'" %
                    (self.pytype(obj).__name__, name))

    def obj_getattr(self, obj, name, default=MISSING):
        if name == '__class__':
            return obj.cls
        if name == '__dict__':
            return PyDict([DictEntry(k, v) for k, v in obj.attrs.items()])
        cv = self.class_attr(obj.cls, name)
        if isinstance(cv, property):
            return self.call(cv.fget, [obj])
        if name in obj.attrs:
            return obj.attrs[name]
        if cv is not MISSING:
            return self.bind(cv, obj, obj.cls)
        ga = self.class_attr(obj.cls, '__getattr__')
        if ga is not MISSING:
            try:
                return self.call(BoundMethod(ga, obj), [name])
            except PyRaise as e:
                if default is not MISSING and issubclass(e.exc.cls, AttributeError):
                    return default
                raise
        return self.no_attr(obj, name, default)

    def bind(self, cv, obj, cls):
        if isinstance(cv, (types.FunctionType, PyFunc)):
            return BoundMethod(cv, obj)
        if isinstance(cv, staticmethod):
            return cv.__func__
        if isinstance(cv, classmethod):
            return BoundMethod(cv.__func__, cls)
        if isinstance(cv, property):
            return self.call(cv.fget, [obj])
        if isinstance(cv, (types.WrapperDescriptorType, types.MethodDescriptorType,
                           types.BuiltinFunctionType)) or \
                isinstance(cv, types.ClassMethodDescriptorType):
            return BoundMethod(cv, obj)
        if isinstance(cv, types.GetSetDescriptorType):
            raise Unsupported('getset descriptor %s' % cv.__name__)
        return self.load(cv)

    def setattr(self, obj, name, val):
        if isinstance(obj, PyObj):
            cv = self.class_attr(obj.cls, name)
            if isinstance(cv, property):
                if cv.fset is None:
                    self.raise_(AttributeError, "can't set attribute")
                self.call(cv.fset, [obj, val])
                return
            sa = self.class_attr(obj.cls, '__setattr__')
            if sa is not MISSING and isinstance(sa, types.FunctionType):
                self.call(BoundMethod(sa, obj), [name, val])
                return
            self.wrote(obj, name)
            obj.attrs[name] = val
            return
        if isinstance(obj, PyFunc):
            obj.attrs[name] = val
            return
        if isinstance(obj, (types.ModuleType, type)):
            self.native_keep.append(obj)
            self.native_attrs[(id(obj), name)] = val
            if isinstance(obj, types.ModuleType):
                self.global_overlay[(id(obj.__dict__), name)] = val
            return
        if isinstance(obj, (PyDict, PyList, PySet, str, bytes, int, float, tuple, Sym)) or obj is None:
            self.raise_(AttributeError, "'%s' object has no attribute '%s'" %
                        (self.pytype(obj).__name__, name))
        raise Unsupported('setattr on %r' % (type(obj),))

    def delattr(self, obj, name):
        if isinstance(obj, PyObj):
            if name in obj.attrs:
                self.wrote(obj, name)
                del obj.attrs[name]
                return
            self.raise_(AttributeError, name)
        raise Unsupported('delattr')

    def call_method(self, obj, name, *args, **kw):
        return self.call(self.getattr(obj, name), list(args), self.kwdict(kw))

    def kwdict(self, kw):
        return PyDict([DictEntry(k, v) for k, v in kw.items()])

    # ------------------------------------------------------------ calls
    def call(self, fn, args, kw=None):
        if kw is None:
            kw = PyDict()
        ov = self.overrides.get(id(fn))
        if ov is not None:
            return self.call(ov[1], args, kw)
        if isinstance(fn, BoundMethod):
            f = fn.func
            ov = self.overrides.get(id(f))
            if ov is not None:
                return self.call(ov[1], [fn.self] + args, kw)
            if isinstance(f, (types.WrapperDescriptorType, types.MethodDescriptorType)):
                return self.call_slot(f, fn.self, args, kw)
            if isinstance(f, types.ClassMethodDescriptorType):
                raise Unsupported('classmethod descriptor %s' % f.__name__)
            return self.call(f, [fn.self] + args, kw)
        if isinstance(fn, PyFunc):
            return self.call_pyfunc(fn, args, kw)
        if isinstance(fn, BuiltinMethod):
            from . import models
            return models.call_builtin_method(self, fn.obj, fn.name, args, kw)
        if isinstance(fn, Partial):
            k2 = self.dict_copy(fn.kwargs)
            self.dict_update(k2, kw)
            return self.call(fn.func, list(fn.args) + args, k2)
        m = MODELS.get(id(fn))
        if m is not None and m[0] is fn and not (getattr(self, 'own_proof', False) and id(fn) in RND_CONTRACTS):
            return m[1](self, args, kw)
        if isinstance(fn, types.FunctionType):
            return self.call_function(fn, args, kw)
        if isinstance(fn, type):
            return self.instantiate(fn, args, kw)
        if isinstance(fn, types.MethodType):
            s = fn.__self__
            if s is self.S or isinstance(s, seqs.Fields):
                from .sym import call_s
                return call_s(self, s, fn.__name__, args, kw)
            if isinstance(s, type):
                return self.call(fn.__func__, [s] + args, kw)
            ms = self.load(s)
            if isinstance(ms, PyObj):
                return self.call(fn.__func__, [ms] + args, kw)
            return self.call_native_method(s, fn.__func__.__name__, fn, args, kw)
        if isinstance(fn, (types.BuiltinMethodType, types.MethodWrapperType)):
            s = getattr(fn, '__self__', None)
            if s is not None and not isinstance(s, types.ModuleType):
                return self.call_native_method(s, fn.__name__, fn, args, kw)
            return self.call_native(fn, args, kw)
        if isinstance(fn, functools.partial):
            k2 = from_host(dict(fn.keywords))
            self.dict_update(k2, kw)
            return self.call(fn.func, [self.load(x) for x in fn.args] + args, k2)
        if isinstance(fn, functools._lru_cache_wrapper):
            return self.call(fn.__wrapped__, args, kw)
        if isinstance(fn, PyObj):
            f = self.class_attr(fn.cls, '__call__')
            if f is MISSING:
                self.raise_(TypeError, "'%s' object is not callable" % fn.cls.__name__)
            return self.call(BoundMethod(f, fn), args, kw)
        if isinstance(fn, Sym) and fn.kind == 'val':
            return self.call(self.refine(fn), args, kw)
        if fn is None or isinstance(fn, (str, int, float, bool, bytes, tuple, PyDict, PyList,
                                         PySet, Sym)):
            self.raise_(TypeError, "'%s' object is not callable" % self.pytype(fn).__name__)
        if isinstance(fn, types.WrapperDescriptorType) and args and isinstance(args[0], PyObj):
            return self.call_slot(fn, args[0], args[1:], kw)
        return self.call_native(fn, args, kw)

    def call_slot(self, f, obj, args, kw):
        name = f.__name__
        if isinstance(obj, PyObj):
            if name == '__init__':
                if issubclass(obj.cls, BaseException):
                    obj.attrs['args'] = tuple(args)
                return None
            if name == '__setattr__':
                obj.attrs[args[0]] = args[1]
                return None
            if name == '__str__' and issubclass(obj.cls, BaseException):
                return self.exc_str(obj)
            if name in ('__eq__',):
                return obj is args[0] or NotImplemented
            if name == '__ne__':
                return self.mkbool(self.neg(self.eq(obj, args[0])))
            if name in ('__repr__', '__str__'):
                return '<%s object>' % obj.cls.__name__
            if name == '__hash__':
                return id(obj)
            if name == 'with_traceback':
                return obj
            if name == '__init_subclass__':
                return None
        if isinstance(obj, type) and name == '__new__':
            return PyObj(obj)
        raise Unsupported('slot %s' % name)

    def neg(self, c):
        return (not c) if isinstance(c, bool) else z3.Not(c)

    def call_native_method(self, obj, name, fn, args, kw):
        import logging
        if isinstance(obj, (logging.Logger, logging.LoggerAdapter)):
            if name == 'isEnabledFor':
                return False
            return None
        mm = None
        for c in type(obj).__mro__:
            mm = METHOD_MODELS.get((c, name))
            if mm:
                break
        if mm:
            return mm(self, obj, args, kw)
        if type(obj) in (dict, list, set):
            return self.call(BuiltinMethod(self.load(obj), name), args, kw)
        return self.call_native(fn, args, kw)

    def call_native(self, fn, args, kw):
        from . import models
        if not models.native_allowed(fn):
            raise Unsupported('call of %s.%s' % (getattr(fn, '__module__', '?'),
                                                 getattr(fn, '__qualname__', repr(fn)[:80])))
        if any(has_sym(a) for a in args) or has_sym(kw):
            raise Unsupported('symbolic argument to native %s' %
                              getattr(fn, '__qualname__', repr(fn)[:80]))
        try:
            r = fn(*[to_host(a) for a in args], **to_host(kw))
        except Exception as e:
            raise PyRaise(PyObj(type(e), {'args': tuple(from_host(a) for a in e.args)}))
        return from_host(r) if type(r) in (dict, list, set, tuple, frozenset) else r

    def instantiate(self, cls, args, kw):
        from . import models
        m = CLASS_MODELS.get(cls)
        if m is not None:
            return m(self, args, kw)
        if issubclass(cls, BaseException):
            o = PyObj(cls, {'args': tuple(args)})
            init = self.class_attr(cls, '__init__')
            if isinstance(init, types.FunctionType):
                self.call(BoundMethod(init, o), args, kw)
            elif kw.entries and not isinstance(init, types.FunctionType):
                self.raise_(TypeError, '%s() takes no keyword arguments' % cls.__name__)
            return o
        if self.is_model_class(cls) or models.class_inline(cls):
            if issubclass(cls, (dict, list, set, str, tuple, int)):
                raise Unsupported('subclass of builtin %s' % cls.__name__)
            new = self.class_attr(cls, '__new__')
            o = PyObj(cls)
            if isinstance(new, (staticmethod, types.FunctionType)) and \
                    isinstance(getattr(new, '__func__', new), types.FunctionType):
                o = self.call(getattr(new, '__func__', new), [cls] + args, self.dict_copy(kw))
                if not (isinstance(o, PyObj) and issubclass(o.cls, cls)):
                    return o
            init = self.class_attr(cls, '__init__')
            if isinstance(init, (types.FunctionType, PyFunc)):
                self.call(BoundMethod(init, o), args, kw)
            elif args or kw.entries:
                self.raise_(TypeError, '%s() takes no arguments' % cls.__name__)
            return o
        return self.call_native(cls, args, kw)

    def call_function(self, fn, args, kw):
        from . import models
        mod = fn.__module__ or ''
        if not (inlinable_module(mod) or models.func_inline(fn)):
            return self.call_native(fn, args, kw)
        node = find_node(fn.__code__)
        cells = None
        if fn.__closure__:
            cells = dict(zip(fn.__code__.co_freevars, fn.__closure__))
        defaults = fn.__defaults__ or ()
        kwdefaults = fn.__kwdefaults__ or {}
        if mod.startswith('oidcrp'):
            self.p.functions.add('%s.%s' % (mod, fn.__qualname__))
        return self.run(node, None, fn.__globals__, cells, defaults, kwdefaults, args, kw,
                        fn.__qualname__)

    def call_pyfunc(self, fn, args, kw):
        return self.run(fn.node, fn.frame, fn.globals, None, fn.defaults, fn.kwdefaults, args, kw,
                        fn.name)

    def run(self, node, parent, globs, cells, defaults, kwdefaults, args, kw, name):
        info = assigned_names(node)
        fr = Frame(parent, globs, cells, info, name)
        self.bind_args(fr, node.args, defaults, kwdefaults, args, kw, name)
        self.depth += 1
        if self.depth > 400:
            raise Unsupported('recursion depth')
        self.call_stack.append(name)
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, fr)
            if info[3]:
                fr.yields = []
                self.block(node.body, fr)
                return PyIter(fr.yields)
            r = self.block(node.body, fr)
            if r is not None and r[0] == 'return':
                return r[1]
            return None
        finally:
            self.depth -= 1
            self.call_stack.pop()

    def bind_args(self, fr, a, defaults, kwdefaults, args, kw, name):
        pos = a.posonlyargs + a.args
        npos = len(pos)
        vs = fr.vars
        if pos and args:
            fr.self_val = args[0]
        rest = None
        n = min(len(args), npos)
        for i in range(n):
            vs[pos[i].arg] = args[i]
        if len(args) > npos:
            if a.vararg is None:
                self.raise_(TypeError, '%s() takes %d positional arguments but %d were given' %
                            (name, npos, len(args)))
            rest = tuple(args[npos:])
        if a.vararg is not None:
            vs[a.vararg.arg] = rest or ()
        kws = self.dict_copy(kw) if (kw.entries or kw.base is not None) else None
        nposonly = len(a.posonlyargs)
        nd = len(defaults)
        for i in range(npos):
            pn = pos[i].arg
            got = None
            if kws is not None and i >= nposonly:
                got = self.find(kws, pn)
            if got is not None:
                if i < n:
                    self.raise_(TypeError, "%s() got multiple values for argument '%s'" %
                                (name, pn))
                kws.entries.remove(got)
                vs[pn] = got.val
            elif i >= n:
                if i >= npos - nd:
                    d = defaults[i - (npos - nd)]
                    vs[pn] = self.load(d)
                else:
                    self.raise_(TypeError, "%s() missing 1 required positional argument: '%s'" %
                                (name, pn))
        for ka in a.kwonlyargs:
            got = self.find(kws, ka.arg) if kws is not None else None
            if got is not None:
                kws.entries.remove(got)
                vs[ka.arg] = got.val
            elif ka.arg in kwdefaults:
                vs[ka.arg] = self.load(kwdefaults[ka.arg])
            else:
                self.raise_(TypeError, "%s() missing keyword argument '%s'" % (name, ka.arg))
        if a.kwarg is not None:
            vs[a.kwarg.arg] = kws if kws is not None else PyDict()
        elif kws is not None:
            for e in self.entries(kws):
                self.raise_(TypeError, "%s() got an unexpected keyword argument '%s'" %
                            (name, e.key if isinstance(e.key, str) else '?'))

    # ------------------------------------------------------------ names
    def lookup(self, fr, name):
        f = fr
        first = True
        while f is not None:
            if name in f.vars:
                v = f.vars[name]
                if isinstance(v, seqs.Poison):
                    raise Unsupported('%s after a loop over a list of unknown length' % name)
                return v
            if name in f.locals and name not in f.glob:
                if first or not f.comp:
                    if f is fr and not f.comp:
                        self.raise_(UnboundLocalError,
                                    "cannot access local variable '%s'" % name)
            if f.cells and name in f.cells:
                return self.load(f.cells[name].cell_contents)
            if name in f.glob:
                break
            f = f.parent
            first = False
        g = fr.globals
        ov = self.global_overlay.get((id(g), name), MISSING)
        if ov is not MISSING:
            return ov
        if name in g:
            return self.load(g[name])
        if hasattr(builtins, name):
            return getattr(builtins, name)
        self.raise_(NameError, "name '%s' is not defined" % name)

    def store_name(self, fr, name, val):
        f = fr
        while f.comp:
            f = f.parent
        if name in f.glob:
            self.native_keep.append(f.globals)
            self.global_overlay[(id(f.globals), name)] = val
            return
        if name in f.nonl:
            if self.undo is not None:
                raise Unsupported('nonlocal in a loop over a list of unknown length')
            p = f.parent
            while p is not None:
                if name in p.vars or name in p.locals:
                    p.vars[name] = val
                    return
                p = p.parent
            raise Unsupported('nonlocal to native cell')
        f.vars[name] = val

    # ------------------------------------------------------------ statements
    def block(self, stmts, fr):
        for s in stmts:
            r = self.stmt(s, fr)
            if r is not None:
                return r
        return None

    def stmt(self, s, fr):
        self.p.steps += 1
        if self.p.steps > 400000:
            raise PathLimit('step budget')
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__)
        return m(s, fr)

    def s_Expr(self, s, fr):
        v = s.value
        if isinstance(v, ast.Constant):
            return None
        if isinstance(v, ast.Yield):
            self.do_yield(v, fr)
            return None
        self.ev(v, fr)
        return None

    def do_yield(self, v, fr):
        f = fr
        while f.comp:
            f = f.parent
        f.yields.append(None if v.value is None else self.ev(v.value, fr))
        return None

    def s_Pass(self, s, fr):
        return None

    def s_Global(self, s, fr):
        return None

    s_Nonlocal = s_Global

    def s_Return(self, s, fr):
        return ('return', None if s.value is None else self.ev(s.value, fr))

    def s_Break(self, s, fr):
        return BREAK

    def s_Continue(self, s, fr):
        return CONTINUE

    def s_If(self, s, fr):
        if self.cond(s.test, fr):
            return self.block(s.body, fr)
        return self.block(s.orelse, fr)

    def cond(self, test, fr):
        """branch on a test with short-circuit structure"""
        return self.istrue(self.ev(test, fr))

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(fr, t.id)
            self.store_name(fr, t.id, self.augop(s.op, cur, self.ev(s.value, fr)))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.augop(s.op, cur, self.ev(s.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            i = self.ev(t.slice, fr)
            cur = self.getitem(o, i)
            self.setitem(o, i, self.augop(s.op, cur, self.ev(s.value, fr)))
        else:
            raise Unsupported('augassign')

    def augop(self, op, a, b):
        if isinstance(op, ast.Add) and isinstance(a, PyList):
            self.wrote(a)
            a.items.extend(self.iterate(b))
            return a
        if isinstance(op, ast.BitOr) and isinstance(a, PyDict):
            self.dict_update(a, b)
            return a
        if isinstance(op, ast.BitOr) and isinstance(a, PySet):
            from . import models
            models.set_update(self, a, b)
            return a
        return self.binop(op, a, b)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            if fr.comp:
                fr.vars[t.id] = v
            else:
                self.store_name(fr, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            self.setitem(o, self.ev(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.iterate(v)
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(items) < len(t.elts) - 1:
                    self.raise_(ValueError, 'not enough values to unpack')
                for x, y in zip(t.elts[:i], items[:i]):
                    self.assign(x, y, fr)
                self.assign(t.elts[i].value, PyList(items[i:len(items) - after]), fr)
                for x, y in zip(t.elts[i + 1:], items[len(items) - after:]):
                    self.assign(x, y, fr)
            else:
                if len(items) < len(t.elts):
                    self.raise_(ValueError, 'not enough values to unpack (expected %d, got %d)' %
                                (len(t.elts), len(items)))
                if len(items) > len(t.elts):
                    self.raise_(ValueError, 'too many values to unpack (expected %d)' %
                                len(t.elts))
                for x, y in zip(t.elts, items):
                    self.assign(x, y, fr)
        else:
            raise Unsupported('assign target')

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                if t.id in fr.vars:
                    del fr.vars[t.id]
                else:
                    self.raise_(UnboundLocalError, t.id)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fr)
                self.delitem(o, self.ev(t.slice, fr))
            elif isinstance(t, ast.Attribute):
                self.delattr(self.ev(t.value, fr), t.attr)
            else:
                raise Unsupported('del')

    def s_For(self, s, fr):
        it = self.ev(s.iter, fr)
        if isinstance(it, (PyList, PySet)) and isinstance(it.items, seqs.Segs):
            names = seqs.stored_names(s.body + [s.target])

            def body(x):
                self.assign(s.target, x, fr)
                return self.block(s.body, fr)
            left, r = seqs.loop(self, it, body, lambda r: r is not None and r is not CONTINUE, fr, names)
            if left:
                return None if r is BREAK else r
            return self.block(s.orelse, fr)
        if isinstance(it, PyList):
            # live iteration as CPython does
            i = 0
            while i < len(it.items):
                self.assign(s.target, it.items[i], fr)
                i += 1
                r = self.block(s.body, fr)
                if r is BREAK:
                    return None
                if r is not None and r is not CONTINUE:
                    return r
            return self.block(s.orelse, fr)
        guard = None
        if isinstance(it, PyDict):
            guard = it
        elif isinstance(it, DictView):
            guard = it.d
        items = self.iterate(it)
        n0 = len(guard.entries) if guard is not None else 0
        for idx, x in enumerate(items):
            if guard is not None and len(guard.entries) != n0:
                self.raise_(RuntimeError, 'dictionary changed size during iteration')
            self.assign(s.target, x, fr)
            r = self.block(s.body, fr)
            if r is BREAK:
                return None
            if r is not None and r is not CONTINUE:
                return r
        if guard is not None and items and len(guard.entries) != n0:
            self.raise_(RuntimeError, 'dictionary changed size during iteration')
        return self.block(s.orelse, fr)

    def s_While(self, s, fr):
        n = 0
        while True:
            if not self.cond(s.test, fr):
                return self.block(s.orelse, fr)
            n += 1
            if n > 300:
                raise PathLimit('loop bound')
            r = self.block(s.body, fr)
            if r is BREAK:
                return None
            if r is not None and r is not CONTINUE:
                return r

    def s_Try(self, s, fr):
        r = None
        try:
            try:
                r = self.block(s.body, fr)
            except PyRaise as pr:
                h = self.match_handler(s.handlers, pr.exc, fr)
                if h is None:
                    raise
                if h.name:
                    self.store_name(fr, h.name, pr.exc)
                saved = fr.cur_exc
                fr.cur_exc = pr.exc
                try:
                    r = self.block(h.body, fr)
                finally:
                    fr.cur_exc = saved
                    if h.name:
                        fr.vars.pop(h.name, None)
            else:
                if r is None:
                    r = self.block(s.orelse, fr)
        except PyRaise:
            if s.finalbody:
                r2 = self.block(s.finalbody, fr)
                if r2 is not None:
                    return r2
            raise
        if s.finalbody:
            r2 = self.block(s.finalbody, fr)
            if r2 is not None:
                return r2
        return r

    def match_handler(self, handlers, exc, fr):
        for h in handlers:
            if h.type is None:
                return h
            t = self.ev(h.type, fr)
            ts = t if isinstance(t, tuple) else (t,)
            for c in ts:
                if not isinstance(c, type):
                    raise Unsupported('except clause')
                if issubclass(exc.cls, c):
                    return h
        return None

    def s_Raise(self, s, fr):
        if s.exc is None:
            f = fr
            while f is not None and f.cur_exc is None:
                f = f.parent
            if f is None:
                raise Unsupported('bare raise')
            raise PyRaise(f.cur_exc)
        v = self.ev(s.exc, fr)
        if isinstance(v, type) and issubclass(v, BaseException):
            v = self.instantiate(v, [], PyDict())
        if isinstance(v, BaseException):
            v = PyObj(type(v), {'args': tuple(v.args)})
        if not isinstance(v, PyObj) or not issubclass(v.cls, BaseException):
            self.raise_(TypeError, 'exceptions must derive from BaseException')
        if s.cause is not None:
            v.attrs['__cause__'] = self.ev(s.cause, fr)
        raise PyRaise(v)

    def s_Assert(self, s, fr):
        if not self.cond(s.test, fr):
            if s.msg is not None:
                self.raise_(AssertionError, self.ev(s.msg, fr))
            self.raise_(AssertionError)

    def s_With(self, s, fr):
        return self.with_items(s.items, s.body, fr)

    def with_items(self, items, body, fr):
        if not items:
            return self.block(body, fr)
        it = items[0]
        cm = self.ev(it.context_expr, fr)
        import contextlib
        if isinstance(cm, contextlib.suppress):
            try:
                return self.with_items(items[1:], body, fr)
            except PyRaise as e:
                if issubclass(e.exc.cls, cm._exceptions):
                    return None
                raise
        if not isinstance(cm, PyObj):
            raise Unsupported('with %s' % type(cm).__name__)
        v = self.call_method(cm, '__enter__')
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, fr)
        try:
            r = self.with_items(items[1:], body, fr)
        except PyRaise as e:
            sup = self.call_method(cm, '__exit__', e.exc.cls, e.exc, None)
            if self.istrue(sup):
                return None
            raise
        self.call_method(cm, '__exit__', None, None, None)
        return r

    def s_FunctionDef(self, s, fr):
        f = self.make_func(s, fr, s.name)
        for d in reversed(s.decorator_list):
            f = self.call(self.ev(d, fr), [f])
        self.store_name(fr, s.name, f)

    def make_func(self, node, fr, name):
        a = node.args
        defaults = tuple(self.ev(d, fr) for d in a.defaults)
        kwd = {k.arg: self.ev(d, fr) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        return PyFunc(node, fr, fr.globals, defaults, kwd, name)

    def s_Import(self, s, fr):
        import importlib
        for al in s.names:
            try:
                m = importlib.import_module(al.name)
            except ImportError as e:
                self.raise_(type(e), *e.args)
            if al.asname:
                self.store_name(fr, al.asname, m)
            else:
                self.store_name(fr, al.name.split('.')[0], sys.modules[al.name.split('.')[0]])

    def s_ImportFrom(self, s, fr):
        import importlib
        modname = s.module or ''
        if s.level:
            pkg = fr.globals.get('__package__') or ''
            modname = importlib.util.resolve_name('.' * s.level + modname, pkg)
        try:
            m = importlib.import_module(modname)
        except ImportError as e:
            self.raise_(type(e), *e.args)
        for al in s.names:
            if al.name == '*':
                raise Unsupported('import *')
            self.store_name(fr, al.asname or al.name, self.getattr(m, al.name))

    def s_Match(self, s, fr):
        v = self.ev(s.subject, fr)
        for c in s.cases:
            if self.match_pat(c.pattern, v, fr) and (c.guard is None or self.cond(c.guard, fr)):
                return self.block(c.body, fr)
        return None

    def match_pat(self, p, v, fr):
        if isinstance(p, ast.MatchValue):
            return self.decide(self.eq(v, self.ev(p.value, fr)))
        if isinstance(p, ast.MatchSingleton):
            return self.decide(self.is_(v, p.value))
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match_pat(p.pattern, v, fr):
                return False
            if p.name:
                self.store_name(fr, p.name, v)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match_pat(x, v, fr) for x in p.patterns)
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return self.decide(self.isinstance_(v, self.ev(p.cls, fr)))
        raise Unsupported('match pattern')

    # ------------------------------------------------------------ expressions
    def ev(self, e, fr):
        m = _EV.get(type(e))
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(self, e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.lookup(fr, e.id)

    def e_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr)

    def e_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        if isinstance(e.slice, ast.Slice):
            return self.slice(o, *[None if x is None else self.ev(x, fr)
                                   for x in (e.slice.lower, e.slice.upper, e.slice.step)])
        return self.getitem(o, self.ev(e.slice, fr))

    def e_Slice(self, e, fr):
        return slice(*[None if x is None else self.ev(x, fr) for x in (e.lower, e.upper, e.step)])

    def e_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def e_List(self, e, fr):
        return PyList(self.elts(e.elts, fr))

    def e_Set(self, e, fr):
        from . import models
        r = PySet()
        for x in self.elts(e.elts, fr):
            models.set_add(self, r, x)
        return r

    def elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.ev(x.value, fr)))
            else:
                out.append(self.ev(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = PyDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.dict_update(d, self.ev(v, fr))
            else:
                kk = self.ev(k, fr)
                self.dict_set(d, kk, self.ev(v, fr))
        return d

    def e_BoolOp(self, e, fr):
        is_and = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, fr)
            if i == len(e.values) - 1:
                return v
            # harness-style pure boolean terms are combined without a fork
            t = self.truth(v)
            if isinstance(t, bool):
                if t != is_and:
                    return v
                continue
            b = self.decide(t)
            if b != is_and:
                if isinstance(v, Sym) and v.kind == 'bool':
                    return b
                return v
        return v

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return self.mkbool(self.neg(self.truth(v)))
        if isinstance(v, Sym) and v.kind == 'val':
            v = self.refine(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, Sym):
                return self.mkint(-self.zi(v))
            return -v
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert) and not isinstance(v, Sym):
            return ~v
        raise Unsupported('unary')

    def e_BinOp(self, e, fr):
        return self.binop(e.op, self.ev(e.left, fr), self.ev(e.right, fr))

    def binop(self, op, a, b):
        from . import models
        return models.binop(self, op, a, b)

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        if len(e.ops) == 1:
            return self.mkbool(self.compare(e.ops[0], left, self.ev(e.comparators[0], fr)))
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(c, fr)
            r = self.compare(op, left, right)
            if i == len(e.ops) - 1:
                return self.mkbool(r)
            if not self.decide(r):
                return False
            left = right

    def compare(self, op, a, b):
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            return self.neg(self.eq(a, b))
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return self.neg(self.is_(a, b))
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return self.neg(self.contains(b, a))
        a, b = self.refine(a), self.refine(b)
        from . import models
        return models.order(self, op, a, b)

    def is_(self, a, b):
        if isinstance(a, Sym) and a.kind == 'val':
            if b is None:
                if a.meta is not None and a.meta[0] == 'refined':
                    return a.meta[1] is None
                return JVal.is_jnone(a.e)
            if isinstance(b, bool):
                return z3.And(JVal.is_jbool(a.e), JVal.b(a.e) == b)
            if isinstance(b, Sym) and b.kind == 'val':
                return a.e == b.e
            a = self.refine(a)
        elif isinstance(b, Sym) and b.kind == 'val':
            return self.is_(b, a)
        if isinstance(a, Sym) or isinstance(b, Sym):
            if isinstance(a, Sym) and a.kind == 'bool' or isinstance(b, Sym) and b.kind == 'bool':
                if self.pytype(a) is bool and self.pytype(b) is bool:
                    return self.eq(a, b)
                return False
            return a is b
        if isinstance(a, BoundMethod) or isinstance(b, BoundMethod):
            return a is b
        if isinstance(a, (str, bytes)) and isinstance(b, (str, bytes)):
            return a == b
        return a is b

    def isinstance_(self, v, cls):
        if isinstance(cls, types.UnionType):
            cls = cls.__args__
        if isinstance(cls, tuple):
            return self.disj([self.isinstance_(v, c) for c in cls])
        if isinstance(cls, PyObj):
            raise Unsupported('isinstance')
        if not isinstance(cls, type):
            try:
                isinstance(0, cls)
            except TypeError as ex:
                self.raise_(TypeError, *ex.args)
        t = self.pytype(v)
        try:
            return issubclass(t, cls)
        except TypeError:
            return isinstance(v, cls)

    def e_Call(self, e, fr):
        f = e.func
        if isinstance(f, ast.Name) and f.id == 'super' and not e.args:
            return self.zero_super(fr)
        if isinstance(f, ast.Name) and f.id == 'locals' and not e.args:
            return PyDict([DictEntry(k, v) for k, v in fr.vars.items()])
        fn = self.ev(f, fr)
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                args.extend(self.iterate(self.ev(x.value, fr)))
            else:
                args.append(self.ev(x, fr))
        kw = PyDict()
        for k in e.keywords:
            if k.arg is None:
                v = self.ev(k.value, fr)
                if isinstance(v, Sym):
                    v = self.refine(v)
                if not self.is_mapping(v):
                    self.raise_(TypeError, 'argument after ** must be a mapping')
                if kw.entries:
                    # duplicate keyword check
                    names = [x.key for x in kw.entries]
                    for n in names:
                        if isinstance(v, PyDict) and self.find(v, n) is not None:
                            self.raise_(TypeError,
                                        "got multiple values for keyword argument '%s'" % n)
                self.dict_update(kw, v)
            else:
                v = self.ev(k.value, fr)
                if kw.entries and self.find(kw, k.arg) is not None:
                    self.raise_(TypeError, "got multiple values for keyword argument '%s'" % k.arg)
                kw.entries.append(DictEntry(k.arg, v))
        return self.call(fn, args, kw)

    def zero_super(self, fr):
        f = fr
        while f is not None:
            if f.cells and '__class__' in f.cells:
                cls = f.cells['__class__'].cell_contents
                obj = f.self_val
                if isinstance(obj, type):
                    return SuperProxy(obj, obj, cls)
                return SuperProxy(self.pytype(obj), obj, cls)
            f = f.parent
        raise Unsupported('super() without class cell')

    def e_IfExp(self, e, fr):
        return self.ev(e.body if self.cond(e.test, fr) else e.orelse, fr)

    def e_Lambda(self, e, fr):
        return self.make_func(e, fr, '<lambda>')

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.store_name(fr, e.target.id, v)
        return v

    def e_JoinedStr(self, e, fr):
        from . import models
        out = ''
        for x in e.values:
            if isinstance(x, ast.Constant):
                p = x.value
            else:
                v = self.ev(x.value, fr)
                if x.conversion == ord('r'):
                    v = models.py_repr(self, v)
                elif x.conversion in (ord('s'), ord('a')):
                    v = models.py_str(self, v)
                spec = self.ev(x.format_spec, fr) if x.format_spec is not None else ''
                p = models.py_format(self, v, spec)
            out = models.str_concat(self, out, p)
        return out

    def e_FormattedValue(self, e, fr):
        raise Unsupported('formatted value')

    def uniform(self, e, fr):
        """[draw for _ in range(n)], n symbolic: the body is verified for an arbitrary iteration"""
        g = e.generators[0]
        if len(e.generators) != 1 or g.ifs or not isinstance(g.iter, ast.Call):
            return None
        if not (isinstance(g.iter.func, ast.Name) and g.iter.func.id == 'range' and len(g.iter.args) == 1):
            return None
        if self.ev(g.iter.func, fr) is not range:
            return None
        n = self.ev(g.iter.args[0], fr)
        if not isinstance(n, Sym) or n.kind != 'int':
            return None
        f = Frame(fr, fr.globals, None, None, fr.name)
        f.comp = True
        f.self_val = fr.self_val
        pos = self.p.pos
        self.assign(g.target, self.fresh('int', 'iteration'), f)
        v = self.ev(e.elt, f)
        if self.p.pos != pos or not (isinstance(v, Sym) and v.meta and v.meta[0] == 'rchar'):
            raise Unsupported('symbolic range')
        return Draws(n, v.meta)

    def e_ListComp(self, e, fr):
        u = self.uniform(e, fr)
        if u is not None:
            return u
        out = []
        r = PyList(out)

        def emit(f):
            self.save(r)
            out.append(self.ev(e.elt, f))
        self.comp(e.generators, fr, emit, r)
        return r

    def e_SetComp(self, e, fr):
        from . import models
        r = PySet()
        self.comp(e.generators, fr, lambda f: models.set_add(self, r, self.ev(e.elt, f)))
        return r

    def e_GeneratorExp(self, e, fr):
        u = self.uniform(e, fr)
        if u is not None:
            return u
        out = []
        r = PyList(out)

        def emit(f):
            self.save(r)
            out.append(self.ev(e.elt, f))
        self.comp(e.generators, fr, emit, r)
        it = PyIter([])
        it.items = r.items
        return it

    def e_DictComp(self, e, fr):
        d = PyDict()

        def add(f):
            k = self.ev(e.key, f)
            self.dict_set(d, k, self.ev(e.value, f))
        self.comp(e.generators, fr, add)
        return d

    def comp(self, gens, fr, emit, into=None):
        f = Frame(fr, fr.globals, None, None, fr.name)
        f.comp = True
        f.self_val = fr.self_val

        def rec(i):
            if i == len(gens):
                emit(f)
                return
            g = gens[i]
            it = self.ev(g.iter, f if i else fr)
            if into is not None and len(gens) == 1 and seqs.is_seq(it):
                if any(isinstance(y, ast.NamedExpr) for c in g.ifs for y in ast.walk(c)):
                    raise Unsupported('assignment in a comprehension over a list of unknown length')

                def body(x):
                    self.assign(g.target, x, f)
                    if all(self.cond(c, f) for c in g.ifs):
                        self.wrote(into)
                        emit(f)
                seqs.loop(self, it, body, lambda r: False, f)
                return
            for x in self.iterate(it):
                self.assign(g.target, x, f)
                ok = True
                for c in g.ifs:
                    if not self.cond(c, f):
                        ok = False
                        break
                if ok:
                    rec(i + 1)
        rec(0)

    def e_Starred(self, e, fr):
        raise Unsupported('starred')

    def e_Yield(self, e, fr):
        return self.do_yield(e, fr)

    def e_YieldFrom(self, e, fr):
        f = fr
        while f.comp:
            f = f.parent
        f.yields.extend(self.iterate(self.ev(e.value, fr)))
        return None

    # ------------------------------------------------------------ items
    def getitem(self, o, i):
        from . import models
        return models.getitem(self, o, i)

    def setitem(self, o, i, v):
        from . import models
        return models.setitem(self, o, i, v)

    def delitem(self, o, i):
        from . import models
        return models.delitem(self, o, i)

    def slice(self, o, lo, hi, step):
        from . import models
        return models.getslice(self, o, lo, hi, step)

    def exc_str(self, o):
        from . import models
        a = o.attrs.get('args', ())
        if len(a) == 0:
            return ''
        if len(a) == 1:
            if issubclass(o.cls, KeyError):
                return models.py_repr(self, a[0])
            return models.py_str(self, a[0])
        return models.py_repr(self, tuple(a))


class Draws:
    """n independent draws of one character"""
    __slots__ = ('n', 'meta')

    def __init__(self, n, meta):
        self.n = n
        self.meta = meta


class OpaqueColl:
    """list/dict of unknown content inside a 'val'"""
    __slots__ = ('cls', 'e')

    def __init__(self, cls, e):
        self.cls = cls
        self.e = e


_EV = {getattr(ast, n[2:]): getattr(Interp, n) for n in dir(Interp) if n.startswith('e_')}
