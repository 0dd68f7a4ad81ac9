"""Value domain of the dv verification-condition generator.

Concrete Python scalars are represented by themselves.  Symbolic scalars are
``Sym`` (a z3 term plus a kind).  Mutable Python containers and instances are
represented by the Py* classes below so that every path of an exploration owns
its own heap.
"""
import z3

# JSON-ish value of unknown type
_J = z3.Datatype('JVal')
_J.declare('jabsent')
_J.declare('jnone')
_J.declare('jbool', ('b', z3.BoolSort()))
_J.declare('jint', ('i', z3.IntSort()))
_J.declare('jstr', ('s', z3.StringSort()))
_J.declare('jlist', ('lid', z3.IntSort()))
_J.declare('jdict', ('did', z3.IntSort()))
JVal = _J.create()

STR = z3.StringSort()
INT = z3.IntSort()
BOOL = z3.BoolSort()


class Sym:
    """Symbolic scalar. kind: str | bytes | int | bool | val"""
    __slots__ = ('kind', 'e', 'meta')

    def __init__(self, kind, e, meta=None):
        self.kind = kind
        self.e = e
        self.meta = meta

    def __repr__(self):
        return 'Sym(%s,%s)' % (self.kind, self.e)

    # safety net: a host-level use of a symbolic value is an engine error
    def __bool__(self):
        raise EngineError('host truth test of symbolic value')

    def __hash__(self):
        return id(self)

    def __eq__(self, other):
        return self is other


class EngineError(Exception):
    pass


class Unsupported(Exception):
    """The code left the supported subset: the path is undecided."""


class PathLimit(Exception):
    pass


class InfeasiblePath(Exception):
    """assume(False)"""


class PyRaise(Exception):
    """An interpreted exception; .exc is a PyObj whose cls is the real class."""

    def __init__(self, exc):
        Exception.__init__(self)
        self.exc = exc


class DictEntry:
    __slots__ = ('key', 'val', 'cond')

    def __init__(self, key, val, cond=None):
        self.key = key
        self.val = val
        self.cond = cond  # None: present; else z3 Bool: present iff cond


# containers and objects made while the body of a loop is tried (see seqs.py), or None
BORN = [None]


def born(o):
    if BORN[0] is not None:
        BORN[0][id(o)] = o


class PyDict:
    """Insertion ordered dictionary with pairwise different keys.

    base: None for a closed dictionary; for an open one a function
    key-term -> (value, presence condition) describing the arbitrary initial
    content; entries already looked up are materialised.
    """
    __slots__ = ('entries', 'base', 'memo', 'cls', 'readonly')

    def __init__(self, entries=None, base=None, cls=dict):
        self.entries = entries if entries is not None else []
        self.base = base
        self.memo = []  # materialised base entries: (key, val, cond)
        self.cls = cls
        self.readonly = False
        born(self)


class PyList:
    __slots__ = ('items', 'cls')

    def __init__(self, items=None, cls=list):
        self.items = items if items is not None else []
        self.cls = cls
        born(self)


class DictView:
    __slots__ = ('d', 'what')

    def __init__(self, d, what):
        self.d = d
        self.what = what


class PySet:
    __slots__ = ('items', 'cls')

    def __init__(self, items=None, cls=set):
        self.items = items if items is not None else []
        self.cls = cls
        born(self)


class PyObj:
    __slots__ = ('cls', 'attrs', 'tag')

    def __init__(self, cls, attrs=None):
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}
        self.tag = None
        born(self)

    def __repr__(self):
        return '<PyObj %s %s>' % (self.cls.__name__, list(self.attrs))


class PyFunc:
    """Closure created by interpreted code."""
    __slots__ = ('node', 'frame', 'globals', 'defaults', 'kwdefaults', 'name', 'cells', 'attrs')

    def __init__(self, node, frame, globs, defaults, kwdefaults, name):
        self.node = node
        self.frame = frame
        self.globals = globs
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.name = name
        self.attrs = {}


class BoundMethod:
    __slots__ = ('func', 'self')

    def __init__(self, func, self_):
        self.func = func
        self.self = self_


class BuiltinMethod:
    """A method of a modelled builtin value."""
    __slots__ = ('obj', 'name')

    def __init__(self, obj, name):
        self.obj = obj
        self.name = name


class PyIter:
    """Eager iterator with a position."""
    __slots__ = ('items', 'pos')

    def __init__(self, items):
        self.items = list(items)
        self.pos = 0


class SuperProxy:
    __slots__ = ('obj', 'cls', 'start')

    def __init__(self, cls, obj, start):
        self.cls = cls      # type whose MRO is searched
        self.obj = obj
        self.start = start  # search after this class


class Partial:
    __slots__ = ('func', 'args', 'kwargs')

    def __init__(self, func, args, kwargs):
        self.func = func
        self.args = args
        self.kwargs = kwargs


def is_sym(v):
    return isinstance(v, Sym)


HEAP = (PyDict, PyList, PySet, PyObj, PyIter)


def has_sym(v, depth=0):
    """Does this value contain a symbolic part (or a model-heap part)?"""
    if isinstance(v, Sym):
        return True
    if depth > 20:
        return True
    if isinstance(v, tuple):
        return any(has_sym(x, depth + 1) for x in v)
    if isinstance(v, PyDict):
        return v.base is not None or any(
            e.cond is not None or has_sym(e.key, depth + 1) or has_sym(e.val, depth + 1)
            for e in v.entries)
    if isinstance(v, (PyList, PySet)):
        if type(v.items).__name__ == 'Segs':
            return True
        return any(has_sym(x, depth + 1) for x in v.items)
    if isinstance(v, (PyObj, PyFunc, BoundMethod, BuiltinMethod, PyIter, SuperProxy, Partial, DictView)):
        return True
    return False


def to_host(v):
    """Convert a fully concrete model value to a host Python value."""
    if isinstance(v, tuple):
        return tuple(to_host(x) for x in v)
    if isinstance(v, PyDict):
        return {to_host(e.key): to_host(e.val) for e in v.entries}
    if isinstance(v, PyList):
        return [to_host(x) for x in v.items]
    if isinstance(v, PySet):
        return v.cls(to_host(x) for x in v.items)
    if isinstance(v, (Sym, PyObj, PyFunc, BoundMethod, BuiltinMethod)):
        raise EngineError('to_host of %r' % (v,))
    return v


def from_host(v):
    """Fresh model copy of a host container."""
    if isinstance(v, dict):
        return PyDict([DictEntry(from_host(k), from_host(x)) for k, x in v.items()])
    if isinstance(v, list):
        return PyList([from_host(x) for x in v])
    if isinstance(v, (set, frozenset)):
        return PySet([from_host(x) for x in sorted(v, key=repr)], cls=type(v))
    if type(v) is tuple:
        return tuple(from_host(x) for x in v)
    return v
