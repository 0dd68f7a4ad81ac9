"""Semantics of builtins and of the external functions the code relies on.

Everything in EXTERNAL below is an assumed contract on a dependency; the list
is copied into the evidence files (trusted_base).
"""
import ast
import base64
import binascii
import builtins
import copy
import functools
import hashlib
import hmac
import importlib
import itertools
import json
import logging
import operator
import os
import random
import re
import secrets
import string
import time
import types
import urllib.parse

import z3

from .interp import *
from .interp import CLASS_MODELS, Draws, INLINE_PREFIXES, METHOD_MODELS, MODELS, OpaqueColl, MISSING, RND_CONTRACTS, model
from .path import zstr
from .values import *
from . import seqs

EXTERNAL = {}


def external(name, text):
    def deco(fn):
        def wrapped(I, args, kw):
            I.p.assumed.add('%s: %s' % (name, text))
            return fn(I, args, kw)
        return wrapped
    return deco


# --------------------------------------------------------------------------
NATIVE_FUNCS = set()
NATIVE_MODULES = {'posixpath', 're', 'math', 'string', 'textwrap', 'struct', 'stringprep',
                  '_struct', 'operator', '_operator', 'unicodedata', 'ipaddress', 'html',
                  'datetime', 'uuid', 'decimal', 'fractions', 'keyword', 'email.message',
                  'urllib.parse', 'http.cookies', 'importlib', '_frozen_importlib', 'types', 'typing',
                  'functools', 'inspect', 'enum', 'collections', 'base64', 'binascii', 'hashlib',
                  '_hashlib', '_sha2', '_sha1', 'hmac', 'contextlib', 'cryptojwt.utils', 'abc',
                  'email.utils', 'numbers', 'dateutil'}


def native_allowed(fn):
    if id(fn) in NATIVE_FUNCS:
        return True
    mod = getattr(fn, '__module__', None)
    if mod is None:
        s = getattr(fn, '__self__', None)
        if s is not None and not isinstance(s, types.ModuleType):
            mod = type(s).__module__
            if mod == 'builtins':
                return True
        else:
            objclass = getattr(fn, '__objclass__', None)
            if objclass is not None:
                mod = objclass.__module__
    if mod == 'builtins':
        return getattr(fn, '__name__', '') in (
            'ord', 'chr', 'abs', 'round', 'hex', 'bin', 'oct', 'pow', 'divmod', 'float', 'complex',
            'frozenset', 'slice', 'bytearray', 'memoryview', 'ascii', 'object', 'property', 'fromkeys',
            'maketrans', 'fromhex')
    return mod in NATIVE_MODULES


def class_inline(cls):
    return False


def func_inline(fn):
    return False


# -------------------------------------------------------------------------- strings
def mk(I, e, kind='str', meta=None):
    r = I.mkstr(e, kind)
    if isinstance(r, Sym):
        r.meta = meta
    return r


def str_concat(I, a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        if isinstance(a, (str, bytes)) and not a:
            return b
        if isinstance(b, (str, bytes)) and not b:
            return a
        kind = a.kind if isinstance(a, Sym) else b.kind
        parts = tuple(parts_of(a)) + tuple(parts_of(b))
        # merge adjacent literals
        merged = []
        for p in parts:
            if merged and isinstance(p, (str, bytes)) and isinstance(merged[-1], (str, bytes)):
                merged[-1] = merged[-1] + p
            else:
                merged.append(p)
        return mk(I, z3.Concat(I.zs(a), I.zs(b)), kind, ('concat', tuple(merged)))
    return a + b


def parts_of(a):
    if isinstance(a, Sym) and a.meta is not None and a.meta[0] == 'concat':
        return a.meta[1]
    return (a,)


def deep_parts(I, v):
    """the pieces a text was put together from, also across encode and decode"""
    if not isinstance(v, Sym) or v.meta is None:
        return [v]
    if v.meta[0] == 'concat':
        return [q for p in v.meta[1] for q in deep_parts(I, p)]
    if v.meta[0] == 'utf8':
        inner = deep_parts(I, v.meta[1])
        if len(inner) > 1:
            return [utf8(I, p) for p in inner]
    elif v.meta[0] == 'utf8dec':
        inner = deep_parts(I, v.meta[1])
        if len(inner) > 1:
            return [utf8_decode(I, p) for p in inner]
    return [v]


ALPHABETS = {'b64': string.ascii_letters + string.digits + '+/=', 'b64url': string.ascii_letters + string.digits + '-_=',
             'b64e': string.ascii_letters + string.digits + '-_'}
for _n in ('md5', 'sha1', 'sha224', 'sha256', 'sha384', 'sha512'):
    ALPHABETS[_n + '_hex'] = string.hexdigits


def lacks(I, v, chars):
    """the symbolic text v is known to contain none of the characters"""
    e = v.e
    known = I.p.lacks.get(e.get_id())
    if known and all(c in known for c in chars):
        return True
    name = e.decl().name()
    if name in ALPHABETS:
        return not any(c in ALPHABETS[name] for c in chars)
    if name == 'if' and all(x.decl().kind() in (z3.Z3_OP_INT_TO_STR, z3.Z3_OP_SEQ_CONCAT) for x in e.children()[1:]) \
            and e.arg(1).decl().kind() == z3.Z3_OP_INT_TO_STR:
        return not any(c in '-0123456789' for c in chars)
    if e.decl().kind() == z3.Z3_OP_INT_TO_STR:
        return not any(c in '-0123456789' for c in chars)
    return all(I.fresh_excludes(e, zstr(c)) for c in chars)


def join_parts(I, parts, kind):
    out = '' if kind == 'str' else b''
    for p in parts:
        out = str_concat(I, out, p)
    return out


def same_piece(x, y):
    if isinstance(x, Sym) and isinstance(y, Sym):
        return x.kind == y.kind and x.e.eq(y.e)
    return not isinstance(x, Sym) and not isinstance(y, Sym) and x == y


def strip_common(A, B, right):
    """remove what both lists of pieces start (end) with; False when they differ there"""
    at = -1 if right else 0
    while A and B:
        x, y = A[at], B[at]
        if same_piece(x, y):
            A.pop(at), B.pop(at)
            continue
        if isinstance(x, Sym) or isinstance(y, Sym):
            break
        n = min(len(x), len(y))
        xs, ys = (x[-n:], y[-n:]) if right else (x[:n], y[:n])
        if xs != ys:
            return False
        for L, z in ((A, x), (B, y)):
            rest = z[:-n] if right else z[n:]
            if rest:
                L[at] = rest
            else:
                L.pop(at)
    return True


def border(I, A, c, right):
    """position (piece, offset) of the last (first) c, when that is known"""
    rng = range(len(A) - 1, -1, -1) if right else range(len(A))
    for i in rng:
        p = A[i]
        if isinstance(p, Sym):
            if not lacks(I, p, c if isinstance(c, str) else c.decode('latin-1')):
                return None
            continue
        k = p.rfind(c) if right else p.find(c)
        if k >= 0:
            return i, k
    return None


def eq_parts(I, A, B, kind):
    A, B = list(A), list(B)
    if not strip_common(A, B, False) or not strip_common(A, B, True):
        return False
    empty = '' if kind == 'str' else b''
    if not A and not B:
        return True
    if not A or not B:
        return I.conj([I.eq(p, empty) if isinstance(p, Sym) else p == empty for p in A + B])
    if len(A) > 1 and len(B) > 1:
        lits = lambda L: {p[i:i + 1] for p in L if not isinstance(p, Sym) for i in range(len(p))}
        common = lits(A) & lits(B)
        for right in (True, False):
            for c in sorted(common):
                x, y = border(I, A, c, right), border(I, B, c, right)
                if x is None or y is None:
                    continue

                def cut(L, at):
                    i, k = at
                    head = L[:i] + ([L[i][:k]] if L[i][:k] else [])
                    tail = ([L[i][k + 1:]] if L[i][k + 1:] else []) + L[i + 1:]
                    return head, tail
                (ah, at), (bh, bt) = cut(A, x), cut(B, y)
                return I.conj([eq_parts(I, at, bt, kind), eq_parts(I, ah, bh, kind)])
    if len(A) == 1 and len(B) == 1:
        return I.eq(A[0], B[0])
    x, y = join_parts(I, A, kind), join_parts(I, B, kind)
    if not isinstance(x, Sym) and not isinstance(y, Sym):
        return x == y
    x, y = I.zs(x), I.zs(y)
    return x == y if x.get_id() <= y.get_id() else y == x


INJ = {n + '_hex' for n in ('md5', 'sha1', 'sha224', 'sha256', 'sha384', 'sha512')} | \
    {'md5', 'sha1', 'sha224', 'sha256', 'sha384', 'sha512'}


def struct_eq(I, a, b):
    """equality of two texts by their structure, None when there is none"""
    sb = isinstance(b, Sym)
    if sb and a.meta and b.meta and a.meta[0] == b.meta[0] and a.meta[0] in INJ and len(a.meta) == 2:
        return I.eq(a.meta[1], b.meta[1])
    A, B = deep_parts(I, a), deep_parts(I, b)
    if len(A) > 1 and len(B) > 1:
        return eq_parts(I, A, B, a.kind)
    return None


def split_parts(I, s, sep, maxsplit, right):
    """split along the pieces of a concatenation; None when that does not decide it"""
    parts = deep_parts(I, s)
    if len(parts) < 2:
        return None
    chars = sep if isinstance(sep, str) else sep.decode('latin-1')
    empty = '' if isinstance(sep, str) else b''
    if right and maxsplit < 0:
        right = False
    out, cur, k = [], empty, 0
    todo = list(parts)
    done = False

    def put(a, b):
        return str_concat(I, b, a) if right else str_concat(I, a, b)
    while todo:
        p = todo.pop() if right else todo.pop(0)
        if done:
            cur = put(cur, p)
            continue
        if isinstance(p, Sym):
            if not lacks(I, p, chars):
                return None
            cur = put(cur, p)
            continue
        if len(sep) > 1 and todo:
            # a separator could straddle pieces if a piece in between were empty
            pass
        left = -1 if maxsplit < 0 else maxsplit - k
        pieces = p.rsplit(sep, left) if right else p.split(sep, left)
        if len(sep) > 1:
            # leftovers that start or end with a part of the separator, next to symbolic pieces
            edge = pieces[0] if right else pieces[-1]
            if edge and (edge[:1] in sep if right else edge[-1:] in sep) and todo:
                return None
        if right:
            pieces = pieces[::-1]
        cur = put(cur, pieces[0])
        for q in pieces[1:]:
            out.append(cur)
            cur = q
            k += 1
        if maxsplit >= 0 and k >= maxsplit:
            done = True
    out.append(cur)
    out = out[::-1] if right else out
    if right and maxsplit == 1 and len(out) == 2:
        # what is before and after the last separator is a function of the text
        e = I.zs(s)
        for name, q in (('before_last ', out[0]), ('after_last ', out[1])):
            fact(I, (name + chars, e.get_id()), uf(name + chars, STR, STR)(e) == I.zs(q))
    return out


def opaque_str(I, hint='txt'):
    I.p.notes.add('opaque text')
    return I.fresh('str', hint)


def digits_of_now(I):
    """str(now): a name of its own, defined by IntToStr; digits only"""
    if getattr(I, 'now_text', None) is None:
        t = I.fresh('str', 'now_text')
        I.p.assert_(t.e == z3.IntToStr(I.now.e))
        I.p.lacks.setdefault(t.e.get_id(), set()).update('|:.,&=/?#+-;_~@ ')
        I.now_text = t
    return I.now_text


def py_str(I, v):
    if isinstance(v, str):
        return v
    if isinstance(v, Sym):
        if v.kind == 'val':
            return py_str(I, I.refine(v))
        if v.kind == 'str':
            return v
        if v.kind == 'int':
            if I.now is not None and v.e.eq(I.now.e):
                return digits_of_now(I)
            return mk(I, z3.If(v.e >= 0, z3.IntToStr(v.e),
                               z3.Concat(zstr('-'), z3.IntToStr(-v.e))))
        if v.kind == 'bool':
            return mk(I, z3.If(v.e, zstr('True'), zstr('False')))
        return opaque_str(I, 'strbytes')
    if isinstance(v, PyObj):
        f = I.class_attr(v.cls, '__str__')
        if isinstance(f, types.FunctionType):
            return I.call(BoundMethod(f, v), [])
        if issubclass(v.cls, BaseException):
            return I.exc_str(v)
        f = I.class_attr(v.cls, '__repr__')
        if isinstance(f, types.FunctionType):
            return I.call(BoundMethod(f, v), [])
        return opaque_str(I, 'strobj')
    if isinstance(v, (PyFunc, BoundMethod, BuiltinMethod, PyIter, OpaqueColl)):
        return opaque_str(I, 'strobj')
    if has_sym(v):
        return py_repr(I, v)
    return str(to_host(v))


def py_repr(I, v):
    if isinstance(v, Sym):
        v = I.refine(v)
        if isinstance(v, Sym) and v.kind in ('int', 'bool'):
            return py_str(I, v)
        return opaque_str(I, 'repr')
    if isinstance(v, PyObj):
        f = I.class_attr(v.cls, '__repr__')
        if isinstance(f, types.FunctionType):
            return I.call(BoundMethod(f, v), [])
        return opaque_str(I, 'repr')
    if has_sym(v) or isinstance(v, OpaqueColl):
        return opaque_str(I, 'repr')
    return repr(to_host(v))


def py_format(I, v, spec):
    if isinstance(spec, Sym):
        raise Unsupported('symbolic format spec')
    if spec == '':
        return py_str(I, v)
    if has_sym(v):
        if isinstance(v, Sym):
            v = I.refine(v)
            if not has_sym(v):
                return format(v, spec)
            if spec == 's' and v.kind == 'str':
                return v
            if spec == 'd' and v.kind == 'int':
                return py_str(I, v)
        return opaque_str(I, 'fmt')
    try:
        return format(to_host(v), spec)
    except (ValueError, TypeError) as e:
        I.raise_(type(e), *e.args)


def percent_format(I, fmt, arg):
    if isinstance(fmt, Sym):
        raise Unsupported('symbolic % format')
    parts = re.split(r'(%(?:\([^)]*\))?[-#0 +]*\d*(?:\.\d+)?[a-zA-Z%])', fmt)
    out = ''
    args = list(arg) if isinstance(arg, tuple) else [arg]
    i = 0
    for j, p in enumerate(parts):
        if j % 2 == 0:
            out = str_concat(I, out, p)
            continue
        m = re.match(r'%(?:\(([^)]*)\))?([-#0 +]*\d*(?:\.\d+)?)([a-zA-Z%])', p)
        key, flags, conv = m.groups()
        if conv == '%':
            out = str_concat(I, out, '%')
            continue
        if key is not None:
            v = I.getitem(arg, key)
        else:
            if i >= len(args):
                I.raise_(TypeError, 'not enough arguments for format string')
            v = args[i]
            i += 1
        if conv == 's' and not flags:
            s = py_str(I, v)
        elif conv == 'r' and not flags:
            s = py_repr(I, v)
        elif has_sym(v):
            v2 = I.refine(v) if isinstance(v, Sym) else v
            if conv in 'di' and not flags and isinstance(v2, Sym) and v2.kind == 'int':
                s = py_str(I, v2)
            else:
                s = opaque_str(I, 'fmt')
        else:
            try:
                s = ('%' + flags + conv) % (to_host(v),)
            except (TypeError, ValueError) as e:
                I.raise_(type(e), *e.args)
        out = str_concat(I, out, s)
    if i < len(args) and not (len(args) == 1 and I.is_mapping(args[0])):
        I.raise_(TypeError, 'not all arguments converted during string formatting')
    return out


def str_format(I, fmt, args, kw):
    if isinstance(fmt, Sym):
        raise Unsupported('symbolic format')
    out = ''
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out = str_concat(I, out, lit)
        if field is None:
            continue
        m = re.match(r'^(\w*)(.*)$', field, re.S)
        name, rest = m.groups()
        if name == '':
            if auto >= len(args):
                I.raise_(IndexError, 'Replacement index %d out of range' % auto)
            v = args[auto]
            auto += 1
        elif name.isdigit():
            if int(name) >= len(args):
                I.raise_(IndexError, 'Replacement index %s out of range' % name)
            v = args[int(name)]
        else:
            v = I.dict_getitem(kw, name)
        while rest:
            mm = re.match(r'^\.(\w+)|^\[([^\]]*)\]', rest)
            if not mm:
                raise Unsupported('format field')
            if mm.group(1):
                v = I.getattr(v, mm.group(1))
            else:
                k = mm.group(2)
                v = I.getitem(v, int(k) if k.isdigit() else k)
            rest = rest[mm.end():]
        if conv == 'r':
            v = py_repr(I, v)
        elif conv == 's':
            v = py_str(I, v)
        if '{' in (spec or ''):
            raise Unsupported('nested format spec')
        out = str_concat(I, out, py_format(I, v, spec or ''))
    return out


# -------------------------------------------------------------------------- operators
_HOPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul,
         ast.Div: operator.truediv, ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod,
         ast.Pow: operator.pow, ast.BitOr: operator.or_, ast.BitAnd: operator.and_,
         ast.BitXor: operator.xor, ast.LShift: operator.lshift, ast.RShift: operator.rshift}


def binop(I, op, a, b):
    a = I.refine(a) if isinstance(a, Sym) else a
    b = I.refine(b) if isinstance(b, Sym) else b
    if isinstance(a, DictView):
        a = PySet(I.iterate(a))
    if isinstance(b, DictView):
        b = PySet(I.iterate(b))
    ta, tb = I.pytype(a), I.pytype(b)
    if isinstance(op, ast.Mod) and ta is str:
        return percent_format(I, a, b)
    if isinstance(op, ast.Add):
        if ta is tb and ta in (str, bytes):
            return str_concat(I, a, b)
        if isinstance(a, PyList) and isinstance(b, PyList):
            return PyList(a.items + b.items)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
    if isinstance(op, ast.Mult):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, PyList) and isinstance(y, int):
                return PyList(x.items * y)
    if isinstance(op, ast.BitOr):
        if isinstance(a, PyDict) and isinstance(b, PyDict):
            r = I.dict_copy(a)
            I.dict_update(r, b)
            return r
    if isinstance(a, PySet) and isinstance(b, PySet):
        if seqs.is_seq(a) and isinstance(op, (ast.BitAnd, ast.Sub)):
            return PySet(seqs.restricted(I, a, b, isinstance(op, ast.BitAnd)), a.cls)
        if isinstance(op, ast.BitOr):
            r = PySet(list(a.items), a.cls)
            set_update(I, r, b)
            return r
        if isinstance(op, ast.BitAnd):
            return PySet([x for x in a.items if I.decide(I.contains(b, x))], a.cls)
        if isinstance(op, ast.Sub):
            return PySet([x for x in a.items if not I.decide(I.contains(b, x))], a.cls)
    if isinstance(a, Sym) or isinstance(b, Sym):
        if ta in (int, bool) and tb in (int, bool):
            x, y = I.zi(a), I.zi(b)
            if isinstance(op, ast.Add):
                return I.mkint(x + y)
            if isinstance(op, ast.Sub):
                return I.mkint(x - y)
            if isinstance(op, ast.Mult):
                return I.mkint(x * y)
            if isinstance(op, (ast.FloorDiv, ast.Mod)) and isinstance(b, int) and b > 0:
                return I.mkint(x / y if isinstance(op, ast.FloorDiv) else x % y)
            raise Unsupported('symbolic int operator')
        if ta is float or tb is float:
            raise Unsupported('float arithmetic')
        I.raise_(TypeError, 'unsupported operand type(s)')
    for x, y, nm in ((a, b, '__%s__'), (b, a, '__r%s__')):
        if isinstance(x, PyObj):
            n = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.BitOr: 'or',
                 ast.BitAnd: 'and', ast.Mod: 'mod'}.get(type(op))
            if n:
                f = I.class_attr(x.cls, nm % n)
                if isinstance(f, types.FunctionType):
                    return I.call(BoundMethod(f, x), [y])
    if isinstance(a, HEAP) or isinstance(b, HEAP) or has_sym(a) or has_sym(b):
        if not (isinstance(a, PyObj) or isinstance(b, PyObj)):
            I.raise_(TypeError, 'unsupported operand type(s) for %s: %s and %s' %
                     (type(op).__name__, ta.__name__, tb.__name__))
        raise Unsupported('binop on objects')
    try:
        r = _HOPS[type(op)](a, b)
    except Exception as e:
        I.raise_(type(e), *e.args)
    return from_host(r) if type(r) in (dict, list, set) else r


def order(I, op, a, b):
    ta, tb = I.pytype(a), I.pytype(b)
    if isinstance(a, Sym) or isinstance(b, Sym):
        if ta in (int, bool) and tb in (int, bool):
            x, y = I.zi(a), I.zi(b)
        elif ta in (int, bool, float) and tb in (int, bool, float):
            x = z3.RealVal(repr(a)) if isinstance(a, float) else z3.ToReal(I.zi(a))
            y = z3.RealVal(repr(b)) if isinstance(b, float) else z3.ToReal(I.zi(b))
        elif ta is tb and ta in (str, bytes):
            x, y = I.zs(a), I.zs(b)
            if isinstance(op, ast.Lt):
                return z3.StrLT(x, y) if hasattr(z3, 'StrLT') else x < y
            if isinstance(op, ast.LtE):
                return x <= y
            if isinstance(op, ast.Gt):
                return y < x
            return y <= x
        else:
            I.raise_(TypeError, "'%s' not supported between instances of '%s' and '%s'" %
                     (type(op).__name__, ta.__name__, tb.__name__))
        if isinstance(op, ast.Lt):
            return x < y
        if isinstance(op, ast.LtE):
            return x <= y
        if isinstance(op, ast.Gt):
            return x > y
        return x >= y
    f = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}
    if isinstance(a, PySet) and isinstance(b, PySet):
        sub = I.conj(I.contains(b, x) for x in a.items)
        sup = I.conj(I.contains(a, x) for x in b.items)
        if isinstance(op, ast.LtE):
            return sub
        if isinstance(op, ast.GtE):
            return sup
        raise Unsupported('strict set order')
    if isinstance(a, (PyDict, PyObj)) or isinstance(b, (PyDict, PyObj)):
        I.raise_(TypeError, 'order not supported')
    if has_sym(a) or has_sym(b):
        raise Unsupported('order on symbolic containers')
    try:
        return bool(f[type(op)](to_host(a), to_host(b)))
    except TypeError as e:
        I.raise_(TypeError, *e.args)


# -------------------------------------------------------------------------- items
def getitem(I, o, i):
    if isinstance(o, Sym):
        o = I.refine(o)
    if isinstance(i, slice):
        return getslice(I, o, i.start, i.stop, i.step)
    if isinstance(o, PyDict):
        return I.dict_getitem(o, i)
    if isinstance(o, PyObj):
        f = I.class_attr(o.cls, '__getitem__')
        if f is MISSING:
            I.raise_(TypeError, "'%s' object is not subscriptable" % o.cls.__name__)
        return I.call(BoundMethod(f, o), [i])
    if isinstance(i, Sym):
        i = I.refine(i)
    if isinstance(o, (PyList, tuple)):
        if isinstance(i, bool):
            i = int(i)
        if seqs.is_seq(o) and i == 0 and not isinstance(i, Sym):
            x = o.items.one(I)
            if x is None:
                I.raise_(IndexError, 'list index out of range')
            return x
        items = o if isinstance(o, tuple) else o.items
        if isinstance(i, Sym) and i.kind == 'int':
            for k in range(-len(items), len(items)):
                if I.decide(i.e == k):
                    return items[k]
            I.raise_(IndexError, 'list index out of range')
        if not isinstance(i, int):
            I.raise_(TypeError, 'list indices must be integers or slices, not %s' %
                     I.pytype(i).__name__)
        try:
            return items[i]
        except IndexError:
            I.raise_(IndexError, 'list index out of range')
    if isinstance(o, Sym):
        if o.kind in ('str', 'bytes'):
            if I.pytype(i) not in (int, bool):
                I.raise_(TypeError, 'string indices must be integers')
            if i == 0 and o.kind == 'str':
                first = parts_of(o)[0]
                if isinstance(first, str):
                    return first[0]
                if first is not o and I.decide(z3.Length(first.e) > 0):
                    return getitem(I, first, 0)
            n = z3.Length(o.e)
            ii = I.zi(i)
            if not I.decide(z3.And(ii < n, ii >= -n)):
                I.raise_(IndexError, 'string index out of range')
            if o.kind == 'bytes':
                raise Unsupported('byte index')
            return mk(I, z3.SubString(o.e, z3.If(ii < 0, n + ii, ii), 1))
        I.raise_(TypeError, "'%s' object is not subscriptable" % o.kind)
    if isinstance(o, (str, bytes)):
        if isinstance(i, Sym):
            raise Unsupported('symbolic index')
        try:
            return o[i]
        except (IndexError, TypeError) as e:
            I.raise_(type(e), *e.args)
    if isinstance(o, OpaqueColl):
        raise Unsupported('item of opaque collection')
    if o is None or isinstance(o, (int, bool, float, PySet, PyFunc, BoundMethod, types.FunctionType)):
        I.raise_(TypeError, "'%s' object is not subscriptable" % I.pytype(o).__name__)
    if isinstance(o, type):
        return o
    if has_sym(i):
        if isinstance(i, Sym) and i.kind == 'str' and hasattr(o, 'keys'):
            raise Unsupported('symbolic key into native mapping')
        raise Unsupported('symbolic index into native')
    try:
        return I.load(o[to_host(i)])
    except Exception as e:
        I.raise_(type(e), *e.args)


def setitem(I, o, i, v):
    if isinstance(o, Sym):
        o = I.refine(o)
    if isinstance(o, PyDict):
        I.dict_set(o, i, v)
        return
    if isinstance(o, PyList):
        if isinstance(i, slice):
            if has_sym((i.start, i.stop, i.step)):
                raise Unsupported('symbolic slice')
            I.wrote(o)
            o.items[i] = I.iterate(v)
            return
        if isinstance(i, Sym):
            raise Unsupported('symbolic list index')
        I.wrote(o)
        try:
            o.items[i] = v
        except (IndexError, TypeError) as e:
            I.raise_(type(e), *e.args)
        return
    if isinstance(o, PyObj):
        f = I.class_attr(o.cls, '__setitem__')
        if f is MISSING:
            I.raise_(TypeError, "'%s' object does not support item assignment" % o.cls.__name__)
        I.call(BoundMethod(f, o), [i, v])
        return
    if isinstance(o, OpaqueColl):
        raise Unsupported('store into opaque collection')
    if o is None or isinstance(o, (str, int, bytes, tuple, Sym)):
        I.raise_(TypeError, "'%s' object does not support item assignment" % I.pytype(o).__name__)
    raise Unsupported('setitem on %s' % type(o).__name__)


def delitem(I, o, i):
    if isinstance(o, Sym):
        o = I.refine(o)
    if isinstance(o, PyDict):
        I.dict_del(o, i)
        return
    if isinstance(o, PyList):
        I.wrote(o)
        try:
            del o.items[i]
        except (IndexError, TypeError) as e:
            I.raise_(type(e), *e.args)
        return
    if isinstance(o, PyObj):
        f = I.class_attr(o.cls, '__delitem__')
        if f is MISSING:
            I.raise_(TypeError, "'%s' object doesn't support item deletion" % o.cls.__name__)
        I.call(BoundMethod(f, o), [i])
        return
    if o is None or isinstance(o, (str, int, bytes, tuple)):
        I.raise_(TypeError, "object doesn't support item deletion")
    raise Unsupported('delitem')


def getslice(I, o, lo, hi, step):
    if isinstance(o, Sym):
        o = I.refine(o)
    lo, hi, step = [I.refine(x) if isinstance(x, Sym) else x for x in (lo, hi, step)]
    if not isinstance(o, Sym) and not any(isinstance(x, Sym) for x in (lo, hi, step)):
        if isinstance(o, PyList):
            if seqs.is_seq(o) and lo is None and hi is None and step in (None, 1):
                return PyList(o.items)
            return PyList(o.items[lo:hi:step])
        if isinstance(o, (str, bytes, tuple)):
            try:
                return o[lo:hi:step]
            except TypeError as e:
                I.raise_(TypeError, *e.args)
        if o is None or isinstance(o, (int, PyDict, PySet)):
            I.raise_(TypeError, 'not subscriptable')
        raise Unsupported('slice of %s' % type(o).__name__)
    if I.pytype(o) not in (str, bytes) or step not in (None, 1):
        raise Unsupported('symbolic slice')
    if hi is None and not isinstance(lo, Sym) and lo is not None and lo >= 0:
        # what follows a known beginning
        parts = parts_of(o)
        if len(parts) > 1 and isinstance(parts[0], (str, bytes)) and len(parts[0]) >= lo:
            return join_parts(I, (parts[0][lo:],) + tuple(parts[1:]), 'str' if I.pytype(o) is str else 'bytes')
    e = I.zs(o)
    n = z3.Length(e)

    def norm(x, dflt):
        if x is None:
            return dflt
        z = I.zi(x)
        z = z3.If(z < 0, z + n, z)
        return z3.If(z < 0, 0, z3.If(z > n, n, z))
    a = norm(lo, z3.IntVal(0))
    b = norm(hi, n)
    return mk(I, z3.SubString(e, a, z3.If(b > a, b - a, 0)),
              'str' if I.pytype(o) is str else 'bytes')


# -------------------------------------------------------------------------- sets
def set_add(I, s, x):
    x = I.hashable(x)
    for y in s.items:
        c = I.eq(x, y)
        if c is False:
            continue
        if c is True or I.decide(c):
            return
    I.wrote(s)
    s.items.append(x)


def set_update(I, s, other):
    for x in I.iterate(other):
        set_add(I, s, x)


# -------------------------------------------------------------------------- methods
def nargs(I, args, kw, names, defaults=()):
    vals = list(args)
    kw = I.dict_copy(kw)
    for i, n in enumerate(names):
        if i < len(vals):
            continue
        e = I.find(kw, n)
        if e is not None:
            vals.append(e.val)
        else:
            j = i - (len(names) - len(defaults))
            if j < 0:
                I.raise_(TypeError, 'missing argument %s' % n)
            vals.append(defaults[j])
    return vals


def call_builtin_method(I, o, name, args, kw):
    if isinstance(o, OpaqueColl):
        raise Unsupported('method %s of opaque collection' % name)
    if isinstance(o, PyDict):
        return dict_method(I, o, name, args, kw)
    if isinstance(o, PyList):
        return list_method(I, o, name, args, kw)
    if isinstance(o, PySet):
        return set_method(I, o, name, args, kw)
    if isinstance(o, DictView):
        if name == '__iter__':
            return PyIter(I.iterate(o))
        if name == 'isdisjoint':
            return not any(I.decide(I.contains(o, x)) for x in I.iterate(args[0]))
        return set_method(I, PySet(I.iterate(o)), name, args, kw)
    if isinstance(o, PyIter):
        if name == '__next__':
            return m_next(I, [o], kw)
        raise Unsupported('iterator method')
    t = I.pytype(o)
    if t in (str, bytes):
        return str_method(I, o, name, args, kw)
    if isinstance(o, Sym):
        raise Unsupported('%s.%s' % (t.__name__, name))
    if isinstance(o, tuple):
        if name == 'index':
            for i, x in enumerate(o):
                if I.decide(I.eq(x, args[0])):
                    return i
            I.raise_(ValueError, 'tuple.index(x): x not in tuple')
        if name == 'count':
            return sum(1 for x in o if I.decide(I.eq(x, args[0])))
        if hasattr(o, name) and type(o) is not tuple:
            if any(has_sym(a) for a in args) or has_sym(o):
                raise Unsupported('namedtuple method %s' % name)
            return getattr(o, name)(*[to_host(a) for a in args], **to_host(kw))
    if has_sym(o) or any(has_sym(a) for a in args):
        raise Unsupported('method %s' % name)
    try:
        return getattr(o, name)(*[to_host(a) for a in args], **to_host(kw))
    except Exception as e:
        I.raise_(type(e), *e.args)


def dict_method(I, d, name, args, kw):
    if name == 'get':
        return I.dict_get(d, args[0], args[1] if len(args) > 1 else None)
    if name in ('keys', 'values', 'items'):
        return DictView(d, name)
    if name == 'copy':
        return I.dict_copy(d)
    if name == 'update':
        if args:
            I.dict_update(d, args[0])
        I.dict_update(d, kw)
        return None
    if name == 'pop':
        e = I.find(d, args[0])
        if e is None:
            if len(args) > 1:
                return args[1]
            if kw.entries:
                I.raise_(TypeError, 'pop() takes no keyword arguments')
            I.raise_(KeyError, args[0])
        v = e.val
        I.dict_del(d, args[0])
        return v
    if name == 'popitem':
        es = I.entries(d)
        if not es:
            I.raise_(KeyError, 'popitem(): dictionary is empty')
        I.wrote(d, es[-1].key)
        d.entries.remove(es[-1])
        return (es[-1].key, es[-1].val)
    if name == 'setdefault':
        e = I.find(d, args[0])
        if e is None:
            v = args[1] if len(args) > 1 else None
            I.dict_set(d, args[0], v)
            return v
        return e.val
    if name == 'clear':
        I.wrote(d)
        d.entries = []
        d.base = None
        return None
    if name == '__getitem__':
        return I.dict_getitem(d, args[0])
    if name == '__setitem__':
        return I.dict_set(d, args[0], args[1])
    if name == '__delitem__':
        return I.dict_del(d, args[0])
    if name == '__contains__':
        return I.find(d, args[0]) is not None
    if name == '__len__':
        return len(I.entries(d))
    if name == '__iter__':
        return PyIter([e.key for e in I.entries(d)])
    raise Unsupported('dict.%s' % name)


def list_method(I, l, name, args, kw):
    if name in ('append', 'extend', 'insert', 'pop', 'remove', 'reverse', 'clear', 'sort'):
        I.wrote(l)
    if name == 'append':
        if seqs.is_seq(l):
            l.items = l.items.with_(I, args[0])
            return None
        l.items.append(args[0])
        return None
    if name == 'extend':
        l.items.extend(I.iterate(args[0]))
        return None
    if name == 'insert':
        l.items.insert(args[0], args[1])
        return None
    if name == 'pop':
        try:
            return l.items.pop(*args)
        except IndexError as e:
            I.raise_(IndexError, *e.args)
    if name == 'remove':
        for i, x in enumerate(l.items):
            if I.decide(I.eq(x, args[0])):
                del l.items[i]
                return None
        I.raise_(ValueError, 'list.remove(x): x not in list')
    if name == 'index':
        for i, x in enumerate(l.items):
            if I.decide(I.eq(x, args[0])):
                return i
        I.raise_(ValueError, 'is not in list')
    if name == 'count':
        return sum(1 for x in l.items if I.decide(I.eq(x, args[0])))
    if name == 'copy':
        return PyList(l.items if seqs.is_seq(l) else list(l.items))
    if name == 'reverse':
        l.items.reverse()
        return None
    if name == 'clear':
        l.items = []
        return None
    if name == 'sort':
        l.items = m_sorted(I, [l], kw).items
        return None
    if name == '__len__':
        return m_len(I, [l], PyDict())
    if name == '__iter__':
        return PyIter(l.items)
    if name == '__contains__':
        return I.mkbool(I.contains(l, args[0]))
    if name == '__getitem__':
        return getitem(I, l, args[0])
    # views returned as lists
    if name in ('isdisjoint',):
        return not any(I.decide(I.contains(l, x)) for x in I.iterate(args[0]))
    raise Unsupported('list.%s' % name)


def set_method(I, s, name, args, kw):
    if name == 'add':
        set_add(I, s, args[0])
        return None
    if name == 'update':
        for a in args:
            set_update(I, s, a)
        return None
    if name in ('discard', 'remove', 'clear', 'pop'):
        I.wrote(s)
    if name in ('discard', 'remove'):
        for i, x in enumerate(s.items):
            if I.decide(I.eq(x, args[0])):
                del s.items[i]
                return None
        if name == 'remove':
            I.raise_(KeyError, args[0])
        return None
    if name in ('union',):
        r = PySet(list(s.items), s.cls)
        for a in args:
            set_update(I, r, a)
        return r
    if name in ('intersection', 'difference'):
        o = args[0]
        keep = name == 'intersection'
        its = I.iterate(o) if not isinstance(o, (PyDict,)) else o
        its = PyList(its) if isinstance(its, list) else its
        return PySet([x for x in s.items if I.decide(I.contains(its, x)) == keep], s.cls)
    if name == 'issubset':
        o = PyList(I.iterate(args[0]))
        return I.mkbool(I.conj(I.contains(o, x) for x in s.items))
    if name == 'issuperset':
        return I.mkbool(I.conj(I.contains(s, x) for x in I.iterate(args[0])))
    if name == 'isdisjoint':
        return I.mkbool(I.neg(I.disj(I.contains(s, x) for x in I.iterate(args[0]))))
    if name == 'copy':
        return PySet(list(s.items), s.cls)
    if name == 'clear':
        s.items = []
        return None
    if name == 'pop':
        if not s.items:
            I.raise_(KeyError, 'pop from an empty set')
        raise Unsupported('set.pop')
    if name == '__len__':
        return len(s.items)
    if name == '__contains__':
        return I.mkbool(I.contains(s, args[0]))
    raise Unsupported('set.%s' % name)


_UF = {}


def uf(name, *sorts):
    k = (name, sorts)
    f = _UF.get(k)
    if f is None:
        f = _UF[k] = z3.Function(name, *sorts)
    return f


def fact(I, key, c):
    """assert an axiom instance once per path"""
    if key in I.p.facts_seen:
        return
    I.p.facts_seen.add(key)
    I.p.assert_(c)


def injective(I, name, v, outkind='str', nonempty=True, assume=None):
    """uninterpreted injective function with an inverse"""
    e = I.zs(v)
    f = uf(name, STR, STR)
    inv = uf(name + '_inv', STR, STR)
    r = f(e)
    fact(I, (name, str(e) if e.num_args() == 0 else e.get_id()), inv(r) == e)
    return Sym(outkind, r, (name, v))


def str_method(I, s, name, args, kw):
    kind = 'str' if I.pytype(s) is str else 'bytes'
    T = str if kind == 'str' else bytes
    args = [I.refine(a) if isinstance(a, Sym) else a for a in args]
    if name == 'format':
        return str_format(I, s, args, kw)
    if name == 'join':
        if isinstance(args[0], Draws):
            d = args[0]
            if s == '' and d.meta[1] == 'csprng' and I.decide(d.n.e >= 16):
                r = random_string(I, 'draws', None)
                r.meta = ('random', 'draws', d.n, d.meta[2])
            else:
                r = I.fresh('str', 'draws', ('draws', d.meta[1], d.n, d.meta[2] if s == '' else ''))
            if s == '':
                I.p.assert_(z3.Length(r.e) == z3.If(d.n.e >= 0, d.n.e, 0))
            return r
        items = I.iterate(args[0])
        out = T()
        for i, x in enumerate(items):
            if isinstance(x, Sym):
                x = I.refine(x)
            if I.pytype(x) is not T:
                I.raise_(TypeError, 'sequence item %d: expected str instance, %s found' %
                         (i, I.pytype(x).__name__))
            if i:
                out = str_concat(I, out, s)
            out = str_concat(I, out, x)
        return out
    conc = not isinstance(s, Sym) and not any(has_sym(a) for a in args) and not has_sym(kw)
    if conc:
        try:
            r = getattr(s, name)(*[to_host(a) for a in args], **to_host(kw))
        except Exception as e:
            raise PyRaise(PyObj(type(e), {'args': tuple(from_host(a) for a in e.args)}))
        return from_host(r) if isinstance(r, list) else r
    e = I.zs(s)

    def need(i=0):
        if I.pytype(args[i]) is not T:
            I.raise_(TypeError, 'must be %s' % kind)
        return I.zs(args[i])
    if name in ('startswith', 'endswith'):
        if isinstance(args[0], tuple):
            fn = z3.PrefixOf if name == 'startswith' else z3.SuffixOf
            return I.mkbool(I.disj([fn(I.zs(a), e) for a in args[0]]))
        if len(args) > 1:
            raise Unsupported('startswith offset')
        a = need()
        if I.fresh_excludes(e, a):
            return False
        if isinstance(args[0], str) and args[0] and kind == 'str':
            ps = parts_of(s)
            end, c = (ps[0], args[0][0]) if name == 'startswith' else (ps[-1], args[0][-1])
            if isinstance(end, Sym) and lacks(I, end, c) and I.decide(z3.Length(end.e) > 0):
                return False
        return I.mkbool(z3.PrefixOf(a, e) if name == 'startswith' else z3.SuffixOf(a, e))
    if name in ('removeprefix', 'removesuffix'):
        a = need()
        n, m = z3.Length(e), z3.Length(a)
        if name == 'removeprefix':
            return mk(I, z3.If(z3.PrefixOf(a, e), z3.SubString(e, m, n - m), e), kind)
        return mk(I, z3.If(z3.SuffixOf(a, e), z3.SubString(e, 0, n - m), e), kind)
    if name == 'encode':
        if s.meta is not None and s.meta[0] == 'utf8_inv_of':
            return s.meta[1]
        return utf8(I, s)
    if name == 'decode':
        return utf8_decode(I, s)
    if name == 'find' and len(args) == 1:
        return I.mkint(z3.IndexOf(e, need(), 0))
    if name == 'index' and len(args) == 1:
        a = need()
        if not I.decide(z3.Contains(e, a)):
            I.raise_(ValueError, 'substring not found')
        return I.mkint(z3.IndexOf(e, a, 0))
    if name in ('split', 'rsplit', 'partition', 'rpartition'):
        return str_split(I, s, name, args, kw, kind)
    if name in ('lower', 'upper', 'strip', 'lstrip', 'rstrip', 'title', 'capitalize', 'casefold'):
        return str_transform(I, s, name, args, kind)
    if name == 'replace':
        a, b = need(0), need(1)
        if len(args) > 2:
            raise Unsupported('replace count')
        if not I.decide(z3.Contains(e, a)):
            return s
        f = uf('replace_all', STR, STR, STR, STR)
        return Sym(kind, f(e, a, b))
    if name in ('isdigit', 'isalpha', 'isalnum', 'isnumeric', 'isspace', 'isupper', 'islower',
                'isascii', 'isdecimal'):
        f = uf('str_' + name, STR, BOOL)
        return I.mkbool(f(e))
    if name == 'count':
        raise Unsupported('str.count')
    if name == '__len__':
        return I.mkint(z3.Length(e))
    if name == '__contains__':
        return I.mkbool(I.contains(s, args[0]))
    if name == '__eq__':
        return I.mkbool(I.eq(s, args[0]))
    raise Unsupported('str.%s' % name)


def str_transform(I, s, name, args, kind):
    """strip family / case: exact on literal affixes, else uninterpreted + facts"""
    if name in ('strip', 'lstrip', 'rstrip'):
        chars = None
        if args and args[0] is not None:
            if isinstance(args[0], Sym):
                raise Unsupported('strip symbolic chars')
            chars = args[0]
        e = I.zs(s)
        tag = 'ws' if chars is None else ''.join(sorted(set(chars if kind == 'str'
                                                            else chars.decode('latin-1'))))
        cs = ' \t\n\r\x0b\x0c' if chars is None else tag
        if len(cs) > 8:
            raise Unsupported('strip many chars')
        chset = z3.Union(*[z3.Re(zstr(c)) for c in cs]) if len(cs) > 1 else z3.Re(zstr(cs))
        res = e
        if name in ('strip', 'rstrip'):
            # res = stripped ++ tail, tail in chset*, stripped does not end in chset
            nm = I.p.fresh_name('rstrip')
            st = z3.Const('$' + nm, STR)
            tl = z3.Const('$' + nm + '_t', STR)
            I.p.assert_(res == z3.Concat(st, tl))
            I.p.assert_(z3.InRe(tl, z3.Star(chset)))
            I.p.assert_(z3.And([z3.Not(z3.SuffixOf(zstr(c), st)) for c in cs]))
            res = st
        if name in ('strip', 'lstrip'):
            nm = I.p.fresh_name('lstrip')
            st = z3.Const('$' + nm, STR)
            tl = z3.Const('$' + nm + '_t', STR)
            I.p.assert_(res == z3.Concat(tl, st))
            I.p.assert_(z3.InRe(tl, z3.Star(chset)))
            I.p.assert_(z3.And([z3.Not(z3.PrefixOf(zstr(c), st)) for c in cs]))
            res = st
        return mk(I, res, kind)
    f = uf('str_' + name, STR, STR)
    e = I.zs(s)
    r = f(e)
    fact(I, (name, e.get_id()), z3.And(f(r) == r, z3.Length(r) == z3.Length(e)))
    I.p.assumed.add('str.%s: uninterpreted, idempotent, length preserving' % name)
    return Sym(kind, r)


def str_split(I, s, name, args, kw, kind):
    T = str if kind == 'str' else bytes
    if kw.entries:
        vals = nargs(I, args, kw, ['sep', 'maxsplit'], (None, -1))
    else:
        vals = list(args) + [None, -1][len(args):]
    sep = vals[0]
    maxsplit = vals[1] if name in ('split', 'rsplit') else 1
    if sep is None or isinstance(sep, Sym) or isinstance(maxsplit, Sym):
        raise Unsupported('split on whitespace/symbolic separator')
    if not isinstance(sep, T):
        I.raise_(TypeError, 'must be str or None')
    zsep = I.zs(sep)
    n = len(sep)

    rest = s
    right = name in ('rsplit', 'rpartition')
    out = split_parts(I, s, sep, maxsplit, right)
    if out is not None:
        rest = None
    else:
        out = []
    k = maxsplit if rest is None else 0
    while rest is not None and (maxsplit < 0 or k < maxsplit):
        e = I.zs(rest)
        if not isinstance(rest, Sym):
            if maxsplit < 0:
                p = rest.split(sep)
            else:
                p = rest.rsplit(sep, maxsplit - k) if right else rest.split(sep, maxsplit - k)
            if right:
                out = p + out
            else:
                out.extend(p)
            rest = None
            break
        if not I.decide(z3.Contains(e, zsep)):
            break
        if right and maxsplit >= 0:
            idx = z3.LastIndexOf(e, zsep)
        else:
            idx = z3.IndexOf(e, zsep, 0)
        head = mk(I, z3.SubString(e, 0, idx), kind)
        tail = mk(I, z3.SubString(e, idx + n, z3.Length(e) - idx - n), kind)
        if right and maxsplit >= 0:
            out.insert(0, tail)
            rest = head
        else:
            out.append(head)
            rest = tail
        k += 1
        if k > 6:
            raise PathLimit('split of a symbolic string into more than 7 parts')
    if rest is not None:
        if right and maxsplit >= 0:
            out.insert(0, rest)
        else:
            out.append(rest)
    if name in ('partition', 'rpartition'):
        if len(out) == 1:
            e0 = T()
            return (out[0], e0, e0) if name == 'partition' else (e0, e0, out[0])
        return (out[0], sep, out[1])
    return PyList(out)


def utf8(I, s):
    if isinstance(s, str):
        return s.encode('utf-8')
    if s.meta is not None and s.meta[0] == 'utf8dec':
        return s.meta[1]
    # bytes are modelled by the same character sequence: encode is the identity
    # on the term (injective); lone surrogates excluded
    I.p.assumed.add('str.encode/bytes.decode: inverse bijections (no UnicodeError on inputs)')
    return Sym('bytes', s.e, ('utf8', s))


def utf8_decode(I, s):
    if isinstance(s, bytes):
        try:
            return s.decode()
        except UnicodeDecodeError as e:
            I.raise_(UnicodeDecodeError, *e.args)
    if s.meta is not None and s.meta[0] == 'utf8':
        return s.meta[1]
    I.p.assumed.add('str.encode/bytes.decode: inverse bijections (no UnicodeError on inputs)')
    return Sym('str', s.e, s.meta if s.meta is not None and s.meta[0] not in ('concat',) else
               ('utf8dec', s))


# -------------------------------------------------------------------------- builtins
@model(len)
def m_len(I, args, kw):
    v = args[0]
    if isinstance(v, Sym):
        v = I.refine(v)
    if isinstance(v, Sym):
        if v.kind in ('str', 'bytes'):
            m = v.meta
            while m is not None and m[0] in ('utf8', 'utf8dec') and isinstance(m[1], Sym):
                m = m[1].meta
            if m is not None and m[0] == 'random' and len(m) > 2 and m[2] is not None:
                return m[2]      # exact length, by the contract of the random source
            return I.mkint(z3.Length(v.e))
        I.raise_(TypeError, "object of type '%s' has no len()" % v.kind)
    if isinstance(v, (PyDict, DictView)):
        return len(I.entries(v if isinstance(v, PyDict) else v.d))
    if seqs.is_seq(v) and isinstance(v, PyList):
        return I.mkint(v.items.length(I))
    if isinstance(v, (PyList, PySet)):
        return len(v.items)
    if isinstance(v, PyObj):
        f = I.class_attr(v.cls, '__len__')
        if f is MISSING:
            I.raise_(TypeError, "object of type '%s' has no len()" % v.cls.__name__)
        return I.call(BoundMethod(f, v), [])
    if isinstance(v, OpaqueColl):
        raise Unsupported('len of opaque')
    try:
        return len(v)
    except TypeError as e:
        I.raise_(TypeError, *e.args)


@model(isinstance)
def m_isinstance(I, args, kw):
    return I.mkbool(I.isinstance_(args[0], args[1]))


@model(issubclass)
def m_issubclass(I, args, kw):
    try:
        return issubclass(args[0], args[1])
    except TypeError as e:
        I.raise_(TypeError, *e.args)


@model(callable)
def m_callable(I, args, kw):
    v = args[0]
    if isinstance(v, PyObj):
        return I.class_attr(v.cls, '__call__') is not MISSING
    if isinstance(v, (PyFunc, BoundMethod, BuiltinMethod, Partial)):
        return True
    if isinstance(v, (Sym, PyDict, PyList, PySet)):
        return False
    return callable(v)


@model(getattr)
def m_getattr(I, args, kw):
    n = args[1]
    if isinstance(n, Sym):
        raise Unsupported('symbolic attribute name')
    if len(args) == 3:
        try:
            return I.getattr(args[0], n)
        except PyRaise as e:
            if issubclass(e.exc.cls, AttributeError):
                return args[2]
            raise
    return I.getattr(args[0], n)


@model(hasattr)
def m_hasattr(I, args, kw):
    try:
        I.getattr(args[0], args[1])
        return True
    except PyRaise as e:
        if issubclass(e.exc.cls, AttributeError):
            return False
        raise


@model(setattr)
def m_setattr(I, args, kw):
    if isinstance(args[1], Sym):
        raise Unsupported('symbolic attribute name')
    I.setattr(args[0], args[1], args[2])


@model(delattr)
def m_delattr(I, args, kw):
    I.delattr(args[0], args[1])


@model(print, logging.getLogger)
def m_noop(I, args, kw):
    return None


@model(id, hash)
def m_id(I, args, kw):
    return id(args[0])


@model(repr)
def m_repr(I, args, kw):
    return py_repr(I, args[0])


@model(format)
def m_format(I, args, kw):
    return py_format(I, args[0], args[1] if len(args) > 1 else '')


@model(enumerate)
def m_enumerate(I, args, kw):
    start = nargs(I, args, kw, ['iterable', 'start'], (0,))[1]
    return PyIter([(i + start, x) for i, x in enumerate(I.iterate(args[0]))])


@model(zip)
def m_zip(I, args, kw):
    return PyIter(list(zip(*[I.iterate(a) for a in args])))


@model(map)
def m_map(I, args, kw):
    return PyIter([I.call(args[0], list(x)) for x in zip(*[I.iterate(a) for a in args[1:]])])


@model(filter)
def m_filter(I, args, kw):
    f = args[0]
    return PyIter([x for x in I.iterate(args[1])
                   if I.istrue(x if f is None else I.call(f, [x]))])


@model(range)
def m_range(I, args, kw):
    args = [I.refine(a) if isinstance(a, Sym) else a for a in args]
    if any(isinstance(a, Sym) for a in args):
        raise Unsupported('symbolic range')
    return range(*args)


@model(iter)
def m_iter(I, args, kw):
    if len(args) > 1:
        raise Unsupported('iter with sentinel')
    if isinstance(args[0], PyIter):
        return args[0]
    if seqs.is_seq(args[0]):
        it = PyIter([])
        it.items = args[0].items
        return it
    return PyIter(I.iterate(args[0]))


@model(next)
def m_next(I, args, kw):
    it = args[0]
    if not isinstance(it, PyIter):
        if isinstance(it, PyObj):
            return I.call_method(it, '__next__')
        I.raise_(TypeError, 'not an iterator')
    if isinstance(it.items, seqs.Segs):
        if it.pos:
            raise Unsupported('list of unknown length')
        it.pos = 1
        x = it.items.one(I)
        if x is not None:
            return x
        if len(args) > 1:
            return args[1]
        I.raise_(StopIteration)
    if it.pos < len(it.items):
        it.pos += 1
        return it.items[it.pos - 1]
    if len(args) > 1:
        return args[1]
    I.raise_(StopIteration)


@model(any)
def m_any(I, args, kw):
    for x in I.iterate(args[0]):
        if I.istrue(x):
            return True
    return False


@model(all)
def m_all(I, args, kw):
    for x in I.iterate(args[0]):
        if not I.istrue(x):
            return False
    return True


@model(sum)
def m_sum(I, args, kw):
    r = args[1] if len(args) > 1 else 0
    for x in I.iterate(args[0]):
        r = binop(I, ast.Add(), r, x)
    return r


@model(min, max)
def m_minmax(I, args, kw):
    raise Unsupported('min/max')


def _minmax(op):
    def f(I, args, kw):
        items = I.iterate(args[0]) if len(args) == 1 else args
        key = I.dict_get(kw, 'key')
        if not items:
            d = I.find(kw, 'default')
            if d is not None:
                return d.val
            I.raise_(ValueError, 'arg is an empty sequence')
        best = items[0]
        for x in items[1:]:
            a, b = (I.call(key, [x]), I.call(key, [best])) if key is not None else (x, best)
            if I.decide(I.compare(op, a, b)):
                best = x
        return best
    return f


MODELS[id(min)] = (min, _minmax(ast.Lt()))
MODELS[id(max)] = (max, _minmax(ast.Gt()))


@model(sorted)
def m_sorted(I, args, kw):
    items = I.iterate(args[0])
    key = I.dict_get(kw, 'key')
    rev = I.istrue(I.dict_get(kw, 'reverse', False))
    ks = [I.call(key, [x]) for x in items] if key is not None else items
    idx = list(range(len(items)))
    if not has_sym(PyList(list(ks))):
        try:
            idx.sort(key=lambda i: to_host(ks[i]), reverse=rev)
        except TypeError as e:
            I.raise_(TypeError, *e.args)
        return PyList([items[i] for i in idx])
    out = []
    for i in idx:       # stable insertion sort, forking on comparisons
        j = len(out)
        while j > 0 and I.decide(I.compare(ast.Lt() if not rev else ast.Gt(), ks[i], ks[out[j - 1]])):
            j -= 1
        out.insert(j, i)
    return PyList([items[i] for i in out])


@model(reversed)
def m_reversed(I, args, kw):
    return PyIter(list(reversed(I.iterate(args[0]))))


@model(abs)
def m_abs(I, args, kw):
    v = I.refine(args[0]) if isinstance(args[0], Sym) else args[0]
    if isinstance(v, Sym):
        return I.mkint(z3.If(I.zi(v) < 0, -I.zi(v), I.zi(v)))
    return abs(v)


@model(vars)
def m_vars(I, args, kw):
    return I.getattr(args[0], '__dict__')


@model(super)
def m_super(I, args, kw):
    cls, obj = args
    if isinstance(obj, type):
        return SuperProxy(obj, obj, cls)
    return SuperProxy(I.pytype(obj), obj, cls)


@model(open)
def m_open(I, args, kw):
    raise Unsupported('open')


def cls_model(c):
    def deco(fn):
        CLASS_MODELS[c] = fn
        return fn
    return deco


@cls_model(type)
def c_type(I, args, kw):
    if len(args) == 1:
        return I.pytype(args[0])
    raise Unsupported('type()')


@cls_model(object)
def c_object(I, args, kw):
    return PyObj(object)


@cls_model(str)
def c_str(I, args, kw):
    if not args:
        return ''
    if len(args) > 1 or kw.entries:
        v = args[0]
        if I.pytype(v) is bytes:
            return utf8_decode(I, v)
        I.raise_(TypeError, 'decoding to str: need a bytes-like object')
    return py_str(I, args[0])


@cls_model(bytes)
def c_bytes(I, args, kw):
    if not args:
        return b''
    v = args[0]
    if I.pytype(v) is str:
        if len(args) < 2 and not kw.entries:
            I.raise_(TypeError, 'string argument without an encoding')
        return utf8(I, v)
    if I.pytype(v) is bytes:
        return v
    if has_sym(v):
        raise Unsupported('bytes()')
    return bytes(to_host(v))


@cls_model(int)
def c_int(I, args, kw):
    if not args:
        return 0
    v = I.refine(args[0]) if isinstance(args[0], Sym) else args[0]
    if isinstance(v, Sym):
        if v.kind in ('int', 'bool'):
            return I.mkint(I.zi(v))
        if v.kind == 'str':
            # decimal digits with optional minus; other accepted spellings undecided
            if I.decide(z3.InRe(v.e, z3.Plus(z3.Range('0', '9')))):
                return I.mkint(z3.StrToInt(v.e))
            if I.decide(z3.InRe(v.e, z3.Concat(z3.Re('-'), z3.Plus(z3.Range('0', '9'))))):
                return I.mkint(-z3.StrToInt(z3.SubString(v.e, 1, z3.Length(v.e) - 1)))
            if I.decide(z3.InRe(v.e, z3.Star(z3.Union(z3.Range('a', 'z'), z3.Range('A', 'Z'),
                                                      z3.Re('.'))))):
                I.raise_(ValueError, 'invalid literal for int() with base 10')
            I.p.notes.add('int(text): unusual spellings (sign, underscore, blanks) not explored')
            raise InfeasiblePath()
        raise Unsupported('int()')
    if isinstance(v, (PyDict, PyList, PySet, PyObj, tuple)) or v is None:
        I.raise_(TypeError, 'int() argument must be a string, a bytes-like object or a real number')
    try:
        return int(v, *args[1:])
    except (ValueError, TypeError) as e:
        I.raise_(type(e), *e.args)


@cls_model(bool)
def c_bool(I, args, kw):
    if not args:
        return False
    return I.mkbool(I.truth(args[0]))


@cls_model(float)
def c_float(I, args, kw):
    if any(has_sym(a) for a in args):
        v = I.refine(args[0])
        if isinstance(v, Sym) and v.kind == 'int':
            return v
        raise Unsupported('float()')
    try:
        return float(*[to_host(a) for a in args])
    except (ValueError, TypeError) as e:
        I.raise_(type(e), *e.args)


@cls_model(dict)
def c_dict(I, args, kw):
    d = PyDict()
    if args:
        I.dict_update(d, args[0])
    I.dict_update(d, kw)
    return d


@cls_model(list)
def c_list(I, args, kw):
    if args and seqs.is_seq(args[0]):
        return PyList(args[0].items)
    return PyList(I.iterate(args[0]) if args else [])


@cls_model(tuple)
def c_tuple(I, args, kw):
    return tuple(I.iterate(args[0]) if args else [])


def _c_set(cls):
    def f(I, args, kw):
        s = PySet(cls=cls)
        if args and seqs.is_seq(args[0]):
            s.items = args[0].items
        elif args:
            set_update(I, s, args[0])
        return s
    return f


CLASS_MODELS[set] = _c_set(set)
CLASS_MODELS[frozenset] = _c_set(frozenset)
for _c in (enumerate, zip, map, filter, range, reversed, super):
    CLASS_MODELS[_c] = MODELS[id(_c)][1]

import collections  # noqa


@cls_model(collections.OrderedDict)
def c_odict(I, args, kw):
    return c_dict(I, args, kw)


@cls_model(functools.partial)
def c_partial(I, args, kw):
    return Partial(args[0], args[1:], I.dict_copy(kw))


for _f in (dict.get, dict.items, dict.keys, dict.update):
    def _mk(name):
        def f(I, args, kw):
            return call_builtin_method(I, args[0], name, args[1:], kw)
        return f
    MODELS[id(_f)] = (_f, _mk(_f.__name__))

for _name in ('lower', 'upper', 'strip', 'startswith', 'endswith', 'split', 'join', 'format'):
    _f = getattr(str, _name)
    MODELS[id(_f)] = (_f, (lambda n: lambda I, args, kw:
                           call_builtin_method(I, args[0], n, args[1:], kw))(_name))
    _STRF = globals().setdefault('_KEEP', [])
    _STRF.append(_f)


@model(dict.fromkeys)
def m_fromkeys(I, args, kw):
    d = PyDict()
    for k in I.iterate(args[0]):
        I.dict_set(d, k, args[1] if len(args) > 1 else None)
    return d


@model(operator.itemgetter)
def m_itemgetter(I, args, kw):
    raise Unsupported('itemgetter')


# -------------------------------------------------------------------------- copy
def deep_copy(I, v, memo=None):
    if memo is None:
        memo = {}
    if isinstance(v, HEAP) or isinstance(v, OpaqueColl):
        k = id(v)
        if k in memo:
            return memo[k]
    if isinstance(v, PyDict):
        n = PyDict(base=v.base, cls=v.cls)
        memo[id(v)] = n
        n.entries = [DictEntry(e.key, deep_copy(I, e.val, memo), e.cond) for e in v.entries]
        n.memo = list(v.memo)
        return n
    if isinstance(v, PyList):
        n = PyList(cls=v.cls)
        memo[id(v)] = n
        n.items = v.items if seqs.is_seq(v) else [deep_copy(I, x, memo) for x in v.items]
        return n
    if isinstance(v, PySet):
        return PySet(v.items if seqs.is_seq(v) else list(v.items), v.cls)
    if isinstance(v, PyObj):
        f = I.class_attr(v.cls, '__deepcopy__')
        if isinstance(f, types.FunctionType):
            return I.call(BoundMethod(f, v), [PyDict()])
        n = PyObj(v.cls)
        memo[id(v)] = n
        n.attrs = {k: deep_copy(I, x, memo) for k, x in v.attrs.items()}
        return n
    if isinstance(v, tuple) and type(v) is tuple:
        return tuple(deep_copy(I, x, memo) for x in v)
    return v


@model(copy.deepcopy)
def m_deepcopy(I, args, kw):
    return deep_copy(I, args[0])


@model(copy.copy)
def m_copy(I, args, kw):
    v = args[0]
    if isinstance(v, PyDict):
        return I.dict_copy(v)
    if seqs.is_seq(v):
        return type(v)(v.items, v.cls)
    if isinstance(v, PyList):
        return PyList(list(v.items))
    if isinstance(v, PySet):
        return PySet(list(v.items), v.cls)
    if isinstance(v, PyObj):
        return PyObj(v.cls, dict(v.attrs))
    return v


# -------------------------------------------------------------------------- json
def json_snapshot(I, v):
    """deep copy as JSON would see it"""
    if isinstance(v, PyDict):
        if v.base is not None:
            raise Unsupported('json of open dict')
        n = PyDict()
        for e in v.entries:
            k = e.key
            if isinstance(k, Sym):
                k = I.refine(k)
            if not (isinstance(k, str) or isinstance(k, Sym) and k.kind == 'str'):
                if k is None or isinstance(k, (int, bool)):
                    k = {None: 'null', True: 'true', False: 'false'}.get(k, str(k))
                else:
                    I.raise_(TypeError, 'keys must be str, int, float, bool or None')
            n.entries.append(DictEntry(k, json_snapshot(I, e.val), e.cond))
        return n
    if isinstance(v, PyList):
        return PyList([json_snapshot(I, x) for x in v.items])
    if isinstance(v, tuple):
        return PyList([json_snapshot(I, x) for x in v])
    if isinstance(v, Sym):
        if v.kind == 'bytes':
            I.raise_(TypeError, 'Object of type bytes is not JSON serializable')
        return v
    if v is None or isinstance(v, (bool, int, float, str, OpaqueColl)):
        return v
    I.raise_(TypeError, 'Object of type %s is not JSON serializable' % I.pytype(v).__name__)


@model(json.dumps)
@external('json.dumps/loads', 'loads(dumps(x)) is x up to JSON types; dumps text is non-empty')
def m_dumps(I, args, kw):
    snap = json_snapshot(I, args[0])
    if not has_sym(snap) and not (set(e.key for e in kw.entries) - {'indent', 'sort_keys',
                                                                    'separators', 'ensure_ascii'}):
        try:
            return json.dumps(to_host(snap), **to_host(kw))
        except (TypeError, ValueError) as e:
            I.raise_(type(e), *e.args)
    if isinstance(snap, PyDict) or isinstance(snap, PyList):
        r = I.fresh('str', 'json', ('json', snap))
        I.p.assert_(r.e != zstr(''))
        I.p.assert_(z3.PrefixOf(zstr('{' if isinstance(snap, PyDict) else '['), r.e))
        return r
    r = I.fresh('str', 'json', ('json', snap))
    I.p.assert_(r.e != zstr(''))
    return r


@model(json.loads)
@external('json.dumps/loads', 'loads(dumps(x)) is x up to JSON types; dumps text is non-empty')
def m_loads(I, args, kw):
    v = args[0]
    if isinstance(v, Sym):
        v = I.refine(v)
    if isinstance(v, Sym):
        if v.kind in ('int', 'bool'):
            I.raise_(TypeError, 'the JSON object must be str, bytes or bytearray, not %s' % v.kind)
        m = v.meta
        if m is not None and m[0] in ('utf8', 'utf8dec') and isinstance(m[1], Sym):
            m = m[1].meta
        if m is not None and m[0] == 'json':
            return deep_copy(I, m[1])
        if m is not None and m[0] in ('notjson', 'urlenc'):
            I.raise_(json.JSONDecodeError, 'Expecting value', 'text', 0)
        valid = uf('json_valid', STR, BOOL)
        e = I.zs(v)
        if not I.decide(valid(e)):
            I.raise_(json.JSONDecodeError, 'Expecting value', 'text', 0)
        r = uf('json_parse', STR, JVal)(e)
        fact(I, ('jsonp', e.get_id()), z3.Not(JVal.is_jabsent(r)))
        return Sym('val', r)
    if not isinstance(v, (str, bytes)):
        I.raise_(TypeError, 'the JSON object must be str, bytes or bytearray, not %s' %
                 I.pytype(v).__name__)
    try:
        return from_host(json.loads(v, **to_host(kw)))
    except ValueError as e:
        raise PyRaise(PyObj(type(e), {'args': tuple(e.args)}))


# -------------------------------------------------------------------------- urllib
def _conc(args, kw):
    return not any(has_sym(a) for a in args) and not has_sym(kw)


def native(I, fn, args, kw):
    try:
        r = fn(*[to_host(a) for a in args], **to_host(kw))
    except Exception as e:
        raise PyRaise(PyObj(type(e), {'args': tuple(from_host(a) for a in e.args)}))
    return from_host(r) if type(r) in (dict, list, set, tuple) else r


@model(urllib.parse.urlencode)
@external('urllib.parse.urlencode/parse_qs', 'parse_qs(urlencode(x)) recovers the non-blank pairs')
def m_urlencode(I, args, kw):
    if _conc(args, kw):
        return native(I, urllib.parse.urlencode, args, kw)
    v = args[0]
    doseq = I.istrue(I.dict_get(kw, 'doseq', args[1] if len(args) > 1 else False))
    if isinstance(v, PyDict):
        pairs = [(e.key, e.val) for e in I.entries(v)]
    elif I.is_mapping(v):
        pairs = [I.iterate(x) for x in I.iterate(I.call_method(v, 'items'))]
    else:
        pairs = [tuple(I.iterate(x)) for x in I.iterate(v)]
    flat = []
    for k, x in pairs:
        if doseq and isinstance(x, (PyList, tuple)):
            flat.extend((k, y) for y in I.iterate(x))
        else:
            flat.append((k, x))

    def txt(x):
        if isinstance(x, Sym):
            x = I.refine(x)
        if I.pytype(x) is bytes:
            return utf8_decode(I, x)
        return py_str(I, x)
    flat = [(txt(k), txt(x)) for k, x in flat]
    if not flat:
        return ''
    r = I.fresh('str', 'urlenc', ('urlenc', flat))
    I.p.assert_(r.e != zstr(''))
    I.p.assert_(z3.And(z3.Not(z3.Contains(r.e, zstr('?'))), z3.Not(z3.Contains(r.e, zstr('#'))),
                       z3.Not(z3.PrefixOf(zstr('{'), r.e)), z3.Not(z3.Contains(r.e, zstr(' ')))))
    return r


@model(urllib.parse.parse_qs)
@external('urllib.parse.urlencode/parse_qs', 'parse_qs(urlencode(x)) recovers the non-blank pairs')
def m_parse_qs(I, args, kw):
    if _conc(args, kw):
        return native(I, urllib.parse.parse_qs, args, kw)
    d = PyDict()
    for k, v in qsl(I, args[0], keep=I.istrue(I.dict_get(kw, 'keep_blank_values', False))):
        e = I.find(d, k)
        if e is None:
            d.entries.append(DictEntry(k, PyList([v])))
        else:
            e.val.items.append(v)
    return d


def qsl(I, s, keep=False):
    s = I.refine(s) if isinstance(s, Sym) else s
    if isinstance(s, str):
        return urllib.parse.parse_qsl(s, keep_blank_values=keep)
    out = []
    for p in parts_of(s):
        if isinstance(p, str):
            out.extend(urllib.parse.parse_qsl(p, keep_blank_values=keep))
        elif p.meta is not None and p.meta[0] == 'urlenc':
            for k, v in p.meta[1]:
                if not keep and not I.istrue(v):
                    continue
                out.append((k, v))
        else:
            if I.decide(z3.Contains(I.zs(p), zstr('='))):
                if p.meta is not None and p.meta[0] == 'json':
                    if not any_contains(I, p.meta[1], '='):
                        continue
                raise Unsupported('parse_qs of unknown text')
    return out


def any_contains(I, v, c):
    """does any string inside a JSON value contain the (never escaped) character?"""
    if isinstance(v, PyDict):
        return any((e.cond is not False and any_contains(I, e.key, c)) or any_contains(I, e.val, c)
                   for e in v.entries)
    if isinstance(v, PyList):
        return any(any_contains(I, x, c) for x in v.items)
    if isinstance(v, str):
        return c in v
    if isinstance(v, Sym) and v.kind == 'str':
        return I.decide(z3.Contains(v.e, zstr(c)))
    if isinstance(v, Sym) and v.kind == 'val':
        return True
    return False


SCHEME_REST = z3.Star(z3.Union(z3.Range('a', 'z'), z3.Range('A', 'Z'), z3.Range('0', '9'),
                               z3.Re('+'), z3.Re('-'), z3.Re('.')))
SCHEME_RE = z3.Concat(z3.Union(z3.Range('a', 'z'), z3.Range('A', 'Z')), SCHEME_REST)


def is_scheme(t):
    return bool(re.fullmatch('[a-zA-Z][a-zA-Z0-9+.-]*', t))


def drop_prefix(I, v, pre):
    """v without the prefix it is known to have"""
    if not isinstance(v, Sym):
        return v[len(pre):]
    ps = parts_of(v)
    if isinstance(ps[0], str) and len(ps[0]) >= len(pre):
        r = ps[0][len(pre):]
        for x in ps[1:]:
            r = str_concat(I, r, x)
        return r
    e = I.zs(v)
    return mk(I, z3.SubString(e, len(pre), z3.Length(e) - len(pre)))


def split_url(I, s):
    """(scheme, netloc, path, query, fragment) of a symbolic absolute URL or a URL without scheme"""
    s = I.refine(s)
    if isinstance(s, Sym) and s.meta is not None and s.meta[0] == 'unsplit':
        return s.meta[1]
    if I.pytype(s) is not str:
        raise Unsupported('urlsplit of %s' % I.pytype(s).__name__)
    if isinstance(s, Sym) and s.meta is not None and s.meta[0] == 'urlenc':
        return ('', '', s, '', '')
    if isinstance(s, Sym) and s.meta is not None and s.meta[0] == 'json' and \
            isinstance(s.meta[1], (PyDict, PyList)):
        if any(any_contains(I, s.meta[1], c) for c in '?#;'):
            raise Unsupported('urlsplit of JSON text')
        return ('', '', s, '', '')
    I.p.assumed.add('urllib.parse.urlsplit: RFC 3986 splitting of URLs without control characters, '
                    'brackets or blanks at the ends')

    def has(t, c):
        if isinstance(t, str):
            return c in t
        return not lacks(I, t, c) and I.decide(z3.Contains(I.zs(t), zstr(c)))

    def cut(t, c):
        if not isinstance(t, Sym):
            a, b, d = t.partition(c)
            return a, d, bool(b)
        ps = parts_of(t)
        if len(ps) > 1:
            # first piece that contains the separator
            for i, q in enumerate(ps):
                if has(q, c):
                    h, d, _ = cut(q, c)
                    left = h
                    for x in reversed(ps[:i]):
                        left = str_concat(I, x, left)
                    right = d
                    for x in ps[i + 1:]:
                        right = str_concat(I, right, x)
                    return left, right, True
            return t, '', False
        e = I.zs(t)
        if not has(t, c):
            return t, '', False
        i = z3.IndexOf(e, zstr(c), 0)
        return (mk(I, z3.SubString(e, 0, i)), mk(I, z3.SubString(e, i + 1, z3.Length(e) - i - 1)), True)
    rest, frag, _ = cut(s, '#')
    rest, query, _ = cut(rest, '?')
    scheme = None
    for sch in ('https', 'http'):
        pre = sch + '://'
        if isinstance(rest, Sym):
            ps = parts_of(rest)
            if isinstance(ps[0], str) and len(ps[0]) >= len(pre):
                if ps[0].startswith(pre):
                    scheme = sch
                    r = ps[0][len(pre):]
                    for x in ps[1:]:
                        r = str_concat(I, r, x)
                    rest = r
                    break
                continue
            if isinstance(ps[0], Sym) and lacks(I, ps[0], ':') and (len(ps) == 1 or isinstance(ps[1], str) and not any(
                    ps[1].startswith(pre[k:]) or pre[k:].startswith(ps[1]) for k in range(len(sch) + 1))):
                continue
            e = I.zs(rest)
            if I.decide(z3.PrefixOf(zstr(pre), e)):
                scheme = sch
                rest = mk(I, z3.SubString(e, len(pre), z3.Length(e) - len(pre)))
                break
        elif rest.startswith(pre):
            scheme = sch
            rest = rest[len(pre):]
            break
    if scheme is None:
        if not isinstance(rest, Sym):
            r = urllib.parse.urlsplit(rest)
            return (r.scheme, r.netloc, r.path, query, frag)
        left, right, colon = cut(rest, ':')
        if colon:
            if isinstance(left, str):
                if is_scheme(left):
                    scheme = left.lower()
            elif all(is_scheme('a' + x) for x in parts_of(left) if isinstance(x, str)) and \
                    all(I.decide(z3.InRe(I.zs(x), SCHEME_REST)) for x in parts_of(left) if not isinstance(x, str)):
                first = parts_of(left)[0]
                if first[0].isalpha() if isinstance(first, str) else I.decide(z3.InRe(I.zs(first), SCHEME_RE)):
                    scheme = str_transform(I, left, 'lower', [], 'str')
        if scheme is None:
            scheme = ''
        else:
            rest = right
        ps = parts_of(rest)
        first = ps[0]
        if isinstance(first, str) and len(first) > 1:
            two = first.startswith('//')
        elif isinstance(first, Sym) and lacks(I, first, '/') and (
                len(ps) > 1 and isinstance(ps[1], str) and ps[1][0] != '/' or
                I.decide(z3.Length(first.e) > 0)):
            two = False
        else:
            two = I.decide(z3.PrefixOf(zstr('//'), I.zs(rest)))
        if not two:
            return (scheme, '', rest, query, frag)
        rest = drop_prefix(I, rest, '//')
    host, path, slash = cut(rest, '/')
    if slash:
        path = str_concat(I, '/', path)
    return (scheme, host, path, query, frag)


@model(urllib.parse.urlsplit)
def m_urlsplit(I, args, kw):
    if _conc(args, kw):
        return native(I, urllib.parse.urlsplit, args, kw)
    if len(args) > 1 or kw.entries:
        raise Unsupported('urlsplit(scheme)')
    return urllib.parse.SplitResult(*split_url(I, args[0]))


@model(urllib.parse.urlparse)
def m_urlparse(I, args, kw):
    if _conc(args, kw):
        return native(I, urllib.parse.urlparse, args, kw)
    if len(args) > 1 or kw.entries:
        raise Unsupported('urlparse(scheme)')
    sc, nl, path, q, f = split_url(I, args[0])
    params = ''
    if isinstance(path, Sym) and path.meta is not None and path.meta[0] in ('urlenc', 'json'):
        pass
    elif (isinstance(path, Sym) and I.decide(z3.Contains(I.zs(path), zstr(';')))) or \
            (isinstance(path, str) and ';' in path):
        raise Unsupported('urlparse params')
    return urllib.parse.ParseResult(sc, nl, path, params, q, f)


@model(urllib.parse.urlunsplit)
def m_urlunsplit(I, args, kw):
    if _conc(args, kw):
        return native(I, urllib.parse.urlunsplit, args, kw)
    sc, nl, path, q, f = [I.refine(x) if isinstance(x, Sym) else x for x in I.iterate(args[0])]
    url = path
    if I.istrue(nl):
        if I.istrue(path) and not I.istrue(str_method(I, path, 'startswith', ['/'], PyDict())):
            url = str_concat(I, '/', path)
        url = str_concat(I, str_concat(I, '//', nl), url)
    elif isinstance(sc, str) and sc in urllib.parse.uses_netloc and sc:
        raise Unsupported('urlunsplit without authority')
    if I.istrue(sc):
        url = str_concat(I, str_concat(I, sc, ':'), url)
    if I.istrue(q):
        url = str_concat(I, str_concat(I, url, '?'), q)
    if I.istrue(f):
        url = str_concat(I, str_concat(I, url, '#'), f)
    return url


@model(urllib.parse.parse_qsl)
def m_parse_qsl(I, args, kw):
    if _conc(args, kw):
        return native(I, urllib.parse.parse_qsl, args, kw)
    return PyList(qsl(I, args[0], keep=I.istrue(I.dict_get(kw, 'keep_blank_values', False))))


@model(urllib.parse.quote_plus)
@external('urllib.parse.quote_plus', 'injective')
def m_quote_plus(I, args, kw):
    if _conc(args, kw):
        return native(I, urllib.parse.quote_plus, args, kw)
    return _quote(I, args[0], 'quote_plus')


@model(urllib.parse.quote)
@external('urllib.parse.quote', 'injective')
def m_quote(I, args, kw):
    if _conc(args, kw):
        return native(I, urllib.parse.quote, args, kw)
    if len(args) > 1 or kw.entries:
        raise Unsupported('quote(safe)')
    return _quote(I, args[0], 'quote')


def _quote(I, v, name):
    v = I.refine(v)
    if I.pytype(v) is bytes:
        v = utf8_decode(I, v)
    if I.pytype(v) is not str:
        I.raise_(TypeError, 'quote_from_bytes() expected bytes')
    r = injective(I, name, v)
    e = r.e
    fact(I, (name + 'f', e.get_id()),
         z3.And(z3.Not(z3.Contains(e, zstr(':'))), z3.Not(z3.Contains(e, zstr('?'))),
                z3.Not(z3.Contains(e, zstr('&'))), z3.Not(z3.Contains(e, zstr('='))),
                (z3.Length(e) == 0) == (z3.Length(I.zs(v)) == 0)))
    return r


@model(urllib.parse.unquote_plus)
def m_unquote_plus(I, args, kw):
    v = args[0]
    if isinstance(v, Sym):
        v = I.refine(v)
        if isinstance(v, Sym) and v.meta is not None and v.meta[0] == 'quote_plus':
            return v.meta[1]
        if isinstance(v, Sym) and v.kind == 'str':
            return Sym('str', uf('quote_plus_inv', STR, STR)(v.e))
        raise Unsupported('unquote_plus')
    return native(I, urllib.parse.unquote_plus, args, kw)


# -------------------------------------------------------------------------- base64
def _b64(fn, inv, name, inbytes=True):
    @external('base64', 'encoders are injective with the decoder as inverse; standard and url-safe alphabets are different functions')
    def enc(I, args, kw):
        if _conc(args, kw):
            return native(I, fn, args, kw)
        v = I.refine(args[0])
        if I.pytype(v) is not bytes:
            I.raise_(TypeError, "a bytes-like object is required, not '%s'" % I.pytype(v).__name__)
        r = injective(I, name, v, 'bytes')
        e = r.e
        fact(I, (name + 'f', e.get_id()),
             z3.And(z3.Not(z3.Contains(e, zstr(' '))), z3.Not(z3.Contains(e, zstr('.'))),
                    z3.Not(z3.Contains(e, zstr('|'))),
                    (z3.Length(e) == 0) == (z3.Length(I.zs(v)) == 0)))
        return r

    @external('base64', 'encoders are injective with the decoder as inverse; standard and url-safe alphabets are different functions')
    def dec(I, args, kw):
        if _conc(args, kw):
            return native(I, inv, args, kw)
        v = I.refine(args[0])
        m = v.meta if isinstance(v, Sym) else None
        while m is not None and m[0] in ('utf8', 'utf8dec') and isinstance(m[1], Sym):
            m = m[1].meta
        if m is not None and m[0] == name:
            x = m[1]
            return x if I.pytype(x) is bytes else Sym('bytes', I.zs(x))
        valid = uf(name + '_valid', STR, BOOL)
        if not I.decide(valid(I.zs(v))):
            I.raise_(binascii.Error, 'Incorrect padding')
        return Sym('bytes', uf(name + '_inv', STR, STR)(I.zs(v)))
    return enc, dec


for _n, _e, _d in (('b64', base64.b64encode, base64.b64decode),
                   ('b64url', base64.urlsafe_b64encode, base64.urlsafe_b64decode),
                   ('b64std', base64.standard_b64encode, base64.standard_b64decode)):
    _en, _de = _b64(_e, _d, 'b64' if _n == 'b64std' else _n)
    MODELS[id(_e)] = (_e, _en)
    MODELS[id(_d)] = (_d, _de)

from cryptojwt.utils import as_bytes, as_unicode, b64e, b64d, b64encode_item  # noqa


@model(b64e)
@external('cryptojwt.utils.b64e', 'injective, unpadded base64url')
def m_b64e(I, args, kw):
    if _conc(args, kw):
        return native(I, b64e, args, kw)
    v = I.refine(args[0])
    if I.pytype(v) is not bytes:
        I.raise_(TypeError, 'a bytes-like object is required')
    r = injective(I, 'b64e', v, 'bytes')
    fact(I, ('b64el', r.e.get_id()), (r.e == zstr('')) == (I.zs(v) == zstr('')))
    return r


@model(as_bytes)
def m_as_bytes(I, args, kw):
    v = I.refine(args[0]) if isinstance(args[0], Sym) else args[0]
    return utf8(I, v) if I.pytype(v) is str else v


@model(as_unicode)
def m_as_unicode(I, args, kw):
    v = I.refine(args[0]) if isinstance(args[0], Sym) else args[0]
    return utf8_decode(I, v) if I.pytype(v) is bytes else v


# -------------------------------------------------------------------------- hashes
class HashModel:
    pass


def _hash(name, fn):
    @external('hashlib', 'digests are collision free (injective uninterpreted functions)')
    def f(I, args, kw):
        v = args[0] if args else b''
        v = I.refine(v) if isinstance(v, Sym) else v
        if I.pytype(v) is not bytes:
            I.raise_(TypeError, 'Strings must be encoded before hashing')
        return PyObj(HashModel, {'alg': name, 'data': v})
    return f


def _hash_call(I, o, name, args, kw):
    pass


for _n in ('md5', 'sha1', 'sha224', 'sha256', 'sha384', 'sha512'):
    _f = getattr(hashlib, _n)
    MODELS[id(_f)] = (_f, _hash(_n, _f))


def _hm_digest(self):
    raise NotImplementedError


def _hm_update(self, data):
    raise NotImplementedError


@model(hashlib.new)
def m_hash_new(I, args, kw):
    name, data = nargs(I, args, kw, ['name', 'data'], (None, b''))[:2]
    f = getattr(hashlib, name, None) if isinstance(name, str) else None
    if id(f) not in MODELS:
        raise Unsupported('hashlib.new %r' % (name,))
    return MODELS[id(f)][1](I, [data], PyDict())


HashModel.digest = _hm_digest
HashModel.update = _hm_update


def _hm_hexdigest(self):
    raise NotImplementedError


HashModel.hexdigest = _hm_hexdigest


@model(HashModel.update)
def m_hm_update(I, args, kw):
    o = args[0]
    v = I.refine(args[1]) if isinstance(args[1], Sym) else args[1]
    if I.pytype(v) is not bytes:
        I.raise_(TypeError, 'Strings must be encoded before hashing')
    o.attrs['data'] = str_concat(I, o.attrs['data'], v)
    return None


@model(HashModel.digest)
def m_hm_digest(I, args, kw):
    o = args[0]
    if not has_sym(o.attrs['data']):
        return getattr(getattr(hashlib, o.attrs['alg'])(o.attrs['data']), 'digest')()
    r = injective(I, o.attrs['alg'], o.attrs['data'], 'bytes')
    fact(I, ('hl', r.e.get_id()), r.e != zstr(''))
    return r


@model(HashModel.hexdigest)
def m_hm_hexdigest(I, args, kw):
    o = args[0]
    if not has_sym(o.attrs['data']):
        return getattr(getattr(hashlib, o.attrs['alg'])(o.attrs['data']), 'hexdigest')()
    r = injective(I, o.attrs['alg'] + '_hex', o.attrs['data'], 'str')
    fact(I, ('hl', r.e.get_id()), r.e != zstr(''))
    return r


# -------------------------------------------------------------------------- time
def now_value(I):
    if I.now is None:
        I.now = I.fresh('int', 'now')
        I.p.assert_(I.now.e >= 0)
        I.p.assert_(I.now.e < 2 ** 40)
    return I.now


@model(time.time)
@external('clock', 'one fixed arbitrary instant during a call')
def m_time(I, args, kw):
    return now_value(I)


from oidcmsg.time_util import utc_time_sans_frac  # noqa


@model(utc_time_sans_frac)
@external('clock', 'one fixed arbitrary instant during a call')
def m_utc(I, args, kw):
    return now_value(I)


try:
    from oidcmsg.time_util import time_sans_frac as _tsf
    MODELS[id(_tsf)] = (_tsf, m_utc)
except ImportError:
    pass
try:
    from cryptojwt.jwt import utc_time_sans_frac as _u2
    MODELS[id(_u2)] = (_u2, m_utc)
except ImportError:
    pass


# -------------------------------------------------------------------------- random
def random_string(I, hint='rnd', size=None, alnum=False):
    """fresh value different from every literal, every earlier input and every other random value"""
    r = I.fresh('str', hint, ('random', hint, size))
    I.p.rnd_birth[r.e.decl().name()] = (len(I.p.inputs), alnum)
    I.p.assumed.add('a value drawn from the random source differs from every value that existed before')
    lst = I.p.random_values = getattr(I.p, 'random_values', [])
    for o in lst:
        I.p.assert_(o != r.e)
    I.p.assert_(r.e != zstr(''))
    if size is not None and not isinstance(size, int):
        I.p.assert_(I.zi(size) > 0)
    lst.append(r.e)
    return r


@model(importlib.import_module)
def m_import_module(I, args, kw):
    if any(has_sym(a) for a in args):
        raise Unsupported('symbolic import')
    try:
        return importlib.import_module(*args)
    except ImportError as e:
        I.raise_(type(e), *e.args)


@model(os.path.join)
def m_pjoin(I, args, kw):
    if _conc(args, kw):
        return native(I, os.path.join, args, kw)
    raise Unsupported('os.path.join symbolic')


import contextlib  # noqa


@cls_model(contextlib.suppress)
def c_suppress(I, args, kw):
    return contextlib.suppress(*args)


@model(hmac.compare_digest)
def m_cmpd(I, args, kw):
    return I.mkbool(I.eq(args[0], args[1]))


# -------------------------------------------------------------------------- randomness
def _choice(quality):
    def f(I, obj, args, kw):
        seq = args[0]
        items = I.iterate(seq) if not isinstance(seq, str) else seq
        if not items:
            I.raise_(IndexError, 'Cannot choose from an empty sequence')
        if isinstance(items, str):
            r = I.fresh('str', 'rchar', ('rchar', quality, items))
            I.p.assert_(z3.Length(r.e) == 1)
            return r
        return items[I.p.choose(len(items))]
    return f


METHOD_MODELS[(random.SystemRandom, 'choice')] = _choice('csprng')
METHOD_MODELS[(random.Random, 'choice')] = _choice('prng')


@model(secrets.choice)
@external('operating system random source', 'returns values unpredictable and different from all earlier ones')
def m_sec_choice(I, args, kw):
    return _choice('csprng')(I, None, args, kw)


def _choices(quality):
    def f(I, obj, args, kw):
        k = I.dict_get(kw, 'k', 1)
        return PyList([_choice(quality)(I, None, [args[0]], PyDict()) for _ in range(k)])
    return f


METHOD_MODELS[(random.SystemRandom, 'choices')] = _choices('csprng')
METHOD_MODELS[(random.Random, 'choices')] = _choices('prng')


@model(secrets.token_urlsafe, secrets.token_hex)
@external('operating system random source', 'returns values unpredictable and different from all earlier ones')
def m_token(I, args, kw):
    n = args[0] if args else I.dict_get(kw, 'nbytes', 32)
    r = random_string(I, 'token')
    if isinstance(n, int):
        r.meta = ('random', 'token', None, '', n * 4 // 3)
    return r


@model(secrets.token_bytes, os.urandom)
@external('operating system random source', 'returns values unpredictable and different from all earlier ones')
def m_urandom(I, args, kw):
    n = args[0] if args else I.dict_get(kw, 'nbytes', 32)
    r = random_string(I, 'urandom', n)
    if isinstance(n, int):
        r.meta = ('random', 'urandom', n, '', n * 4 // 3)
    return Sym('bytes', r.e, r.meta)


import uuid  # noqa


class UuidModel:
    pass


@model(uuid.uuid4)
@external('operating system random source', 'returns values unpredictable and different from all earlier ones')
def m_uuid4(I, args, kw):
    r = random_string(I, 'uuid', 32)
    return PyObj(UuidModel, {'hex': r})


import sys as _sys  # noqa
import traceback as _traceback  # noqa


@model(_sys.exc_info)
def m_exc_info(I, args, kw):
    return (None, None, None)


@model(_traceback.format_exception, _traceback.format_exc)
@external('traceback.format_exception', 'a description, used for logging only')
def m_format_exception(I, args, kw):
    return PyList(['traceback'])


import oidcmsg.util as _omu  # noqa
import oidcrp.util as _oru  # noqa


def _rnd_contract(default, exact=True, alnum=True):
    def f(I, args, kw):
        size = nargs(I, args, kw, ['size'], (default,))[0]
        if not exact:
            size = None
        I.p.assumed.add('contract of the random string functions (proved as property C22): '
                        'a fresh string of the requested length')
        return random_string(I, 'rnd', size, alnum)
    return f


# callee contract used at every call site outside C22's own proof
for _fn, _d, _x, _a in ((_oru.rndstr, 16, True, True), (_oru.unreserved, 64, True, False),
                        (_omu.rndstr, 16, False, False)):
    MODELS[id(_fn)] = (_fn, _rnd_contract(_d, _x, _a))
    RND_CONTRACTS.append(id(_fn))


import http.cookiejar  # noqa


@cls_model(http.cookiejar.FileCookieJar)
def c_cookiejar(I, args, kw):
    I.p.assumed.add('http.cookiejar.FileCookieJar: a new jar is empty')
    return http.cookiejar.FileCookieJar()
