"""The contract API in symbolic (proof) mode."""
import types

import z3

from .interp import *
from .interp import OpaqueColl, MISSING
from .path import Obligation, decode_z3_string, zstr
from .values import *
from . import models
from . import seqs
from .api import Outcome


class SymS:
    """Receives (interp, args, kw) calls from the interpreter."""

    def __init__(self, interp):
        self.I = interp
        self.patched = set()

    # every public method: def m(self, I, args, kw)
    def _name(self, name):
        return self.I.p.fresh_name('in.' + name)

    def str(self, name, nonempty=True, prefix=None, no=(), suffix=None, maxlen=None):
        I = self.I
        n = self._name(name)
        e = z3.Const(n, STR)
        I.p.inputs.append((n, 'str', e))
        if nonempty:
            I.p.assert_(e != zstr(''))
        if prefix is not None:
            I.p.assert_(z3.PrefixOf(zstr(prefix), e))
        if suffix is not None:
            I.p.assert_(z3.SuffixOf(zstr(suffix), e))
        for s in ([no] if isinstance(no, str) else list(no) if not isinstance(no, PyList) else no.items):
            I.p.assert_(z3.Not(z3.Contains(e, zstr(s))))
            if len(s) == 1:
                I.p.lacks.setdefault(e.get_id(), set()).add(s)
        if maxlen is not None:
            I.p.assert_(z3.Length(e) <= maxlen)
        return Sym('str', e)

    def url(self, name):
        """absolute https URL without query or fragment"""
        s = self.str(name, prefix='https://', no=('?', '#', ' '))
        self.I.p.assert_(z3.Length(s.e) >= 9)
        return s

    def int(self, name, lo=None, hi=None):
        I = self.I
        n = self._name(name)
        e = z3.Const(n, INT)
        I.p.inputs.append((n, 'int', e))
        if lo is not None:
            I.p.assert_(e >= I.zi(lo))
        if hi is not None:
            I.p.assert_(e <= I.zi(hi))
        return Sym('int', e)

    def bool(self, name):
        n = self._name(name)
        e = z3.Const(n, BOOL)
        self.I.p.inputs.append((n, 'bool', e))
        return Sym('bool', e)

    def flag(self, name):
        n = self._name(name)
        e = z3.Const(n, BOOL)
        v = self.I.decide(e)
        self.I.p.inputs.append((n, 'const', v))
        return v

    def choice(self, name, *options):
        n = self._name(name)
        i = self.I.p.choose(len(options))
        self.I.p.inputs.append((n, 'const', i))
        return options[i]

    def json_any(self, name, scalars=False):
        n = self._name(name)
        e = z3.Const(n, JVal)
        self.I.p.inputs.append((n, 'val', e))
        self.I.p.assert_(z3.Not(JVal.is_jabsent(e)))
        if scalars:
            self.I.p.assert_(z3.Not(z3.Or(JVal.is_jlist(e), JVal.is_jdict(e))))
        return Sym('val', e)

    def record(self, name, required, optional=None):
        I = self.I
        n = self._name(name)
        d = PyDict([DictEntry(e.key, e.val, e.cond) for e in required.entries])
        if optional is not None:
            for e in optional.entries:
                cn = '%s?%s' % (n, e.key)
                c = z3.Const(cn, BOOL)
                I.p.inputs.append((cn, 'bool', c))
                d.entries.append(DictEntry(e.key, e.val, c))
        return d

    def texts(self, name):
        """a list of texts of any length and content"""
        I = self.I
        n = self._name(name)
        f = z3.Function(n, STR, BOOL)
        base = seqs.Base(n, lambda t: z3.And(f(t), t != zstr('')))
        I.seq_bases.append(base)
        I.p.inputs.append((n, 'seq', base))
        base.seq = seqs.Segs(base)
        return PyList(base.seq)

    def records(self, name, make):
        """a list of any number of elements make(fields)"""
        I = self.I
        n = self._name(name)
        base = seqs.Base(n, None)
        memo = {}

        def element(I, t):
            f = seqs.Fields(self, base, t)
            return I.call(make, [f])
        base.seq = seqs.Recs(base, element)
        base.seq.n = z3.Const(n, INT)
        base.memo, base.fields = memo, {}
        I.p.assert_(base.seq.n >= 0)
        I.seq_bases.append(base)
        I.p.inputs.append((n, 'records', base))
        return PyList(base.seq)

    def open_dict(self, name, kind='str'):
        n = self._name(name)
        arr = z3.Const(n, z3.ArraySort(STR, JVal))

        def base(I, key):
            v = z3.Select(arr, I.zs(key))
            cond = z3.Not(JVal.is_jabsent(v))
            if kind == 'str':
                I.p.assert_(z3.Or(JVal.is_jabsent(v), JVal.is_jstr(v)))
                return Sym('str', JVal.s(v)), cond
            return Sym('val', v), cond
        d = PyDict(base=base)
        self.I.p.inputs.append((n, 'open', d))
        return d

    def assume(self, cond):
        c = self.I.truth(cond)
        if c is True:
            return
        if c is False:
            raise InfeasiblePath()
        self.I.p.assert_(c)
        if not self.I.p.feasible():
            raise InfeasiblePath()

    def check(self, cond, label):
        I = self.I
        p = I.p
        c = I.truth(cond)
        if not isinstance(c, bool):
            c = z3.simplify(c)
            if z3.is_true(c):
                c = True
            elif z3.is_false(c):
                c = False
        if c is True:
            p.obligations.append(Obligation(label, 'discharged', detail='trivial'))
            return
        neg = z3.BoolVal(True) if c is False else z3.Not(c)
        r = p.check(neg)
        if r == z3.unsat:
            p.obligations.append(Obligation(label, 'discharged'))
            return
        if r == z3.unknown:
            p.obligations.append(Obligation(label, 'undecided', detail='solver unknown'))
            if c is not False:
                p.assert_(c)
            return
        model = seqs.small_model(I, neg)
        if model is None:
            p.obligations.append(Obligation(label, 'discharged'))
            if c is not False:
                p.assert_(c)
            return
        vals = extract(I, model)
        p.obligations.append(Obligation(label, 'failed', model=vals,
                                        detail=str(c)[:400]))
        if c is False:
            return
        p.assert_(c)
        if not p.feasible():
            raise InfeasiblePath()

    def cover(self, label):
        self.I.p.covers.add(label)

    def call(self, *args, **kw):
        raise NotImplementedError

    def obj(self, cls, **attrs):
        return PyObj(cls, dict(attrs))

    def snapshot(self, x):
        return models.deep_copy(self.I, x)

    def same(self, a, b):
        return self.I.mkbool(same(self.I, a, b))

    def unchanged_except(self, before, after, keys=()):
        return self.I.mkbool(unchanged_except(self.I, before, after, self.I.iterate(keys)))

    def footprint(self, roots, *args, **kw):
        """call; -> (outcome, [(changed container or object, key or attribute)]) for what is
        reachable from roots before the call, including changes that are undone during the call"""
        I = self.I
        I.watch = reachable(I.iterate(roots))
        I.writes = []
        k = PyDict()
        for n, v in kw.items():
            k.entries.append(DictEntry(n, v))
        try:
            out = call_s(I, self, 'call', args, k)
        finally:
            I.watch = None
        return (out, PyList([(o, k) for o, k in I.writes]))

    def patch(self, target, name, repl):
        """replace attribute `name` of module/class target by repl"""
        self.I.setattr(target, name, repl)
        self.patched.add((target, name))
        # the same function object may have been imported elsewhere
        orig = target.__dict__.get(name)
        if isinstance(orig, (types.FunctionType, types.BuiltinFunctionType, type)):
            self.I.overrides[id(orig)] = (orig, repl)

    def now(self):
        n = models.now_value(self.I)
        if not any(i[0] == 'now' for i in self.I.p.inputs):
            self.I.p.inputs.append(('now', 'int', n.e))
        return n

    def later(self, seconds):
        """the clock moves on; S.now() is the new time from here on"""
        n = self.now()
        if self.I.first_now is None:
            self.I.first_now = n
        new = self.I.fresh('int', 'later')
        self.I.p.assert_(new.e == n.e + self.I.zi(seconds))
        self.I.now = new
        self.I.now_text = None
        return new

    def symbolic(self):
        return True

    def is_random(self, v, kind=None):
        """was this value produced by the random source?"""
        while isinstance(v, Sym) and v.meta is not None and v.meta[0] in ('utf8', 'utf8dec'):
            v = v.meta[1]
        n = 0
        for p in models.deep_parts(self.I, v):
            if isinstance(p, Sym) and p.meta is not None:
                if p.meta[0] == 'random':
                    size = p.meta[4] if len(p.meta) > 4 else p.meta[2]
                    n += size if isinstance(size, int) else 16
                elif p.meta[0] == 'rchar' and p.meta[1] == 'csprng' and len(set(p.meta[2])) >= 16:
                    n += 1
        return n >= 16

    def drawn_from(self, v, chars):
        """every character was drawn from all of chars"""
        ps = models.deep_parts(self.I, v)
        if len(ps) == 1 and isinstance(ps[0], Sym) and ps[0].meta and ps[0].meta[0] in ('random', 'draws') \
                and len(ps[0].meta) > 3:
            return set(ps[0].meta[3]) == set(chars)
        return all(isinstance(p, Sym) and p.meta and p.meta[0] == 'rchar' and set(p.meta[2]) == set(chars)
                   for p in ps if p != '')

    def own_proof(self):
        """the functions that make random text are interpreted, not replaced by their contract"""
        self.I.own_proof = True

    def text(self, v):
        return models.py_str(self.I, v)

    def note(self, txt):
        self.I.p.notes.add(txt)

    def trust(self, txt):
        """an assumed contract (on a dependency), stated by the harness"""
        self.I.p.assumed.add('assumed contract: ' + txt)

    def bounded(self, txt):
        self.I.p.bounded = getattr(self.I.p, 'bounded', set()) | {txt}


def same(I, a, b, depth=0):
    if a is b:
        return True
    if depth > 30:
        raise Unsupported('same: depth')
    if isinstance(a, PyObj) and isinstance(b, PyObj):
        if a.cls is not b.cls or set(a.attrs) != set(b.attrs):
            return False
        return I.conj(same(I, a.attrs[k], b.attrs[k], depth + 1) for k in a.attrs)
    if isinstance(a, PyDict) and isinstance(b, PyDict):
        if a.base is not None or b.base is not None:
            return unchanged_except(I, a, b, [])
        ea, eb = I.entries(a), I.entries(b)
        if len(ea) != len(eb):
            return False
        out = []
        for e in ea:
            f = I.find(b, e.key)
            if f is None:
                return False
            out.append(same(I, e.val, f.val, depth + 1))
        return I.conj(out)
    if isinstance(a, PyList) and isinstance(b, PyList):
        if seqs.is_seq(a) and a.items is b.items:
            return True
        if len(a.items) != len(b.items):
            return False
        return I.conj(same(I, x, y, depth + 1) for x, y in zip(a.items, b.items))
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return I.conj(same(I, x, y, depth + 1) for x, y in zip(a, b))
    if isinstance(a, (PyObj, PyDict, PyList)) != isinstance(b, (PyObj, PyDict, PyList)):
        return False
    if isinstance(a, BoundMethod) and isinstance(b, BoundMethod):
        return True
    return I.eq(a, b)


def unchanged_except(I, before, after, keys):
    """for every key outside keys: same presence and value"""
    out = []
    if (before.base is None) != (after.base is None) or before.base is not after.base:
        return False
    seen = []
    for d in (before, after):
        for e in list(d.entries):
            if any(I.decide(I.eq(e.key, k)) for k in keys):
                continue
            if any(e.key is s for s in seen):
                continue
            seen.append(e.key)
            x, y = I.find(before, e.key), I.find(after, e.key)
            if (x is None) != (y is None):
                return False
            if x is not None:
                out.append(same(I, x.val, y.val))
        for (k, v, c) in list(d.memo):
            if any(I.decide(I.eq(k, kk)) for kk in keys) or any(k is s for s in seen):
                continue
            seen.append(k)
            x, y = I.find(before, k), I.find(after, k)
            if (x is None) != (y is None):
                return False
            if x is not None:
                out.append(same(I, x.val, y.val))
    return I.conj(out)


# ---------------------------------------------------------------- model extraction
def pyval(m, e):
    v = m.eval(e, model_completion=True)
    s = v.sort()
    if s == STR:
        return decode_z3_string(v) if z3.is_string_value(v) else ''
    if s == INT:
        return v.as_long()
    if s == BOOL:
        return z3.is_true(v)
    if s == JVal:
        d = v.decl().name()
        if d == 'jstr':
            return pyval(m, v.arg(0))
        if d == 'jint':
            return v.arg(0).as_long()
        if d == 'jbool':
            return z3.is_true(v.arg(0))
        if d == 'jlist':
            return []
        if d == 'jdict':
            return {}
        return None
    return None


def extract(I, m):
    out = {}
    for name, kind, e in I.p.inputs:
        if kind == 'const':
            out[name] = e
        elif kind == 'records':
            k = min(40, pyval(m, e.seq.n))
            out[name] = k
            for i in range(k):
                for (field, sort), f in e.memo.items():
                    out['%s[%d].%s' % (name, i, field)] = pyval(m, f(z3.IntVal(i)))
        elif kind == 'seq':
            out[name] = []
            first = [e.seq.witness] if e.seq.some is not None else []
            for t in first + e.tested:
                v = pyval(m, t)
                if v not in out[name] and z3.is_true(m.eval(e.mem(t), model_completion=True)):
                    out[name].append(v)
            if e.seq.len is not None and out[name]:
                out[name] += out[name][-1:] * min(50, pyval(m, e.seq.len) - len(out[name]))
        elif kind == 'open':
            d = {}
            for (k, v, c) in e.memo:
                if c is False:
                    continue
                if c is True or z3.is_true(m.eval(c, model_completion=True)):
                    kk = k if isinstance(k, str) else pyval(m, k.e)
                    d[kk] = v if not isinstance(v, Sym) else pyval(m, v.e)
            out[name] = d
        else:
            out[name] = pyval(m, e)
    if I.now is not None and 'now' not in out:
        out['now'] = pyval(m, (I.first_now or I.now).e)
    return out


def call_s(I, S, name, args, kw):
    if name == 'call':
        fn = args[0]
        try:
            v = I.call(fn, list(args[1:]), kw)
            return PyObj(Outcome, {'ok': True, 'value': v, 'exc': None, 'exc_obj': None})
        except PyRaise as e:
            return PyObj(Outcome, {'ok': False, 'value': None, 'exc': e.exc.cls,
                                   'exc_obj': e.exc})
    f = getattr(S, name)
    k = {}
    for e in I.entries(kw):
        k[e.key] = e.val
    return f(*args, **k)


def reachable(roots):
    """id -> object for all mutable things that can be reached"""
    seen = {}
    todo = list(roots)
    while todo:
        v = todo.pop()
        if id(v) in seen:
            continue
        if isinstance(v, PyObj):
            seen[id(v)] = v
            todo.extend(v.attrs.values())
        elif isinstance(v, PyDict):
            seen[id(v)] = v
            todo.extend(e.val for e in v.entries)
        elif isinstance(v, (PyList, PySet)):
            seen[id(v)] = v
            if not seqs.is_seq(v):
                todo.extend(v.items)
        elif isinstance(v, tuple):
            todo.extend(v)
        elif isinstance(v, BoundMethod):
            todo.append(v.self)
    return seen
