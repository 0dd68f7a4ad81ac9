"""Lists of texts of any length.

A list of unknown length and content is a PyList whose items is a Segs: the
members of a base sequence (an uninterpreted predicate on texts) that satisfy a
predicate.  Only membership, emptiness and loops are defined on it; every other
use is outside the supported subset.

A loop over such a list is not unrolled.  Its body is executed once on an
arbitrary member (all paths of it), after forgetting everything an earlier
iteration could have left behind.  The result is a summary: the condition under
which the body leaves the loop, and the condition under which it appends the
member to a list; a body that does anything else is not supported.  Then
 - either some member satisfies the leaving condition, and the body runs on it,
 - or no member does, and every list is extended by exactly the members that
   satisfy its condition.
"""
import ast

import z3

from .path import zstr
from .values import *


class Base:
    def __init__(self, name, mem):
        self.name = name
        self.mem = mem
        self.tested = []       # texts membership was asked for
        self.rules = []        # functions term -> z3 Bool that hold for every text

    def touch(self, I, t):
        if any(t.eq(x) for x in self.tested):
            return
        self.tested.append(t)
        for r in self.rules:
            I.p.assert_(r(t))

    def rule(self, I, r):
        self.rules.append(r)
        for t in self.tested:
            I.p.assert_(r(t))


class Segs:
    """in place of the items of a list"""

    def __init__(self, base, pred=None):
        self.base = base
        self.pred = pred            # which texts are in it, if not the members of base
        self.some = None
        self.len = None

    def holds(self, t):
        return self.base.mem(t) if self.pred is None else self.pred(t)

    def only(self, pred):
        """the members that satisfy pred"""
        return Segs(self.base, lambda t: z3.And(self.holds(t), pred(t)))

    def with_(self, I, x):
        t = text_of(I, x)
        if t is None:
            raise Unsupported('list of unknown length')
        return Segs(self.base, lambda u: z3.Or(self.holds(u), u == t))

    def member(self, I, t):
        self.base.touch(I, t)
        return self.holds(t)

    def nonempty(self, I):
        if self.some is None:
            if I.undo is not None:
                raise Unsupported('emptiness of a list of unknown length in a loop over one')
            b = z3.Const(I.p.fresh_name('some.' + self.base.name), BOOL)
            w = z3.Const(I.p.fresh_name('one.' + self.base.name), STR)
            self.some = b
            self.witness = w
            self.base.rule(I, lambda t: z3.Implies(self.holds(t), b))
            self.base.touch(I, w)
            I.p.assert_(z3.Implies(b, self.holds(w)))
        return self.some

    sort = STR

    def element(self, I, t):
        return Sym('str', t)

    def inside(self, I, t):
        """t stands for an element"""
        return self.member(I, t)

    def earlier(self, t, u):
        """is t known to come before u? (nothing is said about the order)"""
        return z3.BoolVal(False)

    def length(self, I):
        if self.len is None:
            if I.undo is not None:
                raise Unsupported('length of a list of unknown length in a loop over one')
            if self.pred is not None:
                raise Unsupported('length of a part of a list of unknown length')
            b = self.nonempty(I)
            n = z3.Const(I.p.fresh_name('length.' + self.base.name), INT)
            self.len = n
            I.p.assert_(n >= 0)
            I.p.assert_((n > 0) == b)
            w = self.witness
            # one item: they are all the same
            self.base.rule(I, lambda t: z3.Implies(z3.And(n == 1, self.holds(t)), t == w))
        return self.len

    def is_list(self, I, x):
        """equal to the list [x]"""
        t = text_of(I, x)
        if t is None:
            return False
        return z3.And(self.member(I, t), self.length(I) == 1)

    def one(self, I):
        """some member, or None if there is none (forks)"""
        if not I.decide(self.nonempty(I)):
            return None
        return Sym('str', self.witness)

    def _no(self, *a, **k):
        raise Unsupported('list of unknown length')
    __iter__ = __len__ = __getitem__ = __bool__ = __setitem__ = __delitem__ = __add__ = __mul__ = \
        __contains__ = append = extend = insert = pop = remove = reverse = _no


class Recs(Segs):
    """a list of records of unknown length: element(i) for 0 <= i < n"""
    sort = INT

    def __init__(self, base, make):
        Segs.__init__(self, base)
        self.make = make
        self.n = None

    def holds(self, t):
        return z3.And(t >= 0, t < self.n)

    def element(self, I, t):
        return self.make(I, t)

    def inside(self, I, t):
        self.base.touch(I, t)
        return self.holds(t)

    def earlier(self, t, u):
        return t < u

    def nonempty(self, I):
        return self.n > 0

    def length(self, I):
        return self.n

    def one(self, I):
        if not I.decide(self.n > 0):
            return None
        z = z3.IntVal(0)
        self.base.touch(I, z)
        return self.element(I, z)

    def _nope(self, *a, **k):
        raise Unsupported('list of records of unknown length')
    member = only = with_ = is_list = _nope


class Fields:
    """what the harness makes an element of"""

    def __init__(self, S, base, t):
        self.S, self.base, self.name, self.t, self.memo = S, base, base.name, t, base.memo

    def _fun(self, field, sort):
        k = (field, sort.name())
        if k not in self.memo:
            self.memo[k] = z3.Function('%s.%s' % (self.name, field), INT, sort)
        return self.memo[k](self.t)

    def _always(self, field, sort, rule):
        self.base.fields[field] = (self.memo[(field, sort.name())], rule)
        self.S.I.p.assert_(rule(self._fun(field, sort)))

    def str(self, field, nonempty=True, no=()):
        e = self._fun(field, STR)
        no = list(no) if isinstance(no, str) else self.S.I.iterate(no)
        self._always(field, STR, lambda e: z3.And([e != zstr('')] * bool(nonempty) +
                                                  [z3.Not(z3.Contains(e, zstr(x))) for x in no]))
        for x in no:
            if len(x) == 1:
                self.S.I.p.lacks.setdefault(e.get_id(), set()).add(x)
        return Sym('str', e)

    def choice(self, field, *options):
        e = self._fun(field, INT)
        self._always(field, INT, lambda e: z3.And(e >= 0, e < len(options)))
        for i, o in enumerate(options[:-1]):
            if self.S.I.decide(e == i):
                return o
        return options[-1]

    def flag(self, field):
        return self.S.I.decide(self._fun(field, BOOL))


class Poison:
    """what an earlier iteration of a loop may have left in a variable"""

    def __init__(self, name):
        self.name = name


class All:
    def __contains__(self, x):
        return True


def is_seq(v):
    return isinstance(v, (PyList, PySet)) and isinstance(v.items, Segs)


def text_of(I, v):
    if isinstance(v, Sym) and v.kind == 'val':
        v = I.refine(v)
    if isinstance(v, str):
        return zstr(v)
    if isinstance(v, Sym) and v.kind == 'str':
        return v.e
    return None


def stored_names(nodes):
    out = set()
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                out.add(x.id)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                out.add(x.name)
            elif isinstance(x, (ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom, ast.FunctionDef,
                                ast.ClassDef, ast.Lambda, ast.Yield, ast.YieldFrom)):
                raise Unsupported('loop over a list of unknown length: %s' % type(x).__name__)
    return out


def snapshot(o):
    if isinstance(o, PyDict):
        return (list(o.entries), [(e, e.key, e.val, e.cond) for e in o.entries], list(o.memo), o.base)
    if isinstance(o, (PyList, PySet)):
        return o.items if isinstance(o.items, Segs) else list(o.items)
    if isinstance(o, PyObj):
        return dict(o.attrs)
    if isinstance(o, Sym):
        return o.meta
    raise Unsupported('change of %r in a loop over a list of unknown length' % type(o))


def restore(o, st):
    if isinstance(o, PyDict):
        o.entries[:] = st[0]
        for e, k, v, c in st[1]:
            e.key, e.val, e.cond = k, v, c
        o.memo[:] = st[2]
        o.base = st[3]
    elif isinstance(o, (PyList, PySet)):
        if isinstance(st, Segs):
            o.items = st
        else:
            o.items[:] = st
    elif isinstance(o, PyObj):
        o.attrs.clear()
        o.attrs.update(st)
    else:
        o.meta = st


class Effects:
    def __init__(self):
        self.leave = []      # conditions
        self.adds = {}       # id(list) -> (list, conditions)
        self.assigned = set()    # variables an iteration that does not leave may assign


def summary(I, segs, e0, body, leaves, names=()):
    """every path of the body on an arbitrary member e0"""
    p = I.p
    eff = Effects()
    trace = []
    n = 0
    frames = [f for f in [I.cur_frame] if f is not None]
    while True:
        n += 1
        if n > 64:
            raise Unsupported('loop over a list of unknown length: too many paths')
        keep = {k: getattr(p, k) for k in ('trace', 'pos', 'cur')}
        copies = {k: type(getattr(p, k))(getattr(p, k)) for k in
                  ('known', 'lacks', 'rnd_birth', 'facts_seen', 'counters')}
        ikeep = (I.watch, I.writes, I.undo, I.now)
        overlay, natt = dict(I.global_overlay), dict(I.native_attrs)
        tested, nrules = list(segs.base.tested), len(segs.base.rules)
        bases = {b: (list(b.tested), list(b.rules)) for b in I.seq_bases}
        ninputs, nobl = len(p.inputs), len(p.obligations)
        npc = len(p.pc)
        fresh = []
        old_fresh = p.fresh_name

        def fresh_name(b):
            x = old_fresh(b)
            fresh.append(x)
            return x
        p.solver.push()
        p.trace, p.pos = trace, 0
        p.fresh_name = fresh_name
        I.watch, I.writes, I.undo = All(), [], {}
        outer_born = BORN[0]
        made = BORN[0] = {}
        saved_vars = [(f, dict(f.vars)) for f in frames]
        iters = [(v, v.pos) for f in frames for v in f.vars.values() if isinstance(v, PyIter)]
        result = None
        try:
            p.assert_(segs.inside(I, e0))
            nd = len(p.pc)
            BORN[0] = None
            elem = segs.element(I, e0)
            BORN[0] = made
            I.writes = []
            try:
                r = body(elem)
                result = 'leave' if leaves(r) else 'next'
            except PyRaise:
                result = 'leave'
            except InfeasiblePath:
                result = None
            if result == 'next':
                eff.assigned |= {x for x in names if not isinstance(I.cur_frame.vars.get(x), Poison)}
            delta = p.pc[nd:]
            writes = I.writes
            changed = {}
            for o, st in I.undo.values():
                if isinstance(o, PyList) and isinstance(st, list) and not isinstance(o.items, Segs):
                    changed[id(o)] = (o, st, list(o.items))
            if I.global_overlay != overlay or I.native_attrs != natt or len(p.inputs) != ninputs or \
                    len(p.obligations) != nobl or I.now is not ikeep[3] or any(v.pos != q for v, q in iters):
                raise Unsupported('loop over a list of unknown length: effect of the body')
        finally:
            pos = p.pos
            BORN[0] = outer_born
            if outer_born is not None:
                outer_born.update(made)
            for o, st in list(I.undo.values()):
                restore(o, st)
            for f, vs in saved_vars:
                f.vars.clear()
                f.vars.update(vs)
            I.watch, I.writes, I.undo, I.now = ikeep
            del p.pc[npc:]
            p.solver.pop()
            p.fresh_name = old_fresh
            for k, v in keep.items():
                setattr(p, k, v)
            for k, v in copies.items():
                setattr(p, k, v)
            for b, (t, rl) in bases.items():
                b.tested[:], b.rules[:] = t, rl
        if result is not None:
            c = z3.And(delta) if delta else z3.BoolVal(True)
            names = consts(c)
            if names & set(fresh):
                raise Unsupported('loop over a list of unknown length: condition')
            if result == 'leave':
                eff.leave.append(c)
            else:
                for o, k in writes:
                    if id(o) in made:
                        continue
                    if id(o) not in changed:
                        raise Unsupported('loop over a list of unknown length: change of more than a list')
                for o, st, now in changed.values():
                    if id(o) in made:
                        continue
                    if len(now) == len(st) and all(x is y for x, y in zip(now, st)):
                        continue
                    if st or len(now) != 1 or not (isinstance(now[0], Sym) and now[0].kind == 'str' and
                                                   now[0].e.eq(e0)):
                        raise Unsupported('loop over a list of unknown length: change of a list')
                    eff.adds.setdefault(id(o), (o, []))[1].append(c)
        del trace[pos:]
        while trace and not trace[-1][1]:
            trace.pop()
        if not trace:
            break
        trace[-1][0] = not trace[-1][0]
        trace[-1][1] = False
    return eff


def consts(e):
    out, todo, seen = set(), [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        todo.extend(x.children())
    return out


def subst(cs, e0):
    """the disjunction of the conditions as a predicate"""
    c = cs[0] if len(cs) == 1 else z3.Or(cs)
    return lambda t: z3.substitute(c, (e0, t))


def loop(I, seq, body, leaves, frame=None, names=()):
    """-> (left the loop early, result of the body)"""
    segs = seq.items
    e0 = z3.Const(I.p.fresh_name('member.' + segs.base.name), segs.sort)

    before = {n: frame.vars[n] for n in names if n in frame.vars} if frame is not None else {}

    def forget(which):
        for n in names:
            frame.vars.pop(n, None)
            if n in which:
                frame.vars[n] = Poison(n)
            elif n in before:
                frame.vars[n] = before[n]
    forget(names)
    outer = I.cur_frame
    I.cur_frame = frame
    try:
        eff = summary(I, segs, e0, body, leaves, names)
    finally:
        I.cur_frame = outer
    forget(eff.assigned)
    if eff.leave:
        if eff.adds:
            raise Unsupported('loop over a list of unknown length: adds and leaves')
        cond = subst(eff.leave, e0)
        if I.p.choose(2) == 0:
            e1 = z3.Const(I.p.fresh_name('found.' + segs.base.name), segs.sort)
            I.p.assert_(segs.inside(I, e1))
            I.p.assert_(cond(e1))
            # the first that leaves
            segs.base.rule(I, lambda t: z3.Implies(segs.earlier(t, e1), z3.Not(z3.And(segs.holds(t), cond(t)))))
            if not I.p.feasible():
                raise InfeasiblePath()
            r = body(segs.element(I, e1))
            if not leaves(r):
                raise Unsupported('loop over a list of unknown length: does not leave')
            return True, r
        segs.base.rule(I, lambda t: z3.Not(z3.And(segs.holds(t), cond(t))))
        if not I.p.feasible():
            raise InfeasiblePath()
    for o, cs in eff.adds.values():
        pred = subst(cs, e0)
        I.wrote(o)
        I.save(o)
        o.items = segs.only(pred)
    return False, None


def restricted(I, a, b, inside):
    """the members of a that are (not) in b"""
    other = PySet(b.items if is_seq(b) else list(b.items))

    def pred(t):
        c = I.contains(other, Sym('str', t))
        c = z3.BoolVal(c) if isinstance(c, bool) else c
        return c if inside else z3.Not(c)
    return a.items.only(pred)


def small_model(I, *extra):
    """after a satisfiable query: a model, preferably with short lists of records and with all that is known about
    their first elements; None if this shows that there is none"""
    p = I.p
    recs = [b for b in I.seq_bases if isinstance(b.seq, Recs)]
    m = p.model()
    if not recs:
        return m
    facts = list(extra)
    for b in recs:
        for k in range(3):
            t = z3.IntVal(k)
            facts += [r(t) for r in b.rules]
            facts += [rule(f(t)) for f, rule in b.fields.values()]
    r = p.check(*facts, *[b.seq.n <= 3 for b in recs])
    if r == z3.sat:
        return p.model()
    if r == z3.unsat:
        r = p.check(*facts)
        if r == z3.sat:
            return p.model()
        if r == z3.unsat:
            return None
    return m
