"""Path state: decision trace, path condition, solver access, obligations."""
import os
import re
import subprocess
import tempfile
import time

import z3

from .values import *

Z3_TIMEOUT_MS = int(os.environ.get('DV_Z3_TIMEOUT_MS', '8000'))


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_time = 0.0
        self.unknown = 0
        self.fallback = 0
        self.backends = {}


def zstr(v):
    return z3.StringVal(v)


ALNUM = re.compile('[a-zA-Z0-9]*')
_esc = re.compile(r'\\u\{([0-9a-fA-F]+)\}')


def decode_z3_string(e):
    s = e.as_string()
    return _esc.sub(lambda m: chr(int(m.group(1), 16)), s)


class Obligation:
    __slots__ = ('label', 'status', 'model', 'detail', 'path')

    def __init__(self, label, status, model=None, detail='', path=0):
        self.label = label
        self.status = status      # discharged | failed | undecided
        self.model = model
        self.detail = detail
        self.path = path


class Path:
    """One run of a contract under a decision prefix."""

    def __init__(self, prefix, stats, deadline):
        self.trace = prefix          # list of [choice(bool), has_alternative(bool)]
        self.pos = 0
        self.stats = stats
        self.deadline = deadline
        self.solver = z3.Solver()
        self.solver.set('timeout', Z3_TIMEOUT_MS)
        self.pc = []
        self.counters = {}
        self.inputs = []             # (name, kind, payload)
        self.obligations = []
        self.covers = set()
        self.facts_seen = set()
        self.notes = set()
        self.assumed = set()
        self.functions = set()
        self.steps = 0
        self.undecided_feasibility = 0
        self.rnd_birth = {}          # name of a random value -> (inputs made before it, letters and digits only)
        self.lacks = {}      # term id -> characters the text is known not to contain
        self.known = {}              # ast id -> (expr, bool)
        self.cur = None              # a model of pc, when one is at hand

    # ---- naming
    def fresh_name(self, base):
        n = self.counters.get(base, 0)
        self.counters[base] = n + 1
        return base if n == 0 else '%s#%d' % (base, n)

    # ---- solver
    def assert_(self, c):
        if c is True:
            return
        if c is False:
            raise InfeasiblePath()
        self.pc.append(c)
        self.solver.add(c)
        self.learn(c)
        if self.cur is not None and not self.holds(c):
            self.cur = None

    def holds(self, c):
        try:
            return z3.is_true(self.cur.eval(c, model_completion=True))
        except z3.Z3Exception:
            return False

    def learn(self, c, val=True):
        while z3.is_not(c):
            c, val = c.arg(0), not val
        self.known[c.get_id()] = (c, val)
        if (val and z3.is_and(c)) or (not val and z3.is_or(c)):
            for a in c.children():
                self.learn(a, val)

    def lookup_known(self, c):
        neg = False
        while z3.is_not(c):
            c, neg = c.arg(0), not neg
        k = self.known.get(c.get_id())
        if k is not None:
            return k[1] != neg
        return None

    def check(self, *extra):
        self._model = None
        if time.time() > self.deadline:
            raise PathLimit('time budget')
        t0 = time.time()
        self.stats.queries += 1
        r = self.solver.check(*extra)
        backend = 'z3'
        if r == z3.unknown:
            r2, m, be = self.retry(extra)
            self.stats.fallback += 1
            if r2 != z3.unknown:
                r = r2
                backend = be
            else:
                self.stats.unknown += 1
            self._model = m
        elif r == z3.sat:
            self._model = None
        self.stats.backends[backend] = self.stats.backends.get(backend, 0) + 1
        self.stats.solver_time += time.time() - t0
        return r

    def retry(self, extra):
        s = z3.Solver()
        s.set('timeout', Z3_TIMEOUT_MS)
        s.add(*self.pc)
        s.add(*extra)
        r = s.check()
        if r != z3.unknown:
            return r, (s.model() if r == z3.sat else None), 'z3-fresh'
        # second back end
        try:
            txt = s.to_smt2()
            with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
                f.write('(set-logic ALL)\n' + txt.replace('(set-info :status unknown)', ''))
                name = f.name
            try:
                out = subprocess.run(['cvc5', '--strings-exp', '--tlimit=%d' % Z3_TIMEOUT_MS, name],
                                     capture_output=True, text=True,
                                     timeout=Z3_TIMEOUT_MS / 1000 + 5).stdout
            finally:
                os.unlink(name)
            if out.startswith('unsat'):
                return z3.unsat, None, 'cvc5'
        except Exception:
            pass
        return z3.unknown, None, 'none'

    def model(self, *extra):
        if self._model is not None:
            return self._model
        return self.solver.model()

    # ---- branching
    def decide(self, cond):
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        kn = self.lookup_known(cond)
        if kn is not None:
            return kn
        if self.rnd_birth and cond.decl().kind() == z3.Z3_OP_SEQ_CONTAINS:
            a, b = cond.children()
            if not a.num_args() and z3.is_string_value(b) and self.rnd_birth.get(a.decl().name(), (0, 0))[1] \
                    and not ALNUM.fullmatch(b.as_string()):
                return False
        if self.pos < len(self.trace):
            b = self.trace[self.pos][0]
            self.pos += 1
            self.assert_(cond if b else z3.Not(cond))
            return b
        ncond = z3.Not(cond)
        m_true = m_false = None
        r = r2 = None
        if self.cur is not None:
            if self.holds(cond):
                r, m_true = z3.sat, self.cur
            elif self.holds(ncond):
                r2, m_false = z3.sat, self.cur
        if r is None:
            r = self.check(cond)
            if r == z3.sat:
                m_true = self.model()
        if r == z3.unsat:
            self.trace.append([False, False])
            self.pos += 1
            self.assert_(ncond)
            if m_false is not None:
                self.cur = m_false
            return False
        if r2 is None:
            r2 = self.check(ncond)
        if r2 == z3.unsat:
            if r == z3.unknown:
                self.undecided_feasibility += 1
            self.trace.append([True, False])
            self.pos += 1
            self.assert_(cond)
            self.cur = m_true
            return True
        self.trace.append([True, True])
        self.pos += 1
        self.assert_(cond)
        self.cur = m_true
        return True

    def choose(self, n):
        """n-way nondeterministic choice, returns index (uses binary trace)."""
        for i in range(n - 1):
            if self.pos < len(self.trace):
                b = self.trace[self.pos][0]
                self.pos += 1
            else:
                self.trace.append([True, True])
                self.pos += 1
                b = True
            if b:
                return i
        return n - 1

    def feasible(self):
        if self.cur is not None:
            return True
        r = self.check()
        if r == z3.sat:
            self.cur = self.model()
        return r != z3.unsat
