"""The contract API in concrete mode: replay of a counter-model and bounded
random execution, both natively on the real code under CPython."""
import copy
import json
import random
import sys
import time
import types
from urllib.parse import quote_plus

from . import shared
from .api import Outcome


class Rejected(Exception):
    pass


STRPOOL = ['a', 'b', 'ab', 'x1', 'state-1', 'nonce-1', 'https://op.example.com',
           'https://rp.example.org/cb', 'código', 'a b', 'a&b=c', 'k:v', 'zz~', '0', 'None',
           'ÿþ', 'https://op.example.com/', 'client_1', 'p+q/r', 'A' * 40]


REAL_NOW = 1700000000


def almost(rng, v):
    """a value that is nearly another one, what a careless comparison takes for equal"""
    kind = rng.randrange(9)
    if kind == 0:
        return v.swapcase()
    if kind == 1:
        return v.lower() if v.lower() != v else v.upper()
    if kind == 2:
        return v[:-1] if v.endswith('/') else v + '/'
    if kind == 3:
        return rng.choice((' ' + v, v + ' ', v + '\n'))
    if kind == 4:
        return v[:-1]
    if kind == 5:
        return v + rng.choice('a0-._')
    if kind == 6:
        return v[:max(1, len(v) // 2)]
    if kind == 7:
        return rng.choice('a0-._') + v
    return quote_plus(v)


class ConcS:
    def __init__(self, values=None, seed=0, rng=None):
        self.values = values or {}
        self.rng = rng or random.Random(seed)
        self.counters = {}
        self.checks = []
        self.used = {}
        self.restore = []
        self._now = None
        self.covers = set()
        self.fill = values is None
        self.made = []
        self.random_log = []     # values the harness claims to be random
        self.rehearsed = None    # the same values in earlier runs on the same inputs

    def _name(self, name):
        base = 'in.' + name
        n = self.counters.get(base, 0)
        self.counters[base] = n + 1
        return base if n == 0 else '%s#%d' % (base, n)

    def _get(self, n, gen):
        if n in self.values:
            v = copy.deepcopy(self.values[n])
        else:
            v = gen()
        self.used[n] = v
        return v

    def str(self, name, nonempty=True, prefix=None, no=(), suffix=None, maxlen=None):
        n = self._name(name)
        no = [no] if isinstance(no, str) else list(no)

        def ok(v):
            return not ((nonempty and not v) or (prefix and not v.startswith(prefix)) or
                        (suffix and not v.endswith(suffix)) or any(x in v for x in no) or
                        (maxlen is not None and len(v) > maxlen))

        def gen():
            for _ in range(50):
                r = self.rng.random()
                if self.made and r < 0.3:
                    v = self.rng.choice(self.made)
                    if r < 0.1:
                        v = almost(self.rng, v)
                    if ok(v):
                        return v
                    continue
                if r < 0.8:
                    v = self.rng.choice(STRPOOL)
                else:
                    v = ''.join(self.rng.choice('abc012-_.:|&=?/#%+ ~é') for _ in
                                range(self.rng.randint(0 if not nonempty else 1, 12)))
                v = (prefix or '') + v + (suffix or '')
                if ok(v):
                    return v
            v = (prefix or '') + 'q%d' % self.rng.randint(0, 9) + (suffix or '')
            if not ok(v):
                raise Rejected()
            return v
        v = self._get(n, gen)
        self.made.append(v)
        return v

    def url(self, name):
        n = self._name(name)

        def gen():
            return 'https://' + self.rng.choice(
                ['op.example.com', 'op.example.com/', 'op.example.org/a', 'rp.example.com',
                 'op.example.com/path/', 'h:8443/x'])
        return self._get(n, gen)

    def int(self, name, lo=None, hi=None):
        n = self._name(name)

        def gen():
            l = -3 if lo is None else lo
            h = 100000 if hi is None else hi
            c = [l, h, self.rng.randint(l, h), max(l, min(h, 1)), max(l, min(h, 3600))]
            if l <= REAL_NOW <= h:
                c = c[:3] + [max(l, min(h, REAL_NOW + d)) for d in (-400, -1, 0, 1, 400)] * 2
            return self.rng.choice(c)
        return self._get(n, gen)

    def bool(self, name):
        return self._get(self._name(name), lambda: self.rng.random() < 0.5)

    flag = bool

    def choice(self, name, *options):
        n = self._name(name)
        i = self._get(n, lambda: self.rng.randrange(len(options)))
        return options[i]

    def json_any(self, name, scalars=False):
        n = self._name(name)
        pool = [None, True, False, 0, 1, 7, '', 'a', 'b', 'sub-1'] + (
            [] if scalars else [[], ['a'], {}, {'a': 1}])
        return self._get(n, lambda: copy.deepcopy(self.rng.choice(pool)))

    def record(self, name, required, optional=None):
        n = self._name(name)
        d = dict(required)
        for k, v in (optional or {}).items():
            if self._get('%s?%s' % (n, k), lambda: self.rng.random() < 0.6):
                d[k] = v
        return d

    def texts(self, name):
        n = self._name(name)

        def gen():
            out = []
            for _ in range(self.rng.choice((0, 1, 1, 2, 2, 3, 5))):
                v = self.rng.choice(self.made) if self.made and self.rng.random() < 0.6 else self.rng.choice(STRPOOL)
                if self.rng.random() < 0.1:
                    v = almost(self.rng, v)
                out.append(v or 'x')
            return out
        v = self._get(n, gen)
        self.made.extend(v)
        return v

    def records(self, name, make):
        n = self._name(name)
        k = self._get(n, lambda: self.rng.choice((0, 1, 1, 2, 2, 3, 5)))
        return [make(Fields(self, '%s[%d]' % (n, i))) for i in range(k)]

    def open_dict(self, name, kind='str'):
        n = self._name(name)

        def gen():
            return {self.rng.choice(STRPOOL): self.rng.choice(STRPOOL)
                    for _ in range(self.rng.randint(0, 4))}
        return self._get(n, gen)

    def assume(self, cond):
        if not cond:
            raise Rejected()

    def check(self, cond, label):
        self.checks.append((label, bool(cond)))

    def cover(self, label):
        self.covers.add(label)

    def call(self, *args, **kw):
        try:
            v = args[0](*args[1:], **kw)
            if isinstance(v, types.GeneratorType):
                v = list(v)
            return Outcome(True, v, None, None)
        except Rejected:
            raise
        except Exception as e:
            return Outcome(False, None, type(e), e)

    def obj(self, cls, **attrs):
        o = cls.__new__(cls)
        for k, v in attrs.items():
            setattr(o, k, v)
        return o

    def snapshot(self, x):
        return copy.deepcopy(x)

    def same(self, a, b):
        return same(a, b)

    def unchanged_except(self, before, after, keys=()):
        keys = list(keys)
        ks = [k for k in list(before) + list(after) if k not in keys]
        return all((k in before) == (k in after) and same(before[k], after[k])
                   if (k in before) == (k in after) else False for k in ks)

    def footprint(self, roots, *args, **kw):
        w = Watch(roots)
        sys.settrace(w.tracer)
        try:
            out = self.call(*args, **kw)
        finally:
            sys.settrace(None)
        w.look()
        return out, w.writes

    def patch(self, target, name, repl):
        orig = target.__dict__.get(name)
        had = name in target.__dict__
        self.restore.append((target, name, orig, had))
        setattr(target, name, repl)
        if isinstance(target, types.ModuleType) and orig is not None:
            for mn, m in list(sys.modules.items()):
                if m is not None and mn.startswith(('oidcrp', 'oidcmsg', 'contracts')) and m is not target:
                    for k, v in list(getattr(m, '__dict__', {}).items()):
                        if v is orig and not mn.startswith('contracts'):
                            self.restore.append((m, k, v, True))
                            setattr(m, k, repl)

    def now(self):
        return self._now

    def later(self, seconds):
        self._now += seconds
        return self._now

    def symbolic(self):
        return False

    def _earlier(self, v):
        """the values at this point in the rehearsals: same inputs, same clock, same pseudo random state"""
        i = len(self.random_log)
        self.random_log.append(v)
        return [r[i] for r in self.rehearsed or [] if len(r) > i and type(r[i]) is type(v)]

    def is_random(self, v, kind=None):
        if not isinstance(v, (str, bytes)) or len(v) < 16:
            return False
        old = self._earlier(v)
        if not old:
            return True
        varying = sum(1 for i in range(len(v)) if any(i >= len(o) or o[i] != v[i] for o in old))
        return varying >= min(14, len(v))

    def drawn_from(self, v, chars):
        old = self._earlier(v)
        if not isinstance(v, str) or not set(v) <= set(chars):
            return False
        seen = ''.join([v] + old)
        return len(seen) < 8 * len(chars) or len(set(seen)) > len(chars) * 0.8

    def own_proof(self):
        pass

    def text(self, v):
        return str(v)

    def note(self, txt):
        pass

    def trust(self, txt):
        pass

    def bounded(self, txt):
        pass


def same(a, b):
    if a is b:
        return True
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and type(a) is type(b):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if type(a) is type(b) and hasattr(a, '__dict__') and not isinstance(a, type) and \
            type(a).__module__.startswith(('oidcrp', 'oidcmsg', 'contracts')):
        return same(a.__dict__, b.__dict__)
    if isinstance(a, types.MethodType) and isinstance(b, types.MethodType):
        return True
    try:
        return bool(a == b)
    except Exception:
        return False


class Watch:
    """looks for changes of everything reachable from the roots, after every line of the code under test"""

    def __init__(self, roots):
        self.objs, self.writes = {}, []
        todo = list(roots)
        while todo:
            v = todo.pop()
            if id(v) in self.objs:
                continue
            if isinstance(v, types.MethodType):
                todo.append(v.__self__)
            elif isinstance(v, dict):
                self.objs[id(v)] = (v, v, dict(v))
                todo.extend(v.values())
            elif isinstance(v, (list, set)):
                self.objs[id(v)] = (v, v, list(v))
                todo.extend(v)
            elif isinstance(v, tuple):
                todo.extend(v)
            elif not isinstance(v, (type, types.ModuleType)) and hasattr(v, '__dict__') and \
                    type(v).__module__.startswith(('oidcrp', 'oidcmsg', 'contracts')):
                self.objs[id(v)] = (v, v.__dict__, dict(v.__dict__))
                todo.extend(v.__dict__.values())

    def look(self):
        for i, (owner, now, old) in self.objs.items():
            if isinstance(now, dict):
                if len(now) != len(old) or any(k not in old or old[k] is not x for k, x in now.items()):
                    for k in set(now) | set(old):
                        if k not in now or k not in old or now[k] is not old[k]:
                            self.writes.append((owner, k))
                    self.objs[i] = (owner, now, dict(now))
            else:
                new = list(now)
                if len(new) != len(old) or any(a is not b for a, b in zip(new, old)):
                    self.writes.append((owner, None))
                    self.objs[i] = (owner, now, new)

    def tracer(self, frame, event, arg):
        if '/oidcrp/' not in frame.f_code.co_filename:
            return None
        self.look()
        return self.tracer


class Frozen:
    """fix the clock and protect class level state during a native run"""

    def __init__(self, S, now):
        self.S = S
        self.now = now

    def __enter__(self):
        S, now = self.S, self.now
        S._now = now
        import oidcmsg.time_util as tu
        real = time.time
        fixed = lambda: S._now  # noqa
        self.saved = []
        for mn, m in list(sys.modules.items()):
            if m is None or not mn.startswith(('oidcrp', 'oidcmsg', 'cryptojwt', 'contracts')):
                continue
            for k in ('utc_time_sans_frac', 'time_sans_frac'):
                if k in getattr(m, '__dict__', {}):
                    self.saved.append((m, k, m.__dict__[k]))
                    setattr(m, k, fixed)
        self.saved.append((time, 'time', real))
        time.time = lambda: float(S._now)
        self.frame = shared.Frame()
        return self

    def __exit__(self, *a):
        for m, k, v in self.saved:
            setattr(m, k, v)
        for target, name, orig, had in reversed(self.S.restore):
            if had:
                setattr(target, name, orig)
            else:
                delattr(target, name)
        self.changed = self.frame.finish()
        return False


REHEARSALS = 4


def prng_instances():
    seen = {}
    for mn, m in list(sys.modules.items()):
        if m is not None and mn.startswith(('oidcrp', 'oidcmsg')):
            for v in list(getattr(m, '__dict__', {}).values()):
                if isinstance(v, random.Random) and not isinstance(v, random.SystemRandom):
                    seen[id(v)] = v
    return list(seen.values())


def run_native(fn, values=None, seed=0):
    """returns ('ok'|'rejected'|'error', checks, used, err)"""
    insts = [(i, i.getstate()) for i in prng_instances()]
    glob = random.getstate()
    S, res = run_once(fn, values, seed, None)
    if not S.random_log:
        return res
    # values claimed to be random: run again with all that is predictable as before
    orig_seed = random.Random.seed

    def fixed_seed(self, a=None, version=2):
        orig_seed(self, 4711 if a is None else a, version)
    logs = []
    random.Random.seed = fixed_seed
    try:
        for _ in range(REHEARSALS + 1):
            for i, st in insts:
                i.setstate(st)
            random.setstate(glob)
            S, res = run_once(fn, values, seed, logs)
            logs.append(S.random_log)
    finally:
        random.Random.seed = orig_seed
    return res


def run_once(fn, values, seed, rehearsed):
    S = ConcS(values, seed)
    S.rehearsed = list(rehearsed) if rehearsed else None
    real_now = REAL_NOW
    now = (values or {}).get('now')
    if now is None:
        now = real_now
    err = None
    fz = Frozen(S, int(now))
    with fz:
        try:
            fn(S)
            st = 'ok'
        except Rejected:
            st = 'rejected'
        except Exception as e:
            import traceback
            st = 'error'
            err = traceback.format_exc()[-1500:]
    if st == 'ok':
        S.checks.append((shared.LABEL, not fz.changed))
    S.used['now'] = int(now)
    return S, (st, S.checks, S.used, err)


class Fields:
    """the fields of one element of a list"""

    def __init__(self, S, name):
        self.S, self.name = S, name

    def _named(self, field, f, *args, **kw):
        n = '%s.%s' % (self.name, field)
        old = self.S._name
        self.S._name = lambda _: n
        try:
            return f(*args, **kw)
        finally:
            self.S._name = old

    def str(self, field, nonempty=True, no=()):
        return self._named(field, self.S.str, field, nonempty, None, no)

    def choice(self, field, *options):
        return self._named(field, self.S.choice, field, *options)

    def flag(self, field):
        return self._named(field, self.S.flag, field)
