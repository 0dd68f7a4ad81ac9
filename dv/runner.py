"""Exploration of contracts, verdicts, replay, evidence."""
import json
import os
import sys
import time
import traceback

import z3

from .values import *
from .path import Path, Stats, Obligation
from . import interp as _interp
from . import models as _models
from . import sym as _sym
from . import seqs as _seqs
from . import shared
from .conc import run_native

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def explore(contract, budget, max_paths=4000, crosscheck=25, root=None, slice_s=None):
    """Run one contract over all paths below the decision prefix `root`.

    With slice_s the exploration stops after that time and returns the open
    alternatives as new roots in res['pending']."""
    stats = Stats()
    t0 = time.time()
    deadline = t0 + budget
    trace = [[c, False] for c in (root or [])]
    res = {'contract': contract.name, 'paths': 0, 'complete': False, 'labels': {}, 'failed': [],
           'undecided': [], 'unsupported': {}, 'covers': [], 'functions': set(),
           'assumed': set(), 'notes': set(), 'bounded': set(), 'crosscheck': 0,
           'cross_mismatch': [], 'infeasible': 0, 'escaped': [], 'pending': []}
    covers = set()
    feasible_models = []
    while True:
        p = Path(trace, stats, deadline)
        I = _interp.Interp(p)
        S = _sym.SymS(I)
        I.S = S
        status = 'ok'
        why = None
        try:
            I.call_function(contract.fn, [S], PyDict())
            changed = shared.symbolic_changes(I, S.patched)
            S.check(not changed, shared.LABEL)
            if changed:
                p.notes.add('changed: ' + ', '.join(changed))
        except InfeasiblePath:
            status = 'infeasible'
        except PyRaise as e:
            status = 'raise'
            why = '%s %s' % (e.exc.cls.__name__, e.exc.attrs.get('args', ''))
        except Unsupported as e:
            status = 'unsupported'
            why = str(e)
        except PathLimit as e:
            status = 'limit'
            why = str(e)
        except RecursionError:
            status = 'unsupported'
            why = 'recursion'
        except z3.Z3Exception as e:
            status = 'unsupported'
            why = 'z3: %s' % e
        res['paths'] += 1
        res['functions'] |= p.functions
        res['assumed'] |= p.assumed
        res['notes'] |= p.notes
        res['bounded'] |= getattr(p, 'bounded', set())
        for o in p.obligations:
            d = res['labels'].setdefault(o.label, {'discharged': 0, 'failed': 0, 'undecided': 0})
            d[o.status] += 1
            if o.status == 'failed' and len([f for f in res['failed'] if f[0] == o.label]) < 4:
                res['failed'].append((o.label, o.model, o.detail))
            elif o.status == 'undecided':
                res['undecided'].append((o.label, o.detail))
        if status == 'raise':
            # exception escaping the harness itself: counts as a failed obligation
            m = None
            try:
                if p.check() == z3.sat:
                    m = _seqs.small_model(I)
                    m = m and _sym.extract(I, m)
            except Exception:
                pass
            if m is None:
                status = 'infeasible'
            else:
                d = res['labels'].setdefault('no unexpected exception',
                                             {'discharged': 0, 'failed': 0, 'undecided': 0})
                d['failed'] += 1
                if len(res['escaped']) < 4:
                    res['escaped'].append(('no unexpected exception', m, why))
        elif status in ('unsupported', 'limit'):
            # only matters when the path is feasible
            feas = True
            try:
                feas = time.time() > deadline or p.check() != z3.unsat
            except PathLimit:
                pass
            if feas:
                res['unsupported'][why] = res['unsupported'].get(why, 0) + 1
        elif status == 'infeasible':
            res['infeasible'] += 1
        else:
            covers |= p.covers
            if res['crosscheck'] + len(feasible_models) < crosscheck:
                try:
                    if p.check() == z3.sat:
                        m = _seqs.small_model(I)
                        if m is not None:
                            feasible_models.append((_sym.extract(I, m), [o.label for o in p.obligations]))
                except PathLimit:
                    pass
        # backtrack
        del trace[p.pos:]
        while trace and not trace[-1][1]:
            trace.pop()
        if not trace:
            res['complete'] = not res['unsupported']
            break
        trace[-1][0] = not trace[-1][0]
        trace[-1][1] = False
        if slice_s is not None and time.time() - t0 > slice_s:
            res['complete'] = not res['unsupported']
            res['pending'].append([t[0] for t in trace])
            for i, t in enumerate(trace):
                if t[1]:
                    res['pending'].append([x[0] for x in trace[:i]] + [not t[0]])
            break
        if time.time() > deadline or res['paths'] >= max_paths:
            res['unsupported']['budget (%d paths)' % res['paths']] = 1
            break
    res['covers'] = sorted(covers)
    # CPython cross-check of path models
    for vals, labels in feasible_models:
        st, checks, used, err = run_native(contract.fn, vals)
        if st == 'rejected':
            continue
        res['crosscheck'] += 1
        bad = [l for l, ok in checks if not ok]
        if st == 'error':
            res['cross_mismatch'].append(('error', vals, err))
        elif bad:
            res['cross_mismatch'].append(('check', vals, bad))
        elif [l for l, _ in checks] != labels:
            res['cross_mismatch'].append(('trace', vals, [labels, [l for l, _ in checks]]))
    res['stats'] = {'queries': stats.queries, 'solver_s': round(stats.solver_time, 3),
                    'unknown': stats.unknown, 'backends': stats.backends}
    res['wall'] = round(time.time() - t0, 2)
    res['functions'] = sorted(res['functions'])
    res['assumed'] = sorted(res['assumed'])
    res['notes'] = sorted(res['notes'])
    res['bounded'] = sorted(res['bounded'])
    return res


def merge(a, b):
    """combine the results of two parts of one exploration"""
    a['paths'] += b['paths']
    a['infeasible'] += b['infeasible']
    a['complete'] = a['complete'] and b['complete']
    for l, d in b['labels'].items():
        e = a['labels'].setdefault(l, {'discharged': 0, 'failed': 0, 'undecided': 0})
        for k in d:
            e[k] += d[k]
    for k in ('failed', 'undecided', 'escaped', 'cross_mismatch'):
        a[k] = a[k] + b[k]
    for k, v in b['unsupported'].items():
        a['unsupported'][k] = a['unsupported'].get(k, 0) + v
    for k in ('covers', 'functions', 'assumed', 'notes', 'bounded'):
        a[k] = sorted(set(a[k]) | set(b[k]))
    a['crosscheck'] += b['crosscheck']
    a['wall'] = round(a['wall'] + b['wall'], 2)
    s, t = a['stats'], b['stats']
    for k in ('queries', 'solver_s', 'unknown'):
        s[k] = round(s[k] + t[k], 3)
    for k, v in t['backends'].items():
        s['backends'][k] = s['backends'].get(k, 0) + v
    return a


def concrete_search(contract, n, seed, seconds=20):
    """bounded stand-in: random native executions of the contract"""
    t0 = time.time()
    out = {'runs': 0, 'rejected': 0, 'errors': 0, 'failing': [], 'err': None, 'labels': {}}
    for i in range(n):
        if time.time() - t0 > seconds:
            break
        st, checks, used, err = run_native(contract.fn, None, seed * 1000003 + i)
        if st == 'rejected':
            out['rejected'] += 1
            continue
        out['runs'] += 1
        for l, ok in checks:
            out['labels'][l] = out['labels'].get(l, 0) + 1
        bad = [l for l, ok in checks if not ok]
        if bad:
            out['failing'].append((bad[0], used))
            if len(out['failing']) > 5:
                break
        elif st == 'error':
            out['errors'] += 1
            out['err'] = err
            out['failing'].append(('no unexpected exception', used))
            if len(out['failing']) > 5:
                break
    return out
