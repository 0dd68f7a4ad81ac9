#!/usr/bin/env python3-vt
"""check.py <property> : prove the contracts of one property against /repo's
current source.  Exit 0: nothing violated.  Exit 1 + VIOLATION line: broken."""
import glob
import importlib
import json
import multiprocessing
import os
import sys
import threading
import time
import traceback

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('DV_REPO', '/repo')
sys.path[:0] = [VERIF, os.path.join(REPO, 'src')]
sys.path.append('/opt/venv/lib/python3.12/site-packages')
import logging  # noqa
import warnings  # noqa

warnings.simplefilter('ignore')
logging.disable(logging.CRITICAL)

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough' or '--thorough' in sys.argv
if THOROUGH:
    os.environ.setdefault('DV_Z3_TIMEOUT_MS', '30000')

CONTRACTS = None
WALL = int(os.environ.get('DV_WALL') or (5400 if THOROUGH else 480))      # seconds for the symbolic part
GRACE = 60                            # for a solver that does not keep its time limit
SETTLE = 600 if THOROUGH else 200     # seconds for replays and native executions after that
END = time.time() + WALL


def contract_modules(prop):
    """modules in /verif/contracts that register contracts for prop"""
    mods = []
    for f in sorted(glob.glob(os.path.join(VERIF, 'contracts', '*.py'))):
        if "@contract('%s'" % prop in open(f).read() or '"%s"' % prop in open(f).read():
            mods.append('contracts.' + os.path.basename(f)[:-3])
    return mods


def load(prop):
    from dv.api import REGISTRY
    for m in contract_modules(prop):
        importlib.import_module(m)
    return [c for c in REGISTRY if c.prop == prop]


def in_thread(fn, *a):
    box = {}

    def run():
        try:
            box['r'] = fn(*a)
        except BaseException:
            box['e'] = traceback.format_exc()
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=run)
    t.start()
    t.join()
    return box


def work(job):
    """one task: ('explore', i, root) or ('settle', i, result)"""
    kind, i, arg = job
    c = CONTRACTS[i]
    if kind == 'explore':
        return job, in_thread(explore_slice, c, arg)
    return job, in_thread(settle, c, arg)


def explore_slice(c, root):
    from dv.runner import explore
    return explore(c, max(1, min(400, END + 5 - time.time())), max_paths=10 ** 9,
                   crosscheck=(4 if root else 16) * (2 if THOROUGH else 1), root=root,
                   slice_s=8 if root else 3)


def settle(c, r):
    """replay every failed obligation, run the native executions"""
    from dv.runner import concrete_search
    from dv.conc import run_native
    out = {'contract': c.name, 'violations': [], 'refuted': [], 'bounded_runs': None}
    out['r'] = r
    seen = set()
    if r is not None:
        for kind, vals, info in r['cross_mismatch']:
            if kind == 'check':
                for l in info:
                    if l not in seen:
                        seen.add(l)
                        out['violations'].append((l, vals, 'fails on CPython', True))
            elif kind == 'error' and 'no unexpected exception' not in seen:
                seen.add('no unexpected exception')
                out['violations'].append(('no unexpected exception', vals, info, True))
        for label, model, detail in r['failed'] + r['escaped']:
            if label in seen:
                continue
            st, checks, used, err = run_native(c.fn, model)
            bad = [l for l, ok in checks if not ok]
            if st == 'error' and not bad:
                bad = ['no unexpected exception']
            if bad:
                for l in bad:
                    if l not in seen:
                        seen.add(l)
                        out['violations'].append((l, used, err or detail, True))
                continue
            out['refuted'].append((label, model, detail, st))
    # bounded native executions: cross-check always, stand-in where undecided
    undecided = r is None or not r['complete'] or r['undecided'] or out['refuted'] \
        or not r['labels'] or not r['covers']
    n, secs = (4000, 40) if undecided else (200, 5)
    if c.kind == 'concrete':
        n, secs = 3000, 30
    if THOROUGH:
        n, secs = n * 10, secs * 6
    cs = concrete_search(c, n, SEED, secs)
    out['bounded_runs'] = {k: cs[k] for k in ('runs', 'rejected', 'errors')}
    out['bounded_runs']['checks'] = sum(cs['labels'].values())
    for label, vals in cs['failing']:
        if label not in seen:
            seen.add(label)
            out['violations'].append((label, vals, cs['err'] or 'bounded native execution', True))
    # a failed obligation that neither replays nor is refuted by its own replay
    for label, model, detail, st in out['refuted']:
        if st == 'rejected' and label not in seen:
            seen.add(label)
            out['violations'].append((label, model, detail, False))
    out['undecided'] = bool(undecided)
    return out


def run_all(ctx, t0):
    from dv.runner import merge
    import queue
    n = len(CONTRACTS)
    results = [None] * n
    acc = [None] * n
    open_tasks = [0] * n
    engine_errors = {}
    done = queue.Queue()
    pool = ctx.Pool(min(8, os.cpu_count() or 1), maxtasksperchild=40)
    spent = [0.0] * n
    active = [0]
    late = False
    try:
        def submit(job):
            active[0] += 1
            pool.apply_async(work, (job,), callback=done.put,
                             error_callback=lambda e, j=job: done.put((j, {'e': repr(e)})))

        for i, c in enumerate(CONTRACTS):
            if c.kind == 'concrete':
                submit(('settle', i, None))
            else:
                open_tasks[i] += 1
                submit(('explore', i, None))
        while active[0]:
            limit = END + GRACE + (SETTLE if late else 0)
            try:
                (kind, i, arg), box = done.get(timeout=max(0.1, limit - time.time()))
            except queue.Empty:
                # the workers that are left are stuck; what they were doing stays undecided
                pool.terminate()
                if late:
                    break
                late = True
                done = queue.Queue()
                pool = ctx.Pool(min(8, os.cpu_count() or 1), maxtasksperchild=40)
                active[0] = 0
                for i in range(n):
                    if results[i] is None:
                        if open_tasks[i] and acc[i] is not None:
                            acc[i]['complete'] = False
                            acc[i]['unsupported']['budget (a solver call did not return)'] = 1
                        open_tasks[i] = 0
                        submit(('settle', i, acc[i]))
                continue
            active[0] -= 1
            if kind == 'settle':
                results[i] = box
                continue
            c = CONTRACTS[i]
            open_tasks[i] -= 1
            if 'e' in box:
                engine_errors[i] = box['e']
            else:
                r = box['r']
                spent[i] += r['wall']
                pend = r.pop('pending')
                acc[i] = r if acc[i] is None else merge(acc[i], r)
                nfail = len(acc[i]['failed']) + len(acc[i]['escaped'])
                if pend and (time.time() > END or nfail > 60 or
                             spent[i] > (c.budget or 900) * (10 if THOROUGH else 1)):
                    acc[i]['complete'] = False
                    acc[i]['unsupported']['budget (%d paths explored)' % acc[i]['paths']] = 1
                else:
                    for root in pend:
                        open_tasks[i] += 1
                        submit(('explore', i, root))
            if open_tasks[i] == 0:
                if i in engine_errors:
                    print('ENGINE ERROR in', c.name, engine_errors[i][-800:])
                    if acc[i] is not None:
                        acc[i]['complete'] = False
                        acc[i]['unsupported']['engine error'] = 1
                submit(('settle', i, acc[i]))
    finally:
        pool.terminate()
    for i in range(n):
        if results[i] is None:
            results[i] = {'e': 'no answer within the time limit'}
    return results


def jsonable(x):
    try:
        json.dumps(x)
        return x
    except Exception:
        return repr(x)


def main(prop):
    global CONTRACTS
    t0 = time.time()
    known = json.load(open(os.path.join(VERIF, 'known_findings.json')))
    CONTRACTS = load(prop)
    if not CONTRACTS:
        print('no contracts for', prop)
        return 2
    import dv.runner  # noqa  (before the fork)
    ctx = multiprocessing.get_context('fork')
    results = run_all(ctx, t0)
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    nviol = 0
    obligations = discharged = bobl = bdis = 0
    solver_s = 0.0
    queries = 0
    backends, trusted, functions, table, notes = {}, set(), set(), [], set()
    cross = runs = 0
    undecided = []
    lines = []
    samples = []
    for c, box in zip(CONTRACTS, results):
        if 'e' in box:
            print('ENGINE ERROR in', c.name)
            print(box['e'])
            undecided.append('%s: engine error' % c.name)
            table.append({'contract': c.name, 'status': 'engine error'})
            continue
        o = box['r']
        r = o['r']
        ob = di = 0
        if r is not None:
            for l, d in r['labels'].items():
                ob += sum(d.values())
                di += d['discharged']
            solver_s += r['stats']['solver_s']
            queries += r['stats']['queries']
            for k, v in r['stats']['backends'].items():
                backends[k] = backends.get(k, 0) + v
            trusted |= set(r['assumed'])
            functions |= set(r['functions'])
            cross += r['crosscheck']
            notes |= set(r['notes'])
        bound = c.bounded or (r and '; '.join(r['bounded'])) or (
            'native executions only' if c.kind == 'concrete' else None)
        if r is not None and (not r['complete']):
            undecided.append('%s: not fully explored (%s); bounded native executions stood in' %
                             (c.name, ', '.join(list(r['unsupported'])[:4])))
            bound = bound or 'incomplete exploration'
        elif o['undecided'] and c.kind != 'concrete':
            undecided.append('%s: %s' % (c.name, (r and r['undecided'][:2]) or
                                         [x[0] for x in o['refuted'][:2]] or 'no path completed'))
        if bound:
            bobl += ob
            bdis += di
        else:
            obligations += ob
            discharged += di
        runs += o['bounded_runs']['runs']
        table.append({'contract': c.name, 'targets': list(c.targets), 'bounded': bound,
                      'paths': r['paths'] if r else 0, 'obligations': ob, 'discharged': di,
                      'labels': r['labels'] if r else {}, 'covers': r['covers'] if r else [],
                      'crosschecked_paths': r['crosscheck'] if r else 0,
                      'trace_mismatches': len([m for m in r['cross_mismatch'] if m[0] == 'trace'])
                      if r else 0,
                      'native_runs': o['bounded_runs'], 'wall_s': r['wall'] if r else None})
        if len(samples) < 6 and r and r['labels']:
            samples.append({'contract': c.name, 'labels': list(r['labels'])[:4]})
        for label, vals, detail, replayed in o['violations']:
            k = [x for x in known if x.get('property') == prop and x.get('status') == 'open' and
                 x.get('contract') == c.name and x.get('label') == label]
            if k:
                line = 'KNOWN-FINDING: property=%s %s' % (prop, k[0]['what'])
                if line not in lines:
                    lines.append(line)
                continue
            nviol += 1
            path = os.path.join(VERIF, 'replays', '%s-%s-%d.json' % (prop, c.name, nviol))
            with open(path, 'w') as f:
                json.dump({'property': prop, 'contract': c.name, 'obligation': label,
                           'inputs': jsonable(vals), 'replayed_on_cpython': replayed,
                           'verifier_output': str(detail)[:3000],
                           'targets': list(c.targets),
                           'replay_cmd': 'python3-vt %s/replay.py %s' % (VERIF, path)}, f, indent=1,
                          default=repr)
            lines.append('VIOLATION property=%s replay=%s%s' %
                         (prop, path, '' if replayed else ' no-failing-input-found'))
            print('  failed obligation: [%s] %s  inputs=%s' % (c.name, label, str(vals)[:300]))
    if obligations + bobl == 0 and runs == 0:
        print('no obligation generated')
        return 2
    claims = json.load(open(os.path.join(VERIF, 'MANIFEST.json')))
    level = next((x['level'] for x in claims['checks'] if x['property'] == prop), 'proof')
    cov = {
        'obligations': obligations, 'discharged': discharged,
        'bounded_obligations': bobl, 'bounded_discharged': bdis,
        'checker_cmd': 'python3-vt check.py %s' % prop,
        'trusted_base': sorted(trusted) + [
            'dv: the VC generator/interpreter in /verif/dv (cross-checked against CPython on %d paths in this run)' % cross,
            'z3 %s (and cvc5 as second back end)' % __import__('z3').get_version_string(),
            'Python int is mathematical; str is a sequence of code points'],
        'evaluations': runs + cross,
        'distinct_nontrivial': runs + cross,
        'rule': 'native executions of the contracts on CPython (path models and random inputs); '
                'an execution is counted only when all assumptions of its contract hold',
        'samples': samples,
        'functions_under_contract': sorted({t for c in CONTRACTS for t in c.targets}),
        'functions_interpreted': sorted(functions),
        'contracts': table, 'solver_queries': queries, 'solver_time_s': round(solver_s, 2),
        'back_ends': backends, 'undecided': undecided, 'notes': sorted(notes)}
    ev = {'property': prop, 'tier': 'thorough' if THOROUGH else 'quick', 'seed': SEED, 'level': level,
          'coverage': cov, 'assumptions': sorted(trusted), 'wall_s': round(time.time() - t0, 2),
          'violations': nviol}
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=repr)
    for l in lines:
        print(l)
    print('%s: %d contracts, %d/%d obligations discharged (+%d/%d bounded), %d paths cross-checked, '
          '%d native runs, %.1f s%s' % (prop, len(CONTRACTS), discharged, obligations, bdis, bobl,
                                        cross, runs, time.time() - t0,
                                        ', undecided: %d' % len(undecided) if undecided else ''))
    for u in undecided:
        print('  undecided:', u)
    return 1 if nviol else 0


if __name__ == '__main__':
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    sys.exit(main(args[0]))
