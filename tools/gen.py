#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

SRC = 'src/oidcrp/'


def prop(id, title, statement, over, quant, why, mech, state=(), observe=(), level_note='', na=None):
    files = sorted({w.split(':')[0] for _, w in mech})
    P.append(dict(
        rec={'id': id, 'title': title, 'statement': statement,
             'quantifier': {'over': over, 'text': quant}, 'why_tests_cant': why,
             'anchors': {'files': files,
                         'mechanism': [{'name': n, 'where': w} for n, w in mech],
                         'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
                         'observe_at': list(observe), 'hook_needed': None}},
        note=level_note, na=na))


def load():
    import importlib.util
    spec = importlib.util.spec_from_file_location('table', os.path.join(V, 'tools', 'table.py'))
    m = importlib.util.module_from_spec(spec)
    m.prop = prop
    m.SRC = SRC
    spec.loader.exec_module(m)


COMMON = ('Contracts on the functions of /repo, executed path by path by /verif/dv on the source as it is on '
          'disk; every obligation goes to z3 (cvc5 second) and must be unsat. All string, integer and '
          'presence-of-parameter inputs are unbounded; container shapes are those the contract lists. '
          'Trusted: the VC generator (cross-checked against CPython on every run) and the library models '
          'listed in the evidence. ')


def main():
    load()
    built = set()
    for f in os.listdir(os.path.join(V, 'contracts')):
        if f.endswith('.py'):
            built |= set(re.findall(r"@contract\('(C\d+)'", open(os.path.join(V, 'contracts', f)).read()))
    checks, na = [], []
    with open(os.path.join(V, 'properties.jsonl'), 'w') as out:
        for p in P:
            r = p['rec']
            out.write(json.dumps(r) + '\n')
            if p['na'] or r['id'] not in built:
                na.append({'property': r['id'], 'reason': p['na'] or 'contracts not written yet'})
                continue
            checks.append({'property': r['id'],
                           'quick_cmd': 'python3-vt check.py %s' % r['id'],
                           'thorough_cmd': 'VERIF_TIER=thorough python3-vt check.py %s --thorough' % r['id'],
                           'technique': 'contract-based deductive verification (per-path VCs of the real '
                                        'Python source, discharged by z3/cvc5)',
                           'level': 'proof', 'level_note': COMMON + p['note']})
    m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
         'notes': 'No hooks in /repo. Findings and repairs: known_findings.json. See DESIGN.md.'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
