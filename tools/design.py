"""Rewrites the table of contracts in DESIGN.md from contracts/*.py."""
import ast
import glob
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(HERE + '/contracts/c*.py')):
    mod = os.path.basename(f)[:-3]
    for n in ast.parse(open(f).read()).body:
        if not isinstance(n, ast.FunctionDef):
            continue
        for d in n.decorator_list:
            if isinstance(d, ast.Call) and getattr(d.func, 'id', '') == 'contract':
                prop = ast.literal_eval(d.args[0])
                kw = {k.arg: k.value for k in d.keywords}
                kind = ast.literal_eval(kw['kind']) if 'kind' in kw else 'proof'
                bounded = ast.literal_eval(kw['bounded']) if 'bounded' in kw else ''
                rows.append((prop, mod, n.name, (ast.get_docstring(n) or '').split('\n')[0], kind, bounded))
rows.sort(key=lambda r: r[0] if isinstance(r[0], str) else r[0][0])
out = ['| property | contract | what it covers | kind |', '|---|---|---|---|']
for prop, mod, name, doc, kind, bounded in rows:
    p = prop if isinstance(prop, str) else ','.join(prop)
    k = 'proof'
    if bounded or kind == 'concrete':
        k = 'bounded: ' + bounded
    out.append('| %s | %s.%s | %s | %s |' % (p, mod, name, doc, k))
p = HERE + '/DESIGN.md'
s = open(p).read()
a, b = '<!-- contracts -->', '<!-- /contracts -->'
s = re.sub(re.escape(a) + '.*' + re.escape(b), lambda m: a + '\n' + '\n'.join(out) + '\n' + b, s, flags=re.S)
import json
fixed = [e['entry'][7:].split(' ', 2) for e in json.load(open(HERE + '/known_findings.json')) if e['status'] == 'fixed']
rows2 = ['* **%s** (%s) %s' % (a[9:], c, x) for a, c, x in sorted(fixed)]
planted = ['| bug | property | needs | breaks | caught by |', '|---|---|---|---|---|']
for f in sorted(glob.glob(HERE + '/seeded/*/meta.json')):
    m = json.load(open(f))
    planted.append('| %s | %s | %s | %s | %s |' % (f.split('/')[-2], m['property'], m['needs'], m['what_it_breaks'],
                                                 m.get('caught_by', m['property'])))
for name, lines in (('findings', rows2), ('planted', planted)):
    a, b = '<!-- %s -->' % name, '<!-- /%s -->' % name
    s = re.sub(re.escape(a) + '.*' + re.escape(b), lambda m: a + '\n' + '\n'.join(lines) + '\n' + b, s, flags=re.S)
open(p, 'w').write(s)
print(len(rows), 'contracts')
for r in rows:
    if r[5] or r[4] != 'proof':
        print(r)
