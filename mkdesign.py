"""DESIGN.md from its parts, the rules and the planted bugs."""
import ast
import glob
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
p = lambda *a: os.path.join(HERE, *a)
props = [json.loads(l) for l in open(p('properties.jsonl')) if l.strip()]
man = json.load(open(p('MANIFEST.json')))
tech = {c['property']: c['technique'] for c in man['checks']}
BOUND = {}
exec(open(p('claims.py')).read())
out = [open(p('design_head.md')).read().rstrip() + '\n\n## Properties\n']
for d in props:
    f = p('vg', 'rules', d['id'].lower() + '.py')
    out.append('### %s %s\n' % (d['id'], d['title']))
    if d['id'] not in tech:
        out.append('Not claimed, see below.\n')
        continue
    rules = []
    for n in ast.walk(ast.parse(open(f).read())):
        if isinstance(n, ast.Call) and isinstance(
                n.func, ast.Attribute) and n.func.attr == 'rule':
            rules.append(ast.literal_eval(n.args[0]))
    for r in rules:
        out.append('* Rule: %s.' % r)
    if d['id'] in BOUND:
        out.append('* Bounds: %s' % BOUND[d['id']])
    out.append('* Method: %s.\n' % tech[d['id']])
out.append(open(p('design_tail.md')).read().strip() + '\n')
rows = []
for m in sorted(glob.glob(p('seeded', '*', 'meta.json'))):
    d = json.load(open(m))
    rows.append('| %s | %s | %s | %s |' % (
        os.path.basename(os.path.dirname(m)), d['property'],
        d['what_it_breaks'].replace('|', '/').replace('\n', ' '),
        d.get('caught', '?')))
out.append('\n## Planted bugs\n\nEach was written from the text of its '
           'property, passes the tests of the repository and has a '
           'demonstration.\n\n| id | property | breaks | result |\n'
           '|---|---|---|---|\n' + '\n'.join(rows) + '\n')
open(p('DESIGN.md'), 'w').write('\n'.join(out))
