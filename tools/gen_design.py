#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design/head.md, tables of facets, fixed defects, tools/design/tail.md and the table of planted bugs."""
import ast, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(ROOT)
# bugs that the checks missed when they were planted, and what was added
MISSED = {
    'c11-far': 'antichains in long two-layer rows', 'c28-link-memory': 'bushy orders, queries after queries',
    'c29-list-order': 'two orders of the same list', 'c13-horizon-axes': 'points beyond the horizon off the axes', 
    'c19-ball-odd': 'odd sampling sizes', 'c23-override-lost': 'random overrides', 'c25-extra-step': 'exact count of iterations', 'c27-two-negative': 'several invalid sizes at once',
    'c26-position-alias': 'arrays changed by the caller afterwards', 'c07-spacelike-card': 'all option combinations', 'c04-link-list': 'lists with discarded events',
    'c03-format-zero': 'label formats', 'c01-merge-closure': 'merging of sets that are no components',
    'c13-periodic-narrow': 'negative periods besides positive ones', 'c18-center-alias': 'arguments changed by the caller afterwards', 'c18-edges-alias': 'arguments changed by the caller afterwards',
    'c21-3d-between': 'events in the middle of links parallel to axes', 'c25-relative': 'multiple roots with an exact step count',
    'c21-own-dict': 'options compared before and after', 'c23-list-tuple': 'undefined colour names', 'c26-copy-position': 'wider range of values',
    'c27-fraction-count': 'negative fractions',
}
extra = os.path.join('tools', 'design', 'missed.json')
if os.path.exists(extra): MISSED.update(json.load(open(extra)))
out = [open('tools/design/head.md').read().rstrip(), '', '## Facets', '',
       'Numbers are the cases of a quick run (all shards together); the thorough run has 25 times as many.', '', '| check | facet | quick | rule |', '|---|---|---|---|']
for k in range(1, 30):
    src = open('checks/c%02d.py' % k).read()
    for n in ast.parse(src).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'FACETS':
            for c in n.value.elts:
                name = c.args[0].value
                quick = next((a.value for a in c.args[3:4]), '')
                rule = next((w.value for w in c.keywords if w.arg == 'rule'), None)
                try: rule = ast.literal_eval(rule) if rule is not None else ''
                except ValueError: rule = ''
                out.append('| C%02d | %s | %s | %s |' % (k, name, quick, rule.replace('|', '\\|')))
out += ['', '## Defects found and repaired', '', '(`known_findings.txt`; each is one `fix:` commit in /repo; none is left open)', '']
for l in open('known_findings.txt'):
    m = re.match(r'fixed: property=(C\d\d) (\w+) (.*)', l)
    if m: out.append('* %s `%s` %s' % m.groups())
out += ['', open('tools/design/tail.md').read().rstrip(), '', '| bug | property | needs | breaks | missed at first |', '|---|---|---|---|---|']
for d in sorted(os.listdir('seeded')):
    m = json.load(open(os.path.join('seeded', d, 'meta.json')))
    out.append('| %s | %s | %s | %s | %s |' % (d, m['property'], m['needs'], m['what_it_breaks'], MISSED.get(d, '')))
open('DESIGN.md', 'w').write('\n'.join(out) + '\n')
print(len(out), 'lines;', 'not planted:', [k for k in MISSED if not os.path.isdir('seeded/' + k)])
