"""DESIGN.md = hand-written parts + tables of harness bounds and planted bugs."""
import collections, glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
rd = lambda n: open(f'{V}/tools/{n}').read()
from symx import registry
by = collections.defaultdict(list)
for h in registry.load().values():
    by[h.prop].append(h)
out = [rd('design_head.md'), rd('design_props.md')]
out.append('### Harnesses and bounds\n')
for p in sorted(by):
    out.append(f'**{p}**\n')
    for h in by[p]:
        out.append(f'- `{h.name}` ({len(h.quick)} quick, {len(h.thorough or [])} more thorough configurations): {h.bounds}')
    out.append('')
fixed = [l.split(' ', 3) for l in open(f'{V}/known_findings.txt') if l.startswith('fixed:')]
out.append(f'\n## 4. Genuine defects found and repaired ({len(fixed)})\nEach is a `fix:` commit in /repo (see `known_findings.txt`); no finding is left open.\n')
for _, p, c, t in fixed:
    out.append(f'- {p.split("=")[1]} `{c}` {t.strip()}')
notes = json.load(open(f'{V}/tools/design_seeds.json'))
out.append('\n## 5. Planted bugs (`seeded/`) and what catches them\nAll are caught by the quick check of their property, run with `tools/tryseed.sh`; the last column says when a check had to be strengthened first.\n\n| id | property | needs | breaks | history |\n|---|---|---|---|---|')
for d in sorted(glob.glob(f'{V}/seeded/*')):
    m, i = json.load(open(d + '/meta.json')), os.path.basename(d)
    out.append(f"| {i} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {notes.get(i, 'caught at first')} |")
out.append(rd('design_tail.md'))
open(f'{V}/DESIGN.md', 'w').write('\n'.join(out))
