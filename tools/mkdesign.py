"""Writes DESIGN.md: fixed text, plus the per-property plan below, the known findings and the table of planted changes."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
MAN = json.load(open(os.path.join(V, 'MANIFEST.json')))
HEAD = open(os.path.join(V, 'tools', 'design_head.md')).read()
PLAN = {}
exec(open(os.path.join(V, 'tools', 'plans.py')).read())
out = [HEAD.rstrip(), '', '## Per-property plan', '']
na = {x['property']: x['reason'] for x in MAN['not_applicable']}
for p in PROPS:
    i = p['id']
    out.append(f"### {i} {p['title']}")
    out.append('')
    out.append(p['statement'])
    out.append('')
    if i in na:
        out.append(f'Not applicable: {na[i]}')
    else:
        out.append(PLAN[i].strip())
    out.append('')
out += ['## Defects found', '', 'Repaired (each is one `fix:` commit in /repo; `known_findings.txt` has the same list):', '']
kf = open(os.path.join(V, 'known_findings.txt')).read().splitlines()
for l in kf:
    if l.startswith('fixed:'):
        _, prop, com, *w = l.split(' ')
        out.append(f"* {prop.split('=')[1]} ({com}): {' '.join(w)}")
open_ = [json.loads(l) for l in kf if l.startswith('{')]
out += ['', 'Recorded, not repaired:' if open_ else 'None is left open.', '']
for d in open_:
    out.append(f"* {d['property']} ({d['id']}): {d['what']}")
out += ['', '## Planted changes', '', 'Every one was confirmed with `tools/mkseed.py` (demo 0 / nonzero) and `tools/tryseed.sh --tests` (stable tests pass; check run in a scratch copy).', '',
        '| change | property | what it breaks | needs | caught |', '|---|---|---|---|---|']
MISSED = {}
exec(open(os.path.join(V, 'tools', 'missed.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'missed.py')) else None
for d in sorted(glob.glob(os.path.join(V, 'seeded', '*'))):
    m = json.load(open(d + '/meta.json'))
    n = os.path.basename(d)
    out.append(f"| {n} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {MISSED.get(n, 'yes, ' + m['property'])} |")
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
