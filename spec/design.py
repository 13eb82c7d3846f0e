"""Makes DESIGN.md: `python3 spec/design.py`."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, 'tools'), os.path.join(V, 'spec')]
import props  # noqa
from checks import base
import checks.rules  # noqa
P = {json.loads(l)['id']: json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))}
out = []
for i in sorted(P):
    if i in base.RULES:
        out.append(f'**{i}. {P[i]["title"]}**\n')
        out += [f'- `{f.__name__}`: {s}' for f, s in base.RULES[i]]
        out.append('')
text = open(os.path.join(V, 'spec', 'design.md.in')).read()
text = text.replace('@RULES@', '\n'.join(out))
kf = json.load(open(os.path.join(V, 'known-findings.json')))['findings']
text = text.replace('@FIXED@', '\n'.join('- ' + k['what'] for k in kf if k['status'] == 'fixed') +
                    ''.join('\n\nOpen findings:\n\n- ' + k['what'] for k in kf if k['status'] != 'fixed'))
na = json.load(open(os.path.join(V, 'MANIFEST.json')))['not_applicable']
text = text.replace('@NA@', '\n'.join(f'- **{x["property"]} {P[x["property"]]["title"]}**: {x["reason"]}' for x in na) or 'None.')
rows = ['| planted bug | property | reported by |', '|---|---|---|']
for l in open(os.path.join(V, 'spec', 'catch.txt')):
    x = [y.strip() for y in l.split('|')]
    if len(x) >= 3:
        rows.append(f'| {x[0]} | {x[1]} | {x[2] or "(none)"} |')
text = text.replace('@CATCH@', '\n'.join(rows))
open(os.path.join(V, 'DESIGN.md'), 'w').write(text)
