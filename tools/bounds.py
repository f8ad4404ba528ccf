# Rewrites the table of explored bounds in DESIGN.md from the evidence files of the last quick run of every check.
import json, glob, re
rows = ['| check | scenario | depth | transitions | distinct states | sequences |', '|---|---|---|---|---|---|']
for f in sorted(glob.glob('evidence/*.json')):
    e = json.load(open(f))
    if e['tier'] != 'quick': continue
    for s in e['coverage']['scenarios']: rows.append(f"| {e['property']} | {s['name']} | {s['depth']} | {s['transitions']} | {s['states']} | {s['sequences']} |")
t = open('DESIGN.md').read()
t = re.sub(r'(<!-- bounds -->\n).*?(<!-- /bounds -->)', lambda m: m[1] + '\n'.join(rows) + '\n' + m[2], t, flags=re.S)
open('DESIGN.md', 'w').write(t)
