#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json from one table (claimed = checks/<id>.mjs exists).
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C, I = 'src/core_nft/src/', 'src/index_icrc7/src/'
if not os.path.isdir('/repo/src/core_nft/src'): raise SystemExit('layout')
P = []
def p(id, title, statement, over, text, tests, files, mech, note, state=None, obs=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=tests, files=files, mech=mech, note=note, state=state, obs=obs))
exec(open(os.path.join(R, 'tools/props.py')).read())
with open(os.path.join(R, 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['id']
        a = dict(files=x['files'], mechanism=[dict(name=n, where=w) for n, w in x['mech']])
        if x['state']: a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in x['state']]
        if x['obs']: a['observe_at'] = x['obs']
        a['hook_needed'] = None
        f.write(json.dumps(dict(id=x['id'], title=x['title'], statement=x['statement'], quantifier=x['quantifier'], why_tests_cant=x['why_tests_cant'], anchors=a)) + '\n')
checks, na = [], []
for x in P:
    if x['id'] in NA: na.append(dict(property=x['id'], reason=NA[x['id']])); continue
    if not os.path.exists(os.path.join(R, 'checks', x['id'] + '.mjs')): na.append(dict(property=x['id'], reason='No check yet.')); continue
    checks.append(dict(property=x['id'], quick_cmd=f"VERIF_TIER=quick node check.mjs {x['id']}", thorough_cmd=f"VERIF_TIER=thorough node check.mjs {x['id']}", technique=TECH.get(x['id'], TECH['']), level='model_checking', level_note=x['note']))
json.dump(dict(version=1, setup_cmd='node lib/setup.mjs', checks=checks, not_applicable=na, notes='No hooks in /repo: the checks drive the canister wasm built from the working tree through its public interface, inside a deterministic model of the Internet Computer (lib/mic.mjs). /repo carries fix: commits only; see DESIGN.md and known_findings.txt.'), open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties', len(checks), 'checks')
