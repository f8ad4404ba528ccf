#!/usr/bin/env python3
# Turns the planted bugs described in seeds/*.py into /verif/seeded/<id>/ and tries each in a scratch copy of /repo:
# builds, stable tests, demonstration, and (optionally) the check of its property.
#   seed.py ID... [--check] [--nobuild]
import sys, os, subprocess, json, glob, shutil, importlib.util
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); SR = '/tmp/sr'
def sh(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
SEEDS = {}
def seed(id, prop, edits, needs, breaks, demo): SEEDS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)
for f in sorted(glob.glob(ROOT + '/tools/seeds/*.py')):
    exec(compile(open(f).read(), f, 'exec'), {'seed': seed})
root = lambda f: '' if f.startswith('cmdline/') else 'src/'
ids = [a for a in sys.argv[1:] if not a.startswith('--')]; check = '--check' in sys.argv
if ids == ['all']: ids = list(SEEDS)
ids = [i for a in ids for i in SEEDS if i == a or (a.endswith('*') and i.startswith(a[:-1]))]
if not os.path.exists(SR):
    sh(f'cp -a /repo {SR}')
for fn in ('build.sh', 'test.sh'):
    open(f'/tmp/s{fn}', 'w').write(open(f'/opt/vp/{fn}').read().replace('/repo', SR))
base = json.load(open('/opt/vp/BASELINE.json'))
for i in ids:
    s = SEEDS[i]; d = f'{ROOT}/seeded/{i}'
    r = sh(f'git -C {SR} fetch -q /repo HEAD && git -C {SR} checkout -q -f FETCH_HEAD && git -C {SR} clean -fdq'); 
    if r.returncode: sys.exit(r.stdout)
    for f, a, b in s['edits']:
        p = f'{SR}/{root(f)}{f}'; t = open(p).read()
        if t.count(a) != 1: sys.exit(f'{i}: {f}: {t.count(a)} matches of {a!r}')
        open(p, 'w').write(t.replace(a, b))
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(d): os.remove(f'{d}/{f}')
    open(d + '/patch.diff', 'w').write(sh(f'git -C {SR} diff').stdout)
    out0 = []
    for f in sorted({e[0] for e in s['edits']}):
        bl = sh(f'git -C /repo blame -s HEAD -- {root(f)}{f}').stdout.split('\n'); first = sh('git -C /repo log --format=%h --reverse').stdout.split()[0]; n = 0; tot = 0
        for line in sh(f'git -C {SR} diff -U0 -- {root(f)}{f}').stdout.split('\n'):
            if line.startswith('@@'):
                a = line.split()[1][1:].split(','); k = int(a[1]) if len(a) > 1 else 1
                for j in range(k): tot += 1; n += bl[int(a[0]) - 1 + j].lstrip('^').startswith(first[:7])
        out0.append(f'{n}/{tot} original')
        if not n or n < tot: out0.append('NOT ORIGINAL LINES')
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    for f in ('candid', 'mic', 'ledger', 'ifaces', 'httpcert'): shutil.copy(f'{ROOT}/lib/{f}.mjs', d)
    shutil.copy(f'{ROOT}/tools/demo/ic.mjs', d); imp = ''; pre = ''
    if any(e[0].startswith('cmdline/') for e in s['edits']):
        for f in ('bls', 'bls_const', 'replica', 'tool', 'toolhost'): shutil.copy(f'{ROOT}/lib/{f}.mjs', d)
        shutil.copy(f'{ROOT}/tools/demo/tl.mjs', d); imp = "import { collection, tool, ME } from './tl.mjs';\n"
        pre = 'cargo build --workspace --exclude integration_tests --bins --locked --offline -q 2>/dev/null || exit 2\n'
    open(d + '/demo.mjs', 'w').write("import { World, MGMT, L, I, verify, sha256, P, acc, ops, J, CAN, IDX, LED, ARC, ledger, storage, funded, scripted, index, blk, kA, kT, kB, want, ok, hex, http, fetch, principalText, principalBytes } from './ic.mjs';\n" + imp + s['demo'].strip() + '\n')
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n# ' + s['breaks'].replace('\n', ' ') + '\n[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh\n' + pre + 'exec node "$(dirname "$(realpath "$0")")/demo.mjs"\n'); os.chmod(d + '/demo.sh', 0o755)
    out = [i, s['prop'], *out0]
    r0 = sh(f'bash {d}/demo.sh', cwd='/repo'); out.append('clean demo ' + ('ok' if r0.returncode == 0 else 'BAD: ' + r0.stdout[-300:]))
    if '--nobuild' not in sys.argv:
        r = sh('bash /tmp/sbuild.sh')
        if r.returncode: print(i, 'DOES NOT BUILD', r.stdout[-1500:]); continue
        sh('bash /tmp/stest.sh /tmp/st.json'); t = json.load(open('/tmp/st.json'))
        miss = [x for x in base['stable'] if x not in t['passed']]
        out.append('tests ok' if not miss else f'TESTS FAIL {miss}')
        r1 = sh(f'bash {d}/demo.sh', cwd=SR); out.append('demo fails: ' + r1.stdout.strip()[-160:] if r1.returncode else 'DEMO PASSES WITH THE BUG ' + r1.stdout[-200:])
    if check:
        r = sh(f'node check.mjs {s["prop"]}', cwd=ROOT, env={**os.environ, 'VERIF_REPO': SR}); v = f'VIOLATION property={s["prop"]}' in r.stdout
        out.append(('caught: ' + r.stdout.strip().split('\n')[1][:150]) if r.returncode == 1 and v else f'MISSED rc={r.returncode} ' + r.stdout[-300:])
    print(' | '.join(out), flush=True)
