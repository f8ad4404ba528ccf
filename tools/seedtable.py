# Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json.
import json, glob, re, os
rows = ['| planted bug | caught by | what it needs | what it breaks |', '|---|---|---|---|']
for f in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(f)); rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
t = open('DESIGN.md').read()
t = re.sub(r'(<!-- seeds -->\n).*?(<!-- /seeds -->)', lambda m: m[1] + '\n'.join(rows) + '\n' + m[2], t, flags=re.S)
open('DESIGN.md', 'w').write(t)
