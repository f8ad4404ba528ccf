#!/usr/bin/env node
// node check.mjs <property id>            run the check (tier from VERIF_TIER)
// node check.mjs --replay <replay file>   re-execute one violation, step by step
import fs from 'fs'; import path from 'path'; import { fileURLToPath, pathToFileURL } from 'url';
import { runCheck, explore, loadCodes } from './lib/engine.mjs'; import { ROOT, TIER } from './lib/build.mjs'; import { J } from './lib/ledger.mjs';
const fileOf = (id) => path.join(ROOT, 'checks', id + '.mjs');
const [a, b, c] = process.argv.slice(2);
if (a === '--replay') {
  const v = JSON.parse(fs.readFileSync(b)); const m = (await import(pathToFileURL(path.join(ROOT, v.check)))).default;
  const scn = m.scenarios(TIER).find((s) => s.name === v.scenario);
  const r = explore(scn, loadCodes(m.codes ?? ['core_nft']), { path: v.idx, log: (x, r) => { if (r === undefined) console.log('> ' + x.label); else console.log('    ' + J(r.outcome ?? r)); } });
  console.log(r.violation ? `VIOLATED: [${r.violation.cls}] ${r.violation.msg}` : 'held'); process.exit(r.violation ? 1 : 0);
}
await runCheck(fileOf(a), { only: b });
