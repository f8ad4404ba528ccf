// One-time setup: build both canisters and run a smoke test of the execution environment.
import { buildWasm } from './build.mjs'; import { compile, World } from './mic.mjs'; import * as L from './ledger.mjs';
for (const n of ['core_nft', 'index_icrc7']) { const { bytes } = buildWasm(n); compile(bytes); console.log(n, bytes.length); }
const w = new World(); w.time = L.T0; const c = w.add(L.P(100), compile(buildWasm('core_nft').bytes));
const r = w.init(c, [{ Init: L.initArgs({}) }], L.P(1)); if (r.trap) { console.error(r.trap); process.exit(1); } console.log('ok');
