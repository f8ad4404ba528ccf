// Exhaustive bounded exploration.  A scenario fixes an initial state, the actions enabled in each state and a depth;
// every sequence of actions up to that depth is executed on the real canister code (snapshot / restore between
// branches) and compared with the reference after every action.  Work is split over threads by prefix.
import { Worker } from 'worker_threads';
import fs from 'fs'; import os from 'os'; import path from 'path'; import { fileURLToPath, pathToFileURL } from 'url';
import { compile } from './mic.mjs'; import { buildWasm, buildTool, archiveWasm, ROOT, REPO, TIER } from './build.mjs';
import { sha256 } from './candid.mjs'; import zlib from 'zlib';

export class Fail extends Error { constructor(cls, msg) { super(msg); this.cls = cls; } }
const HEX = (s) => sha256(Buffer.from(s)).toString('latin1', 0, 8);

export function explore(scn, codes, opt = {}) {
  const st = { transitions: 0, nodes: 0, leaves: 0, failed: 0, unclaimed: {}, states: new Set(), outcomes: {}, maxDepth: 0, samples: [] };
  const ad = scn.adapter, ctx = ad.make(scn, codes);
  const claims = scn.claims ?? [/./];
  const claimed = (c) => claims.some((r) => r.test(c));
  let stop = false, violation = null;
  const trace = [], idx = [];
  const report = (f) => {
    if (!(f instanceof Fail)) throw f;
    if (!claimed(f.cls)) { st.unclaimed[f.cls] = (st.unclaimed[f.cls] ?? 0) + 1; st.unclaimedSample ??= { cls: f.cls, msg: f.message, trace: trace.map((a) => a.label) }; return; }
    if (!violation || violation.trace.length > trace.length) violation = { cls: f.cls, msg: f.message, trace: trace.map((a) => a.label), idx: idx.slice() };
    if (opt.onViolation) opt.onViolation(); stop = true;
  };
  const PD = Math.min(opt.prefix ?? 2, scn.depth); let seq = 0;
  function visit(depth, left) { // ctx is at a node whose observation passed
    if (stop || (opt.stopped && opt.stopped())) return;
    let acts = ad.actions(ctx, depth).map((a, i) => [a, i]);
    if (left <= 0) acts = acts.filter(([a]) => a.drain); // what is under way is brought to its end
    if (!acts.length) { if (depth >= PD || opt.first) { st.leaves++; if (st.samples.length < 2 || (st.leaves % 997 === 0 && st.samples.length < 4)) st.samples.push(trace.map((a) => a.label)); } return; }
    const snap = ad.save(ctx);
    for (let i = 0; i < acts.length; i++) {
      const [a, ai] = acts[i];
      if (depth + 1 === PD && opt.claim && !opt.claim(seq++)) continue;
      ad.load(ctx, snap); trace.push(a); idx.push(ai);
      const mine = depth + 1 >= PD || opt.first;
      if (mine) st.transitions++;
      let ok = true, info = {};
      try { info = ad.apply(ctx, a) ?? {}; if (!info.skipObserve) ad.observe(ctx, a, depth + 1 === scn.depth); } catch (f) { ok = false; report(f); }
      if (mine) { st.nodes++; st.maxDepth = Math.max(st.maxDepth, depth + 1); if (ok) { st.states.add(HEX(ad.key(ctx))); const o = info.outcome ?? ''; if (o) st.outcomes[o] = (st.outcomes[o] ?? 0) + 1; if (info.failed) st.failed++; } }
      if (ok && !stop) visit(depth + 1, info.free ? left : Math.min(left - 1, info.failed ? scn.afterFail ?? 99 : 99, info.final ? 0 : 99));
      trace.pop(); idx.pop();
      if (stop) break;
    }
  }
  let void_ = false;
  try { ad.prelude?.(ctx); ad.observe(ctx, null, false); } catch (f) { report(f); void_ = true; }
  if (!stop && !void_) { if (opt.path) { for (const i of opt.path) { const a = ad.actions(ctx, trace.length)[i]; if (!a) throw new Error('replay diverged: action ' + i + ' not enabled'); trace.push(a); idx.push(i); opt.log?.(a); try { const r = ad.apply(ctx, a); opt.log?.(a, r); ad.observe(ctx, a, true); } catch (f) { report(f); if (stop) break; } } } else visit(0, scn.depth); }
  return { st, violation };
}

// ---- threads ----
export async function loadScenarios(file, tier) { const m = await import(pathToFileURL(file)); return { meta: m.default, list: m.default.scenarios(tier) }; }
export function loadCodes(need, opt = 0) {
  const codes = {};
  for (const n of need) {
    if (n === 'core_nft' || n === 'index_icrc7') codes[n] = compile(buildWasm(n, opt).bytes);
    else if (n === 'core_nft released' || n === 'index_icrc7 released') { const k = n.split(' ')[0]; codes[n] = { ...compile(zlib.gunzipSync(fs.readFileSync(path.join(ROOT, `lib/published/${k}.wasm.gz`)))), didText: fs.readFileSync(path.join(ROOT, `lib/published/${k}.did`), 'utf8') }; }
    else if (n === 'tool') codes.tool = buildTool();
    else if (n === 'storage') codes[n] = compile(zlib.gunzipSync(fs.readFileSync(path.join(REPO, 'wasm/storage_canister.wasm.gz'))));
    else if (n === 'archive') codes[n] = compile(zlib.gunzipSync(archiveWasm()));
    else throw new Error('unknown code ' + n);
  }
  return codes;
}
export function knownFindings(id) {
  const f = path.join(ROOT, 'known_findings.txt'); if (!fs.existsSync(f)) return [];
  return fs.readFileSync(f, 'utf8').split('\n').map((l) => l.match(/^KNOWN-FINDING: property=(\S+) key=(\S+) (.*)$/)).filter((m) => m && m[1] === id).map((m) => ({ key: m[2], text: m[3] }));
}
export async function runCheck(file, { only } = {}) {
  const t0 = Date.now(), tier = TIER;
  const { meta, list } = await loadScenarios(file, tier);
  const id = meta.id;
  const codes = loadCodes(meta.codes ?? ['core_nft'], meta.opt);
  const tBuild = (Date.now() - t0) / 1000;
  process.env.TMPDIR = fs.mkdtempSync(path.join(os.tmpdir(), 'verif-tmp-')); const tmp = process.env.TMPDIR; process.on('exit', () => fs.rmSync(tmp, { recursive: true, force: true })); // the scratch files of all threads
  const N = Math.max(1, Math.min(Number(process.env.VERIF_WORKERS) || os.availableParallelism(), 8));
  const ctl = new SharedArrayBuffer(64), C = new Int32Array(ctl), BASE = 1 << 22, claimBuf = new SharedArrayBuffer(4 * BASE);
  const ws = []; for (let i = 0; i < N; i++) ws.push(new Worker(new URL('./worker.mjs', import.meta.url), { workerData: { engine: true, file, tier, codes, ctl, claimBuf, first: i === 0 } }));
  const ask = (w, m) => new Promise((res, rej) => {
    const on = { message: res, error: rej, exit: () => rej(new Error('worker ended')) }, off = () => { for (const k in on) w.off(k, h[k]); }, h = {};
    for (const k in on) w.on(k, h[k] = (x) => { off(); on[k](x); }); w.postMessage(m);
  });
  const budget = (tier === 'quick' ? 400 : 3000) * 1000;
  const tot = { states: new Set(), transitions: 0, leaves: 0, failed: 0, outcomes: {}, unclaimed: {}, samples: [], scn: [] };
  let violation = null, err = null, capped = [];
  for (let s = 0; s < list.length && !violation && !err; s++) {
    if (only !== undefined && !list[s].name.includes(only)) continue;
    if (Date.now() - t0 > budget) { capped.push(list[s].name); continue; }
    const ts = Date.now();
    new Int32Array(claimBuf).fill(0);
    const timer = setTimeout(() => { capped.push(list[s].name); Atomics.store(C, 0, 2); }, Math.max(1000, budget - (Date.now() - t0)));
    const rs = await Promise.all(ws.map((w) => ask(w, { scn: s, prefix: list[s].prefix ?? 2, base: 0 }).catch((e) => ({ err: String(e.stack ?? e) }))));
    clearTimeout(timer); if (Atomics.load(C, 0) === 2) Atomics.store(C, 0, 0);
    const sc = { name: list[s].name, depth: list[s].depth, states: new Set(), transitions: 0, sequences: 0, failed: 0 };
    for (const r of rs) {
      if (r.err) { err = r.err; continue; }
      const { st, violation: v } = r.ok;
      for (const x of st.states) { tot.states.add(s + x); sc.states.add(x); }
      tot.transitions += st.transitions; tot.leaves += st.leaves; tot.failed += st.failed; sc.transitions += st.transitions; sc.sequences += st.leaves; sc.failed += st.failed;
      for (const k in st.outcomes) tot.outcomes[k] = (tot.outcomes[k] ?? 0) + st.outcomes[k];
      for (const k in st.unclaimed) tot.unclaimed[k] = (tot.unclaimed[k] ?? 0) + st.unclaimed[k];
      tot.unclaimedSample ??= st.unclaimedSample;
      if (tot.samples.length < 6) tot.samples.push(...st.samples.slice(0, 1).map((t) => ({ scenario: list[s].name, sequence: t })));
      if (v && (!violation || v.trace.length < violation.trace.length)) violation = { ...v, scenario: list[s].name };
    }
    sc.states = sc.states.size; sc.wall_s = (Date.now() - ts) / 1000; tot.scn.push(sc);
    if (process.env.VERIF_VERBOSE) console.error(JSON.stringify(sc));
  }
  for (const w of ws) w.postMessage({ end: 1 });
  if (err) { console.error(err); console.log(`ERROR property=${id}: the machinery failed (no verdict)`); process.exit(3); }
  // known findings are demonstrated separately; each must be listed
  let extra = [];
  if (!violation && meta.findings && only === undefined) {
    const known = knownFindings(id);
    for (const f of meta.findings) {
      const r = await f.demo(codes);
      if (!r) continue;
      const k = known.find((x) => x.key === f.key);
      if (k) console.log(`KNOWN-FINDING: property=${id} ${f.key}: ${k.text}`); else violation = { scenario: 'finding:' + f.key, cls: 'finding', msg: r, trace: [], idx: [] };
      extra.push(f.key);
    }
  }
  const ev = { property: id, tier, seed: Number(process.env.VERIF_SEED ?? 1), level: 'model_checking',
    coverage: { states: tot.states.size, transitions: tot.transitions, traces_validated_against_impl: tot.leaves, samples: tot.samples, exhaustive: !violation && !capped.length, rejected_actions: tot.failed,
      distinct_outcomes: tot.outcomes, unclaimed_divergences: tot.unclaimed, scenarios: tot.scn, capped, known_findings: extra, bound: 'all action sequences up to the depth of each scenario; every transition executes the real canister wasm built from the working tree' },
    assumptions: meta.assumptions ?? ['microIC executes canister messages as the Internet Computer does (message atomicity, call contexts, timers, stable memory)', 'behaviour outside the scenario alphabets and depths is not explored'],
    wall_s: (Date.now() - t0) / 1000, violations: violation ? 1 : 0 };
  fs.mkdirSync(path.join(ROOT, 'evidence'), { recursive: true });
  fs.writeFileSync(path.join(ROOT, 'evidence', id + '.json'), JSON.stringify(ev, null, 1) + '\n');
  console.log(`${id} ${tier}: scenarios=${tot.scn.length} states=${tot.states.size} transitions=${tot.transitions} traces=${tot.leaves} build=${tBuild.toFixed(1)}s wall=${ev.wall_s.toFixed(1)}s` + (capped.length ? ` CAPPED=${capped}` : '') + (Object.keys(tot.unclaimed).length ? ` unclaimed=${JSON.stringify(tot.unclaimed)}` : ''));
  if (tot.unclaimedSample && process.env.VERIF_VERBOSE) console.error(JSON.stringify(tot.unclaimedSample));
  if (violation) {
    // confirm on a fresh world, alone
    if (!violation.cls.startsWith('finding')) {
      const scn = list.find((x) => x.name === violation.scenario);
      const r = explore(scn, codes, { path: violation.idx });
      if (!r.violation) { console.error('violation did not reproduce: ' + JSON.stringify(violation)); console.log(`ERROR property=${id}: a divergence did not reproduce`); process.exit(3); }
      violation.msg = r.violation.msg; violation.cls = r.violation.cls;
    }
    const dir = path.join(ROOT, 'replays'); fs.mkdirSync(dir, { recursive: true });
    const rp = path.join(dir, id + '.json');
    fs.writeFileSync(rp, JSON.stringify({ property: id, check: path.relative(ROOT, file), ...violation }, null, 1) + '\n');
    console.log(violation.msg); for (const [i, l] of violation.trace.entries()) console.log(`  ${i + 1}. ${l}`);
    console.log(`VIOLATION property=${id} replay=${path.relative(ROOT, rp)}`);
    process.exit(1);
  }
  process.exit(0);
}
