// Runs the canisters built by the project (target/wasm32-unknown-unknown/release, below the working directory) on a
// small simulator of the Internet Computer.
import fs from 'fs'; import zlib from 'zlib'; import { World, compile, MGMT } from './mic.mjs'; import * as L from './ledger.mjs'; import * as I from './ifaces.mjs';
import { principalBytes, principalText, parseDid, sha256 } from './candid.mjs'; import { verify } from './httpcert.mjs';
export { World, MGMT, L, I, verify, sha256, principalText, principalBytes };
export const { P, acc, ops, J } = L;
export const wasm = (n) => compile(fs.readFileSync(`target/wasm32-unknown-unknown/release/${n}.wasm`));
export const CAN = principalText(Buffer.from([200, 9])), IDX = principalText(Buffer.from([201, 9]));
const sorted = (x) => (Array.isArray(x) ? x.map(sorted) : x && typeof x === 'object' && !Buffer.isBuffer(x) ? Object.fromEntries(Object.keys(x).sort().map((k) => [k, sorted(x[k])])) : x);
export function want(name, got, exp) { if (J(sorted(got)) !== J(sorted(exp))) { console.log(`${name}: got ${J(got)}, expected ${J(exp)}`); process.exit(1); } }
export function ok(name, cond, x) { if (!cond) { console.log(`${name}: ${x === undefined ? 'no' : J(x)}`); process.exit(1); } }
// from 'released': the version published in src/core_nft/wasm, which up() upgrades to the one built
export function ledger(init = {}, from) {
  const w = new World(); w.time = L.T0; const now = wasm('core_nft'), c = w.add(CAN, from ? { ...compile(zlib.gunzipSync(fs.readFileSync('src/core_nft/wasm/core_nft_canister.wasm.gz'))), didText: now.didText } : now); c.next = now; const r = w.init(c, [{ Init: L.initArgs(init) }], P(1)); if (r.trap) throw new Error(r.trap); w.tick(0);
  const s = { w, c, step: 200_000_000n,
    do(o) { w.advance(o.dt ?? s.step); return w.call(CAN, o.c, o.m, ...L.resolve(o.a, w.time)); },
    must(o) { const r = s.do(o), v = r.ok, e = Array.isArray(v) ? v : [v]; if (r.ok === undefined || /"Err"/.test(J(e))) throw new Error('setup: ' + o.m + ' ' + J(r)); return v; },
    q(m, ...a) { return w.query(CAN, P(9), m, ...a).ok; }, qAs(p, m, ...a) { return w.query(CAN, P(p), m, ...a); },
    up() { w.advance(s.step); const r = w.upgrade(c, [{ Upgrade: { version: { major: 0, minor: 0, patch: 2 }, commit_hash: 'd' } }], P(1)); if (r.trap) { console.log('upgrade failed: ' + r.trap); process.exit(1); } },
    raw(p, m, a) { return w.call(CAN, P(p), m, a); },
    blocks() { return s.q('icrc3_get_blocks', [{ start: 0n, length: 1000n }]).blocks.map((b) => b.block.Map && Object.fromEntries(b.block.Map)); },
    tx(i) { return Object.fromEntries(s.blocks()[i].tx.Map); } };
  return s;
}
// the management canister creates real storage canisters
export function storage(s) {
  const st = compile(zlib.gunzipSync(fs.readFileSync('wasm/storage_canister.wasm.gz'))); s.created = 0;
  s.w.env = (m, w) => {
    if (m.callee !== MGMT) return; const [a] = I.decArgs(I.MGMT_DID, m.method, m.arg);
    if (m.method === 'create_canister') { const id = principalText(Buffer.from([150 + s.created++, 2])); w.add(id, st); return { reply: I.encRets(I.MGMT_DID, m.method, [{ canister_id: id }]) }; }
    if (m.method === 'install_code') { const k = w.can(a.canister_id), r = k.run(() => k.ex.canister_init(), { arg: a.arg, caller: principalBytes(m.from) }); w.commitCalls(k, r, null); return { reply: I.encRets(I.MGMT_DID, m.method, []) }; }
    return { reject: [4, 'no'] };
  };
  return s;
}
// the other canisters are played by f(method, decoded argument, callee) -> reply values, or { reject } ; storage replies are encoded with the storage canister's interface
export function scripted(s, f) {
  const st = compile(zlib.gunzipSync(fs.readFileSync('wasm/storage_canister.wasm.gz'))), did = parseDid(st.didText); s.log = [];
  s.w.env = (m) => { const d = m.callee === MGMT ? I.MGMT_DID : did, a = I.decArgs(d, m.method, m.arg)[0]; if (/canister_status|deposit_cycles/.test(m.method)) return { reject: [4, 'no'] }; s.log.push(m.method); const r = f(m.method, a, m.callee); return r.reject ? { reject: [4, 'no'] } : { reply: I.encRets(d, m.method, r) }; };
  return s;
}
export const hex = (b) => sha256(b).toString('hex');
export const http = (s, p, can = CAN) => I.httpGet(s.w, can, p, principalBytes(P(9)));
export function fetch(s, p) { let can = CAN, r; for (let k = 0; k < 6; k++) { r = I.httpFetch(s.w, can, p, P(9)); if (r.trap || r.status !== 307) break; const m = r.headers.find(([x]) => x === 'location')[1].match(/^https:\/\/(.*)\.raw\.icp0\.io(.*)$/); can = m[1]; p = m[2]; } return r; }
// the index; blocks() is what the ledger holds
export const LED = principalText(Buffer.from([202, 9])), ARC = principalText(Buffer.from([203, 9]));
let ser = 0n;
const T = (x) => ({ Text: x }), N = (n) => ({ Nat: BigInt(n) });
export const blk = (k, { t, f, o, s, meta } = {}) => { ser++; const p = (i) => (i === undefined ? undefined : T(P(i))); return L.sortVal(L.mapOf({ btype: T(k), ts: N(L.T0 + ser), phash: { Blob: Buffer.alloc(32, Number(ser % 251n)) }, tx: L.mapOf({ op: T(k), tid: t === undefined ? undefined : N(t), from: p(f), to: p(o), spender: p(s), meta, created_at_time: N(L.T0 + ser) }) })); };
export function index(blocks, from) {
  const w = new World(); w.time = L.T0; const now = wasm('index_icrc7'), c = w.add(IDX, from ? { ...compile(zlib.gunzipSync(fs.readFileSync('src/index_icrc7/wasm/index_icrc7_canister.wasm.gz'))), didText: now.didText } : now), did = parseDid(wasm('core_nft').didText);
  c.next = now; const r = w.init(c, [{ Init: { test_mode: false, authorized_principals: [], version: { major: 0, minor: 0, patch: 1 }, commit_hash: 'c', ledger_canister_id: LED } }], P(1)); if (r.trap) throw new Error(r.trap); w.tick(0);
  const s = { w, c, blocks, arch: 0, down: false, dead: false,
    answer(m) {
      if (s.down || (s.dead && m.callee === ARC)) return { reject: [4, 'down'] };
      const [rs] = I.decArgs(did, 'icrc3_get_blocks', m.arg), n = s.blocks.length, out = [], old = [];
      for (const r of rs) for (let i = Number(r.start); i < Number(r.start + r.length) && i < n; i++) (m.callee === ARC || i >= s.arch ? out : old).push(i);
      return { reply: I.encRets(did, 'icrc3_get_blocks', [{ log_length: BigInt(n), blocks: out.map((i) => ({ id: BigInt(i), block: s.blocks[i] })), archived_blocks: old.length ? [{ args: [{ start: BigInt(old[0]), length: BigInt(old.length) }], callback: { principal: ARC, method: 'icrc3_get_blocks' } }] : [] }]) };
    },
    round(n = 1) { for (let k = 0; k < n; k++) w.tick(60_000_000_000n); },
    get(filters, o = {}) { return w.call(IDX, P(9), 'get_blocks', { filters, start: BigInt(o.start ?? 0), length: BigInt(o.length ?? 50), sort_by: o.sort ? { [o.sort]: null } : null }); },
    ids(filters, o) { const r = s.get(filters, o); return r.ok ? r.ok.blocks.map((b) => Number(b.id)) : r; },
    up() { const r = w.upgrade(c, [{ Upgrade: { version: { major: 0, minor: 0, patch: 2 }, commit_hash: 'd' } }], P(1)); if (r.trap) { console.log('upgrade failed: ' + r.trap); process.exit(1); } } };
  w.env = (m) => s.answer(m); return s;
}
export const kA = (i) => ({ Account: acc(i) }), kT = (t) => ({ TokenId: BigInt(t) }), kB = (k) => ({ BlockType: k });
// real storage canisters with a balance each, told by the management canister; s.gifts: what each is given
export function funded(s) {
  const st = compile(zlib.gunzipSync(fs.readFileSync('wasm/storage_canister.wasm.gz'))); s.bal = new Map(); s.gifts = [];
  const z = (ks) => Object.fromEntries(ks.split(' ').map((k) => [k, 0n]));
  s.w.env = (m, w) => {
    if (m.callee !== MGMT) return; const [a] = I.decArgs(I.MGMT_DID, m.method, m.arg), ret = (...x) => ({ reply: I.encRets(I.MGMT_DID, m.method, x) });
    if (m.method === 'create_canister') { const id = principalText(Buffer.from([150 + s.bal.size, 2])); s.bal.set(id, m.cycles); w.add(id, st); return ret({ canister_id: id }); }
    if (m.method === 'install_code') { const k = w.can(a.canister_id), r = k.run(() => k.ex.canister_init(), { arg: a.arg, caller: principalBytes(m.from) }); w.commitCalls(k, r, null); return ret(); }
    if (m.method === 'canister_status') return ret({ status: { running: null }, module_hash: null, memory_size: 1n, cycles: s.bal.get(a.canister_id), reserved_cycles: 0n, idle_cycles_burned_per_day: 0n, settings: { controllers: [CAN], log_visibility: { public: null }, ...z('compute_allocation memory_allocation freezing_threshold reserved_cycles_limit wasm_memory_limit wasm_memory_threshold') }, memory_metrics: z('wasm_memory_size stable_memory_size global_memory_size wasm_binary_size custom_sections_size canister_history_size wasm_chunk_store_size snapshots_size'), query_stats: z('num_calls_total num_instructions_total request_payload_bytes_total response_payload_bytes_total') });
    if (m.method === 'deposit_cycles') { s.bal.set(a.canister_id, s.bal.get(a.canister_id) + m.cycles); s.gifts.push(m.cycles); return ret(); }
    return { reject: [4, 'no'] };
  };
  return s;
}
