// P26: a canister running the released version is upgraded to this one with everything it holds, at any point.
import * as L from '../lib/ledger.mjs'; import * as V from '../lib/views.mjs'; import { UP, at, adv } from '../lib/mk.mjs'; import { released, carriedAdapter } from '../lib/relad.mjs';
import { LEDGER } from '../lib/ledgerad.mjs'; import { mgmtAdapter, up as mu } from '../lib/mgmtad.mjs'; import { archAdapter, job } from '../lib/archad.mjs'; import { fileAdapter, f } from '../lib/filead.mjs'; import { indexAdapter, BLOCKS, kA, kT, kB, BIG, get } from '../lib/idxad.mjs';
const { ops, acc, P } = L, MS = 1_000_000n;
const views = () => [...V.ownerViews(), ...V.meta(), ...V.approvalViews(), ...V.log(), ...V.settings(), ...V.perms(), ['icrc3_get_archives', { from: null }], ['icrc3_supported_block_types', null]];
const all = () => [...V.all(), ...V.perms()];
const core = { adapter: carriedAdapter, afterFail: 1, claims: [/^upgrade/, /^res\./, /^obs\./, /^carried\./] };
const pre = [ops.mint(1, [acc(1), acc(1, 1)], { meta: [['a', { Text: 'x' }], ['m', { Map: [['k', { Array: [{ Nat: 1n }, { Blob: Buffer.from([0, 255]) }] }]] }]] })];
const A = [ops.mint(1, [acc(2)]), ops.burn(1, 2), ops.xfer(1, 1, acc(2)), ops.apt(1, 1, acc(3), { exp: { now: 10n ** 12n }, memo: Buffer.from('m') }), ops.apc(1, acc(3)), ops.rvt(1, 1, null), ops.rvc(1, acc(3)), ops.xfrom(3, 1, acc(1), acc(2)), ops.umeta(1, 1, [['z', { Nat: 5n }]]), ops.ucol(1, { symbol: 'Q' }), ops.grant(1, 2, 'Minting'), ops.revoke(1, 1, 'UpdateMetadata')];
// calls the released version handles rightly
const B = [A[0], A[2], A[3], A[4], A[8], A[9], A[10], A[11], ops.xfer(1, 1, acc(2), { at: { now: 0n }, memo: Buffer.from('d') })];
const T = [...B.slice(0, 6), ops.xfrom(3, 2, acc(1, 1), acc(2)), ops.xfrom(3, 1, acc(1), acc(2)), ops.rvt(1, 1, acc(3)), ops.rvc(1, null), ops.burn(1, 2), ops.burn(2, 1), ops.mint(2, [acc(2)])];
const full = { symbol: 'FULL', name: 'Full', description: 'd', logo: 'https://a.example/l.png', supply_cap: 100n, max_query_batch_size: 50n, max_update_batch_size: 11n, max_take_value: 90n, default_take_value: 20n, max_memo_size: 33n, atomic_batch_transfers: false, tx_window: 1000n * MS, permitted_drift: 77n * MS, max_canister_storage_threshold: 12345n, max_approvals: 4n, max_revoke: 3n };
// files
const X = Buffer.from('0123456789'), steps = [f.init('a', X, 4), f.store('a', 0), f.store('a', 1), f.store('a', 2), f.fin('a'), f.init('b', X, 5), f.store('b', 0)];
const path = (q) => (M, d) => { const u = M.get('a'), v = M.get('b'); return [...(!u ? [steps[0]] : u.st !== 'Finalized' ? (u.got.size < 3 ? [steps[1 + u.got.size], f.cancel('a')] : [steps[4], f.cancel('a')]) : !v ? [steps[5]] : [steps[6], f.cancel('b')]), UP]; };
// index (the released version misses some of what an approval block names)
const round = { t: 'round', label: 'a minute passes' }, grow = (by) => ({ t: 'grow', by, label: `the ledger logs ${by} more` }), arch = (by) => ({ t: 'arch', by, label: `the ledger archives ${by}` }), up = { t: 'up', label: 'upgrade' };
// known finding
const findings = [
  { key: 'int-in-block', demo(codes) {
    const c = carriedAdapter.make({ init: {} }, codes), w = c.w, call = (o) => w.call(LEDGER, o.c, o.m, ...o.a), ok = (r) => r.ok && !r.ok.Err; w.advance(MS);
    if (!ok(call(ops.mint(1, [acc(1)], { meta: [['i', { Int: -5n }]] }))) || !ok(call(ops.umeta(1, 1, [['j', { Int: -6n }]])))) return;
    const r = w.upgrade(c.c, [{ Upgrade: { version: { major: 0, minor: 0, patch: 2 }, commit_hash: 'd' } }], P(1));
    return r.trap && 'a released ledger with an Int in a logged block cannot be upgraded: ' + r.trap.slice(0, 160);
  } },
];
export default { id: 'P26', findings, codes: ['core_nft', 'core_nft released', 'storage', 'archive', 'index_icrc7', 'index_icrc7 released'], scenarios: (tier) => { const q = tier === 'quick'; return [
  { ...core, name: 'everything is carried over', prelude: pre, carried: views, alphabet: (S, d) => (d === (q ? 2 : 3) ? [UP] : [...A, UP]), depth: q ? 3 : 4 },
  { ...core, name: 'later calls', prelude: pre, observe: all, alphabet: (S, d) => (d === 0 ? B : d === 1 ? [UP] : T), depth: q ? 4 : 5 },
  { ...core, name: 'later calls after two', prelude: pre, observe: all, alphabet: (S, d) => (d === 2 ? [UP] : S.tapp.size ? B.filter((o) => o.m !== 'icrc7_transfer') : B), depth: 3 },
  { ...core, name: 'integers', prelude: [ops.mint(1, [acc(1)], { meta: [['i', { Int: -5n }], ['j', { Int: 2n ** 40n }], ['n', { Nat: 2n ** 63n }]] })], observe: all, alphabet: (S, d) => (d === 0 ? [UP] : T), depth: 2 },
  { ...core, name: 'all settings', init: full, carried: views, alphabet: (S, d) => (d === 1 ? [UP] : [ops.mint(1, [acc(1)]), ops.ucol(1, { name: 'Z', supply_cap: 3n, tx_window: 1000n * MS, permitted_drift: 20n * MS, max_take_value: 7n })]), depth: 3 },
  { name: 'archives', adapter: released(archAdapter, 'core_nft'), afterFail: 1, claims: [/^(?!released)/], prelude: [ops.mint(1, [acc(1), acc(1, 1)])], alphabet: [ops.xfer(1, 1, acc(2)), ops.umeta(1, 1, [['z', { Nat: 5n }]]), ops.mint(1, [acc(2)]), job(), job(['ok', 'ok', 'refused'], 'its third request is refused'), UP], depth: q ? 4 : 5 },
  { name: 'files', adapter: released(fileAdapter, 'core_nft'), afterFail: 1, claims: [/^(?!released)/], alphabet: path(q), depth: q ? 7 : 9 },
  { name: 'clean-up', adapter: released(mgmtAdapter, 'core_nft'), afterFail: 1, claims: [/^(?!released)/], paths: ['a', 'b', 'c'], http: ['/a'], prelude: [mu.init(1, 'z'), mu.cancel(1, 'z')], menu: { get_storage_size: [{ size: 0n }], init_upload: [{ ok: 1 }], store_chunk: [{ ok: 1 }], finalize_upload: [{ ok: 1 }], cancel_upload: [{ ok: 1 }] },
    alphabet: [mu.init(1, 'a'), mu.store(1, 'a'), mu.fin(1, 'a'), mu.init(1, 'b'), { t: 'pass', dt: 12n * 3_600_000_000_000n, label: '12 h pass' }, { t: 'up', label: 'upgrade' }], depth: q ? 4 : 6, faults: 0 },
  { name: 'index', adapter: released(indexAdapter, 'index_icrc7'), claims: [/^(?!released)/], blocks: BLOCKS.filter((b) => /^7(mint|xfer|burn)/.test(b.k)), keys: [kA(1), kA(2), kA(3), kT(1), kT(2), kT(BIG), kB('7mint'), kB('7xfer')], alphabet: [grow(2), round, arch(2), up], n: 3, open: 2, faults: 0, modes: ['full'], depth: q ? 6 : 7 },
]; } };
