// P20: every collection setting reads back as it was installed or last updated, updates change exactly the settings
// given, and the limits in force are the ones reported.
import * as L from '../lib/ledger.mjs'; import * as V from '../lib/views.mjs'; import { check, UP } from '../lib/mk.mjs';
const { ops, acc, P } = L; const MS = 1_000_000n;
const observe = (S) => [...V.settings(), ...V.owners(3), ['icrc7_tokens', null, 2n], ['icrc7_tokens', null, 5n], ['icrc7_owner_of', [1n, 2n, 3n]]];
const claims = [/^obs\./, /^res\./, /^init$/];
const VALS = { symbol: ['A', 'B'], name: ['X', 'Y'], description: ['d1', 'd2'], logo: ['https://a.example/1.png', 'https://a.example/2.png'], supply_cap: [2n, 5n], max_query_batch_size: [2n, 9n], max_update_batch_size: [1n, 3n], max_take_value: [3n, 8n], default_take_value: [1n, 4n], max_memo_size: [1n, 64n], atomic_batch_transfers: [false, true], tx_window: [1000n * MS, 3000n * MS], permitted_drift: [10n * MS, 200n * MS], max_canister_storage_threshold: [1n << 30n, 1n << 31n] };
const K = Object.keys(VALS).filter((k) => k !== 'atomic_batch_transfers');
const single = (i) => K.map((k) => ops.ucol(1, { [k]: VALS[k][i] }));
const edge = [ops.ucol(1, { description: '' }), ops.ucol(1, { name: '' }), ops.ucol(1, { symbol: '' }), ops.ucol(1, { logo: '' }), ops.ucol(1, { max_memo_size: 0n }), ops.ucol(1, { max_update_batch_size: 0n }), ops.ucol(1, { max_query_batch_size: 0n }), ops.ucol(1, { max_take_value: 0n }), ops.ucol(1, { default_take_value: 0n }), ops.ucol(1, { tx_window: 0n }), ops.ucol(1, { permitted_drift: 0n }), ops.ucol(1, { supply_cap: 0n })];
// limits beyond any machine word mean that there is none
const HUGE = [2n ** 31n, 2n ** 32n, 2n ** 32n + 1n, 2n ** 64n - 1n, 2n ** 64n, 2n ** 70n], LIM = ['supply_cap', 'max_query_batch_size', 'max_update_batch_size', 'max_take_value', 'default_take_value', 'max_memo_size', 'tx_window', 'permitted_drift'];
const huge = LIM.flatMap((k) => HUGE.map((v) => ops.ucol(1, { [k]: v })));
const pairs = K.flatMap((k, i) => K.slice(i + 1).map((l) => ops.ucol(1, { [k]: VALS[k][0], [l]: VALS[l][1] })));
const allOf = (i) => Object.fromEntries(Object.keys(VALS).map((k) => [k, k === 'atomic_batch_transfers' ? false : VALS[k][i]]));
const use = [ops.mint(1, [acc(1), acc(1)]), ops.mint(1, [acc(1)], { memo: Buffer.alloc(2) }), ops.xfer(1, 1, acc(1, 1), { memo: Buffer.alloc(2) }), ops.xfers(1, [[1, acc(2)], [2, acc(2)]]), ops.xfer(1, 1, acc(1, 1), { at: { now: -1500n * MS } }), ops.xfer(1, 1, acc(1, 1), { at: { now: 100n * MS } }), ops.apt(1, 1, acc(3), { at: { now: -1500n * MS } })];
const pre = [ops.mint(1, [acc(1)])];
const inits = [{}, allOf(0), allOf(1), ...K.map((k) => ({ [k]: VALS[k][1] })), ...K.map((k) => Object.fromEntries(Object.entries(allOf(0)).filter(([l]) => l !== k))), { max_approvals: 7n }, { max_revoke: 3n }, { max_approvals: 3n, max_revoke: 7n }];
export default check('P20', (q) => [
  ...inits.map((init, i) => ({ name: 'installed ' + i, init, alphabet: use, depth: 2, afterFail: 1, observe, claims, prefix: 1 })),
  { name: 'updates of one and two', prelude: pre, init: allOf(0), alphabet: [...single(1), ...pairs, ops.ucol(1, {}), ops.ucol(1, allOf(1)), ops.ucol(2, allOf(1))], depth: 1, observe, claims },
  { name: 'sequences of updates', prelude: pre, alphabet: [...single(0), ops.ucol(1, allOf(1)), ops.ucol(2, { name: 'hack' })], depth: q ? 2 : 3, observe, claims },
  { name: 'updates in force', prelude: pre, alphabet: (S, d) => (d === 0 ? [...single(0), ...single(1)] : [...use, ops.ucol(1, { max_take_value: 2n })]), depth: q ? 3 : 4, afterFail: 1, observe, claims },
  { name: 'empty and zero', prelude: pre, alphabet: (S, d) => (d === 0 ? edge : d === 1 ? [...use, ops.mint(1, [acc(1)], { memo: Buffer.alloc(1) }), ops.mint(1, [acc(1)], { memo: Buffer.alloc(0) }), ops.xfer(1, 1, acc(1, 1), { memo: Buffer.alloc(1) }), UP] : edge.slice(0, 3)), depth: q ? 2 : 3, afterFail: 1, observe, claims },
  { name: 'no limit', prelude: pre, alphabet: (S, d) => (d === 0 ? huge : [...use, ops.apc(1, acc(3), { at: { now: -1500n * MS } }), ops.rvt(1, 1, null, { at: { now: -1500n * MS } }), ops.xfrom(1, 1, acc(1), acc(2), { at: { now: 10n ** 15n } }), ops.xfer(1, 1, acc(2), { at: { now: 10n ** 15n } }), ops.xfer(1, 1, acc(2), { at: 0n }), ops.mint(1, Array(101).fill(acc(1))), UP]), depth: 2, afterFail: 1, observe: (S) => [...observe(S), ['icrc7_owner_of', Array.from({ length: 101 }, (_, i) => BigInt(i))], ['icrc7_tokens', null, 101n], ['icrc7_tokens', null, null], ['icrc7_tokens_of', acc(1), null, 2n ** 32n + 5n]], claims },
  { name: 'kept by an upgrade', prelude: pre, alphabet: (S, d) => (d === 1 ? [UP] : [...single(1), ops.ucol(1, allOf(1))]), depth: q ? 2 : 3, observe, claims },
]);
