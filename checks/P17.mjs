// P17: upgrading the canister at any point of any history changes nothing a user can observe, and later calls behave as if
// it had not happened.
import * as L from '../lib/ledger.mjs'; import * as V from '../lib/views.mjs'; import { check, at, adv, UP } from '../lib/mk.mjs';
const { ops, acc, P } = L; const s1 = L.sub(1), MS = 1_000_000n;
const observe = () => [...V.all(), ...V.perms()];
const claims = [/^upgrade$/, /^res\./, /^obs\./];
const pre = [ops.mint(1, [acc(1), acc(1, 1)], { meta: [['a', { Text: 'x' }], ['m', { Map: [['k', { Array: [{ Nat: 1n }, { Int: -5n }, { Blob: Buffer.from([0, 255]) }] }]] }]] })];
const A = [ops.mint(1, [acc(2)]), ops.burn(1, 2), ops.xfer(1, 1, acc(2)), ops.apt(1, 1, acc(3), { exp: { now: 10n ** 12n }, memo: Buffer.from('m') }), ops.apc(1, acc(3)), ops.rvt(1, 1, null), ops.rvc(1, acc(3)), ops.xfrom(3, 1, acc(1), acc(2, 1)), ops.umeta(1, 1, [['z', { Nat: 9n }]]), ops.ucol(1, { name: 'Z', supply_cap: 3n, tx_window: 1000n * MS, permitted_drift: 20n * MS, max_take_value: 7n }), ops.grant(1, 2, 'Minting'), ops.revoke(1, 1, 'UpdateMetadata')];
const T = [...A.slice(0, 5), ops.apc(1, acc(3)), ops.xfrom(3, 2, acc(1, 1), acc(2)), ops.xfrom(3, 1, acc(1), acc(2)), ops.rvt(1, 1, acc(3)), ops.umeta(1, 1, []), ops.mint(2, [acc(2)]), ops.ucol(1, { symbol: 'Q' }), ops.xfer(1, 1, acc(2), { at: { now: -1001n * MS } })];
// deadlines keep running over an upgrade: expiry, de-duplication, the created_at window and the rate limit
const t = L.T0 + 2000n * MS, F = (o) => at(o, 10);
const D = [F(ops.xfer(1, 1, acc(2), { at: t })), F(ops.xfer(2, 1, acc(1), { at: t })), F(ops.apt(1, 1, acc(3), { exp: t + 300n * MS, at: t })), F(ops.xfrom(3, 1, acc(1), acc(2), { at: t })), F(ops.apc(1, acc(3), { at: t, exp: t + 400n * MS }))];
const R = [at(ops.xfer(2, 1, acc(3)), 0), at(ops.rvc(3, null), 0), at(ops.xfer(2, 1, acc(3)), 29), at(ops.xfer(2, 1, acc(3)), 31)];
const rest = (n) => { const o = ops.xfer(2, 1, acc(3)); return { ...o, a: [Array(n).fill(o.a[0][0])], dt: 0n }; };
const full = { symbol: 'FULL', name: 'Full', description: 'd', logo: 'https://a.example/l.png', supply_cap: 100n, max_query_batch_size: 50n, max_update_batch_size: 11n, max_take_value: 90n, default_take_value: 20n, max_memo_size: 33n, atomic_batch_transfers: false, tx_window: 1000n * MS, permitted_drift: 77n * MS, max_canister_storage_threshold: 12345n, max_approvals: 4n, max_revoke: 3n };
export default check('P17', (q) => [
  { name: 'after one operation', prelude: pre, alphabet: (S, d) => (d === 1 ? [UP] : d === 0 ? A : T), depth: 3, observe, claims },
  { name: 'after two operations', prelude: pre, alphabet: (S, d) => (d === 2 ? [UP] : A), depth: q ? 3 : 4, observe, claims },
  { name: 'twice', prelude: pre, alphabet: (S, d) => (d % 2 ? [UP] : q ? [A[0], A[2], A[3], A[9]] : A), depth: 4, observe, claims },
  { name: 'deadlines', init: full, prelude: [ops.mint(1, [acc(1), acc(1)]), adv(1800)], alphabet: (S, d) => (d === 1 ? [UP] : d === 2 ? [adv(50), adv(700), adv(2000)] : D), depth: 4, observe, claims },
  // the limit on calls per token keeps counting
  { name: 'rate limit', prelude: [ops.mint(1, [acc(1), acc(1)]), adv(500)], alphabet: (S, d) => (d < 2 ? [rest(5), rest(4), R[0], R[1], R[2]] : d === 2 ? [{ ...UP, dt: 0n }, { ...UP, dt: 30n * MS }] : R), depth: q ? 6 : 7, afterFail: 99, observe: () => V.owners(3), claims, prefix: 3 },
  { name: 'large settings', init: { supply_cap: 2n ** 40n, max_query_batch_size: 5000n, max_update_batch_size: 2n ** 33n, max_take_value: 10n ** 6n, default_take_value: 10n ** 5n, max_memo_size: 10n ** 7n, tx_window: 10n ** 15n, permitted_drift: 10n ** 12n, max_canister_storage_threshold: 2n ** 63n, max_approvals: 5000n, max_revoke: 5000n, atomic_batch_transfers: true }, alphabet: [UP, ops.mint(1, [acc(1)])], depth: 2, observe, claims },
  { name: 'all settings', init: full, alphabet: [UP, ops.mint(1, [acc(1)])], depth: 2, observe, claims },
]);
