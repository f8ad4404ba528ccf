// P07: a transaction submitted again (same caller, arguments and created_at_time) takes effect at most once; different
// transactions are all executed.
import * as L from '../lib/ledger.mjs'; import * as V from '../lib/views.mjs'; import { check, at, adv, UP } from '../lib/mk.mjs';
const { ops, acc, T0 } = L; const MS = 1_000_000n;
const observe = () => [...V.owners(4), ...V.log(), ...V.approvalViews(3)];
const claims = [/^res\./, /^obs\./];
const t = T0 + 2000n * MS, t2 = T0 + 2001n * MS; // fixed creation times
const pre = [ops.mint(1, [acc(1), acc(1, 1)]), adv(2000)];
const m = Buffer.from('m');
const F = (o) => at(o, 20);
const X = [F(ops.xfer(1, 1, acc(2), { at: t })), F(ops.xfer(2, 1, acc(1), { at: t })), F(ops.xfer(1, 1, acc(2), { at: t2 })), F(ops.xfer(1, 1, acc(2), { at: t, memo: m })), F(ops.xfer(1, 2, acc(2), { at: t })), F(ops.xfer(1, 1, acc(3), { at: t })), adv(70), adv(1000)];
const W = [F(ops.apt(1, 1, acc(3), { at: t })), F(ops.apt(1, 1, acc(3), { at: t, exp: t + 10n ** 12n })), F(ops.xfrom(3, 1, acc(1), acc(2), { at: t })), F(ops.xfer(2, 1, acc(1), { at: t })), F(ops.rvt(1, 1, acc(3), { at: t })), F(ops.rvt(1, 1, null, { at: t })), F(ops.apc(1, acc(3), { at: t })), F(ops.rvc(1, null, { at: t })), adv(1000)];
// approvals that differ in one argument only
const V1 = [{}, { exp: 5n }, { exp: t - 1n }, { exp: t + 10n ** 12n }, { exp: t + 10n ** 12n + 1n }, { memo: m }, { memo: Buffer.alloc(0) }].flatMap((o) => [F(ops.apt(1, 1, acc(3), { at: t, ...o })), F(ops.apc(1, acc(3), { at: t, ...o }))]);
// without a creation time nothing is a duplicate, even when the same words are repeated
const N = [ops.xfer(1, 1, acc(2)), ops.xfer(2, 1, acc(1)), ops.apt(1, 1, acc(3)), ops.rvt(1, 1, acc(3)), ops.xfrom(3, 1, acc(1), acc(2)), ops.apc(1, acc(3)), ops.rvc(1, null)];
export default check('P07', (q) => [
  { name: 'transfers', prelude: pre, init: { tx_window: 1_000_000_000n, permitted_drift: 50n * MS }, alphabet: X, depth: q ? 5 : 6, observe, claims },
  { name: 'approvals', prelude: pre, init: { tx_window: 1_000_000_000n, permitted_drift: 50n * MS }, alphabet: W, depth: q ? 4 : 6, observe, claims },
  { name: 'approvals that differ in one argument', prelude: pre, init: { tx_window: 1_000_000_000n, permitted_drift: 50n * MS }, alphabet: V1, depth: q ? 2 : 3, observe, claims },
  { name: 'no creation time', prelude: pre, init: { tx_window: 60_000_000_000n }, alphabet: N, depth: q ? 4 : 5, observe, claims },
  { name: 'across an upgrade', prelude: pre, init: { tx_window: 1_000_000_000n, permitted_drift: 50n * MS }, alphabet: (S, d) => (d === 1 ? [UP] : [X[0], X[1], W[0], W[6]]), depth: 3, observe, claims },
]);
