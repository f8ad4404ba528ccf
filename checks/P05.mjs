// P05: the approval queries say exactly what transfer_from would allow and what was granted, in every reachable state.
import * as L from '../lib/ledger.mjs'; import * as V from '../lib/views.mjs'; import { check, adv } from '../lib/mk.mjs';
const { ops, acc } = L; const s1 = L.sub(1);
const observe = () => [...V.approvalViews(4), ...V.authority([1, 2, 3, 9], [acc(1), acc(2), acc(3), acc(3, 1), acc(3, 0), acc(L.ANON)])];
const claims = [/^obs\.icrc37_/];
const pre = [ops.mint(1, [acc(1), acc(1, 1), acc(2)])];
const A = [ops.apt(1, 1, acc(3)), ops.apt(1, 1, acc(3, 1), { memo: Buffer.from('m') }), ops.apt(1, 2, acc(2), { sub: s1, exp: { now: 500000000 } }), ops.apc(1, acc(3)), ops.apc(1, acc(2), { sub: s1 }), ops.apc(2, acc(3), { exp: { now: 500000000 } }), ops.rvt(1, 1, acc(3)), ops.rvt(1, 1, null), ops.rvc(1, null), ops.rvc(1, acc(2), { sub: s1 }), ops.xfrom(3, 1, acc(1), acc(2)), ops.xfrom(3, 3, acc(2), acc(1)), ops.xfer(1, 1, acc(2)), ops.xfer(2, 1, acc(1)), ops.xfer(1, 2, acc(2)), ops.burn(1, 1), adv(400)];
// exactly at, one nanosecond before and after an expiry
const X = 400_000_000n; const tick = (dt) => ({ m: '@advance', dt, label: `wait ${dt} ns` });
const E = [ops.apt(1, 1, acc(3), { exp: { now: X } }), ops.apt(1, 1, acc(2)), ops.apc(1, acc(3), { exp: { now: X } }), ops.apc(1, acc(3, 1), { exp: { now: X + 1n } }), tick(X - 1n), tick(X), tick(X + 1n), tick(1n), ops.rvt(1, 1, acc(3)), ops.rvc(1, acc(3))];
// grants that are unusual in what they carry: already expired, expiring at time zero or never, an empty memo, an old creation time
const O = [ops.apt(1, 1, acc(3), { exp: { now: -1n } }), ops.apt(1, 1, acc(3, 1), { exp: 0n, memo: Buffer.alloc(0) }), ops.apt(1, 1, acc(3), { exp: 18446744073709551615n, memo: Buffer.alloc(0) }), ops.apc(1, acc(3), { exp: 0n, memo: Buffer.from('m') }), ops.apc(1, acc(3, 1), { memo: Buffer.alloc(0) }), ops.apc(1, acc(3), { exp: 18446744073709551615n }), ops.rvt(1, 1, acc(3)), ops.rvt(1, 1, null), ops.rvc(1, acc(3)), ops.rvc(1, null), ops.xfrom(3, 1, acc(1), acc(2)), tick(1n)];
export default check('P05', (q) => [
  { name: 'lifecycle', prelude: pre, alphabet: A, depth: q ? 4 : 5, afterFail: 0, observe, claims },
  { name: 'expiry instant', prelude: pre, alphabet: E, depth: q ? 4 : 5, afterFail: 0, observe, claims },
  { name: 'odd grants', prelude: pre, alphabet: O, depth: q ? 4 : 5, afterFail: 0, observe, claims },
  { name: 'failures too', prelude: [...pre, ops.apt(1, 1, acc(3)), ops.apc(1, acc(3, 1))], alphabet: [...A, ops.apt(2, 1, acc(3)), ops.apt(1, 2, acc(3)), ops.rvt(2, 1, null), ops.xfrom(2, 1, acc(1), acc(2)), ops.apc(3, acc(2)), ops.burn(2, 1), ops.xfrom(3, 1, acc(1), acc(1))], depth: q ? 3 : 4, afterFail: 2, observe, claims },
]);
