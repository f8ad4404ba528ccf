// P04: an approval lets its spender move exactly the tokens it was given for, until it expires, is revoked, or the token moves.
import * as L from '../lib/ledger.mjs'; import * as V from '../lib/views.mjs'; import { check, at, adv } from '../lib/mk.mjs';
const { ops, acc } = L;
const observe = () => [...V.owners(4)];
const claims = [/^res\.icrc37_/, /^obs\.icrc7_owner_of$/];
const s1 = L.sub(1);
// token 1 in acc(1), token 2 in acc(1,1), token 3 in acc(1); spenders: 2 and 3
const pre = [ops.mint(1, [acc(1), acc(1, 1), acc(1)])];
const T = [ops.apt(1, 1, acc(3)), ops.apt(1, 1, acc(2)), ops.apt(1, 1, acc(3), { exp: { now: 500000000 } }), ops.rvt(1, 1, acc(3)), ops.rvt(1, 1, null), ops.rvt(1, 1, acc(2)), ops.xfrom(3, 1, acc(1), acc(2)), ops.xfrom(3, 1, acc(1), acc(3)), ops.xfrom(2, 1, acc(1), acc(2)), ops.xfrom(3, 3, acc(1), acc(2)), ops.xfer(1, 1, acc(2)), ops.xfer(2, 1, acc(1)), ops.xfer(3, 1, acc(1)), ops.burn(1, 1), adv(400)];
const K = [ops.apc(1, acc(3)), ops.apc(1, acc(3), { sub: s1 }), ops.apc(1, acc(3), { exp: { now: 500000000 } }), ops.rvc(1, acc(3)), ops.rvc(1, null), ops.rvc(1, acc(3), { sub: s1 }), ops.rvc(1, acc(2)), ops.xfrom(3, 1, acc(1), acc(2)), ops.xfrom(3, 2, acc(1, 1), acc(2)), ops.xfrom(3, 3, acc(1), acc(3)), ops.xfrom(2, 3, acc(1), acc(2)), ops.xfer(1, 1, acc(2)), ops.xfer(2, 1, acc(1)), ops.burn(1, 3), adv(400)];
const M = [ops.apt(1, 1, acc(3)), ops.apt(1, 2, acc(3), { sub: s1 }), ops.apt(1, 2, acc(3)), ops.apt(2, 1, acc(3)), ops.apt(1, 1, acc(3, 1)), ops.apt(1, 1, acc(L.ANON)), ops.apt(1, 9, acc(3)), ops.apc(1, acc(2)), ops.apc(2, acc(3)), ops.apc(1, acc(L.ANON)), ops.rvt(2, 1, acc(3)), ops.rvt(1, 2, acc(3), { sub: s1 }), ops.rvt(1, 2, acc(3)), ops.rvt(1, 9, null), ops.rvc(1, acc(2)), ops.rvc(2, null),
  ops.xfrom(3, 1, acc(1), acc(2)), ops.xfrom(3, 2, acc(1, 1), acc(2)), ops.xfrom(3, 1, acc(1), acc(2), { sub: s1 }), ops.xfrom(2, 3, acc(1), acc(2)), ops.xfrom(3, 1, acc(2), acc(3)), ops.xfrom(1, 3, acc(1), acc(2))];
// zero subaccount and no subaccount are the same account
const z = L.sub(0);
const N = [ops.apt(1, 1, acc(3, 0), { sub: z }), ops.apt(1, 1, acc(3)), ops.apc(1, acc(3, 0)), ops.apc(1, acc(3), { sub: z }), ops.rvt(1, 1, acc(3, 0)), ops.rvt(1, 1, acc(3), { sub: z }), ops.rvc(1, acc(3, 0)), ops.rvc(1, acc(3), { sub: z }), ops.xfrom(3, 1, acc(1, 0), acc(2), { sub: z }), ops.xfrom(3, 1, acc(1), acc(2, 0)), ops.xfrom(3, 3, acc(1, 0), acc(2))];
// two kinds of approval by several spenders on one token: what an approval survives
const Y = [ops.apt(1, 1, acc(3)), ops.apc(1, acc(4)), ops.apt(2, 1, acc(4)), ops.apc(2, acc(3)), ops.xfrom(4, 1, acc(1), acc(2)), ops.xfrom(3, 1, acc(1), acc(2)), ops.xfrom(1, 1, acc(1), acc(2)), ops.xfrom(3, 1, acc(2), acc(1)), ops.xfrom(4, 1, acc(2), acc(1)), ops.xfer(1, 1, acc(2)), ops.xfer(2, 1, acc(1)), ops.rvt(1, 1, acc(3)), ops.rvc(1, acc(4))];
// the last nanosecond of an approval and the one after it
const ns = (o, dt) => ({ ...o, dt: BigInt(dt) }); const X = 400_000_000;
const E = [ops.apt(1, 1, acc(3), { exp: { now: X } }), ops.apc(1, acc(3), { exp: { now: X } }), ops.apt(1, 1, acc(3)), ...[X - 1, X, X + 1].flatMap((dt) => [ns(ops.xfrom(3, 1, acc(1), acc(2)), dt), ns(ops.xfrom(3, 3, acc(1), acc(2)), dt)])];
const fail2 = { afterFail: 1, observe, claims, prelude: pre };
export default check('P04', (q) => [
  { ...fail2, name: 'token approvals', alphabet: T, depth: q ? 4 : 5 },
  { ...fail2, name: 'collection approvals', alphabet: K, depth: q ? 4 : 5 },
  { ...fail2, name: 'who and what', alphabet: M, depth: q ? 3 : 4 },
  { ...fail2, name: 'both kinds', alphabet: Y, depth: q ? 4 : 6 },
  { ...fail2, name: 'expiry instant', alphabet: E, depth: q ? 3 : 4 },
  { ...fail2, name: 'default subaccount', alphabet: N, depth: q ? 4 : 5 },
]);
