// P03: a token leaves an account only by its owner or a spender the owner approved; a refused operation changes nothing.
import * as L from '../lib/ledger.mjs'; import * as V from '../lib/views.mjs'; import { check } from '../lib/mk.mjs';
const { ops, acc } = L;
const observe = () => [...V.owners(4), ...V.approvalViews(), ['icrc7_tokens_of', acc(1), null, null]];
const claims = [/^res\.(icrc7_transfer|burn_nft|icrc37_transfer_from)\./, /^obs\.icrc7_(owner_of|tokens_of)$/];
const C = [1, 2, 3, L.ANON];
const A = [...C.flatMap((c) => [ops.xfer(c, 1, acc(2)), ops.xfer(c, 2, acc(2)), ops.burn(c, 1), ops.burn(c, 2), ops.xfrom(c, 1, acc(1), acc(2)), ops.xfrom(c, 1, acc(2), acc(3)), ops.xfrom(c, 2, acc(1, 1), acc(2))]),
  ops.xfer(1, 1, acc(1)), ops.xfer(1, 1, acc(1, 1)), ops.xfer(1, 1, acc(L.ANON)), ops.xfer(1, 3, acc(2)), ops.xfrom(3, 1, acc(1), acc(1)), ops.xfrom(3, 1, acc(1), acc(L.ANON)), ops.xfrom(3, 2, acc(1), acc(2)), ops.xfrom(3, 3, acc(1), acc(2)), ops.xfrom(3, 1, acc(1, 1), acc(2)), ops.xfrom(3, 1, acc(1), acc(2), { sub: L.sub(1) }), ops.burn(1, 3), ops.xfer(2, 1, acc(1)),
  ops.apt(1, 1, acc(3)), ops.apt(1, 2, acc(3), { sub: L.sub(1) }), ops.apt(1, 1, acc(3, 1)), ops.apc(1, acc(2))];
const pre = [ops.mint(1, [acc(1), acc(1, 1)])];
export default check('P03', (q) => [
  { name: 'everybody tries', prelude: pre, alphabet: A, depth: q ? 3 : 4, observe, claims },
  { name: 'approved spender', prelude: [...pre, ops.apt(1, 1, acc(3)), ops.apc(1, acc(2), { sub: L.sub(1) })], alphabet: A, depth: q ? 2 : 3, afterFail: 2, observe, claims },
]);
