// P01: every view of ownership (owner, balance, listing, listing per account, supply) agrees, in every reachable state.
import * as L from '../lib/ledger.mjs'; import * as V from '../lib/views.mjs'; import { check } from '../lib/mk.mjs';
const { ops, acc } = L;
const observe = () => V.ownerViews(), claims = [/^obs\.icrc7_(owner_of|balance_of|tokens|tokens_of|total_supply)$/, /^res\.(mint|burn_nft|icrc7_transfer|icrc37_transfer_from)\.trap$/];
const A = [ops.mint(1, [acc(1)]), ops.mint(1, [acc(1, 1), acc(2)]), ops.burn(1, 1), ops.burn(2, 2), ops.xfer(1, 1, acc(2)), ops.xfer(1, 1, acc(1, 1)), ops.xfer(2, 1, acc(1)), ops.xfer(1, 2, acc(2, 1)), ops.xfers(1, [[1, acc(2)], [2, acc(2)]])];
const B = [ops.xfrom(3, 1, acc(1), acc(2, 1)), ops.xfrom(3, 2, acc(1, 1), acc(3)), ops.xfrom(3, 1, acc(2), acc(1)), ops.xfrom(1, 3, acc(2), acc(1, 1)), ops.burn(1, 1), ops.burn(1, 2), ops.burn(2, 3), ops.xfer(1, 1, acc(1, 1)), ops.xfer(1, 2, acc(2)), ops.xfer(2, 3, acc(1)), ops.xfer(3, 2, acc(1, 1)), ops.mint(1, [acc(2)])];
const pre = [ops.mint(1, [acc(1), acc(1, 1), acc(2)]), ops.apc(1, acc(3)), ops.apc(1, acc(3), { sub: L.sub(1) }), ops.apc(2, acc(1))];
// operations that fail half way because the log is throttled (several in the same instant) must not show up in any view
const Z = (o) => ({ ...o, dt: 0n });
const C = [Z(ops.xfer(1, 1, acc(2))), Z(ops.xfer(1, 2, acc(2))), Z(ops.burn(1, 1)), Z(ops.burn(1, 2)), Z(ops.mint(1, [acc(2)])), Z(ops.mint(1, [acc(1), acc(1)])), Z(ops.xfrom(3, 1, acc(1), acc(2))), ops.burn(1, 1)];
// the same account written with a zero subaccount, and moves of a token to the account that holds it
const Z0 = { owner: L.P(1), subaccount: Buffer.alloc(32) }, D = [ops.mint(1, [Z0, acc(2)]), ops.xfer(2, 1, Z0), ops.xfer(1, 1, acc(2)), ops.xfer(1, 1, Z0), ops.xfer(1, 1, acc(1)), ops.xfrom(3, 1, acc(1), Z0), ops.xfrom(3, 1, acc(1), acc(1)), ops.xfrom(3, 1, Z0, acc(3)), ops.xfrom(1, 1, acc(1), acc(1)), ops.xfrom(3, 2, acc(1, 1), acc(1, 1)), ops.xfrom(3, 1, acc(3), Z0), ops.burn(1, 1)];
const zviews = () => [...observe(), ['icrc7_tokens_of', Z0, null, null], ['icrc7_balance_of', [Z0, { owner: L.P(2), subaccount: Buffer.alloc(32) }]]];
export default check('P01', (q) => [
  { name: 'same account', prelude: pre, alphabet: D, depth: q ? 3 : 5, observe: zviews, claims },
  { name: 'minted to a zero subaccount', prelude: [ops.mint(1, [Z0, acc(1, 1), acc(2)]), ...pre.slice(1)], alphabet: D, depth: q ? 3 : 5, observe: zviews, claims },
  { name: 'lifecycle', alphabet: A, depth: q ? 5 : 6, observe, claims },
  { name: 'delegated', prelude: pre, alphabet: B, depth: q ? 4 : 6, observe, claims },
  { name: 'throttled', prelude: pre, alphabet: C, depth: q ? 5 : 6, afterFail: 3, observe, claims },
]);
