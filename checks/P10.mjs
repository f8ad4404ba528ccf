// P10: paging through token lists enumerates every token exactly once, in order, and the limits are honoured.
import * as L from '../lib/ledger.mjs'; import { check } from '../lib/mk.mjs';
const { ops, acc } = L;
const opt = [null, 0n, 1n, 2n, 3n, 4n, 5n, 7n], lim = [null, 0n, 1n, 2n, 3n, 4n, 5n];
const observe = () => opt.flatMap((p) => lim.flatMap((t) => [['icrc7_tokens', p, t], ['icrc7_tokens_of', acc(1), p, t], ['icrc7_tokens_of', acc(1, 1), p, t]])).concat([0, 1, 2, 3, 4].flatMap((n) => { const l = Array.from({ length: n }, (_, i) => BigInt(i)); return [['icrc7_owner_of', l], ['icrc7_token_metadata', l], ['icrc7_balance_of', l.map((i) => acc(Number(i)))]]; }), [['icrc7_owner_of', [3n, 1n, 3n]], ['icrc7_token_metadata', [2n, 2n, 1n]], ['icrc7_balance_of', [acc(1), acc(1), acc(1, 1)]], ['icrc7_tokens', 2n ** 64n, 2n], ['icrc7_tokens', 1n, 2n ** 64n], ['icrc7_tokens_of', acc(9), null, null]]);
const claims = [/^obs\.icrc7_/];
const A = [ops.mint(1, [acc(1)]), ops.mint(1, [acc(1, 1), acc(1)]), ops.mint(1, [acc(2), acc(1), acc(1)]), ops.burn(1, 1), ops.burn(1, 2), ops.burn(1, 4), ops.xfer(1, 2, acc(1, 1)), ops.xfer(1, 3, acc(2)), ops.xfer(1, 1, acc(1, 1))];
const init = (o) => ({ init: o, alphabet: A, observe, claims, afterFail: 0 });
export default check('P10', (q) => [
  { ...init({}), name: 'default limits', depth: q ? 3 : 5 },
  { ...init({ max_take_value: 3n, default_take_value: 2n, max_query_batch_size: 3n }), name: 'small limits', depth: q ? 3 : 5 },
  { ...init({ max_take_value: 2n, max_query_batch_size: 1n }), name: 'no default', depth: q ? 2 : 4 },
  { ...init({ default_take_value: 3n, max_query_batch_size: 4n }), name: 'default only', depth: q ? 2 : 4 },
  { ...init({ max_take_value: 4n, default_take_value: 4n }), name: 'limits changed', alphabet: [...A.slice(0, 4), ops.ucol(1, { max_take_value: 1n, default_take_value: 1n }), ops.ucol(1, { max_take_value: 3n }), ops.ucol(1, { default_take_value: 2n }), ops.ucol(1, { max_query_batch_size: 2n })], depth: q ? 3 : 5 },
]);
