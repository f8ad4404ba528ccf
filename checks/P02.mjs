// P02: minting allocates fresh consecutive ids, within the limits, all or nothing, only for holders of the permission.
import * as L from '../lib/ledger.mjs'; import * as V from '../lib/views.mjs'; import { check, at } from '../lib/mk.mjs';
const { ops, acc } = L;
const claims = [/^res\.mint\./, /^obs\.icrc7_(owner_of|tokens|total_supply|token_metadata)$/, /^obs\.icrc3_get_blocks$/];
const observe = () => [...V.owners(8), ['icrc7_tokens', null, null], ['icrc7_total_supply'], ...V.meta(8), ...V.log()];
const n = (k) => Array.from({ length: k }, (_, i) => acc(1 + (i % 2)));
const big = Buffer.alloc(9), ok8 = Buffer.alloc(8);
const A = [ops.mint(1, n(1)), ops.mint(1, n(2), { meta: [['a', { Nat: 7n }], ['b', { Blob: Buffer.from([1]) }]] }), ops.mint(1, n(3)), ops.mint(1, n(4)), ops.mint(1, []), ops.mint(2, n(1)), ops.mint(L.ANON, n(1)), ops.mint(1, n(1), { memo: big }), ops.mint(1, n(2), { memo: ok8 }), ops.burn(1, 1), ops.burn(2, 2), ops.burn(1, 3)];
const Z = (o) => at(o, 0);
const mixed = { c: L.P(1), m: 'mint', a: [{ mint_requests: [{ metadata: [], memo: null, token_owner: acc(1) }, { metadata: [], memo: big, token_owner: acc(1) }] }], dt: 200000000n };
export default check('P02', (q) => [
  { name: 'limits', init: { supply_cap: 4n, max_update_batch_size: 3n, max_memo_size: 8n }, alphabet: [...A, mixed], depth: q ? 4 : 5, observe, claims },
  { name: 'defaults', alphabet: [ops.mint(1, n(1)), ops.mint(1, n(4)), ops.mint(1, n(5)), ops.burn(1, 1), ops.burn(2, 2), ops.burn(1, 5), ops.mint(3, n(2)), ops.mint(1, n(100)), ops.mint(1, n(101))], depth: q ? 5 : 6, observe, claims },
  // the log refuses a transaction part of the way through: nothing may have been minted
  { name: 'log refuses', alphabet: [Z(ops.mint(1, n(1))), Z(ops.mint(1, n(2))), Z(ops.mint(1, n(3))), Z(ops.burn(1, 1)), at(ops.mint(1, n(2)), 101)], depth: q ? 5 : 6, afterFail: 3, observe, claims },
  { name: 'cap changes', init: { supply_cap: 2n }, alphabet: [ops.mint(1, n(1)), ops.mint(1, n(2)), ops.ucol(1, { supply_cap: 3n }), ops.ucol(1, { supply_cap: 1n }), ops.ucol(1, { max_update_batch_size: 1n }), ops.ucol(1, { max_memo_size: 1n }), ops.mint(1, n(1), { memo: ok8 }), ops.burn(1, 1), ops.grant(1, 2, 'Minting'), ops.revoke(1, 1, 'Minting'), ops.mint(2, n(1))], depth: q ? 4 : 5, observe, claims },
]);
