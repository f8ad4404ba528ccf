// P19: token metadata is returned exactly as it was last set, for every shape of value, and only for live tokens.
import * as L from '../lib/ledger.mjs'; import * as V from '../lib/views.mjs'; import { check, at, UP } from '../lib/mk.mjs';
const { ops, acc } = L;
const observe = () => [...V.meta(5), ['icrc7_token_metadata', [2n, 1n, 1n]], ...V.log()];
const claims = [/^obs\./, /^res\.(mint|update_nft_metadata|burn_nft)\./];
const leaf = [{ Text: '' }, { Text: 'é✓' }, { Nat: 0n }, { Nat: 127n }, { Nat: 128n }, { Nat: 2n ** 64n }, { Nat: 2n ** 130n }, { Int: 0n }, { Int: -1n }, { Int: -64n }, { Int: -65n }, { Int: 64n }, { Int: -(2n ** 70n) }, { Blob: Buffer.alloc(0) }, { Blob: Buffer.from([0, 1, 255]) }];
const shapes = [...leaf, { Array: [] }, { Map: [] }, ...leaf.slice(1, 14, 4).flatMap((x) => [{ Array: [x] }, { Map: [['k', x]] }, { Array: [x, x] }]), { Array: [{ Map: [['b', { Array: [{ Map: [['c', { Nat: 1n }]] }] }], ['a', { Text: 'z' }]] }, { Nat: 5n }] }, { Map: [['', { Map: [] }], ['x', { Array: [{ Array: [] }] }]] }];
const metas = (v) => [[['k', v]], [['b', v], ['a', { Text: 't' }]]];
const M = shapes.flatMap(metas).concat([[], [['a', { Nat: 1n }], ['b', { Nat: 2n }], ['c', { Nat: 3n }]], [['', { Text: '' }]]]);
const pre = [ops.mint(1, [acc(1), acc(2)])];
const S5 = [M[0], M[9], M[30], [], [['n', { Text: 'x' }]]], S6 = [['icrc7:metadata:uri:image', { Text: 'https://a.example/i.png' }], ['icrc97:metadata', { Array: [{ Text: 'u' }] }]];
const A = [...S5.map((m) => ops.umeta(1, 1, m)), ops.umeta(1, 1, S6), ops.umeta(1, 1, [S6[0], ['n', { Text: 'x' }]]), ops.umeta(1, 2, S5[1]), ops.umeta(2, 1, S5[2]), ops.umeta(1, 9, S5[1]), ops.mint(1, [acc(1)], { meta: S5[2] }), ops.burn(1, 1), ops.xfer(1, 1, acc(2)), ops.xfer(2, 1, acc(1))];
const Z = (o) => at(o, 0);
export default check('P19', (q) => [
  { name: 'values at mint', alphabet: M.map((m) => ops.mint(1, [acc(1), acc(1, 1)], { meta: m })), depth: 1, observe, claims },
  { name: 'values at update', prelude: pre, alphabet: M.map((m) => ops.umeta(1, 1, m)), depth: q ? 1 : 2, observe, claims },
  { name: 'histories', prelude: pre, alphabet: A, depth: q ? 4 : 5, observe, claims },
  // the log refuses: the old metadata stays
  { name: 'log refuses', prelude: pre, alphabet: [Z(ops.umeta(1, 1, S5[0])), Z(ops.umeta(1, 1, S5[1])), Z(ops.umeta(1, 2, S5[2])), Z(ops.mint(1, [acc(1)], { meta: S5[3] })), Z(ops.xfer(1, 1, acc(2))), at(ops.umeta(1, 1, S5[2]), 101)], depth: q ? 5 : 6, afterFail: 2, observe, claims },
  { name: 'upgrade', prelude: pre, alphabet: (S, d) => (d === 1 ? [UP] : d === 0 ? M.filter((_, i) => !q || i % 3 === 0).map((m) => ops.umeta(1, 1, m)) : [A[3], A[4], A[5]]), depth: q ? 2 : 3, observe, claims },
]);
