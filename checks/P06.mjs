// P06: the log is exactly the history: one block per successful operation, none otherwise, hash-chained, never changed.
import * as L from '../lib/ledger.mjs'; import * as V from '../lib/views.mjs'; import { check, at, UP } from '../lib/mk.mjs';
const { ops, acc } = L; const s1 = L.sub(1);
const observe = () => [...V.log(), ['icrc3_get_blocks', [{ start: 1n, length: 2n }, { start: 0n, length: 1n }]], ['icrc3_get_blocks', [{ start: 3n, length: 100n }]], ['icrc3_get_blocks', []]];
const claims = [/^obs\.icrc3_get_blocks$/, /^res\..*\.(value)$/];
const m = Buffer.from('memo');
const pre = [ops.mint(1, [acc(1), acc(1, 1)])];
const A = [ops.mint(1, [acc(1)], { memo: m }), ops.mint(1, [acc(2, 1), acc(1)]), ops.burn(1, 1), ops.burn(2, 1), ops.xfer(1, 1, acc(2)), ops.xfer(2, 1, acc(1, 1), { memo: m }), ops.xfer(3, 1, acc(3)), ops.xfers(1, [[1, acc(2)], [2, acc(2)], [1, acc(3)]]), ops.xfrom(3, 1, acc(1), acc(2), { memo: m }), ops.xfrom(3, 2, acc(1, 1), acc(2)), ops.apt(1, 1, acc(3)), ops.apt(1, 1, acc(2), { exp: { now: 10n ** 9n }, memo: m }), ops.apt(2, 1, acc(3)), ops.apc(1, acc(3)), ops.apc(1, acc(3), { sub: s1, memo: m, exp: { now: 10n ** 9n } }), ops.rvt(1, 1, acc(3)), ops.rvt(1, 1, null, { memo: m }), ops.rvc(1, null), ops.rvc(1, acc(3), { sub: s1 }), ops.umeta(1, 1, [['n', { Text: 'y' }]]), ops.umeta(1, 9, []), ops.umeta(2, 1, [])];
const times = [ops.xfer(1, 1, acc(2), { at: { now: -1000000 } }), ops.xfrom(3, 1, acc(1), acc(2), { at: { now: -2000000 } }), ops.apt(1, 1, acc(3), { at: { now: -3000000 } }), ops.apc(1, acc(3), { at: { now: -4000000 } }), ops.rvt(1, 1, acc(3), { at: { now: -5000000 } }), ops.rvc(1, acc(3), { at: { now: 1000000 } }), ops.xfer(2, 1, acc(1), { at: { now: 2000000 } }), ops.burn(1, 1), ops.mint(1, [acc(1)]), ops.ucol(1, { name: 'Z' }), ops.grant(1, 2, 'Minting')];
// what each kind of block says: no memo, an empty one, a full one
const memos = (memo) => [ops.mint(1, [acc(1, 1), acc(2)], { memo }), ops.burn(1, 1, { memo }), ops.xfer(1, 1, acc(2), { memo }), ops.xfrom(3, 2, acc(1, 1), acc(2, 1), { memo }), ops.apt(1, 1, acc(3, 1), { memo }), ops.apt(1, 2, acc(3), { sub: s1, memo, exp: { now: 10n ** 9n } }), ops.apc(1, acc(3, 1), { memo }), ops.apc(1, acc(3), { sub: s1, memo, exp: { now: 10n ** 9n } }), ops.rvt(1, 1, acc(3), { memo }), ops.rvt(1, 2, null, { sub: s1, memo }), ops.rvc(1, acc(3), { memo }), ops.rvc(1, null, { sub: s1, memo })];
// who did it: holders using the delegated call themselves, spenders with a subaccount, batches whose items differ in every field
const mint2 = { c: L.P(1), m: 'mint', a: [{ mint_requests: [{ token_owner: acc(1), memo: m, metadata: [['a', { Nat: 1n }]] }, { token_owner: acc(2, 1), memo: null, metadata: [['b', { Text: '' }]] }, { token_owner: acc(1, 1), memo: Buffer.from('third'), metadata: [] }] }], dt: 200n * L.MS };
const all = (o, ...os) => ({ ...o, a: [[...o.a[0], ...os.flatMap((x) => x.a[0])]] });
const W = [mint2, ops.xfrom(1, 1, acc(1), acc(2)), ops.xfrom(1, 2, acc(1, 1), acc(2), { sub: s1, memo: m }), ops.xfrom(3, 1, acc(1), acc(2, 1), { sub: s1 }), ops.xfrom(3, 1, acc(1), acc(3)), ops.xfrom(2, 1, acc(1), acc(2)), ops.apt(1, 1, acc(3, 1)), ops.apt(1, 1, acc(2)), ops.apc(1, acc(3)), ops.xfer(1, 2, acc(1), { sub: s1 }), ops.xfer(2, 1, acc(1, 1)),
  all(ops.apt(1, 1, acc(3), { memo: m }), ops.apt(1, 2, acc(3, 1), { sub: s1, exp: { now: 10n ** 9n } })), all(ops.apc(1, acc(3, 1), { exp: { now: 10n ** 9n } }), ops.apc(1, acc(2), { sub: s1, memo: m })), all(ops.rvt(1, 1, acc(3), { memo: m }), ops.rvt(1, 1, null)), all(ops.rvc(1, acc(3)), ops.rvc(1, null, { memo: m })), all(ops.xfrom(1, 1, acc(1), acc(2), { memo: m }), ops.xfrom(1, 2, acc(1, 1), acc(3), { sub: s1 }))];
// bursts: the log refuses (duplicates, throttling) and whatever it refuses must not have been half recorded
const Z = (o) => at(o, 0);
const B = [Z(ops.xfer(1, 1, acc(2))), Z(ops.xfer(2, 1, acc(1))), Z(ops.mint(1, [acc(1)])), Z(ops.mint(1, [acc(1), acc(1)])), Z(ops.burn(1, 2)), Z(ops.apc(1, acc(3))), Z(ops.umeta(1, 1, [['n', { Text: 'y' }]])), at(ops.apc(1, acc(2)), 101)];
export default check('P06', (q) => [
  { name: 'every operation', prelude: pre, alphabet: A, depth: q ? 3 : 4, observe, claims },
  { name: 'announced kinds', prelude: pre, alphabet: A, depth: 2, observe: () => [], kinds: true, claims },
  { name: 'parties', prelude: [ops.mint(1, [acc(1), acc(1, 1), acc(2)])], alphabet: W, depth: q ? 3 : 4, observe, claims },
  ...[['none', undefined], ['empty', Buffer.alloc(0)], ['full', Buffer.alloc(32, 7)]].map(([n, memo]) => ({ name: 'memo ' + n, init: { max_memo_size: 32n }, prelude: [...pre, ops.apt(1, 1, acc(3)), ops.apt(1, 2, acc(3), { sub: s1 }), ops.apc(1, acc(3)), ops.apc(1, acc(3), { sub: s1 })], alphabet: memos(memo), depth: q ? 2 : 3, observe, claims })),
  { name: 'created_at_time', prelude: pre, alphabet: times, depth: q ? 3 : 5, observe, claims },
  { name: 'bursts', prelude: pre, alphabet: B, depth: q ? 4 : 5, afterFail: 2, observe, claims },
  { name: 'across upgrades', prelude: pre, alphabet: (S, d) => (d === 1 ? [UP] : [A[0], A[4], A[10], A[13]]), depth: 3, observe, claims },
]);
