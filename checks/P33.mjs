// P33: ledger, archives and index together: whatever the history of the ledger, the movement of its blocks and the timing of
// the fetches, the index ends up finding every block the ledger logged, once, under every account, token and kind it names.
import * as L from '../lib/ledger.mjs'; import { UP } from '../lib/mk.mjs'; import { job, begin, next, finish } from '../lib/archad.mjs'; import { compAdapter as adapter, round, bad, ask, serve, hear, lose, look, indexUp } from '../lib/compad.mjs';
const { ops, acc } = L;
const meta = [['a', { Text: 'x' }], ['i', { Int: -5n }], ['n', { Nat: 2n ** 70n }], ['m', { Map: [['k', { Array: [{ Nat: 1n }] }]] }]];
const OK = job();
const O = [ops.mint(1, [acc(2), acc(1, 1)]), ops.xfer(1, 1, acc(2), { memo: Buffer.from('m') }), ops.apt(1, 1, acc(3), { exp: { now: 10n ** 13n } }), ops.xfrom(3, 1, acc(1), acc(3, 1)), ops.xfer(1, 1, acc(1, 5)), ops.apc(1, acc(3, 1)), ops.rvt(1, 1, acc(3)), ops.rvt(1, 1, null), ops.rvc(1, acc(3, 1)), ops.rvc(1, null), ops.umeta(1, 1, meta), ops.burn(1, 2)];
const pre = [ops.mint(1, [acc(1), acc(1)])];
const every = [...pre, ops.apt(1, 1, acc(3)), ops.apc(1, acc(4)), ops.xfrom(3, 1, acc(1), acc(2, 1)), ops.rvc(1, acc(4)), ops.apt(1, 2, acc(5)), ops.rvt(1, 2, acc(5)), ops.umeta(1, 2, meta), ops.xfer(1, 2, acc(3)), ops.burn(3, 2)];
const base = { adapter, claims: [/./] };
export default { id: 'P33', codes: ['core_nft', 'archive', 'index_icrc7'], opt: 1, scenarios: (tier) => { const q = tier === 'quick'; return [
  { ...base, name: 'histories', prelude: pre, alphabet: (S, d) => [...O, ...(d > 1 ? [round] : []), ...(d > 2 ? [OK] : [])], depth: q ? 3 : 4, afterFail: 0 },
  { ...base, name: 'fetches and movements', day: true, prelude: every, alphabet: [O[0], OK, round, bad(1), ...(q ? [] : [bad(2)]), look, UP, indexUp], depth: q ? 4 : 5 },
  { ...base, name: 'an index set up late', day: true, late: true, prelude: [...every, OK, ops.mint(1, [acc(1)])], alphabet: [round, bad(1), bad(2), look, OK, ops.burn(1, 3), indexUp], depth: q ? 4 : 5 },
  { ...base, name: 'fetching while blocks are moved', prelude: every.slice(0, 4), open: 2, alphabet: (S, d, mv) => [...(mv ? [next(), next('refused'), finish] : [begin, O[4]]), ask, serve, hear, lose, look], depth: q ? 5 : 7 },
]; } };
