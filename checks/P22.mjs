// P22: moving blocks to archive canisters loses, repeats and changes none, wherever the movement is interrupted.
import * as L from '../lib/ledger.mjs'; import * as V from '../lib/views.mjs'; import { UP } from '../lib/mk.mjs'; import { archAdapter as adapter, job, begin, next, finish, wait, fill } from '../lib/archad.mjs'; import { LEDGER } from '../lib/ledgerad.mjs';
const { ops, acc } = L;
const meta = [['a', { Text: 'x' }], ['i', { Int: -5n }], ['p', { Int: 5n }], ['n', { Nat: 2n ** 70n }], ['b', { Blob: Buffer.from([0, 255]) }], ['m', { Map: [['k', { Array: [{ Nat: 1n }] }]] }]];
const pre = [ops.mint(1, [acc(1), acc(1, 1)])];
const O = [ops.xfer(1, 1, acc(2), { memo: Buffer.from('m') }), ops.apt(1, 1, acc(3), { exp: { now: 10n ** 13n } }), ops.umeta(1, 1, meta), ops.burn(1, 2), ops.mint(1, [acc(2)])];
// which of the requests of a movement fail: all of a kind, or only some of the attempts
const run = (n, how, from = 0) => [...Array(from).fill('ok'), ...Array(n).fill(how)];
const PL = [['all requests succeed', []]];
for (const how of ['refused', 'failed']) for (const from of [0, 1, 2, 3, 4]) for (const n of [1, 2, 3, 9]) PL.push([`requests ${from + 1} to ${from + n} are ${how}`, run(n, how, from)]);
for (const from of [2, 3, 4]) PL.push([`the archive is full at request ${from + 1}`, run(1, 'full', from)]);
const J = PL.map(([n, p]) => job(p, n)), OK = J[0], some = [OK, J[1], J[3], ...J.filter((j) => /requests 2 to 2 are refused|requests 3 to 3 are failed|requests 3 to 5 are refused|requests 4 to 4 are refused|full at request 4/.test(j.label))];
const F = [ops.mint(1, [acc(2)]), ops.mint(1, [acc(2), acc(2)]), ops.burn(2, 2), ops.xfer(2, 1, acc(2, 9)), ops.apt(2, 1, acc(3)), ops.rvt(2, 2, acc(3)), ops.apc(2, acc(4)), ops.rvc(2, acc(3)), ops.umeta(1, 1, [['n', { Text: 'z' }]]), ops.xfrom(3, 2, acc(2), acc(3))];
const full = [ops.mint(1, [acc(2), acc(2)]), ops.apt(2, 2, acc(3)), ops.apc(2, acc(3))];
const base = { adapter, afterFail: 9, observe: () => [...V.owners(4), ['icrc7_total_supply']] };
// known findings
const world = (codes) => { const c = adapter.make({ init: {}, prelude: [...pre, O[0]] }, codes); adapter.prelude(c); return c; }, go = (c, o) => adapter.apply(c, { op: o, label: o.label ?? o.m });
const ask = (c) => c.w.query(LEDGER, L.P(1), 'icrc3_get_blocks', [{ start: 0n, length: 10n }]);
const findings = [
  { key: 'locked-while-moving', demo(codes) { const c = world(codes); go(c, begin); const q = ask(c), r = c.w.call(LEDGER, L.P(2), 'icrc7_transfer', [{ token_id: 1n, from_subaccount: null, to: acc(1), memo: null, created_at_time: null }]); return q.trap && r.trap && c.w.pending.length && 'while the movement of blocks waits for an answer, icrc3_get_blocks and every call that writes a block trap'; } },
  { key: 'trap-after-insert', demo(codes) { const c = world(codes); go(c, begin); while (c.w.pending.length && c.w.pending[0].method !== 'insert_blocks') go(c, next()); if (!c.w.pending.length) return; c.w.deliver(0); c.c.trapNext = true; c.w.deliver(0); c.mv = false; const q = ask(c).ok; return q && q.blocks.length + q.archived_blocks.flatMap((x) => x.args).reduce((n, g) => n + Number(g.length), 0) < Number(q.log_length) && 'the ledger traps while it handles the answer to insert_blocks: the block is in the archive, the ledger no longer finds it'; } },
  { key: 'stuck-after-failed-install', demo(codes) { const c = world(codes); go(c, job(run(9, 'failed', 1))); const n = c.w.cans.size; for (let i = 0; i < 4; i++) go(c, OK); const q = ask(c).ok; return n > 1 && q.blocks.length === Number(q.log_length) && 'once the installation of an archive has failed, no block is moved any more'; } },
];
export default { id: 'P22', codes: ['core_nft', 'archive'], opt: 1, findings, scenarios: (tier) => { const q = tier === 'quick'; return [
  { ...base, name: 'faults', prelude: [...pre, O[0]], alphabet: (S, d) => (d % 2 ? O.slice(0, 2) : J), depth: q ? 3 : 4 },
  { ...base, name: 'histories', prelude: pre, alphabet: (S, d) => [...O, OK, ...(q ? [] : [some[2]])], depth: q ? 4 : 5 },
  { ...base, name: 'upgrades', prelude: pre, alphabet: [O[0], O[2], OK, some[3], some[4], UP], depth: q ? 4 : 5 },
  { ...base, name: 'young blocks', prelude: [], alphabet: [ops.mint(1, [acc(1)]), O[0], wait(599_000), wait(60_000), wait(119_000)], depth: q ? 4 : 6 },
  { ...base, name: 'during', prelude: [...pre, O[0], ops.mint(1, [acc(2)])], alphabet: (S, d, mv) => (mv ? [ops.xfer(2, 1, acc(1)), ops.burn(1, 2), ops.xfer(3, 1, acc(1)), UP, next(), next('refused'), finish] : [begin, O[4], OK]), depth: q ? 5 : 7 },
  // the blocks cannot be moved until the log is full: what is refused then is not counted, and it goes on afterwards
  { ...base, name: 'full log', tail: 1, prelude: [...full, fill(995)], alphabet: F, depth: q ? 2 : 3 },
  { ...base, name: 'full log, moved', tail: 1, prelude: [...full, fill(996)], alphabet: (S, d) => (d === 1 ? [OK] : [F[0], F[3], F[6], F[8]]), depth: q ? 2 : 3, prefix: 1 },
]; } };
