// P12: at most five ledger operations on one token per 60 ms; the sixth is refused, and the limit lifts again.
import * as L from '../lib/ledger.mjs'; import * as V from '../lib/views.mjs'; import { check, at, adv } from '../lib/mk.mjs';
const { ops, acc } = L;
const observe = () => [...V.owners(3), ...V.approvalViews(3)];
const claims = [/^res\./, /^obs\./];
const pre = [ops.mint(1, [acc(1), acc(1)]), adv(500)];
// mostly refused operations, so that it is this limit and not the log's that decides
const A = [at(ops.xfer(2, 1, acc(3)), 0), at(ops.xfrom(3, 1, acc(1), acc(2)), 15), at(ops.xfer(1, 1, acc(2)), 0), at(ops.xfer(2, 2, acc(3)), 0), at(ops.xfer(1, 1, acc(1)), 59), at(ops.xfer(1, 1, acc(1)), 60)];
const burst = (o, n) => Array(n).fill(o);
const two = (o) => ({ ...o, a: [[...o.a[0], ...o.a[0]]], label: undefined });
const five = [at(ops.xfer(2, 1, acc(3)), 0)];
const B = [two(at(ops.xfer(2, 1, acc(3)), 0)), at(ops.apt(2, 1, acc(3)), 10), at(ops.rvt(1, 1, null), 10), at(ops.apc(3, acc(2)), 10), at(ops.rvc(3, null), 10), at(ops.rvt(1, 2, null), 0), at(ops.xfer(1, 1, acc(2)), 30), adv(45)];
export default check('P12', (q) => [
  { name: 'one token', prelude: pre, alphabet: A, depth: q ? 6 : 8, afterFail: 99, observe, claims },
  { name: 'after a burst', prelude: pre, alphabet: (S, d) => (d < 4 ? five : A), depth: q ? 8 : 9, afterFail: 99, observe, claims, prefix: 6 },
  { name: 'all operations', prelude: pre, alphabet: B, depth: q ? 4 : 6, afterFail: 99, observe, claims },
  // long runs of calls, some refused, in steps that let the window slide one call at a time
  ...[[0, 31], [0, 20], [1, 59]].map((dts) => ({ name: `sliding by ${dts.join(' or ')} ms`, prelude: pre, alphabet: dts.map((dt) => at(ops.xfer(2, 1, acc(3)), dt)), depth: q ? 11 : 14, afterFail: 99, observe: () => [], claims, prefix: 3 })),
  { name: 'collection operations', prelude: pre, alphabet: (S, d) => (d < 4 ? [B[3], B[4]].map((o) => ({ ...o, dt: 0n })) : [B[3], B[4], at(ops.apc(1, acc(3)), 0), B[0], adv(30), at(ops.rvc(1, null), 60)]), depth: 7, afterFail: 99, observe, claims, prefix: 5 },
]);
