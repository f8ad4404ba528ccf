// P08: an operation is accepted only when its creation time lies inside the permitted window around ledger time.
import * as L from '../lib/ledger.mjs'; import * as V from '../lib/views.mjs'; import { check } from '../lib/mk.mjs';
const { ops, acc } = L; const MS = 1_000_000n;
const observe = () => [...V.owners(3), ...V.approvalViews(3)];
const claims = [/^res\.icrc(7|37)_/, /^obs\./];
const pre = [ops.mint(1, [acc(1), acc(1)]), ops.apc(1, acc(3)), ops.apt(1, 1, acc(2))];
const points = (win, drift) => [...new Set([0n, -1n, 1n, drift, drift + 1n, drift - 1n, -drift, -win, -win - 1n, -win + 1n, -(win + drift), -(win + drift) - 1n, -(win + drift) + 1n, 10n * win + 10n * drift, -(10n * win + 10n * drift), drift / 2n, -win / 2n])].map((d) => ({ now: d })).concat([0n, 2n ** 64n - 1n]);
const at = (t) => [ops.xfer(1, 1, acc(2), { at: t }), ops.xfrom(3, 1, acc(1), acc(2), { at: t }), ops.apt(1, 2, acc(3), { at: t }), ops.apc(1, acc(2), { at: t }), ops.rvt(1, 1, acc(2), { at: t }), ops.rvc(1, acc(3), { at: t }), ops.rvc(1, null, { at: t })];
const scn = (name, win, drift, init, depth) => ({ name, prelude: pre, init, depth, afterFail: 0, alphabet: points(win, drift).flatMap(at), observe, claims });
export default check('P08', (q) => [
  scn('default window', 10_000n * MS, 50n * MS, {}, q ? 1 : 2),
  scn('2 s window, 100 ms drift', 2000n * MS, 100n * MS, { tx_window: 2000n * MS, permitted_drift: 100n * MS }, 2),
  scn('drift longer than window', 100n * MS, 3000n * MS, { tx_window: 100n * MS, permitted_drift: 3000n * MS }, q ? 1 : 2),
  scn('no drift', 500n * MS, 0n, { tx_window: 500n * MS, permitted_drift: 0n }, q ? 1 : 2),
  scn('no window', 0n, 7n * MS, { tx_window: 0n, permitted_drift: 7n * MS }, q ? 1 : 2),
  { name: 'settings changed later', prelude: [...pre, ops.ucol(1, { tx_window: 1000n * MS, permitted_drift: 20n * MS })], init: { tx_window: 5000n * MS, permitted_drift: 500n * MS }, depth: q ? 1 : 2, afterFail: 0, alphabet: [...points(1000n * MS, 20n * MS), ...points(5000n * MS, 500n * MS)].flatMap(at), observe, claims },
]);
