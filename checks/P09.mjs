// P09: a batch behaves as its items executed one after the other, with one answer per item in order, within the limits.
import * as L from '../lib/ledger.mjs'; import * as V from '../lib/views.mjs'; import { check, seqs, adv } from '../lib/mk.mjs';
const { ops, acc, P } = L;
const observe = () => [...V.owners(5), ...V.approvalViews(4), ['icrc7_total_supply'], ...V.log()];
const claims = [/^res\./, /^obs\./];
const call = (c, m, l) => ({ c: P(c), m, a: [l], dt: 200_000_000n, label: `P${c}.${m}[${l.map((x) => x.$ ?? '?').join(' ')}]` });
const strip = (l) => l.map(({ $, ...x }) => x);
const B = (c, m, pool, n) => seqs(pool, n).map((l) => ({ ...call(c, m, l), a: [strip(l)] }));
const x = ($, id, to, o = {}) => ({ $, to, token_id: BigInt(id), memo: o.memo ?? null, from_subaccount: null, created_at_time: o.at ?? null });
const xf = ($, id, from, to) => ({ $, spender_subaccount: null, from, to, token_id: BigInt(id), memo: null, created_at_time: null });
const info = (sp, o = {}) => ({ spender: sp, from_subaccount: o.sub ?? null, expires_at: null, memo: null, created_at_time: o.at ?? 'now' });
const at = ($, id, sp, o) => ({ $, token_id: BigInt(id), approval_info: info(sp, o) });
const ac = ($, sp, o) => ({ $, approval_info: info(sp, o) });
const rt = ($, id, sp) => ({ $, spender: sp, from_subaccount: null, token_id: BigInt(id), memo: null, created_at_time: null });
const rc = ($, sp) => ({ $, spender: sp, from_subaccount: null, memo: null, created_at_time: null });
const old = { at: { now: -20_000_000_000n } };
const X = [x('1to2', 1, acc(2)), x('2to2', 2, acc(2)), x('1to1s', 1, acc(1, 1)), x('3to2(not mine)', 3, acc(3)), x('none', 9, acc(2)), x('3old', 1, acc(2), old)];
const XF = [xf('1to2', 1, acc(1), acc(2)), xf('2to3', 2, acc(1), acc(3)), xf('3to1', 3, acc(2), acc(1)), xf('none', 9, acc(1), acc(2)), xf('1to1', 1, acc(1), acc(1))];
const AT = [at('1:3', 1, acc(3)), at('1:2', 1, acc(2)), at('2:3', 2, acc(3)), at('3:3(not mine)', 3, acc(3)), at('none', 9, acc(3)), at('old', 2, acc(2), old)];
const AC = [ac('3', acc(3)), ac('2', acc(2)), ac('anon', acc(L.ANON)), ac('old', acc(3), old), ac('3s', acc(3), { sub: L.sub(1) })];
const RT = [rt('1:3', 1, acc(3)), rt('1:all', 1, null), rt('2:2', 2, acc(2)), rt('3(not mine)', 3, null), rt('none', 9, null)];
const RC = [rc('3', acc(3)), rc('all', null), rc('2', acc(2))];
const M = seqs([{ $: 'to1', metadata: [['a', { Text: '1' }]], memo: null, token_owner: acc(1) }, { $: 'to2', metadata: [], memo: Buffer.from('x'), token_owner: acc(2, 1) }, { $: 'badmemo', metadata: [], memo: Buffer.alloc(5), token_owner: acc(1) }], 4).map((l) => ({ c: P(1), m: 'mint', a: [{ mint_requests: strip(l) }], dt: 200_000_000n, label: 'P1.mint[' + l.map((y) => y.$).join(' ') + ']' }));
// one item for every way an item can fail, next to two good ones
const now = { at: 'now' }, fut = { at: { now: 20_000_000_000n } }, ancient = { at: 5n }, long = { memo: Buffer.alloc(5) };
const y = (i, o) => ({ ...i, $: i.$ + o.$, ...('at' in o ? { created_at_time: o.at } : {}), ...('memo' in o ? { memo: o.memo } : {}) });
const yi = (i, o) => ({ ...i, $: i.$ + o.$, approval_info: { ...i.approval_info, ...('at' in o ? { created_at_time: o.at } : {}), ...('memo' in o ? { memo: o.memo } : {}), ...('exp' in o ? { expires_at: o.exp } : {}) } });
const bad = (l, f) => [{ $: '(old)', ...old }, { $: '(ancient)', ...ancient }, { $: '(future)', ...fut }, { $: '(long memo)', ...long }, { $: '(now)', ...now }].map((o) => f(l, o));
const X2 = [X[0], X[1], ...bad(X[1], y), x('2to1(same)', 2, acc(1)), x('2toAnon', 2, acc(L.ANON)), x('3(not mine)', 3, acc(3)), x('none', 9, acc(2))];
const XF2 = [XF[0], XF[1], ...bad(XF[1], y), xf('2to1(same)', 2, acc(1), acc(1)), xf('2toAnon', 2, acc(1), acc(L.ANON)), xf('wrong from', 2, acc(2), acc(3)), xf('4(not approved)', 4, acc(5), acc(3)), xf('none', 9, acc(1), acc(2))];
const AT2 = [AT[0], AT[2], ...bad(AT[1], yi), yi(AT[2], { $: '(expired)', exp: 5n }), at('anon', 2, acc(L.ANON)), at('self', 2, acc(1)), at('3(not mine)', 3, acc(3)), at('none', 9, acc(3))];
const AC2 = [AC[0], AC[1], ...bad(AC[1], yi), yi(AC[1], { $: '(expired)', exp: 5n }), AC[2], ac('self', acc(1)), AC[4]];
const RT2 = [RT[0], RT[2], ...bad(RT[2], y), rt('1:4(no such)', 1, acc(4)), RT[3], RT[4]];
const RC2 = [RC[0], RC[1], ...bad(RC[2], y), rc('4(no such)', acc(4))];
const pre = [ops.mint(1, [acc(1), acc(1), acc(2)]), ops.apt(1, 1, acc(3)), ops.apt(1, 2, acc(2)), ops.apc(1, acc(3)), ops.apc(2, acc(3))];
const pre2 = [ops.mint(1, [acc(1), acc(1)]), ops.mint(1, [acc(2)]), ...pre.slice(1)];
const base = { prelude: pre, observe, claims, afterFail: 0 };
export default check('P09', (q) => { const n = q ? 3 : 4; return [
  { ...base, name: 'transfer', init: { max_update_batch_size: 3n }, alphabet: [...B(1, 'icrc7_transfer', X, n), ...B(2, 'icrc7_transfer', X.slice(0, 4), 2), { c: L.ANON, m: 'icrc7_transfer', a: [strip(X.slice(0, 2))], dt: 1n, label: 'anon.icrc7_transfer' }], depth: 1 },
  { ...base, name: 'transfer over the limit', prelude: pre2, init: { max_update_batch_size: 2n }, alphabet: B(1, 'icrc7_transfer', X.slice(0, 4), n), depth: 1 },
  { ...base, name: 'transfer_from', alphabet: [...B(3, 'icrc37_transfer_from', XF, n), ...B(2, 'icrc37_transfer_from', XF, 2)], depth: 1 },
  { ...base, name: 'approve_tokens', init: { max_approvals: 2n }, alphabet: B(1, 'icrc37_approve_tokens', AT, n), depth: 1 },
  { ...base, name: 'approve_collection', init: { max_approvals: 2n }, alphabet: [...B(1, 'icrc37_approve_collection', AC, n), ...B(4, 'icrc37_approve_collection', AC, 2)], depth: 1 },
  { ...base, name: 'revoke_tokens', init: { max_revoke: 2n }, alphabet: B(1, 'icrc37_revoke_token_approvals', RT, n), depth: 1 },
  { ...base, name: 'revoke_collection', init: { max_revoke: 2n }, alphabet: B(1, 'icrc37_revoke_collection_approvals', RC, n), depth: 1 },
  { ...base, name: 'mint', init: { max_update_batch_size: 3n, supply_cap: 6n, max_memo_size: 4n }, alphabet: M, depth: 1 },
  ...[[undefined, 'default window'], [1_000_000_000n, 'short window']].map(([tx_window, n2]) => ({ ...base, name: 'failures of every kind, ' + n2, prelude: [...pre.slice(0, 3), adv(1200), ...pre.slice(3), adv(1200), ops.mint(1, [acc(5)]), adv(1200)], init: { tx_window, max_memo_size: 4n },
    alphabet: [...B(1, 'icrc7_transfer', X2, 2), ...B(3, 'icrc37_transfer_from', XF2, 2), ...B(1, 'icrc37_approve_tokens', AT2, 2), ...B(1, 'icrc37_approve_collection', AC2, 2), ...B(1, 'icrc37_revoke_token_approvals', RT2, 2), ...B(1, 'icrc37_revoke_collection_approvals', RC2, 2)], depth: 1 })),
  { ...base, name: 'batches in sequence', alphabet: [...B(1, 'icrc7_transfer', X.slice(0, 3), 2), ...B(3, 'icrc37_transfer_from', XF.slice(0, 3), 2), ...B(1, 'icrc37_approve_tokens', AT.slice(0, 3), 2), ...B(1, 'icrc37_revoke_token_approvals', RT.slice(0, 3), 2)], depth: q ? 2 : 3 },
]; });
