// P11: paging through approvals enumerates every approval exactly once, newest first; the number of approvals and of
// revocations per call never exceeds the configured maximum.
import * as L from '../lib/ledger.mjs'; import { check, UP } from '../lib/mk.mjs'; import { ledgerAdapter, LEDGER, label } from '../lib/ledgerad.mjs'; import { Fail } from '../lib/engine.mjs';
const { ops, acc } = L; const s1 = L.sub(1);
const info = (s) => ({ memo: null, from_subaccount: null, created_at_time: 0n, expires_at: null, spender: s });
const prevs = [null, acc(2), acc(3), acc(4), acc(5), acc(9)], takes = [null, 0n, 1n, 2n, 3n, 20n, 2n ** 32n + 1n];
const observe = () => prevs.flatMap((p) => takes.flatMap((t) => [['icrc37_get_token_approvals', 1n, p && { token_id: 1n, approval_info: info(p) }, t], ['icrc37_get_collection_approvals', acc(1), p && { approval_info: info(p) }, t]])).concat([['icrc37_get_token_approvals', 9n, null, null], ['icrc37_get_token_approvals', 2n, null, null], ['icrc37_get_collection_approvals', acc(1, 1), null, null], ['icrc37_get_collection_approvals', acc(7), null, null], ['icrc37_max_approvals_per_token_or_collection'], ['icrc37_max_revoke_approvals']]);
const claims = [/^obs\.icrc37_(get|max)/, /^res\.icrc37_(approve|revoke)/];
const pre = [ops.mint(1, [acc(1), acc(1, 1)])];
const sp = [2, 3, 4, 5];
const T = [...sp.map((i) => ops.apt(1, 1, acc(i))), ops.rvt(1, 1, acc(3)), ops.rvt(1, 1, null), ops.xfer(1, 1, acc(2)), ops.apt(1, 2, acc(3), { sub: s1 })];
const K = [...sp.map((i) => ops.apc(1, acc(i))), ops.rvc(1, acc(3)), ops.rvc(1, null), ops.apc(1, acc(2), { sub: s1 }), ops.burn(1, 1)];
// walking the pages while other calls are made between them
const many = (tok, l) => ({ c: L.P(1), m: tok ? 'icrc37_approve_tokens' : 'icrc37_approve_collection', dt: 200_000_000n, a: [l.map((i) => ({ ...(tok ? { token_id: 1n } : {}), approval_info: { ...info(acc(i)), created_at_time: 'now' } }))], label: `P1 approves P${l.join(', P')} for ${tok ? 'token 1' : 'all its tokens'} in one call` });
const walker = { ...ledgerAdapter, apply(ctx, a) {
  const o = a.op; if (o.m !== '@walk') return ledgerAdapter.apply(ctx, a);
  for (const tok of [true, false]) {
    const q = tok ? 'icrc37_get_token_approvals' : 'icrc37_get_collection_approvals', all = [...((tok ? ctx.S.tapp.get(1n) : ctx.S.capp.get(L.ak(acc(1)))) ?? new Map()).values()].map((x) => L.ak(x.spender)).sort(), got = [];
    for (let prev = null, n = 0; ; n++) {
      const r = ctx.w.query(LEDGER, L.P(1), q, tok ? 1n : acc(1), prev, o.take); if (r.ok === undefined || n > 20) throw new Fail('obs.' + q, `page ${n} of ${q}: ${L.J(r)}`); if (!r.ok.length) break;
      got.push(...r.ok); prev = r.ok.at(-1); if (r.ok.length > Number(o.take)) throw new Fail('obs.' + q, `a page of ${r.ok.length} for take=${o.take}`);
      for (const v of o.via) ledgerAdapter.apply(ctx, { op: v, label: label(v) });
    }
    const g = got.map((x) => L.ak(x.approval_info.spender)); if (L.J([...g].sort()) !== L.J(all)) throw new Fail('obs.' + q, `the pages (of ${o.take}) of ${q}, with calls between them, list ${L.J(g)}, in force are ${L.J(all)}`);
    for (let i = 1; i < got.length; i++) if (got[i].approval_info.created_at_time > got[i - 1].approval_info.created_at_time) throw new Fail('obs.' + q, 'not newest first: ' + L.J(got));
  }
  return { outcome: 'walk' };
} };
const walk = (take, ...via) => ({ m: '@walk', take: BigInt(take), via, label: `the pages of ${take} are followed, with ${via.map(label).join(', ')} between them` });
// spenders that differ in their subaccount only, and grants that expire, count and are listed one by one
const V5 = [acc(2), acc(2, 1), acc(2, 2), acc(3), acc(3, 0)], exp = { exp: { now: 10n ** 12n } };
const subviews = () => [null, ...V5].flatMap((p) => [null, 1n, 2n].flatMap((t) => [['icrc37_get_token_approvals', 1n, p && { token_id: 1n, approval_info: info(p) }, t], ['icrc37_get_collection_approvals', acc(1), p && { approval_info: info(p) }, t]]));
const W = [...V5.flatMap((a, i) => [ops.apt(1, 1, a, i % 2 ? exp : {}), ops.apc(1, a, i % 2 ? {} : exp)]), ops.rvt(1, 1, acc(2, 1)), ops.rvc(1, acc(2, 1)), ops.rvc(1, acc(2, 0)), ops.rvt(1, 1, acc(3))];
export default check('P11', (q) => [
  { name: 'token', init: { max_approvals: 3n, max_revoke: 2n }, prelude: pre, alphabet: T, depth: q ? 4 : 5, observe, claims, afterFail: 0 },
  { name: 'collection', init: { max_approvals: 3n, max_revoke: 2n }, prelude: pre, alphabet: K, depth: q ? 4 : 5, observe, claims, afterFail: 0 },
  { name: 'one at most', init: { max_approvals: 1n, max_revoke: 1n }, prelude: pre, alphabet: [...T.slice(0, 2), ...T.slice(4), ...K.slice(0, 2), ...K.slice(4)], depth: q ? 3 : 4, observe, claims, afterFail: 0 },
  { name: 'defaults', prelude: pre, alphabet: [...T, ...K], depth: q ? 2 : 4, observe, claims, afterFail: 0 },
  { name: 'spender subaccounts', init: { max_approvals: 2n, max_revoke: 2n }, prelude: pre, alphabet: W, depth: q ? 3 : 5, observe: subviews, claims, afterFail: 0 },
  // more than ten: the default page
  { name: 'long lists', init: { max_approvals: 14n }, prelude: [...pre, ...Array.from({ length: 11 }, (_, i) => ops.apt(1, 1, acc(20 + i))), ...Array.from({ length: 11 }, (_, i) => ops.apc(1, acc(20 + i)))], alphabet: [...T.slice(0, 3), ...K.slice(0, 3), ops.rvt(1, 1, acc(25)), ops.rvc(1, acc(25))], depth: q ? 2 : 4, observe: () => [...observe(), ...[20, 24, 25, 30].flatMap((i) => [null, 1n, 4n].flatMap((t) => [['icrc37_get_token_approvals', 1n, { token_id: 1n, approval_info: info(acc(i)) }, t], ['icrc37_get_collection_approvals', acc(1), { approval_info: info(acc(i)) }, t]]))], claims, afterFail: 0 },
  { name: 'no limit', init: { max_approvals: 2n ** 40n, max_revoke: 2n ** 64n }, prelude: [...pre, ...Array.from({ length: 10 }, (_, i) => ops.apt(1, 1, acc(20 + i))), ...Array.from({ length: 10 }, (_, i) => ops.apc(1, acc(20 + i)))], alphabet: [T[0], K[0], { ...T[4], a: [[...T[4].a[0], ...Array.from({ length: 11 }, (_, i) => ops.rvt(1, 1, acc(20 + i)).a[0][0])]], label: 'P1 revokes 12 token approvals in one call' }, { ...K[4], a: [[...K[4].a[0], ...Array.from({ length: 11 }, (_, i) => ops.rvc(1, acc(20 + i)).a[0][0])]], label: 'P1 revokes 12 collection approvals in one call' }], depth: 2, observe, claims, afterFail: 0 },
  { name: 'pages between calls', adapter: walker, prelude: [...pre, ops.mint(1, [acc(2)])], alphabet: (S, d, last) => [many(true, [2, 3, 4]), many(false, [2, 3, 4]), many(true, [5, 6]), many(false, [5, 6, 3]), T[1], K[1], T[4], K[4], walk(1, ops.apt(2, 3, acc(1))), walk(2, ops.apc(2, acc(4)), ops.xfer(2, 3, acc(2, 1))), walk(1, UP)], depth: q ? 3 : 5, observe: () => [], claims, afterFail: 0 },
]);
