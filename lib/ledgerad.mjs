// Adapter: sequences of calls on one real core_nft canister, in lockstep with the reference model.
import { World } from './mic.mjs'; import * as L from './ledger.mjs'; import { Fail } from './engine.mjs';
const { J, norm } = L;
export const LEDGER = L.P(100);
const SORTED = new Set(['icrc37_get_token_approvals', 'icrc37_get_collection_approvals']);
// canonical form of accounts, maps and orderless answers
export function canon(x) {
  if (Array.isArray(x)) return x.map(canon);
  if (x instanceof Uint8Array) return x;
  if (x && typeof x === 'object') {
    const ks = Object.keys(x);
    if (ks.length === 2 && 'owner' in x && 'subaccount' in x) return '@' + L.ak(x);
    if (ks.length === 1 && ks[0] === 'Map' && Array.isArray(x.Map)) return { Map: x.Map.map(([k, v]) => [k, canon(v)]).sort((a, b) => (a[0] < b[0] ? -1 : a[0] > b[0] ? 1 : 0)) };
    const o = {}; for (const k of ks.sort()) o[k] = k === 'from_subaccount' && x[k] && x[k].every((b) => b === 0) ? null : canon(x[k]); return o;
  }
  return x === undefined ? null : x;
}
export const canonQ = (m, v) => {
  v = canon(norm(v));
  if (m === 'get_user_permissions' && v?.Ok) return { Ok: [...new Set(v.Ok.map((x) => Object.keys(x)[0]))].sort() };
  if (m === 'icrc7_token_metadata' && Array.isArray(v)) return v.map((l) => l && [...l].sort((a, b) => (a[0] < b[0] ? -1 : 1)));
  if (SORTED.has(m) && Array.isArray(v)) { const at = (y) => y.approval_info.created_at_time; if (new Set(v.map((y) => at(y))).size < v.length) return [...v].sort((a, b) => (at(a) > at(b) ? -1 : at(a) < at(b) ? 1 : a.approval_info.spender < b.approval_info.spender ? -1 : 1)); }
  return v;
};
const isErr = (x) => x && typeof x === 'object' && 'Err' in x;
export function kind(impl, model) { // both canonical results
  if (model?.trap || impl?.trap) return 'trap';
  if (impl?.reject) return 'refuse'; if (model?.reject) return 'accept';
  const a = Array.isArray(impl) ? impl : Array.isArray(impl?.Ok) ? impl.Ok : null, b = Array.isArray(model) ? model : Array.isArray(model?.Ok) ? model.Ok : null;
  if (a && b) { if (a.length !== b.length) return 'length'; for (let i = 0; i < a.length; i++) if (J(a[i]) !== J(b[i])) return kind(a[i], b[i]); }
  if (isErr(impl) && isErr(model)) return 'error'; if (isErr(impl)) return 'refuse'; if (isErr(model)) return 'accept'; return 'value';
}
export const resOf = (r) => r === undefined ? { none: true } : r.ok !== undefined ? canon(norm(r.ok)) : r.trap !== undefined || r.reject?.[0] === 5 ? { trap: true } : { reject: true };
export const label = (o) => { const p = o.c && o.c !== L.ANON ? 'P' + ({ }[o.c] ?? nameOf(o.c)) : 'anon'; return o.label ?? `${p}.${o.m}(${o.a ? J(shorten(o.a)).slice(1, -1) : ''})${o.dt !== undefined && BigInt(o.dt) !== 200n * L.MS ? ` dt=${o.dt}` : ''}`; };
const names = new Map(); for (let i = 0; i < 256; i++) names.set(L.P(i), String(i)); names.set(L.ANON, 'anon');
export const nameOf = (t) => names.get(t) ?? t;
function shorten(x) { if (typeof x === 'string') return names.has(x) ? 'P' + names.get(x) : x; if (Array.isArray(x)) return x.map(shorten); if (x instanceof Uint8Array) return x.length === 32 ? 'sub' + x[31] : x; if (x && typeof x === 'object') { const o = {}; const ks = Object.keys(x); if (ks.length === 1 && x[ks[0]] === null) return ks[0]; for (const k of ks) if (x[k] !== null) o[k] = shorten(x[k]); return o; } return x; }

export const ledgerAdapter = {
  make(scn, codes) {
    const w = new World(); w.time = L.T0; const c = w.add(LEDGER, codes.core_nft);
    const args = L.initArgs(scn.init ?? {}), inst = scn.installer ?? L.P(1);
    const r = w.init(c, [{ Init: args }], inst); if (r.trap) throw new Fail('init', 'init trapped: ' + r.trap);
    w.tick(0);
    return { w, c, scn, S: L.newState(args, inst) };
  },
  prelude(ctx) { for (const o of ctx.scn.prelude ?? []) if (this.apply(ctx, { op: o, label: label(o) }).failed) throw new Error('vacuous prelude: ' + label(o)); },
  actions(ctx, depth) { const l = typeof ctx.scn.alphabet === 'function' ? ctx.scn.alphabet(ctx.S, depth) : ctx.scn.alphabet; return l.map((o) => ({ op: o, label: label(o) })); },
  save(ctx) { return { w: ctx.w.snap(), S: L.clone(ctx.S) }; },
  load(ctx, s) { ctx.w.restore(s.w); ctx.S = L.clone(s.S); },
  key: (ctx) => { const S = ctx.S; return J([S.cfg, S.next, S.tok, S.tapp, S.capp, S.perms, S.blocks.length, ctx.phase]); },
  apply(ctx, a) {
    const { w, scn } = ctx, o = a.op;
    if (o.m === '@advance') { w.advance(o.dt); ctx.S.now = w.time; if (o.jobs) w.tick(0); return { outcome: 'advance' }; }
    if (o.m === '@upgrade') {
      w.advance(o.dt ?? 200n * L.MS); ctx.S.now = w.time;
      const r = w.upgrade(ctx.c, [{ Upgrade: { version: { major: 0, minor: 0, patch: 2 }, commit_hash: 'd' } }], L.P(1));
      if (r.trap) throw new Fail('upgrade', 'upgrade failed: ' + r.trap); w.drain(); return { outcome: 'upgrade' };
    }
    w.advance(o.dt ?? 0n);
    const args = L.resolve(o.a, w.time);
    const before = ctx.S.blocks.length;
    const want = canon(norm(L.step(ctx.S, { ...o, a: args })));
    if (ctx.S.now !== w.time) throw new Error('model clock');
    const got = resOf(w.call(LEDGER, o.c, o.m, ...args));
    if (J(got) !== J(want)) throw new Fail(`res.${o.m}.${kind(got, want)}`, `${a.label}: the canister answered ${J(got)}, expected ${J(want)}`);
    const flat = J(want), failed = flat.includes('"Err"') || !!want?.reject || !!want?.trap;
    return { failed: failed && ctx.S.blocks.length === before, outcome: o.m + ':' + (want?.trap ? 'trap' : want?.reject ? 'reject' : [...flat.matchAll(/"Err":\{"(\w+)"/g)].map((m) => m[1])[0] ?? 'Ok') };
  },
  // an observation is [method, ...args], or ['@as', caller, method, ...args]
  observe(ctx) {
    if (ctx.scn.kinds) { // every kind of block in the log is one the canister announces
      const [t, b] = ctx.w.queries(LEDGER, L.P(1), [['icrc3_supported_block_types', null], ['icrc3_get_blocks', [{ start: 0n, length: 1000n }]]]).map((r) => r.ok);
      const have = new Set(t.map((x) => x.block_type)), of = (v) => { const m = Object.fromEntries(v.Map); return m.btype?.Text ?? Object.fromEntries(m.tx?.Map ?? []).btype?.Text; };
      for (const x of b.blocks) { const k = of(x.block); if (!have.has(k)) throw new Fail('obs.icrc3_get_blocks', `block ${x.id} is of kind ${k}, which icrc3_supported_block_types does not announce (${[...have]})`); }
    }
    const qs = (ctx.scn.observe?.(ctx.S) ?? []).map((q) => { const [by, m, ...a] = q[0] === '@as' ? q.slice(1) : [ctx.scn.asker ?? L.P(1), ...q]; return { by, m, a: L.resolve(a, ctx.w.time) }; });
    if (!qs.length) return;
    const groups = new Map(); for (const q of qs) { if (!groups.has(q.by)) groups.set(q.by, []); groups.get(q.by).push(q); }
    for (const [by, l] of groups) { const real = ctx.w.queries(LEDGER, by, l.map((q) => [q.m, ...q.a])); l.forEach((q, i) => { q.got = real[i]; }); }
    for (const { by, m, a, got: g } of qs) {
      const need = L.GATED[m], want = need && !L.has(ctx.S, by, need) ? { reject: true } : L.QUERIES[m](ctx.S, ...a);
      const got = g.ok !== undefined ? canonQ(m, g.ok) : g.trap !== undefined ? { trap: true } : { reject: true };
      const w1 = L.isTrap(want) ? { trap: true } : want?.reject === true ? want : canonQ(m, want);
      if (J(got) !== J(w1)) throw new Fail('obs.' + m, `${by === ctx.scn.asker || by === L.P(1) ? '' : 'asked by P' + nameOf(by) + ', '}${m}(${J(shorten(a)).slice(1, -1)}) answers ${J(got)}, expected ${J(w1)}`);
    }
  },
};
