// Adapter for the consent messages: an action adds one item to the batch the user is asked to sign; after every action
// the message for the batch is requested, together with those for every batch that differs from it in one field.
import { World, didOf } from './mic.mjs'; import * as L from './ledger.mjs'; import { Fail } from './engine.mjs'; import { LEDGER, label } from './ledgerad.mjs'; import * as I from './ifaces.mjs';
const { J, P, acc, sub } = L;
const Q = 'icrc21_canister_call_consent_message', T = 1_700_000_000_123_456_789n, ZERO = Buffer.alloc(32), B = (s) => Buffer.from(s);
const SPECS = [null, { GenericDisplay: null }, { LineDisplay: { characters_per_line: 40, lines_per_page: 4 } }];
export const tok = [1n, 23n, 1_000_007n, 2n ** 70n + 3n], opt8 = [null, B('note'), Buffer.from([1, 16]), Buffer.from([17, 0])], full = Buffer.from([...Array(32).keys()].map((i) => 160 + i)), pad = (...b) => Buffer.concat([Buffer.alloc(32 - b.length), Buffer.from(b)]), subs = [null, full, sub(5), pad(1, 16), pad(17, 0)], accs = [acc(2), acc(2, 7), acc(3), { owner: P(3), subaccount: full }], times = [null, T], exps = [null, T + 5n];
// field name -> values it may take; the first is the plainest
const info = { spender: accs, from_subaccount: subs, expires_at: exps, memo: opt8, created_at_time: [T + 9n, T + 11n] };
export const METHODS = {
  icrc7_transfer: { token_id: tok, to: accs, from_subaccount: subs, memo: opt8, created_at_time: times },
  icrc37_approve_tokens: { token_id: tok, ...info }, icrc37_approve_collection: info,
  icrc37_revoke_token_approvals: { token_id: tok, spender: [null, ...accs], from_subaccount: subs, memo: opt8, created_at_time: times },
  icrc37_revoke_collection_approvals: { spender: [null, ...accs], from_subaccount: subs, memo: opt8, created_at_time: times },
  icrc37_transfer_from: { token_id: tok, from: accs, to: accs, spender_subaccount: subs, memo: opt8, created_at_time: times },
};
const wrap = (m, x) => (/approve/.test(m) ? { ...(m === 'icrc37_approve_tokens' ? { token_id: x.token_id } : {}), approval_info: { spender: x.spender, from_subaccount: x.from_subaccount, expires_at: x.expires_at, memo: x.memo, created_at_time: x.created_at_time } } : x);
// every combination of the values of a method's fields, each field limited to its first n values
export const combos = (m, n = 9) => Object.entries(METHODS[m]).reduce((l, [f, vs]) => l.flatMap((x) => vs.slice(0, typeof n === 'function' ? n(f) : n).map((v) => ({ ...x, [f]: v }))), [{}]);
// the plainest item, and it with one field changed, and everything given
export const star = (m) => { const d = METHODS[m], base = Object.fromEntries(Object.entries(d).map(([f, v]) => [f, v[0]])); return [base, ...Object.entries(d).flatMap(([f, v]) => v.slice(1).map((x) => ({ ...base, [f]: x }))), Object.fromEntries(Object.entries(d).map(([f, v]) => [f, v[v.length - 1]]))]; };
const words = (s) => s.replace(/(?<=\d)[_,'\u202f](?=\d)/g, '');
const text = (r) => { const c = r?.ok?.Ok?.consent_message; return c ? words(c.GenericDisplayMessage ?? c.LineDisplayMessage.pages.map((p) => p.lines.join('\n')).join('\n')) : undefined; };
const num = (s, n) => new RegExp(`(?<![0-9])${n}(?![0-9])`).test(s);
const hexIn = (s, b) => { const h = b.toString('hex'); return s.toLowerCase().includes(h) || new RegExp(`(?<![0-9a-f])0*${h.replace(/^0+/, '')}(?![0-9a-f])`, 'i').test(s); };
export const consentAdapter = {
  make(scn, codes) {
    const w = new World(); w.time = L.T0; const c = w.add(LEDGER, codes.core_nft), did = didOf(codes.core_nft), r = w.init(c, [{ Init: L.initArgs(scn.init ?? {}) }], P(1)); if (r.trap) throw new Fail('init', r.trap); w.tick(0);
    return { w, c, did, scn, batch: [], m: null };
  },
  prelude(ctx) { for (const o of ctx.scn.prelude ?? []) { if (o.m === '@upgrade') { const r = ctx.w.upgrade(ctx.c, [{ Upgrade: { version: { major: 0, minor: 0, patch: 2 }, commit_hash: 'd' } }], P(1)); if (r.trap) throw new Fail('upgrade', r.trap); } else { ctx.w.advance(200_000_000n); const r = ctx.w.call(LEDGER, o.c, o.m, ...L.resolve(o.a, ctx.w.time)); if (r.ok === undefined || /"Err"/.test(J(r.ok))) throw new Error('vacuous prelude ' + label(o) + J(r)); } } },
  actions(ctx, depth) { return ctx.m === null ? [...(ctx.scn.methods ?? Object.keys(METHODS)).map((m) => ({ m, label: m })), ...(ctx.scn.malformed ?? [])] : ctx.m === '@' ? [] : ctx.scn.items(ctx.m, depth).map((x) => ({ x, label: 'item ' + J(x) })); },
  save: (ctx) => ({ batch: ctx.batch.slice(), m: ctx.m }), load(ctx, s) { ctx.batch = s.batch.slice(); ctx.m = s.m; },
  key: (ctx) => J([ctx.m, ctx.batch, ctx.raw]),
  apply(ctx, a) { ctx.raw = a.raw; if (a.raw) ctx.m = '@'; else if (a.m) ctx.m = a.m; else ctx.batch.push(a.x); return { outcome: a.raw ? 'malformed' : a.m ?? `${ctx.m} x${ctx.batch.length}` }; },
  enc(ctx, m, l) { return I.encArgs(ctx.did, m, [l.map((x) => wrap(m, x))]); },
  observe(ctx) {
    const { w, m, batch } = ctx; if (m === null) return;
    const ask = (l) => w.queries(LEDGER, P(9), l.map(([method, arg, spec]) => [Q, { method, arg, user_preferences: { metadata: { utc_offset_minutes: null, language: 'en' }, device_spec: spec ?? null } }]));
    if (ctx.raw) { for (const [i, r] of ask(SPECS.map((s) => [...ctx.raw(ctx, this), s])).entries()) { if (r.ok === undefined) throw new Fail('consent.trap', `the request is answered with ${J(r)}, expected an error answer`); if (!r.ok.Err) throw new Fail('consent.unsupported', `the request is answered with a message: ${text(r)}`); } return; }
    const here = this.enc(ctx, m, batch), near = [], d = METHODS[m], same = (f, a, b) => J(a ?? ZERO) === J(b ?? ZERO) && /subaccount/.test(f);
    batch.forEach((x, i) => { for (const [f, vs] of Object.entries(d)) for (const v of vs) if (J(v) !== J(x[f]) && !same(f, v, x[f])) near.push([`item ${i + 1}: ${f}=${J(v)} instead of ${J(x[f])}`, [...batch.slice(0, i), { ...x, [f]: v }, ...batch.slice(i + 1)]]); near.push([`without item ${i + 1}`, batch.filter((_, j) => j !== i)]); });
    near.push(['one item more', [...batch, star(m)[0]]]);
    const rs = ask([...SPECS.map((s) => [m, here, s]), ...near.map(([, l]) => [m, this.enc(ctx, m, l)])]), show = () => `${m}(${J(batch)})`;
    const empty = (l) => !l.length;
    const msgs = rs.map((r, i) => {
      const l = i < SPECS.length ? batch : near[i - SPECS.length][1], t = text(r);
      if (r.ok === undefined) throw new Fail('consent.trap', `the message of ${m}(${J(l)}) is answered with ${J(r)}`);
      if (t === undefined && !empty(l)) throw new Fail('consent.refused', `no message for ${m}(${J(l)}): ${J(r.ok)}`);
      return t;
    });
    for (const t of msgs.slice(0, SPECS.length)) {
      if (t === undefined) continue;
      if (!t.includes(m)) throw new Fail('consent.method', `${show()}: the message does not name the call: ${t}`);
      for (const x of batch) for (const f of Object.keys(d)) {
        const v = x[f], no = (what) => { throw new Fail('consent.' + f, `${show()}: the message does not name ${what}: ${t}`); };
        if (v === null) continue;
        if (typeof v === 'bigint') { if (!num(t, v)) no(`${f} ${v}`); }
        else if (Buffer.isBuffer(v)) { if (f !== 'memo' && !hexIn(t, v)) no(`${f} ${v.toString('hex')}`); }
        else { if (!t.includes(v.owner)) no(`${f} ${v.owner}`); if (v.subaccount && !hexIn(t, v.subaccount)) no(`${f}'s subaccount ${v.subaccount.toString('hex')}`); }
      }
    }
    near.forEach(([what], i) => { if (msgs[i + SPECS.length] !== undefined && msgs[i + SPECS.length] === msgs[0]) throw new Fail('consent.same', `${show()} and the same with ${what} have the same message: ${msgs[0]}`); });
  },
};
