// Adapter for the published interface: every method is called with values of its argument types, in a few states, by a
// few callers.  What counts is the form: the method exists in the mode it is published with, it takes what it says it
// takes, and what it answers has the type it says it has -- in the interface the canister itself publishes and in the
// one clients were written against (lib/published).
import fs from 'fs'; import { World } from './mic.mjs'; import * as L from './ledger.mjs'; import { Fail } from './engine.mjs'; import { label } from './ledgerad.mjs';
import { encode, parseDid, subtype, subtypes, wireTypes, principalBytes } from './candid.mjs';
const { P, J } = L;
const pinned = Object.fromEntries(['core_nft', 'index_icrc7'].map((n) => [n, parseDid(fs.readFileSync(new URL(`./published/${n}.did`, import.meta.url), 'utf8'))]));
export const DID = pinned;
const SUB = /subaccount$/; // always optional and of 32 bytes, by the standards
const TEXTS = ['', 'a', '\u00e9/b c', 'mint'], NATS = [0n, 1n, 2n, 1n << 64n, (1n << 128n) + 1n];
// values of a type: the first is the plainest; the others differ from it in one place (or in one place more, if wide)
export function values(did, t, d = 3, wide = 0) {
  t = did.rslv(t); const sub = (x) => values(did, x, d - 1, wide), uniq = (l) => { const s = new Set(); return l.filter((x) => { const k = J(x); if (s.has(k)) return false; s.add(k); return true; }); };
  switch (t.k) {
    case 'prim': switch (t.n) {
      case 'null': case 'reserved': return [null]; case 'bool': return [false, true]; case 'nat': return [1n, ...NATS.filter((x) => x !== 1n)]; case 'int': return [0n, -1n, 1n << 70n, -(1n << 70n)];
      case 'nat8': return [1, 0, 255]; case 'nat16': return [1, 0, 65535]; case 'nat32': return [1, 0, 0xffffffff]; case 'nat64': return [1n, 0n, (1n << 64n) - 1n]; case 'int16': return [0, -1, 32767];
      case 'float64': return [0, -1.5]; case 'text': return ['a', ...TEXTS.filter((x) => x !== 'a')]; case 'principal': return [P(2), P(1), L.ANON, 'aaaaa-aa'];
      default: throw new Error('values of ' + t.n);
    }
    case 'blob': return [Buffer.from('x'), Buffer.alloc(0), L.sub(1), L.sub(0), Buffer.alloc(33)];
    case 'opt': return d <= 0 ? [null] : [null, ...sub(t.t)];
    case 'vec': { if (d <= 0) return [[]]; const l = sub(t.t); return uniq([[l[0]], [], ...l.slice(1).map((x) => [x]), [l[0], l[0]], [l.at(-1), l[0]]]); }
    case 'record': { const ls = t.fs.map((f) => (SUB.test(f.n) ? [null, L.sub(1), L.sub(0)] : sub(f.t))), mk = (pick) => { const v = t.fs.map((f, i) => ls[i][pick[i] ?? 0]); return t.tuple ? v : Object.fromEntries(t.fs.map((f, i) => [f.n, v[i]])); };
      const out = [mk({})]; ls.forEach((l, i) => { for (let k = 1; k < l.length; k++) { out.push(mk({ [i]: k })); if (wide) ls.forEach((m, j) => { if (j > i) for (let q = 1; q < m.length; q++) out.push(mk({ [i]: k, [j]: q })); }); } }); return out; }
    case 'variant': return t.fs.flatMap((f) => (d <= 0 && did.rslv(f.t).k !== 'prim' ? values(did, f.t, 0, 0).slice(0, 1) : sub(f.t)).map((v) => ({ [f.n]: v })));
    case 'func': return [{ principal: P(3), method: 'm' }];
    default: throw new Error('values of ' + t.k);
  }
}
// argument lists of a method: all plainest, and every one differing in one argument
export const arglists = (did, m, d, wide) => { const ls = did.methods[m].args.map((t) => values(did, t, d, wide)), plain = ls.map((l) => l[0]); return [plain, ...ls.flatMap((l, i) => l.slice(1).map((v) => plain.map((x, j) => (i === j ? v : x))))]; };
const CAN = P(100);
const BADARG = /Failed to decode|Fail to decode|No more values on the wire|Cannot parse|Subtyping error|on an `Err` value: (Custom|Subtype|Binread)\(|Custom\(/;
export const ifaceAdapter = {
  make(scn, codes) {
    const w = new World(); w.time = L.T0; const c = w.add(CAN, codes[scn.code]), did = pinned[scn.code];
    const ver = { major: 0, minor: 0, patch: 1 };
    const arg = scn.arg ?? (scn.code === 'core_nft' ? { Init: L.initArgs({ max_memo_size: 64n, ...(scn.init ?? {}) }) } : { Init: { test_mode: false, authorized_principals: [P(1)], version: ver, ledger_canister_id: P(200), commit_hash: 'c' } });
    const r = w.lifecycle(c, 'canister_init', encode(did, did.init, [arg]), P(1)); if (r.trap) throw new Fail('iface.init', 'installation with the published argument fails: ' + r.trap);
    w.tick(0); return { w, c, scn, did, n: 0 };
  },
  prelude(ctx) { for (const o of ctx.scn.prelude ?? []) { if (o.m === '@upgrade') { const r = ctx.w.lifecycle(ctx.c, 'canister_pre_upgrade', Buffer.alloc(0), P(1)); ctx.c.fresh(); const p = ctx.w.lifecycle(ctx.c, 'canister_post_upgrade', encode(ctx.did, ctx.did.init, [o.arg]), P(1)); if (r.trap || p.trap) throw new Fail('iface.init', 'upgrade with the published argument fails: ' + (r.trap ?? p.trap)); ctx.w.tick(0); continue; } ctx.w.advance(o.dt ?? 0n); const r = ctx.w.call(CAN, o.c, o.m, ...L.resolve(o.a, ctx.w.time)); if (!r.ok || J(r.ok).includes('"Err"')) throw new Error('vacuous prelude: ' + label(o) + J(r)); } },
  actions(ctx, depth) { return ctx.scn.actions(ctx, depth); },
  save: (ctx) => ctx.w.snap(), load(ctx, s) { ctx.w.restore(s); },
  key: (ctx) => J([ctx.last]),
  apply(ctx, a) {
    const { w, c, did } = ctx, own = c.did; ctx.last = a.label;
    if (a.form) { // the published interface as a whole
      for (const m in did.methods) {
        const s = did.methods[m], q = own.methods[m], x = c.ex[`canister_${s.mode} ${m}`];
        if (!q) throw new Fail('iface.method', `${m} is not in the published interface`);
        if (!x) throw new Fail('iface.mode', `${m} is published as ${s.mode}, but the canister does not export it so`);
        if (q.mode !== s.mode) throw new Fail('iface.mode', `${m} is published as ${q.mode}, clients know it as ${s.mode}`);
        const e = subtypes(did, s.args, own, q.args, new Map()) ?? subtypes(own, q.rets, did, s.rets, new Map()); if (e) throw new Fail('iface.type', `${m} is published in a form clients do not know: ${e}`);
      }
      for (const m in own.methods) if (!c.ex[`canister_${own.methods[m].mode} ${m}`]) throw new Fail('iface.mode', `${m} is published as ${own.methods[m].mode}, but the canister does not export it so`);
      const e = subtypes(did, did.init, own, own.init, new Map()); if (e) throw new Fail('iface.type', 'installation arguments: ' + e);
      if (did.methods.icrc10_supported_standards) {
        const l = w.query(CAN, P(1), 'icrc10_supported_standards').ok?.map((x) => x.name) ?? [];
        for (const n of [3, 7, 10, 21, 37]) if (!l.includes('ICRC-' + n)) throw new Fail('iface.standards', `ICRC-${n} is not among the supported standards (${l})`);
      }
      return { outcome: 'the published interface' };
    }
    w.advance(200_000_000n);
    const o = a.op, d = a.own ? own : did, s = d.methods[o.m], args = L.resolve(o.a, w.time), bytes = encode(d, s.args, args);
    let out;
    if (s.mode === 'query') { const f = c.ex['canister_query ' + o.m]; if (!f) throw new Fail('iface.mode', o.m + ' is not a query'); const r = c.run(() => f(), { arg: bytes, caller: principalBytes(o.c), query: true }); out = r.trap !== undefined ? { trap: r.trap } : r.out; }
    else { const id = w.ingress(CAN, o.m, bytes, o.c); w.drain(); out = w.results.get(id); w.results.delete(id); }
    if (!out) throw new Fail('iface.silent', `${a.label} is not answered`);
    if (out.reply === undefined) {
      const t = out.trap ?? out.reject[1]; if (BADARG.test(t)) throw new Fail('iface.arg', `${a.label}: the canister does not take what it publishes: ${t.slice(0, 300)}`);
      return { outcome: o.m + (out.trap !== undefined ? ':trap' : ':reject') };
    }
    const wt = wireTypes(out.reply);
    for (const [who, e] of [['publishes', own], ['has always published', did]]) { const ts = e.methods[o.m]?.rets; if (!ts) continue; const x = subtypes(wt, wt.types, e, ts, new Map()); if (x) throw new Fail('iface.reply', `${a.label}: the answer has not the type the canister ${who}: ${x}`); if (wt.types.length !== ts.length) throw new Fail('iface.reply', `${a.label}: ${wt.types.length} values are answered, ${ts.length} are published`); }
    return { outcome: o.m + ':reply' };
  },
  observe() {},
};
export const call = (c, m, a, own) => { const op = { c, m, a }; return { op, own, label: label(op) }; };
