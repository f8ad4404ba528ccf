// From the released version to this one: any other adapter, with its canister made from the released wasm (lib/published)
// and upgraded to the one built from the working tree.  What the released version answers before is followed, not judged
// (its own defects are not at issue); from the upgrade on everything is.
import { Fail } from './engine.mjs'; import * as L from './ledger.mjs'; import { ledgerAdapter, canonQ, LEDGER } from './ledgerad.mjs';
export const released = (adapter, which) => ({
  ...adapter,
  make(scn, codes) { const ctx = adapter.make.call(this, scn, { ...codes, [which]: codes[which + ' released'] }); ctx.codes = codes; const c = which === 'core_nft' ? ctx.c : ctx.ix ?? ctx.c; c.next = codes[which]; ctx.old = () => c.code !== c.next; return ctx; },
  apply(ctx, a, ...r) {
    if (!ctx.old()) return adapter.apply.call(this, ctx, a, ...r);
    try { return adapter.apply.call(this, ctx, a, ...r); } catch (e) {
      if (!(e instanceof Fail) || !ctx.old()) throw e;
      if ((ctx.scn.carried ? /^res\.\w+\.(value|error|accept|refuse)$/ : /^res\.\w+\.value$/).test(e.cls)) return { failed: false, outcome: 'released version: ' + e.cls };
      throw new Fail('released.' + e.cls, e.message);
    }
  },
  actions(ctx, ...r) { const l = adapter.actions.call(this, ctx, ...r); return ctx.old() ? l : l.filter((a) => a.t !== 'up' && (a.op ?? a.o)?.m !== '@upgrade'); }, // one upgrade
  observe(ctx, ...r) { if (!ctx.old()) return adapter.observe.call(this, ctx, ...r); },
  key: (ctx) => (ctx.old() ? 'released ' : '') + adapter.key.call(adapter, ctx),
});
// what the released version answers right before the upgrade is what this one answers right after it
const ask = (ctx) => ctx.scn.carried(ctx.S).map((q) => { const [by, m, ...a] = q[0] === '@as' ? q.slice(1) : [L.P(1), ...q], args = L.resolve(a, ctx.w.time), g = ctx.w.queries(LEDGER, by, [[m, ...args]])[0]; return { m, args, is: L.J(g.ok !== undefined ? canonQ(m, g.ok) : g.trap !== undefined ? 'trap' : 'refused') }; });
const rel = released(ledgerAdapter, 'core_nft');
export const carriedAdapter = { ...rel,
  apply(ctx, a, ...r) {
    if (!ctx.old() || a.op.m !== '@upgrade') return ctx.old() || !ctx.scn.carried ? rel.apply.call(this, ctx, a, ...r) : ledgerAdapter.apply.call(this, ctx, a, ...r);
    const dt = a.op.dt ?? 200n * L.MS; if (ctx.scn.carried) ctx.w.advance(dt);
    const before = ctx.scn.carried && ask(ctx), x = ledgerAdapter.apply.call(this, ctx, ctx.scn.carried ? { ...a, op: { ...a.op, dt: 0n } } : a, ...r);
    if (before) ask(ctx).forEach((g, i) => { if (g.is !== before[i].is) throw new Fail('carried.' + g.m, `${g.m}(${L.J(g.args).slice(1, -1)}) answers ${g.is} after the upgrade from the released version, ${before[i].is} before it`); });
    return x;
  },
};
