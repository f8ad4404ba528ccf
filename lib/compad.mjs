// Adapter for the composition: the real ledger, the archives it installs and the real index in one world.  The index asks the
// ledger (and the archives it is pointed to) itself; an action decides when the ledger executes a request and when its answer
// arrives.  Oracle: the reference ledger's log, filtered by what each of its blocks says.
import * as L from './ledger.mjs'; import { Fail } from './engine.mjs'; import { archAdapter } from './archad.mjs'; import { LEDGER, canon, label } from './ledgerad.mjs'; import { IDX } from './idxad.mjs';
const { J, norm, P, acc } = L, MIN = 60_000_000_000n;
const ver = (patch) => ({ version: { major: 0, minor: 0, patch } });
const X = (m, label, o = {}) => ({ m, label, ...o });
export const round = X('@round', 'the index fetches'), bad = (n) => X('@round', `the index fetches, request ${n} is refused`, { no: n }), ask = X('@ask', 'the index begins to fetch'), serve = X('@serve', 'its request is executed'), hear = X('@hear', 'the answer arrives'), lose = X('@lose', 'its request is refused');
export const look = X('@look', 'somebody reads all blocks from the index'), indexUp = X('@iup', 'the index is upgraded');
const mine = (m) => (m.kind === 'req' ? m.from === IDX && m.callee !== IDX : m.req.from === IDX && m.req.callee !== IDX);
const text = (m, k) => m[k]?.Text;
// what the log says of each block
const facts = (S) => L.QUERIES.icrc3_get_blocks(S, [{ start: 0n, length: BigInt(S.blocks.length) }]).blocks.map(({ block }) => {
  const m = Object.fromEntries(block.Map), tx = Object.fromEntries(m.tx.Map);
  return { k: text(m, 'btype') ?? text(tx, 'btype'), t: tx.tid?.Nat, who: ['from', 'to', 'spender'].map((r) => text(tx, r)).filter(Boolean), v: J(canon(norm(L.sortVal(block)))) };
});
const fits = (b, f) => ('Account' in f ? b.who.includes(f.Account.owner) && !f.Account.subaccount : 'TokenId' in f ? b.t === f.TokenId : b.k === f.BlockType);
export const compAdapter = {
  ...archAdapter,
  make(scn, codes) {
    const ctx = archAdapter.make(scn, codes); ctx.last = 0;
    if (!scn.late) this.install(ctx); return ctx;
  },
  install(ctx) {
    const { w } = ctx, c = ctx.ix = w.add(IDX, ctx.codes.index_icrc7);
    const r = w.init(c, [{ Init: { test_mode: false, authorized_principals: [], ...ver(1), commit_hash: 'c', ledger_canister_id: LEDGER } }], P(1)); if (r.trap) throw new Fail('init', r.trap);
    w.tick(0);
  },
  prelude(ctx) { archAdapter.prelude.call(this, ctx); if (ctx.scn.late) this.install(ctx); },
  save(ctx) { return { ...archAdapter.save(ctx), last: ctx.last }; },
  load(ctx, s) { archAdapter.load(ctx, s); ctx.last = s.last; ctx.ix = ctx.w.can(IDX); },
  key(ctx) { return archAdapter.key(ctx) + J([ctx.last, ctx.w.pending.map((m) => [m.kind, m.method ?? m.req.method])]); },
  actions(ctx, depth) {
    const q = ctx.w.pending.filter(mine), has = (k) => q.some((m) => m.kind === k);
    return archAdapter.actions(ctx, depth).filter(({ op: { m } }) => (m === '@ask' ? q.length < (ctx.scn.open ?? 1) : m === '@serve' || m === '@lose' ? has('req') : m === '@hear' ? has('resp') : true));
  },
  // the timers of a minute; the requests of the index stay where they are
  minute(ctx) {
    const { w } = ctx; w.advance(MIN); ctx.S.now = w.time;
    for (let i = 0; i < 4; i++) { const n = w.timers(); this.calm(ctx); if (!n) break; }
  },
  calm(ctx) { const { w } = ctx; for (let k = 0; ; k++) { const i = w.pending.findIndex((m) => !mine(m) && !this.moving(m)); if (i < 0) return; if (k > 2000) throw new Fail('livelock', 'does not end'); w.deliver(i); } },
  moving: (m) => (m.kind === 'req' ? m.from === LEDGER && !/canister_status|deposit_cycles/.test(m.method) : m.req.from === LEDGER && !/canister_status|deposit_cycles/.test(m.req.method)),
  // serve the index until it asks nothing more
  serveAll(ctx, no = 0) {
    const { w } = ctx; let n = 0;
    for (let k = 0; ; k++) { const i = w.pending.findIndex(mine); if (i < 0) return; if (k > 2000) throw new Fail('idx.livelock', 'the index keeps asking'); const m = w.pending[i]; if (m.kind === 'req' && ++n === no) w.deliver(i, { reject: [2, 'refused'] }); else w.deliver(i); this.calm(ctx); }
  },
  status(ctx) { const r = ctx.w.query(IDX, P(5), 'status'); if (r.ok === undefined) throw new Fail('idx.status', 'status answers ' + J(r)); return Number(r.ok.last_block_id); },
  get(ctx, q) {
    const { w } = ctx, id = w.start(IDX, P(5), 'get_blocks', { sort_by: null, filters: [], start: 0n, length: 1000n, ...q }); this.serveAll(ctx);
    const r = w.result(IDX, 'get_blocks', id); w.results.delete(id); return r;
  },
  apply(ctx, a) {
    const { w } = ctx, o = a.op, part = (kind) => w.pending.findIndex((m) => mine(m) && m.kind === kind);
    switch (o.m) {
      case '@round': this.minute(ctx); this.serveAll(ctx, o.no); return { outcome: 'round' + (o.no ? ':bad' : '') };
      case '@ask': this.minute(ctx); return { outcome: 'ask' };
      case '@serve': w.deliver(part('req')); this.calm(ctx); return { outcome: 'serve' };
      case '@lose': w.deliver(part('req'), { reject: [2, 'refused'] }); this.calm(ctx); return { outcome: 'lose' };
      case '@hear': w.deliver(part('resp')); this.calm(ctx); return { outcome: 'hear' };
      case '@look': {
        const r = this.get(ctx, {}); if (r?.ok === undefined && !ctx.mv) throw new Fail('idx.get', `get_blocks fails: ${r?.trap ?? J(r)}`);
        if (r.ok) { const F = facts(ctx.S); if (J(r.ok.blocks.map((b) => Number(b.id))) !== J([...F.keys()])) throw new Fail('idx.all', `all ${F.length} blocks are asked for, the index answers [${r.ok.blocks.map((b) => b.id)}]`); this.same(F, r.ok.blocks); }
        return { outcome: 'look' + (r.ok ? '' : ':locked') };
      }
      case '@iup': { const r = w.upgrade(ctx.ix, [{ Upgrade: { ...ver(2), commit_hash: 'd' } }], P(1)); if (r.trap) throw new Fail('idx.upgrade', 'the upgrade failed: ' + r.trap); this.calm(ctx); return { outcome: 'index upgrade' }; }
    }
    return archAdapter.apply.call(this, ctx, a);
  },
  same(F, l) { for (const b of l) { const x = J(canon(norm(L.sortVal(b.block)))); if (x !== F[Number(b.id)]?.v) throw new Fail('idx.content', `block ${b.id} reads ${x}, it was logged as ${F[Number(b.id)]?.v}`); } },
  observe(ctx, a, leaf) {
    const { w, S } = ctx, n = S.blocks.length, at = this.status(ctx);
    if (at > n) throw new Fail('idx.ahead', `${at} blocks are indexed, the ledger has logged ${n}`);
    if (at < ctx.last) throw new Fail('idx.back', `the index went back from ${ctx.last} to ${at}`);
    ctx.last = at;
    if (!leaf) return;
    const s = archAdapter.save(ctx); this.run(ctx); this.serveAll(ctx);
    for (let k = 0; k < 2 + n / 100; k++) { this.minute(ctx); this.run(ctx); this.serveAll(ctx); }
    const end = this.status(ctx); if (end !== n) throw new Fail('idx.incomplete', `after undisturbed fetches ${end} of ${n} blocks are indexed`);
    if (ctx.scn.day) { w.advance(1440n * MIN); S.now = w.time; for (let i = 0; i < 4 && w.timers(); i++) { this.run(ctx); this.serveAll(ctx); } } // nothing is cached any more
    const F = facts(S), keys = new Map(); const put = (f) => keys.set(J(f), f);
    for (const b of F) { put({ BlockType: b.k }); if (b.t !== undefined) put({ TokenId: b.t }); for (const p of b.who) put({ Account: { owner: p, subaccount: null } }); }
    for (const f of [{ TokenId: 99n }, { Account: acc(77) }, { Account: acc(1, 7) }]) put(f);
    for (const f of keys.values()) {
      const r = this.get(ctx, { filters: [f] }); if (!r?.ok) throw new Fail('idx.lookup', `looking up ${J(f)} fails: ${r?.trap ?? J(r)}`);
      const got = r.ok.blocks.map((b) => Number(b.id)), want = [...F.keys()].filter((i) => fits(F[i], f));
      if (J(got) !== J(want)) throw new Fail('idx.keys', `${n} blocks are logged; under ${J(f)} the index finds [${got}], expected [${want}]`);
      this.same(F, r.ok.blocks);
    }
    archAdapter.load(ctx, s); ctx.last = at;
  },
};
