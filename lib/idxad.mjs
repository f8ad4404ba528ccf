// Adapter for the index canister.  The ledger and its archives are played by the explorer: every request of the index
// waits until an action lets the ledger execute it (with what it holds at that moment), and its answer waits until an
// action delivers it.  Claimed in every state: whatever the index says it has indexed is found, once, under exactly the
// keys it belongs to; and at the end of every sequence: a ledger that answers again is completely indexed.
import { World, didOf } from './mic.mjs'; import * as L from './ledger.mjs'; import { Fail } from './engine.mjs'; import { canon } from './ledgerad.mjs';
import * as I from './ifaces.mjs'; import { principalText } from './candid.mjs';
const { J, norm, P, acc } = L;
export const IDX = principalText(Buffer.from([90, 3])), LED = principalText(Buffer.from([91, 3])), ARC = [principalText(Buffer.from([92, 3])), principalText(Buffer.from([93, 3]))];
const T = (s) => ({ Text: s }), N = (n) => ({ Nat: BigInt(n) });
const p = (i) => (i === undefined ? undefined : T(typeof i === 'number' ? P(i) : i));
// a block as the ledger writes it; k: kind, t: token, f/o/s: from / to / spender
let ser = 0n;
export const blk = (k, { t, f, o, s, meta, memo } = {}) => { ser++; return { k, t: t === undefined ? undefined : BigInt(t), who: [f, o, s].filter((x) => x !== undefined).map((i) => (typeof i === 'number' ? P(i) : i)),
  v: L.sortVal(L.mapOf({ btype: T(k), ts: N(L.T0 + ser), phash: { Blob: Buffer.alloc(32, Number(ser % 251n)) }, tx: L.mapOf({ op: T(k), tid: t === undefined ? undefined : N(t), from: p(f), to: p(o), spender: p(s), meta, memo, created_at_time: N(L.T0 + ser) }) })) }; };
export const BIG = 2n ** 70n;
export const BLOCKS = [
  blk('7mint', { t: 1, o: 1 }), blk('7mint', { t: 2, o: 2, memo: { Blob: Buffer.from('m') } }), blk('37approve', { t: 1, f: 1, s: 3 }), blk('37xfer', { t: 1, f: 1, o: 2, s: 3 }), blk('37approve_coll', { f: 2, s: 1 }),
  blk('7xfer', { t: 2, f: 2, o: 1 }), blk('37revoke', { t: 2, f: 1, s: 3 }), blk('37revoke_coll', { f: 2, s: 1 }), blk('7update_token', { t: 2, f: 1, meta: { Map: [['a', N(2n ** 130n)], ['b', { Array: [{ Int: -5n }, { Int: -(2n ** 80n) }, { Map: [] }] }], ['c', T('é')]] } }), blk('7burn', { t: 1, f: 2 }),
  blk('7mint', { t: BIG, o: 3 }), blk('37xfer', { t: BIG, f: 3, o: 1, s: 3 }), blk('7xfer', { t: BIG, f: 1, o: 1 }), blk('37revoke', { t: 2, f: 1 }), blk('7mint', { t: BIG + 1n, o: L.ANON }),
];
export const KINDS = [...new Set(BLOCKS.map((b) => b.k))];
export const kA = (i, s = null) => ({ Account: acc(i, s) }), kT = (t) => ({ TokenId: BigInt(t) }), kB = (k) => ({ BlockType: k });
export const KEYS = [kA(1), kA(2), kA(3), kA(L.ANON), kA(9), kA(1, 0), kT(1), kT(2), kT(BIG), kT(BIG + 1n), kT(77), ...KINDS.map(kB), kB('nope')];
export const matches = (b, f) => ('Account' in f ? b.who.includes(f.Account.owner) && (!f.Account.subaccount || f.Account.subaccount.every((x) => x === 0)) : 'TokenId' in f ? b.t === f.TokenId : b.k === f.BlockType);
const vals = new Map(), val = (b) => { let x = vals.get(b); if (!x) vals.set(b, x = J(canon(norm(b.v)))); return x; };
export const get = (filters, o = {}) => ({ t: 'get', q: { sort_by: o.sort ? { [o.sort]: null } : null, filters, start: BigInt(o.start ?? 0), length: BigInt(o.length ?? 50) }, label: `get_blocks(${filters.map((f) => Object.values(f)[0]).map((x) => (x.owner ? 'P' + nm(x) : String(x))).join(' & ') || 'all'}${o.sort ? ', ' + o.sort : ''}, ${o.start ?? 0}+${o.length ?? 50})` });
const nm = (a) => { for (let i = 1; i < 10; i++) if (P(i) === a.owner) return i + (a.subaccount ? 's' : ''); return '?'; };
const did0 = {};
export const indexAdapter = {
  make(scn, codes) {
    const w = new World(); w.time = L.T0; const c = w.add(IDX, codes.index_icrc7); did0.d = didOf(codes.core_nft);
    const r = w.init(c, [{ Init: { test_mode: false, authorized_principals: [], version: { major: 0, minor: 0, patch: 1 }, commit_hash: 'c', ledger_canister_id: LED } }], P(1)); if (r.trap) throw new Fail('init', r.trap);
    w.tick(0);
    const B = scn.blocks ?? BLOCKS;
    return { w, c, scn, B, M: { n: scn.n ?? 0, arch: scn.arch ?? 0, last: 0, ops: [], faults: 0, calls: 0 } };
  },
  save(ctx) { return { w: ctx.w.snap(), M: { ...ctx.M, ops: ctx.M.ops.slice() } }; },
  load(ctx, s) { ctx.w.restore(s.w); ctx.M = { ...s.M, ops: s.M.ops.slice() }; },
  key: (ctx) => J([ctx.M, ctx.w.pending.map((m) => [m.kind, m.kind === 'req' ? m.arg : m.out])]),
  prelude(ctx) { for (const a of ctx.scn.prelude ?? []) this.apply(ctx, a, true); ctx.M.faults = 0; },
  self: (m) => m.kind === 'req' ? m.callee === IDX : m.req.callee === IDX || m.req.from !== IDX,
  settle(ctx) { for (let k = 0; k < 300; k++) { const i = ctx.w.pending.findIndex((m) => this.self(m)); if (i < 0) return; ctx.w.deliver(i); } throw new Error('does not settle'); },
  // what the ledger (or an archive) answers now
  answer(ctx, m, mode = 'full') {
    const { M, B } = ctx, [reqs] = I.decArgs(did0.d, 'icrc3_get_blocks', m.arg), log_length = BigInt(M.n);
    if (m.method !== 'icrc3_get_blocks') throw new Fail('idx.request', `the index calls ${m.method}`);
    if (mode === 'reject') return { reject: [4, 'unavailable'] };
    const isL = m.callee === LED, ai = ARC.indexOf(m.callee); if (!isL && ai < 0) throw new Fail('idx.request', `the index asks ${m.callee}`);
    if (M.n && reqs.some((r) => r.start + r.length > (1n << 63n))) throw new Fail('idx.request', 'the index asks for ' + J(reqs));
    const split = M.arch >> 1; // archive 0 holds [0, split), archive 1 [split, arch)
    const ids = []; for (const r of reqs) for (let i = r.start; i < r.start + r.length && i < log_length; i++) ids.push(Number(i));
    let loc = ids.filter((i) => (isL ? i >= M.arch : ai === 0 ? i < split : i >= split && i < M.arch)), archived_blocks = [];
    if (isL) for (const [k, lo, hi] of [[0, 0, split], [1, split, M.arch]]) { const l = ids.filter((i) => i >= lo && i < hi); if (l.length) archived_blocks.push({ args: [{ start: BigInt(l[0]), length: BigInt(l.length) }], callback: { principal: ARC[k], method: 'icrc3_get_blocks' } }); }
    if (mode === 'short') loc = loc.slice(0, loc.length >> 1);
    if (mode === 'swap') loc = loc.reverse();
    return { reply: I.encRets(did0.d, 'icrc3_get_blocks', [{ log_length, blocks: loc.map((i) => ({ id: BigInt(i), block: B[i].v })), archived_blocks }]) };
  },
  round(ctx) { const { w } = ctx; w.advance(60_000_000_000n); for (let k = 0; k < 4; k++) { w.timers(); this.settle(ctx); } },
  flush(ctx) { const { w } = ctx; for (let k = 0; w.pending.length; k++) { if (k > 2000) throw new Fail('idx.livelock', 'the index keeps asking'); const m = w.pending[0]; if (m.kind === 'req' && m.callee !== IDX) w.deliver(0, this.answer(ctx, m)); else w.deliver(0); } },
  actions(ctx, depth) {
    const { w, M, scn } = ctx, out = [], on = (x) => !scn.only || scn.only.includes(x);
    const l = typeof scn.alphabet === 'function' ? scn.alphabet(M, depth) : scn.alphabet;
    const open = w.pending.length;
    for (const a of l) {
      if (a.t === 'grow' && M.n + a.by > ctx.B.length) continue;
      if (a.t === 'arch' && M.arch + a.by > M.n) continue;
      if (a.t === 'round' && open >= (scn.open ?? 2)) continue;
      if (a.t === 'get' && M.calls >= (scn.gets ?? 99)) continue;
      out.push(a);
    }
    w.pending.forEach((m, i) => {
      if (m.kind === 'req') { for (const mode of scn.modes ?? ['full', 'short', 'reject']) { if (mode === 'short' && !(M.n > 1)) continue; if (mode !== 'full' && M.faults >= (scn.faults ?? 9)) continue; out.push({ t: 'exec', id: m.id, mode, label: `  ${m.callee === LED ? 'ledger' : 'archive'} executes request ${i + 1}: ${mode}` }); } }
      else { out.push({ t: 'recv', id: m.id, label: `  answer ${i + 1} arrives` }); if (scn.traps && M.faults < (scn.faults ?? 9)) out.push({ t: 'recv', id: m.id, trap: 1, label: `  answer ${i + 1} arrives, the index runs out of instructions` }); }
    });
    return out;
  },
  apply(ctx, a, pre) {
    const { w, M } = ctx;
    switch (a.t) {
      case 'grow': M.n += a.by; return { outcome: 'ledger grows' };
      case 'arch': M.arch += a.by; return { outcome: 'ledger archives' };
      case 'round': this.round(ctx); if (pre) this.flush(ctx); return { outcome: 'timer' };
      case 'day': w.advance(86_400_000_000_000n); for (let k = 0; k < 4; k++) { w.timers(); this.settle(ctx); } if (pre) this.flush(ctx); return { outcome: 'day passes' };
      case 'up': { const r = w.upgrade(ctx.c, [{ Upgrade: { version: { major: 0, minor: 0, patch: 2 }, commit_hash: 'd' } }], P(1)); if (r.trap) throw new Fail('idx.upgrade', 'the upgrade failed: ' + r.trap); this.settle(ctx);
        // calls of users that were waiting are lost with the old instance
        for (const o of M.ops) o.lost = true; return { outcome: 'upgrade' }; }
      case 'stopup': { this.flush(ctx); this.done(ctx, a); return this.apply(ctx, { t: 'up', label: a.label }); }
      case 'exec': { const i = w.pending.findIndex((m) => m.id === a.id); if (a.mode !== 'full') M.faults++; for (const o of M.ops) if (a.mode !== 'full') { const root = w.ctxs.get(w.pending[i].ctx); if (root?.origin.ingress === o.id) o.bad = true; } w.deliver(i, this.answer(ctx, w.pending[i], a.mode)); break; }
      case 'recv': { const i = w.pending.findIndex((m) => m.id === a.id); if (a.trap) { M.faults++; const root = w.ctxs.get(w.pending[i].req.ctx); for (const o of M.ops) if (root?.origin.ingress === o.id) o.bad = true; ctx.c.trapNext = true; } w.deliver(i); ctx.c.trapNext = false; this.settle(ctx); break; }
      case 'get': { M.calls++; const id = w.start(IDX, P(5), 'get_blocks', a.q); M.ops.push({ id, q: a.q, want: this.want(ctx, a.q), n0: M.n, last0: Number(this.last(ctx)), label: a.label }); this.settle(ctx); if (ctx.scn.serve) this.flush(ctx); break; }
      default: throw new Error('action ' + a.t);
    }
    const r = this.done(ctx, a); return { outcome: a.t + (a.mode ? ':' + a.mode : '') + (r !== undefined ? '->' + r : '') };
  },
  // ids a query answers, given what is indexed now (null: the index may also hold back / fetch fresh ones)
  want(ctx, q) {
    const { B } = ctx, last = Number(this.last(ctx)); if (!q.filters.length) return null;
    let l = []; for (let i = 0; i < last; i++) if (q.filters.every((f) => matches(B[i], f))) l.push(i);
    if (q.sort_by && 'Descending' in q.sort_by) l.reverse();
    const s = q.start > BigInt(l.length) ? l.length : Number(q.start); return l.slice(s, q.length > 1000000n ? undefined : s + Number(q.length));
  },
  last: (ctx) => { const r = ctx.w.query(IDX, P(5), 'status'); if (r.ok === undefined) throw new Fail('idx.status', 'status answers ' + J(r)); return r.ok.last_block_id; },
  done(ctx, a) { // check the calls that ended
    const { w, M, B } = ctx; let out;
    for (const o of M.ops.slice()) {
      const r = w.result(IDX, 'get_blocks', o.id); if (!r) continue;
      w.results.delete(o.id); M.ops = M.ops.filter((x) => x !== o);
      if (r.reject) { if (!o.bad && !o.lost) throw new Fail('idx.get.trap', `${o.label} is rejected: ${r.trap ?? r.reject[1]}`); out = 'reject'; continue; }
      if (o.lost) continue; const got = r.ok.blocks.map((b) => Number(b.id)); out = got.length;
      for (const b of r.ok.blocks) if (!(b.id < BigInt(M.n)) || J(canon(norm(L.sortVal(b.block)))) !== val(B[Number(b.id)])) throw new Fail('idx.get.content', `${o.label}: block ${b.id} reads ${J(canon(norm(b.block)))}, the ledger's is ${val(B[Number(b.id)] ?? { v: null })}`);
      const desc = o.q.sort_by && 'Descending' in o.q.sort_by;
      for (let i = 1; i < got.length; i++) if (desc ? got[i] >= got[i - 1] : got[i] <= got[i - 1]) throw new Fail('idx.get.order', `${o.label} answers ${got}`);
      const last = Number(this.last(ctx)); if (Number(r.ok.total) > last || Number(r.ok.total) < o.last0) throw new Fail('idx.get.total', `${o.label}: total ${r.ok.total}, status says ${last}`);
      if (o.bad) { if (o.want && got.some((i) => !o.want.includes(i))) throw new Fail('idx.get.ids', `${o.label} answers ${got}, expected only ${o.want}`); continue; }
      if (o.want) { if (J(got) !== J(o.want)) throw new Fail('idx.get.ids', `${o.label} answers blocks [${got}], expected [${o.want}]`); continue; }
      // without filters: the blocks of the range that the ledger had when the call was made (and perhaps later ones)
      const lo = Number(o.q.start), hi = Math.min(Number(o.q.start + o.q.length), M.n);
      if (desc) { if (o.q.start === 0n) { const top = Math.max(0, last - Number(o.q.length)); if (o.n0 === M.n && o.last0 === last && last === M.n && J(got) !== J([...Array(last - top).keys()].map((i) => last - 1 - i))) throw new Fail('idx.get.ids', `${o.label} answers [${got}] of ${last}`); } continue; }
      if (got.some((i) => i < lo || i >= hi)) throw new Fail('idx.get.ids', `${o.label} answers [${got}], outside [${lo}, ${hi})`);
      for (let i = lo; i < Math.min(hi, o.n0); i++) if (!got.includes(i)) throw new Fail('idx.get.ids', `${o.label} answers [${got}], block ${i} is missing`);
    }
    return out;
  },
  observe(ctx, a, leaf) {
    const { w, M, B, scn } = ctx, last = Number(this.last(ctx));
    if (last > M.n) throw new Fail('idx.ahead', `status says ${last} blocks are indexed, the ledger has ${M.n}`);
    if (last < M.last) throw new Fail('idx.back', `the index went back from ${M.last} to ${last}`);
    M.last = last;
    if (scn.noKeys && !leaf) return;
    const ask = (when) => {
      const l = Number(this.last(ctx));
      for (const f of scn.keys ?? KEYS) {
        const r = w.start(IDX, P(5), 'get_blocks', { sort_by: null, filters: [f], start: 0n, length: 10000n }); this.flush(ctx);
        const g = w.result(IDX, 'get_blocks', r); w.results.delete(r); if (!g?.ok) throw new Fail('idx.lookup', `${when}looking up ${J(f)} fails: ${g?.trap ?? J(g)}`);
        const got = g.ok.blocks.map((b) => Number(b.id)), want = [...Array(l).keys()].filter((i) => matches(B[i], f));
        if (J(got) !== J(want)) throw new Fail('idx.keys', `${when}${l} blocks are indexed; under ${J(f)} the index finds [${got}], expected [${want}]`);
        for (const b of g.ok.blocks) if (J(canon(norm(L.sortVal(b.block)))) !== val(B[Number(b.id)])) throw new Fail('idx.content', `${when}block ${b.id} reads ${J(canon(norm(b.block)))}, the ledger's is ${val(B[Number(b.id)])}`);
      }
    };
    const s = w.snap();
    // the lookups run beside whatever is waiting
    const held = w.pending; w.pending = [];
    ask('');
    if (leaf) {
      w.pending = held; this.flush(ctx);
      for (let k = 0; k < 2 + M.n / 100; k++) { this.round(ctx); this.flush(ctx); }
      if (Number(this.last(ctx)) !== M.n) throw new Fail('idx.incomplete', `after undisturbed fetch rounds ${this.last(ctx)} of ${M.n} blocks are indexed`);
      ask('at rest: ');
    }
    w.restore(s);
  },
};
