// Adapter for funding: the real collection with the real storage and archive canisters it creates.  The management canister
// is played: it keeps the balance of each canister, tells it, and takes deposits.  Balances fall, minutes pass, requests are
// refused, uploads stay under way, the collection is upgraded; every deposit is watched.
import { World, MGMT } from './mic.mjs'; import * as L from './ledger.mjs'; import { Fail } from './engine.mjs'; import { LEDGER, label } from './ledgerad.mjs';
import * as I from './ifaces.mjs'; import { principalBytes, principalText, sha256 } from './candid.mjs'; import { archiveWasm } from './build.mjs'; import { up } from './mgmtad.mjs'; import zlib from 'zlib';
const { J, P } = L, MIN = 60_000_000_000n;
export const T = 10n ** 12n, LOW = T, GIFT = 2n * T, START = 5n * T;
const FREEZE = 2_592_000n; // kept back: the freezing threshold (30 days) at one cycle a second
const unzip = (b) => (b[0] === 0x1f && b[1] === 0x8b ? zlib.gunzipSync(b) : b);
const hash = (b) => sha256(Buffer.from(unzip(Buffer.from(b)))).toString('hex');
const X = (t, label, o = {}) => ({ t, label, ...o });
const show = (n) => (n % T === 0n ? n / T + 'T' : n / T + 'T+' + (n % T));
export const f = {
  up: (p, o = {}) => X('up', `an upload of ${p} begins${o.no ? ', ' + o.no + ' is refused' : ''}`, { p, ...o }),
  hold: (p) => X('hold', `an upload of ${p} begins and waits for an answer`, { p }), go: X('go', 'the answer it waits for arrives'), no: X('go', 'what it waits for is refused', { bad: true }), end: X('end', 'the upload goes on to its end'),
  move: X('move', 'blocks are moved to an archive'),
  drop: (i, to) => X('drop', `canister ${i} is left with ${show(to)} cycles`, { i, to }), all: (to) => X('drop', `every canister is left with ${show(to)} cycles`, { to }), own: (to) => X('own', `the collection is left with ${show(to)} cycles`, { to }),
  min: X('min', 'a minute passes'), bad: (what, n = 0) => X('min', `a minute passes, ${what === 'frozen' ? 'a canister that ran out of cycles is not told of' : `its ${n ? 'second' : 'first'} ${what} request is refused`}`, { what, n }),
  upgrade: X('upgrade', 'the collection is upgraded'), work: (op) => X('op', label(op), { op }),
};
const isFund = (m) => m.callee === MGMT && /^(canister_status|deposit_cycles)$/.test(m.method);
const own = (m) => isFund(m) || m.callee === LEDGER;
export const fundAdapter = {
  make(scn, codes) {
    const w = new World(); w.time = L.T0; const c = w.add(LEDGER, codes.core_nft), r = w.init(c, [{ Init: L.initArgs(scn.init ?? {}) }], P(1)); if (r.trap) throw new Fail('init', r.trap); w.tick(0);
    const ctx = { w, c, scn, codes, made: [], low: {}, got: {}, held: null, arch: hash(archiveWasm()), plan: null, up: new Set(), last: null }; w.env = (m) => this.answer(ctx, m); return ctx;
  },
  answer(ctx, m) {
    const { w } = ctx; if (m.callee !== MGMT) return; const [a] = I.decArgs(I.MGMT_DID, m.method, m.arg), led = w.can(LEDGER), ret = (...x) => ({ reply: I.encRets(I.MGMT_DID, m.method, x) });
    if (m.method === 'create_canister') {
      if (m.cycles <= LOW) throw new Fail('fund.start', `a canister is created with ${show(m.cycles)} cycles`);
      const id = principalText(Buffer.from([150 + w.cans.size, 2])); w.add(id, ctx.codes.storage, { cycles: m.cycles, controllers: a.settings?.controllers ?? [m.from] }); ctx.made = [...ctx.made, id]; return ret({ canister_id: id });
    }
    const k = w.can(a.canister_id); if (!k) throw new Fail('fund.who', `${m.method} of ${a.canister_id}, which is not a canister`);
    if (!k.controllers.includes(m.from) && m.method !== 'deposit_cycles') return { reject: [5, 'not a controller'] };
    if (m.method === 'install_code') {
      let n = k; if (hash(a.wasm_module) === ctx.arch) { n = w.add(k.id, ctx.codes.archive, { cycles: k.cycles, controllers: k.controllers }); }
      const x = n.run(() => n.ex.canister_init(), { arg: a.arg, caller: principalBytes(m.from) }); if (x.trap) return { reject: [5, x.trap] }; w.commitCalls(n, x, null); return ret();
    }
    if (m.method === 'canister_status') {
      const what = this.refuse(ctx, 'status'), z = { num_calls_total: 0n, num_instructions_total: 0n, request_payload_bytes_total: 0n, response_payload_bytes_total: 0n };
      if (what) { return { reject: [2, 'refused'] }; }
      if (k.cycles <= LOW) ctx.low = { ...ctx.low, [k.id]: (ctx.low[k.id] ?? 0) + 1 };
      if (k.cycles === 0n && ctx.plan?.what === 'frozen') return { reject: [5, 'Canister ' + k.id + ' is out of cycles'] };
      return ret({ status: { running: null }, module_hash: null, memory_size: 1n, cycles: k.cycles + FREEZE, reserved_cycles: 0n, idle_cycles_burned_per_day: 86400n,
        settings: { controllers: k.controllers, compute_allocation: 0n, memory_allocation: 0n, freezing_threshold: FREEZE, reserved_cycles_limit: 2n * T, log_visibility: { public: null }, wasm_memory_limit: 0n, wasm_memory_threshold: 0n },
        memory_metrics: { wasm_memory_size: 0n, stable_memory_size: 0n, global_memory_size: 0n, wasm_binary_size: 0n, custom_sections_size: 0n, canister_history_size: 0n, wasm_chunk_store_size: 0n, snapshots_size: 0n }, query_stats: z });
    }
    if (m.method === 'deposit_cycles') {
      if (k.id === LEDGER || !ctx.made.includes(k.id)) throw new Fail('fund.who', `cycles are given to ${k.id}`); if (m.cycles !== GIFT) throw new Fail('fund.amount', `${k.id} is given ${show(m.cycles)} cycles`);
      if ((ctx.low[k.id] ?? 0) < 1) throw new Fail('fund.rich', `${k.id}, which has ${show(k.cycles)} cycles, is given more`); if (led.cycles <= LOW) throw new Fail('fund.self', `the collection is left with ${show(led.cycles)} cycles having given away ${show(m.cycles)}`);
      ctx.low = { ...ctx.low, [k.id]: ctx.low[k.id] - 1 }; if (this.refuse(ctx, 'deposit')) return { reject: [2, 'refused'] };
      k.cycles += m.cycles; return ret();
    }
    throw new Fail('fund.call', 'the management canister is asked for ' + m.method);
  },
  refuse: (ctx, what) => { const p = ctx.plan; if (!p || p.what !== what) return false; if (p.n-- !== 0) return false; return true; },
  // everything but what an upload that is held waits for
  run(ctx) { const { w } = ctx; for (let k = 0; ; k++) { const i = w.pending.findIndex((m) => !ctx.held || m.kind === 'resp' ? true : own(m)); if (i < 0) return; if (k > 2000) throw new Fail('livelock', 'does not end'); const m = w.pending[i]; w.deliver(i, ctx.no && m.kind === 'req' && m.callee !== LEDGER && ctx.no(m) ? { reject: [2, 'refused'] } : undefined); } },
  quiet(ctx) { const { w } = ctx; for (let i = 0; i < 60; i++) { const n = w.timers(); this.run(ctx); if (!n) return; } },
  prelude(ctx) { for (const o of ctx.scn.prelude ?? []) { const r = this.apply(ctx, { o, label: o.label }); this.observe(ctx); if (r.failed && !o.no) throw new Error('vacuous prelude: ' + o.label + ' ' + r.outcome); } },
  actions(ctx, d) {
    const n = ctx.made.length, set = (o) => o.t === 'drop' || o.t === 'own', l = typeof ctx.scn.alphabet === 'function' ? ctx.scn.alphabet(d) : ctx.scn.alphabet;
    // balances are set in one order only, each once: another order leads to the same state
    return l.filter((o, i) => !(set(o) && ctx.last && (l.findIndex((x) => x.label === ctx.last.label) >= i || (ctx.last.t === o.t && (ctx.last.i === o.i || o.i === undefined))))).filter((o) => (o.t === 'hold' || o.t === 'up' ? !ctx.held && !ctx.up.has(o.p) : o.t === 'go' || o.t === 'end' ? ctx.held : o.t === 'drop' ? n > (o.i ?? 0) : o.t === 'upgrade' ? !ctx.held : true)).map((o) => ({ o, label: o.label }));
  },
  save: (ctx) => ({ w: ctx.w.snap(), made: ctx.made, low: ctx.low, held: ctx.held, up: new Set(ctx.up), last: ctx.last }),
  load(ctx, s) { ctx.w.restore(s.w); ctx.made = s.made; ctx.low = s.low; ctx.held = s.held; ctx.up = new Set(s.up); ctx.plan = null; ctx.no = null; ctx.last = s.last; },
  key: (ctx) => J([[...ctx.w.cans.values()].map((c) => [c.id, c.cycles.toString(), c.code === ctx.codes.archive]), ctx.low, ctx.held, ctx.w.pending.map((m) => m.kind + (m.method ?? m.req.method)), [...ctx.up]]),
  upload(ctx, o, id) { const r = ctx.w.result(LEDGER, 'init_upload', id); ctx.w.results.delete(id); if (r?.ok === undefined) throw new Fail('res.init_upload', 'init_upload ends with ' + J(r)); if (r.ok.Ok) ctx.up.add(o.p); return r.ok.Ok ? 'Ok' : 'Err'; },
  apply(ctx, a) {
    const { w } = ctx, o = a.o, led = w.can(LEDGER); w.advance(200_000_000n); ctx.last = o.t === 'drop' || o.t === 'own' ? o : null;
    if (o.t === 'drop') { for (const id of o.i === undefined ? ctx.made : [ctx.made[o.i]]) w.can(id).cycles = o.to; return { outcome: 'drop' }; }
    if (o.t === 'own') { led.cycles = o.to; return { outcome: 'own' }; }
    if (o.t === 'upgrade') { const r = w.upgrade(ctx.c, [{ Upgrade: { version: { major: 0, minor: 0, patch: 2 }, commit_hash: 'd' } }], P(1)); if (r.trap) throw new Fail('upgrade', r.trap); this.quiet(ctx); return { outcome: 'upgrade' }; }
    if (o.t === 'op') { const x = w.call(LEDGER, o.op.c, o.op.m, ...o.op.a); return { outcome: o.op.m, failed: !x.ok }; }
    if (o.t === 'up' || o.t === 'hold') {
      const q = up.init(1, o.p), id = w.start(LEDGER, q.c, q.m, ...q.a);
      if (o.t === 'hold') { ctx.held = { id, p: o.p }; this.run(ctx); if (w.results.has(id)) { ctx.held = null; return { failed: true, outcome: 'hold: ended ' + this.upload(ctx, o, id) }; } return { outcome: 'hold' }; }
      let n = 0; ctx.no = o.no && ((m) => (o.no === 'every request of the first canister' ? m.callee === ctx.made[0] && m.method === 'init_upload' : m.method === o.no)); this.quiet(ctx); ctx.no = null; const e = this.upload(ctx, o, id); return { failed: e !== 'Ok', outcome: 'up:' + e };
    }
    if (o.t === 'go' || o.t === 'end') {
      const h = ctx.held, i = w.pending.findIndex((m) => m.kind === 'req' && !own(m)); if (i < 0) throw new Error('nothing is held');
      w.deliver(i, o.bad ? { reject: [2, 'refused'] } : undefined); if (o.t === 'end') ctx.held = null; this.run(ctx);
      if (w.results.has(h.id)) { ctx.held = null; return { outcome: o.t + ':' + this.upload(ctx, h, h.id) }; } if (o.t === 'end') throw new Fail('hang', 'the upload does not end'); return { outcome: 'go' };
    }
    if (o.t === 'min' || o.t === 'move') {
      const before = new Map(ctx.made.map((id) => [id, w.can(id).cycles])), own = led.cycles; ctx.plan = o.what && { what: o.what, n: o.n };
      w.advance(o.t === 'min' ? MIN : 10n * MIN); this.quiet(ctx); const spent = ctx.plan; ctx.plan = null; const all = !o.what || o.what === 'frozen';
      const poor = [...before].filter(([, b]) => b <= LOW).length; let can = 0; for (let b = own; can < poor && b > GIFT + LOW; b -= GIFT) can++;
      const given = [...before].filter(([id, b]) => w.can(id).cycles !== b), n = given.length;
      if (all && n < can) throw new Fail('fund.missing', `a minute has passed with ${poor} canister(s) low on cycles and ${show(own)} cycles to spare, and ${n} got some: ${J([...before].map(([id, b]) => [id, show(b)]))}`);
      if (!ctx.held) for (const [id, b] of given) if (w.can(id).cycles - b !== GIFT) throw new Fail('fund.twice', `${id} is given ${show(w.can(id).cycles - b)} cycles in a minute`);
      return { outcome: `${o.t}:${o.what ?? ''}:${n} of ${poor}` };
    }
    throw new Error(o.t);
  },
  observe() {},
};
