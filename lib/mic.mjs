// microIC: a deterministic single-threaded model of the Internet Computer execution environment that runs
// the real canister wasm.  Message-level atomicity (rollback on trap), call contexts, inter-canister calls with
// controllable delivery order, timers, certified data, stable memory, upgrades, and cheap snapshot/restore.
import { principalBytes, principalText, parseDid, encode, decode } from './candid.mjs';

const PAGE = 65536;
export class Trap extends Error {}

// ---- wasm preparation: additionally export the function table and the stack pointer ----
function leb(n) { const o = []; do { let c = n & 127; n >>>= 7; o.push(n ? c | 128 : c); } while (n); return Buffer.from(o); }
function rleb(b, p) { let r = 0, s = 0; for (;;) { const x = b[p++]; r += (x & 127) * 2 ** s; s += 7; if (x < 128) return [r, p]; } }
export function prepareWasm(b) {
  const out = [b.subarray(0, 8)]; let p = 8;
  while (p < b.length) {
    const id = b[p], s0 = p; let n; [n, p] = rleb(b, p + 1);
    if (id === 7) {
      let [cnt, q] = rleb(b, p);
      const body = b.subarray(q, p + n);
      const ent = (name, kind, idx) => Buffer.concat([leb(name.length), Buffer.from(name), Buffer.from([kind]), leb(idx)]);
      const nb = Buffer.concat([leb(cnt + 2), body, ent('__mic_tbl', 1, 0), ent('__mic_sp', 3, 0)]);
      out.push(Buffer.from([7]), leb(nb.length), nb);
    } else if (id !== 0) out.push(b.subarray(s0, p + n));
    p += n;
  }
  return Buffer.concat(out);
}
// Offset of the first byte that is not read-only data (LLD lays out stack, .rodata, .data, .bss, heap).
function mutableBase(b) {
  let p = 8, names = {}, segs = [];
  while (p < b.length) {
    const id = b[p]; let n; [n, p] = rleb(b, p + 1); const end = p + n;
    if (id === 11) {
      let [cnt, q] = rleb(b, p);
      for (let i = 0; i < cnt; i++) { if (b[q] !== 0 || b[q + 1] !== 0x41) { segs.push(null); break; } let v = 0, s = 0, x; let r = q + 2; do { x = b[r++]; v |= (x & 127) << s; s += 7; } while (x & 128); if (b[r++] !== 0x0b) break; let len; [len, r] = rleb(b, r); segs.push(v >>> 0); q = r + len; }
    } else if (id === 0) {
      let [l, q] = rleb(b, p);
      if (b.subarray(q, q + l).toString() === 'name') { q += l; while (q < end) { const sid = b[q]; let sl; [sl, q] = rleb(b, q + 1); if (sid === 9) { let [k, z] = rleb(b, q); while (k--) { let i, m; [i, z] = rleb(b, z); [m, z] = rleb(b, z); names[i] = b.subarray(z, z + m).toString(); z += m; } } q += sl; } }
    }
    p = end;
  }
  if (names[0] === '.rodata' && segs.length >= 2 && segs[1] > segs[0]) return segs[1] & ~15;
  return 0;
}
export function compile(bytes) {
  const module = new WebAssembly.Module(prepareWasm(bytes));
  return { module, didText: didTextOf(module), base: mutableBase(bytes) };
}
function didTextOf(module) {
  const imp = {}; for (const i of WebAssembly.Module.imports(module)) { imp[i.module] ??= {}; imp[i.module][i.name] = () => { throw new Error('import during did extraction'); }; }
  const inst = new WebAssembly.Instance(module, imp);
  if (!inst.exports.get_candid_pointer) return '';
  const p = inst.exports.get_candid_pointer(), b = Buffer.from(inst.exports.memory.buffer); let e = p; while (b[e]) e++;
  return b.subarray(p, e).toString();
}
const didCache = new Map();
export function didOf(code) { let d = didCache.get(code.didText); if (!d) didCache.set(code.didText, d = parseDid(code.didText)); return d; }

class Canister {
  constructor(world, id, code, opts = {}) {
    this.w = world; this.id = id; this.idBytes = principalBytes(id); this.code = code; this.did = opts.did ?? didOf(code);
    this.controllers = opts.controllers ?? []; this.cycles = opts.cycles ?? 100_000_000_000_000n;
    this.stable = new Map(); this.stablePages = 0; this.cert = null; this.timer = 0n; this.version = 1;
    this.certSet = 0; this.cur = null; this.debug = null; this.trapNext = false;
    this.fresh();
  }
  fresh() {
    this.inst = new WebAssembly.Instance(this.code.module, { ic0: this.imports() });
    this.ex = this.inst.exports; this.tbl = this.ex.__mic_tbl; this.sp = this.ex.__mic_sp; this.sp0 = this.sp.value; (this.sp0s ??= new WeakMap()).set(this.inst, this.sp0);
    // Data below the initial stack pointer is the shadow stack: dead between messages.
    this.base = Math.max(this.sp0 & ~7, this.code.base || 0);
    this.dirtyStable = null; this.clean = null;
  }
  become(code) { // one instance kept per code: only the heap differs between states
    (this.insts ??= new Map()).set(this.code, this.inst); this.code = code; this.did = didOf(code);
    const inst = this.insts.get(code); if (!inst) return this.fresh();
    this.inst = inst; this.ex = inst.exports; this.tbl = this.ex.__mic_tbl; this.sp = this.ex.__mic_sp; this.sp0 = this.sp0s.get(inst); this.base = Math.max(this.sp0 & ~7, code.base || 0); this.dirtyStable = null; this.clean = null; this.sp.value = this.sp0;
  }
  mem() { return new Uint8Array(this.ex.memory.buffer); }
  imports() {
    const c = this, w = this.w;
    const M = (p, n) => { p >>>= 0; n >>>= 0; const b = c.ex.memory.buffer; if (p + n > b.byteLength) throw new Trap('memory out of bounds'); return new Uint8Array(b, p, n); };
    const put = (buf, dst, off, n) => { off >>>= 0; n >>>= 0; if (off + n > buf.length) throw new Trap('copy out of range'); M(dst, n).set(buf.subarray(off, off + n)); };
    const wr128 = (p, v) => { const d = new DataView(c.ex.memory.buffer, p >>> 0, 16); d.setBigUint64(0, v & 0xffffffffffffffffn, true); d.setBigUint64(8, v >> 64n, true); };
    return {
      time: () => BigInt.asIntN(64, w.time),
      global_timer_set: (t) => { const o = c.cur.timer; c.cur.timer = BigInt.asUintN(64, t); return o; },
      data_certificate_present: () => c.cur.query ? 1 : 0,
      data_certificate_size: () => 8, data_certificate_copy: (d, o, n) => put(Buffer.from('CERTCERT'), d, o, n),
      stable64_size: () => BigInt(c.cur.stablePages),
      stable64_grow: (n) => { const o = c.cur.stablePages; c.cur.stablePages += Number(n); return BigInt(o); },
      stable64_write: (off, src, n) => c.stableWrite(Number(off), M(Number(src), Number(n))),
      stable64_read: (dst, off, n) => c.stableRead(Number(off), M(Number(dst), Number(n))),
      canister_cycle_balance128: (p) => wr128(p, c.cycles - c.cur.spent), canister_liquid_cycle_balance128: (p) => wr128(p, c.cycles - c.cur.spent),
      cost_call: (a, b, p) => wr128(p, 0n),
      debug_print: (p, n) => { if (c.debug) c.debug.push(Buffer.from(M(p, n)).toString()); },
      trap: (p, n) => { throw new Trap(Buffer.from(M(p, n)).toString()); },
      call_new: (cp, cn, np, nn, rf, re, jf, je) => { c.cur.call = { callee: principalText(M(cp, cn)), method: Buffer.from(M(np, nn)).toString(), rf: rf >>> 0, re: re >>> 0, jf: jf >>> 0, je: je >>> 0, cf: null, ce: 0, arg: [], cycles: 0n }; },
      call_data_append: (p, n) => { c.cur.call.arg.push(Buffer.from(M(p, n))); },
      call_cycles_add128: (hi, lo) => { const n = (BigInt.asUintN(64, hi) << 64n) | BigInt.asUintN(64, lo); if (c.cycles - c.cur.spent - c.cur.call.cycles < n) throw new Trap('out of cycles'); c.cur.call.cycles += n; },
      call_on_cleanup: (f, e) => { c.cur.call.cf = f >>> 0; c.cur.call.ce = e >>> 0; },
      call_with_best_effort_response: () => { c.cur.call.bounded = true; },
      call_perform: () => { const k = c.cur.call; c.cur.call = null; if (w.callPerformFail && w.callPerformFail(c, k)) return 2; k.arg = Buffer.concat(k.arg); c.cur.spent += k.cycles; c.cur.calls.push(k); return 0; },
      certified_data_set: (p, n) => { if (c.cur.query) throw new Trap('certified_data_set in query'); if (n > 32) throw new Trap('certified data too long'); c.cur.cert = Buffer.from(M(p, n)); },
      msg_reject: (p, n) => { if (c.cur.ctx?.responded || c.cur.out) throw new Trap('already replied'); c.cur.out = { reject: [4, Buffer.from(M(p, n)).toString()] }; },
      msg_reply_data_append: (p, n) => { c.cur.reply.push(Buffer.from(M(p, n))); },
      msg_reply: () => { if (c.cur.ctx?.responded || c.cur.out) throw new Trap('already replied'); c.cur.out = { reply: Buffer.concat(c.cur.reply) }; },
      msg_arg_data_size: () => c.cur.arg.length, msg_arg_data_copy: (d, o, n) => put(c.cur.arg, d, o, n),
      msg_reject_code: () => c.cur.rejectCode, msg_reject_msg_size: () => c.cur.rejectMsg.length, msg_reject_msg_copy: (d, o, n) => put(c.cur.rejectMsg, d, o, n),
      canister_version: () => BigInt(c.version),
      msg_caller_size: () => c.cur.caller.length, msg_caller_copy: (d, o, n) => put(c.cur.caller, d, o, n),
      canister_self_size: () => c.idBytes.length, canister_self_copy: (d, o, n) => put(c.idBytes, d, o, n),
    };
  }
  stableWrite(off, src) {
    if (off + src.length > this.cur.stablePages * PAGE) throw new Trap('stable memory out of bounds');
    if (!this.dirtyStable) { this.stable = new Map(this.stable); this.dirtyStable = new Set(); }
    let i = 0;
    while (i < src.length) {
      const pg = Math.floor((off + i) / PAGE), o = (off + i) % PAGE, n = Math.min(PAGE - o, src.length - i);
      let b = this.stable.get(pg);
      if (!this.dirtyStable.has(pg)) { b = b ? b.slice() : new Uint8Array(PAGE); this.stable.set(pg, b); this.dirtyStable.add(pg); }
      b.set(src.subarray(i, i + n), o); i += n;
    }
  }
  stableRead(off, dst) {
    if (off + dst.length > this.cur.stablePages * PAGE) throw new Trap('stable memory out of bounds');
    let i = 0;
    while (i < dst.length) {
      const pg = Math.floor((off + i) / PAGE), o = (off + i) % PAGE, n = Math.min(PAGE - o, dst.length - i), b = this.stable.get(pg);
      if (b) dst.set(b.subarray(o, o + n), i); else dst.fill(0, i, i + n);
      i += n;
    }
  }
  heap() { return new Uint8Array(this.ex.memory.buffer, this.base).slice(); }
  isScratch(h) { return !!this.scratch?.some((b) => b && b.buffer === h.buffer); }
  preImage(k) { if (this.clean) return this.clean; const src = new Uint8Array(this.ex.memory.buffer, this.base); this.scratch ??= []; let b = this.scratch[k]; if (!b || b.buffer.byteLength < src.length) b = new Uint8Array(src.length + 4 * PAGE); b = new Uint8Array(b.buffer, 0, src.length); this.scratch[k] = b; b.set(src); return b; }
  restoreHeap(h) {
    const len = h.length + this.base;
    if (this.ex.memory.buffer.byteLength > len) this.fresh();
    const need = len - this.ex.memory.buffer.byteLength; if (need > 0) this.ex.memory.grow(need / PAGE);
    new Uint8Array(this.ex.memory.buffer, this.base).set(h); this.sp.value = this.sp0; this.clean = this.isScratch(h) ? null : h;
  }
  snap() { this.clean ??= this.heap(); return { heap: this.clean, stable: this.stable, stablePages: this.stablePages, cert: this.cert, timer: this.timer, code: this.code, version: this.version, certSet: this.certSet, cycles: this.cycles }; }
  restore(s) { if (this.code !== s.code) this.become(s.code); this.restoreHeap(s.heap); this.stable = s.stable; this.stablePages = s.stablePages; this.cert = s.cert; this.timer = s.timer; this.version = s.version; this.certSet = s.certSet; this.cycles = s.cycles; }
  // Run one message.  fn: () => void executes wasm.  Commits on success, rolls back on trap.
  run(fn, { arg = Buffer.alloc(0), caller = Buffer.alloc(0), ctx = null, rejectCode = 0, rejectMsg = Buffer.alloc(0), query = false, keepPre = null }) {
    const pre = keepPre ?? this.preImage(0), preStable = this.stable; this.clean = null;
    const cur = this.cur = { arg, caller, ctx, rejectCode, rejectMsg: Buffer.from(rejectMsg), query, reply: [], out: null, call: null, calls: [], spent: 0n, cert: this.cert, timer: this.timer, stablePages: this.stablePages };
    this.dirtyStable = null; this.sp.value = this.sp0;
    try { fn(); if (this.trapNext) { this.trapNext = false; throw new Trap('out of instructions (injected)'); } } catch (e) {
      if (!(e instanceof Trap || e instanceof WebAssembly.RuntimeError || e instanceof RangeError)) throw e;
      this.cur = null; this.stable = preStable; this.restoreHeap(pre);
      return { trap: e.message };
    }
    this.cur = null;
    if (query) { this.stable = preStable; if (!keepPre) this.restoreHeap(pre); return cur; }
    this.timer = cur.timer; this.stablePages = cur.stablePages; this.cycles -= cur.spent;
    if (cur.cert !== this.cert) { this.cert = cur.cert; this.certSet++; }
    return cur;
  }
}

export const MGMT = 'aaaaa-aa';
export class World {
  constructor() { this.time = 0n; this.cans = new Map(); this.pending = []; this.results = new Map(); this.ctxs = new Map(); this.nid = 1; this.env = null; }
  snap() { return { time: this.time, nid: this.nid, pending: this.pending, results: new Map(this.results), ctxs: new Map([...this.ctxs].map(([k, v]) => [k, { ...v }])), cans: [...this.cans].map(([k, c]) => [k, c, c.snap()]), envState: this.envState }; }
  restore(s) { this.time = s.time; this.nid = s.nid; this.pending = s.pending; this.results = new Map(s.results); this.ctxs = new Map([...s.ctxs].map(([k, v]) => [k, { ...v }])); this.cans = new Map(s.cans.map(([k, c, cs]) => { c.restore(cs); return [k, c]; })); this.envState = s.envState; }
  add(id, code, opts) { const c = new Canister(this, id, code, opts); this.cans.set(id, c); return c; }
  can(id) { return this.cans.get(id); }
  lifecycle(c, name, argBytes, caller) {
    if (!c.ex[name]) return {};
    const r = c.run(() => c.ex[name](), { arg: argBytes, caller: principalBytes(caller) });
    this.commitCalls(c, r, null); return r;
  }
  init(c, args, caller) { const r = this.lifecycle(c, 'canister_init', encode(c.did, c.did.init, args), caller); return r; }
  upgrade(c, args, caller, code = c.next ?? c.code) { // next: what a released version is upgraded to
    const s = c.snap();
    let r = this.lifecycle(c, 'canister_pre_upgrade', Buffer.alloc(0), caller);
    if (r.trap) return { trap: 'pre_upgrade: ' + r.trap };
    if (c.code !== code) (c.insts ??= new Map()).set(c.code, c.inst); c.code = code; c.did = didOf(code); c.fresh(); c.timer = 0n; c.version++;
    r = this.lifecycle(c, 'canister_post_upgrade', encode(c.did, c.did.init, args), caller);
    if (r.trap) { c.restore(s); return { trap: 'post_upgrade: ' + r.trap }; }
    return r;
  }
  commitCalls(c, r, ctx) {
    if (r.trap) return;
    for (const k of r.calls) { if (ctx) ctx.outstanding++; this.pending = [...this.pending, { id: this.nid++, kind: 'req', from: c.id, ctx: ctx ? ctx.id : 0, ...k }]; }
  }
  // returns message id
  ingress(can, method, argBytes, caller) {
    const id = this.nid++;
    this.exec(this.can(can), method, argBytes, caller, { ingress: id }); return id;
  }
  exec(c, method, argBytes, caller, origin) {
    const f = c.ex['canister_update ' + method] ?? c.ex['canister_query ' + method];
    const ctx = { id: this.nid++, can: c.id, caller, origin, outstanding: 0, responded: false }; this.ctxs.set(ctx.id, ctx);
    if (!f) return this.respond(ctx, { reject: [3, 'no method ' + method] });
    const query = !c.ex['canister_update ' + method];
    const r = c.run(() => f(), { arg: argBytes, caller: principalBytes(caller), ctx, query });
    this.after(c, ctx, r);
  }
  after(c, ctx, r) {
    if (r.trap !== undefined) { if (!ctx.responded && !ctx.outstanding) this.respond(ctx, { reject: [5, 'trap: ' + r.trap], trap: r.trap }); this.gc(ctx); return; }
    this.commitCalls(c, r, ctx);
    if (r.out) this.respond(ctx, r.out);
    else if (!ctx.responded && !ctx.outstanding) this.respond(ctx, { reject: [5, 'did not reply'] });
    this.gc(ctx);
  }
  gc(ctx) { if (ctx.responded && !ctx.outstanding) this.ctxs.delete(ctx.id); }
  respond(ctx, out) {
    ctx.responded = true;
    if (ctx.origin.ingress) this.results.set(ctx.origin.ingress, out);
    else if (ctx.origin.req) this.pending = [...this.pending, { id: this.nid++, kind: 'resp', req: ctx.origin.req, out }];
    if (!ctx.outstanding) this.ctxs.delete(ctx.id);
  }
  // deliver pending item by index; for requests to non-canisters `answer` gives {reply}|{reject:[code,msg]}
  take(i) { const m = this.pending[i]; this.pending = this.pending.filter((_, j) => j !== i); return m; }
  deliver(i, answer) {
    const m = this.take(i);
    if (m.kind === 'req') {
      const callee = this.can(m.callee);
      if (answer === undefined && callee) return this.exec(callee, m.method, m.arg, m.from, { req: m });
      if (answer === undefined && this.env) answer = this.env(m, this);
      if (answer === undefined) answer = { reject: [3, 'canister not found ' + m.callee] };
      this.pending = [...this.pending, { id: this.nid++, kind: 'resp', req: m, out: answer }];
      return;
    }
    // response
    const q = m.req, c = this.can(q.from), ctx = this.ctxs.get(q.ctx) ?? { id: 0, can: q.from, caller: q.from, origin: {}, outstanding: 1, responded: true };
    ctx.outstanding--;
    const ok = m.out.reply !== undefined;
    if (!ok || q.callee !== MGMT) c.cycles += q.cycles; // what was not accepted comes back
    const r = c.run(() => ok ? c.tbl.get(q.rf)(q.re) : c.tbl.get(q.jf)(q.je), { arg: ok ? m.out.reply : Buffer.alloc(0), rejectCode: ok ? 0 : m.out.reject[0], rejectMsg: ok ? Buffer.alloc(0) : Buffer.from(m.out.reject[1]), caller: principalBytes(ctx.caller), ctx });
    if (r.trap !== undefined && q.cf !== null) { c.lastTrap = r.trap; c.run(() => c.tbl.get(q.cf)(q.ce), { caller: principalBytes(ctx.caller), ctx: { responded: true } }); }
    this.after(c, ctx, r);
  }
  drain(max = 10000) { let n = 0; while (this.pending.length) { if (n++ > max) throw new Error('drain: livelock'); this.deliver(0); } return n; }
  // fire due global timers
  timers() { let n = 0; for (const c of this.cans.values()) if (c.timer && c.timer <= this.time) { c.timer = 0n; const r = c.run(() => c.ex.canister_global_timer(), { caller: c.idBytes }); n++; if (r.trap !== undefined) { c.lastTrap = r.trap; continue; } const ctx = { id: this.nid++, can: c.id, caller: c.id, origin: {}, outstanding: 0, responded: true }; this.ctxs.set(ctx.id, ctx); this.commitCalls(c, r, ctx); this.gc(ctx); } return n; }
  advance(dt) { this.time += BigInt(dt); }
  tick(dt) { this.advance(dt); for (let i = 0; i < 1000; i++) { if (!this.timers() && !this.pending.length) return; this.drain(); } }
  // ---- convenience ----
  enc(can, method, args) { const d = this.can(can).did; const s = d.methods[method]; if (!s) throw new Error('no did method ' + method); return encode(d, s.args, args); }
  dec(can, method, bytes) { const d = this.can(can).did; const r = decode(d, d.methods[method].rets, bytes); return r.length === 1 ? r[0] : r; }
  start(can, caller, method, ...args) { return this.ingress(can, method, this.enc(can, method, args), caller); }
  result(can, method, id) { const o = this.results.get(id); if (!o) return undefined; if (o.reply !== undefined) return { ok: this.dec(can, method, o.reply) }; return { reject: o.reject, trap: o.trap }; }
  // full synchronous update call (drains everything)
  call(can, caller, method, ...args) { const id = this.start(can, caller, method, ...args); if (!this.results.has(id)) this.drain(); const r = this.result(can, method, id); this.results.delete(id); return r; }
  // a batch of queries against one canister: one pre-image, one restore
  queries(can, caller, qs) {
    const c = this.can(can), pre = c.preImage(1), out = [], cb = principalBytes(caller);
    for (const [m, ...args] of qs) {
      const f = c.ex['canister_query ' + m]; if (!f) { out.push({ reject: [3, 'no query ' + m] }); continue; }
      const r = c.run(() => f(), { arg: this.enc(can, m, args), caller: cb, query: true, keepPre: pre });
      if (r.trap !== undefined) out.push({ trap: r.trap }); else if (!r.out) out.push({ reject: [5, 'no reply'] }); else if (r.out.reply !== undefined) out.push({ ok: this.dec(can, m, r.out.reply) }); else out.push({ reject: r.out.reject });
    }
    c.restoreHeap(pre); return out;
  }
  query(can, caller, m, ...args) { return this.queries(can, caller, [[m, ...args]])[0]; }
}
export { principalText, principalBytes };
