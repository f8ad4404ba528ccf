// Adapter for the movement of blocks to archive canisters: the ledger adapter, plus the periodic movement job with a
// real archive canister (the wasm the ledger installs) and a plan of which requests of the job fail, or are answered later.
import { World, MGMT, compile, didOf } from './mic.mjs'; import * as L from './ledger.mjs'; import { Fail } from './engine.mjs'; import { ledgerAdapter, canon, LEDGER, label, resOf } from './ledgerad.mjs';
import * as I from './ifaces.mjs'; import { principalBytes, principalText, sha256 } from './candid.mjs'; import zlib from 'zlib';
const { J, norm, P } = L;
export const ARCH = (i) => principalText(Buffer.from([170 + i, 3]));
// job(plan): fire the movement job; plan says what happens to the i-th request it sends (see PLANS)
export const job = (plan = [], name = 'all requests succeed') => ({ m: '@job', plan, label: 'the blocks are moved to the archive: ' + name });
export const begin = { m: '@begin', label: 'the movement begins' };
export const next = (how = 'ok') => ({ m: '@next', how, label: 'its request is ' + (how === 'ok' ? 'answered' : how) });
// n transfers of token 1 by its owner P2
export const fill = (n) => ({ m: '@fill', n, label: n + ' transfers' });
export const finish = { m: '@finish', label: 'the movement runs to its end' };
export const wait = (ms) => ({ m: '@wait', dt: BigInt(ms) * L.MS, label: `wait ${ms} ms` });
const TEN = 600_000_000_000n;
const isFund = (m) => m.callee === MGMT && /canister_status|deposit_cycles/.test(m.method);
const isMove = (m) => m.kind === 'req' && m.from === LEDGER && m.callee !== LEDGER && !isFund(m);
const LOCK = /rwlock|unreachable/i;
export const archAdapter = {
  ...ledgerAdapter,
  make(scn, codes) {
    const ctx = ledgerAdapter.make(scn, codes), { w } = ctx; ctx.codes = codes; ctx.mv = false; ctx.n = 0;
    w.env = (m) => this.answer(ctx, m); return ctx;
  },
  // the management canister: creates and installs
  answer(ctx, m) {
    const { w } = ctx; if (m.callee !== MGMT) return; if (isFund(m)) return { reject: [4, 'not now'] };
    const [a] = I.decArgs(I.MGMT_DID, m.method, m.arg);
    if (m.method === 'create_canister') { const id = ARCH(w.cans.size - 1); w.add(id, ctx.codes.archive); return { reply: I.encRets(I.MGMT_DID, m.method, [{ canister_id: id }]) }; }
    if (m.method === 'install_code') {
      if (sha256(zlib.gunzipSync(a.wasm_module)).toString('hex') !== sha256(Buffer.from(ctx.codes.archiveBytes ?? zlib.gunzipSync(a.wasm_module))).toString('hex')) throw new Fail('archive.code', 'the code installed is not that of the archive');
      const k = w.can(a.canister_id), x = k.run(() => k.ex.canister_init(), { arg: a.arg, caller: principalBytes(m.from) }); if (x.trap) return { reject: [5, x.trap] };
      w.commitCalls(k, x, null); k.installed = true; return { reply: I.encRets(I.MGMT_DID, m.method, []) };
    }
    return { reject: [4, 'no'] };
  },
  // deliver item i of the pool as the plan says
  hand(ctx, i, how) {
    const { w } = ctx, m = w.pending[i];
    if (m.method === 'install_code' && how && how !== 'ok') ctx.stuck = true; // a known finding: nothing is moved any more
    if (m.kind === 'resp' || how === 'ok' || how === undefined) return w.deliver(i);
    if (how === 'refused') return w.deliver(i, { reject: [2, 'refused'] });
    if (how === 'failed') return w.deliver(i, { reject: [5, 'trapped'] });
    if (how === 'full') return w.deliver(i, m.method === 'insert_blocks' ? { reply: I.encRets(didOf(ctx.codes.archive), 'insert_blocks', [{ Error: 'no space left' }]) } : { reject: [2, 'refused'] });
    throw new Error(how);
  },
  // run what is under way to its end; plan applies to the requests of the movement, in order
  run(ctx, plan = []) {
    const { w } = ctx; let k = 0, n = 0;
    while (w.pending.length) { if (n++ > 5000) throw new Fail('livelock', 'the movement does not end'); const m = w.pending[0]; this.hand(ctx, 0, isMove(m) ? plan[k++] : undefined); }
    ctx.mv = false; return k;
  },
  actions(ctx, depth) { const l = typeof ctx.scn.alphabet === 'function' ? ctx.scn.alphabet(ctx.S, depth, ctx.mv) : ctx.scn.alphabet; return l.filter((o) => (o.m === '@next' || o.m === '@finish' ? ctx.mv : o.m === '@job' || o.m === '@begin' ? !ctx.mv : true)).map((o) => ({ op: o, label: o.label ?? label(o) })); },
  save(ctx) { return { ...ledgerAdapter.save(ctx), mv: ctx.mv, stuck: ctx.stuck, inst: [...ctx.w.cans.values()].map((c) => [c, c.installed]) }; },
  load(ctx, s) { ledgerAdapter.load(ctx, s); ctx.mv = s.mv; ctx.stuck = s.stuck; for (const [c, i] of s.inst) c.installed = i; },
  key(ctx) { return ledgerAdapter.key(ctx) + J([ctx.mv, !!ctx.stuck, [...ctx.w.cans.keys()].length, this.split(ctx)]); },
  split(ctx) { if (ctx.mv) return -1; const q = ctx.w.query(LEDGER, P(1), 'icrc3_get_blocks', [{ start: 0n, length: BigInt(ctx.S.blocks.length) }]).ok; return q ? q.blocks.length : -2; },
  apply(ctx, a) {
    const { w } = ctx, o = a.op;
    if (o.m === '@wait') { w.advance(o.dt); ctx.S.now = w.time; for (let i = 0; i < 5 && w.timers(); i++) this.run(ctx); ctx.S.moved = Math.max(0, ctx.S.blocks.length - this.split(ctx)); return { outcome: 'wait' }; }
    if (o.m === '@fill') { for (let i = 0; i < o.n; i++) { const r = ledgerAdapter.apply(ctx, { op: L.ops.xfer(2, 1, L.acc(2, i % 2 + 1), { sub: null }), label: 'transfer ' + i }); if (r.failed) throw new Error('vacuous fill at ' + i); } return { outcome: 'fill' }; }
    if (o.m === '@job') {
      const k = this.fire(ctx, o.plan), left = this.split(ctx); ctx.S.moved = Math.max(0, ctx.S.blocks.length - left);
      if (!o.plan.length && !ctx.stuck && left > 0) throw new Fail('moved', `every request of the movement succeeded, but ${left} of ${ctx.S.blocks.length} blocks were not moved`);
      return { outcome: `moved:${k}`, failed: false };
    }
    if (o.m === '@begin') {
      w.advance(TEN); ctx.S.now = w.time; for (let i = 0; i < 5 && w.timers(); i++) this.settle(ctx);
      ctx.mv = w.pending.length > 0; return { outcome: 'begin:' + (ctx.mv ? w.pending[0].method : 'nothing') };
    }
    if (o.m === '@next') { const m = w.pending[0].method; this.hand(ctx, 0, o.how); this.settle(ctx); ctx.mv = w.pending.length > 0; return { outcome: `next:${m}:${o.how}` }; }
    if (o.m === '@finish') { this.run(ctx); ctx.S.moved = Math.max(0, ctx.S.blocks.length - this.split(ctx)); return { outcome: 'finish' }; }
    if (!ctx.mv) return ledgerAdapter.apply(ctx, a);
    // while a movement is under way the log may be locked (a known finding): then the call must have had no effect
    w.advance(o.dt ?? 200n * L.MS);
    if (o.m === '@upgrade') {
      ctx.S.now = w.time; const r = w.upgrade(ctx.c, [{ Upgrade: { version: { major: 0, minor: 0, patch: 2 }, commit_hash: 'd' } }], P(1));
      if (r.trap && !(LOCK.test(r.trap) && this.locked(ctx))) throw new Fail('upgrade', 'upgrade failed: ' + r.trap); return { outcome: 'upgrade:' + (r.trap ? 'locked' : 'done'), failed: !!r.trap };
    }
    const keep = L.clone(ctx.S), args = L.resolve(o.a, w.time), want = canon(norm(L.step(ctx.S, { ...o, a: args })));
    const lock = this.locked(ctx), id = w.start(LEDGER, o.c, o.m, ...args), r = w.result(LEDGER, o.m, id); w.results.delete(id);
    if (r === undefined) throw new Fail('hang', a.label + ' does not answer');
    if (r.trap !== undefined && LOCK.test(r.trap) && lock) { ctx.S = keep; ctx.S.now = w.time; return { failed: true, outcome: o.m + ':locked' }; }
    const got = resOf(r); if (J(got) !== J(want)) throw new Fail(`res.${o.m}`, `${a.label}: the canister answered ${J(got)} ${r.trap ?? ''}, expected ${J(want)}`);
    return { failed: J(want).includes('"Err"'), outcome: o.m + ':while moving' };
  },
  // the log is locked: not even readable
  locked(ctx) { const q = ctx.w.query(LEDGER, P(1), 'icrc3_get_blocks', [{ start: 0n, length: 1n }]); return q.ok === undefined && LOCK.test(q.trap ?? ''); },
  // the answers of the funding job, which runs at the same time, are given at once
  settle(ctx) { const { w } = ctx; for (;;) { const i = w.pending.findIndex((m) => !isMove(m)); if (i < 0) return; w.deliver(i); } },
  fire(ctx, plan) { const { w } = ctx; w.advance(TEN); ctx.S.now = w.time; let k = 0; for (let i = 0; i < 20; i++) { const t = w.timers(); if (!t && !w.pending.length) break; k += this.run(ctx, plan.slice(k)); } return k; },
  // every block, from the ledger or from where it points to
  read(ctx, ranges) {
    const { w } = ctx, q = w.query(LEDGER, P(1), 'icrc3_get_blocks', ranges);
    if (q.ok === undefined) return q;
    const out = [...q.ok.blocks];
    for (const { args, callback } of q.ok.archived_blocks) {
      const [can, m] = [callback.principal ?? callback[0], callback.method ?? callback[1]]; if (!w.can(can)?.installed) throw new Fail('log.where', `blocks ${J(args)} are said to be at ${can}, which is not an archive`);
      const r = w.query(can, P(1), m, args); if (r.ok === undefined) throw new Fail('log.archive', `the archive does not answer ${J(args)}: ${J(r)}`);
      if (r.ok.archived_blocks.length) throw new Fail('log.archive', 'the archive points on');
      const want = args.flatMap((g) => [...Array(Number(g.length)).keys()].map((i) => g.start + BigInt(i))), ids = r.ok.blocks.map((b) => b.id);
      if (J(ids) !== J(want)) throw new Fail('log.archive', `asked for blocks ${J(want)}, the archive answers ${J(ids)}`);
      out.push(...r.ok.blocks);
    }
    return { log_length: q.ok.log_length, blocks: out, here: q.ok.blocks.length };
  },
  observe(ctx) {
    const { w, S, scn } = ctx;
    if (!ctx.mv) {
      const n = S.blocks.length, all = [[0, n]], ref = L.QUERIES.icrc3_get_blocks(S, [{ start: 0n, length: BigInt(n) }]).blocks, R = (rs) => rs.map(([s, l]) => ({ start: BigInt(s), length: BigInt(l) }));
      const cmp = (rs) => {
        const g = this.read(ctx, R(rs)); if (g.log_length === undefined) throw new Fail('log.trap', `icrc3_get_blocks(${J(rs)}) is not answered: ${J(g)}`);
        if (g.log_length !== BigInt(n)) throw new Fail('log.length', `the log length is ${g.log_length}, expected ${n}`);
        const want = rs.flatMap(([s, l]) => [...Array(l).keys()].map((i) => s + i).filter((i) => i < n)).sort((x, y) => x - y);
        const got = [...g.blocks].sort((x, y) => Number(x.id - y.id)), ids = got.map((b) => Number(b.id));
        if (J(ids) !== J(want)) throw new Fail('log.blocks', `asked for ${J(rs)} of ${n} blocks, found blocks ${J(ids)}`);
        for (const b of got) { const [a, x] = [J(canon(b.block)), J(canon(ref[Number(b.id)].block))]; if (a !== x) throw new Fail('log.content', `block ${b.id} reads ${a}, it was written as ${x}`); }
        return n - g.here;
      };
      const k = scn.tail ? Math.max(0, n - this.split(ctx)) : cmp(all); // blocks moved so far
      if (scn.tail) for (const rs of [[[n - 3, 10]], [[Math.max(0, k - 1), 2]], [[n, 1]]]) cmp(rs); else
      for (const rs of [[[0, 1]], [[Math.max(0, k - 1), 2]], [[k, 1]], [[1, n + 3]], [[n, 2]], [[n + 5, 1]], [], [[0, 0]], [[k, 2], [0, 2]], [[0, k], [k, n - k]]]) cmp(rs);
      const ar = w.query(LEDGER, P(1), 'icrc3_get_archives', null); if (ar.ok === undefined) throw new Fail('archives', 'icrc3_get_archives is not answered: ' + J(ar));
      for (const x of ar.ok) if (!w.can(x.canister_id)?.installed) throw new Fail('archives', `${x.canister_id} is listed as an archive`);
      if (k && !ar.ok.some((x) => x.start === 0n)) throw new Fail('archives', 'no archive is listed for block 0');
    }
    ledgerAdapter.observe(ctx);
  },
};
