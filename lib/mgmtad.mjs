// Adapter for calls that wait for other canisters: uploads (storage and management canister), the management lock, and
// the upload clean-up.  Other canisters are played by the explorer: every request the canister sends waits until an
// action answers it, with one of the answers in the scenario's menu.  The reference says which requests may be sent,
// what each answer means for the state, and how each call must end.
import { World, MGMT, didOf } from './mic.mjs'; import * as L from './ledger.mjs'; import { Fail } from './engine.mjs'; import { LEDGER, canon, resOf, label, kind } from './ledgerad.mjs';
import * as I from './ifaces.mjs'; import { verify } from './httpcert.mjs'; import { principalBytes, principalText } from './candid.mjs';
const { J, norm, P, Ok, E, G } = L;
export const DAY = 86_400_000_000_000n, MAXSTORE = 500n * 1024n ** 3n, MAXFILE = 2n * 1024n ** 3n;
export const LOCKED = { mint: 'Minting', burn_nft: null, update_nft_metadata: 'UpdateMetadata', update_collection_metadata: 'UpdateCollectionMetadata', grant_permission: 'ManageAuthorities', revoke_permission: 'ManageAuthorities', init_upload: 'UpdateUploads', store_chunk: 'UpdateUploads', finalize_upload: 'UpdateUploads', cancel_upload: 'UpdateUploads' };
const UP = new Set(['init_upload', 'store_chunk', 'finalize_upload', 'cancel_upload']);
const url = (p) => (p.startsWith('/') ? p : '/' + p);
export const CAN = (i) => principalText(Buffer.from([150 + i, 2]));
const SE = E('StorageCanisterError', 1);
const call = (c, m, a) => ({ c: typeof c === 'number' ? P(c) : c, m, a: [a], dt: 200_000_000n });
export const up = {
  init: (c, f, o = {}) => call(c, 'init_upload', { file_path: f, file_hash: o.hash ?? 'h', file_size: BigInt(o.size ?? 3), chunk_size: o.chunk ?? null }),
  store: (c, f, id = 0, data = 'abc') => call(c, 'store_chunk', { chunk_id: BigInt(id), file_path: f, chunk_data: Buffer.from(data) }),
  fin: (c, f) => call(c, 'finalize_upload', { file_path: f }), cancel: (c, f) => call(c, 'cancel_upload', { file_path: f }),
};

// ---- reference: M = {S, up: Map path -> {st, can, t0}, cans: Map id -> state, redir: Map path -> url, ops: [...], lock} ----
const clone = (M) => ({ ...M, S: L.clone(M.S), up: new Map(M.up), cans: new Map(M.cans), redir: new Map(M.redir), tried: new Map(M.tried), ops: M.ops.map((o) => ({ ...o, snap: o.snap && new Map(o.snap), must: o.must && o.must.slice(), todo: o.todo && o.todo.slice(), local: o.local && new Map(o.local) })) });
// a request for the file's URL reaches the file: the URL's path is not cut, decoded or malformed, and is not a page of the canister itself
export const servable = (p) => !/[\x00-\x20\x7f?#]|%[0-9a-f]{2}/i.test(p) && !['/metrics', '/logs', '/traces'].includes(url(p));
const abandoned = (M, u) => u.st !== 'Finalized' && u.t0 + DAY <= M.S.now;
// result if the call ends at once, otherwise an operation waiting to send its request
function begin(M, o) {
  if (!L.has(M.S, o.c, 'UpdateUploads')) return { done: { reject: true } };
  if (M.lock !== null) return { done: E('ConcurrentManagementCall') };
  const a = o.a[0], f = a.file_path, u = M.up.get(f);
  if (o.m === 'init_upload') {
    if ([...M.up.keys()].some((k) => url(k) === url(f))) return { done: E('FileAlreadyExists') };
    if (!servable(f) || a.file_size > MAXFILE) return { done: SE };
    const todo = [...M.cans].filter(([, s]) => s === 'Installed').map(([id]) => id);
    return { op: { kind: o.m, o, todo, local: new Map(M.cans), next: todo.length ? todo.map((c) => ['get_storage_size', c]) : create(M.cans) } };
  }
  if (o.m === 'store_chunk') { if (!u) return { done: E('UploadNotInitialized') }; if (u.st === 'Finalized') return { done: E('UploadAlreadyFinalized') }; }
  if (o.m === 'finalize_upload') { if (!u || u.st === 'Init') return { done: E('UploadNotStarted') }; if (u.st === 'Finalized') return { done: E('UploadAlreadyFinalized') }; }
  if (o.m === 'cancel_upload') { if (!u) return { done: E('UploadNotInitialized') }; if (u.st === 'Finalized') return { done: E('UploadAlreadyFinalized') }; }
  if (M.cans.get(u.can) !== 'Installed') throw new Error('reference: upload in a canister that is not installed');
  return { op: { kind: o.m, o, u, next: [[o.m, u.can]] } };
}
const create = (cans) => { const made = [...cans].filter(([, s]) => s === 'Created'); return made.length ? made.map(([id]) => ['install_code', id]) : [['create_canister', null]]; };
const MAP = { init_upload: ['FileAlreadyExists'], store_chunk: ['UploadNotInitialized', 'UploadAlreadyFinalized'], finalize_upload: ['UploadNotStarted', 'UploadAlreadyFinalized', 'IncompleteUpload'], cancel_upload: ['UploadNotInitialized'] };
// ans: {size} | {ok} | {err: tag} | {rej} | {id} ; sets op.next (requests that may follow) and/or op.end (results that may follow)
function answered(M, op, req, ans) {
  const [m, can] = req; op.next = []; op.end = undefined;
  if (op.kind === 'gc') {
    op.todo = op.todo.filter((f) => f !== op.at); op.must = op.must.filter((f) => f !== op.at);
    if (ans.rej) M.tried.set(op.at, M.S.now);
    if (!ans.rej) { const u = M.up.get(op.at); if (u && abandoned(M, u)) M.up.delete(op.at); }
    return gcNext(M, op);
  }
  if (op.kind !== 'init_upload') {
    if (ans.rej) { op.next = [[m, can]]; op.end = SE; return; }        // may be tried again, or given up
    if (ans.err === 'UploadNotInitialized' && m === 'cancel_upload') { op.commit = true; op.end = Ok({}); return; } // nothing to cancel there (any more)
    if (ans.err) { op.end = MAP[m].includes(ans.err) ? E(ans.err) : SE; return; }
    op.commit = true; const f = op.o.a[0].file_path;
    op.end = m === 'finalize_upload' ? Ok({ url: `https://${LEDGER}.raw.icp0.io${url(f)}` }) : Ok({}); return;
  }
  const drop = () => { op.todo = op.todo.filter((c) => c !== can); return op.todo.length ? op.todo.map((c) => ['get_storage_size', c]) : create(op.local); };
  if (m === 'get_storage_size') {
    if (ans.rej) { const again = [m, can]; op.next = [again, ...drop()]; op.maybe = can; return; }
    if (ans.size + op.o.a[0].file_size <= MAXSTORE) op.next = [['init_upload', can]]; else op.next = drop(); return;
  }
  if (m === 'init_upload') {
    const fresh = op.made === can;
    if (ans.ok) { op.commit = true; op.can = can; op.end = Ok({}); return; }
    if (fresh) { op.end = SE; if (ans.rej) op.next = [[m, can]]; return; }
    if (ans.err === 'InvalidChunkSize') { op.end = SE; op.next = drop().filter(([x]) => x === 'get_storage_size'); return; } // a further storage canister would not help
    op.next = ans.rej ? [[m, can], ...drop()] : drop(); return;
  }
  if (m === 'create_canister') { if (ans.rej) { op.next = [[m, null]]; op.end = SE; } else { op.local.set(ans.id, 'Created'); op.next = [['install_code', ans.id]]; } return; }
  if (m === 'install_code') { if (ans.rej) op.end = SE; else { op.local.set(can, 'Installed'); op.made = can; op.next = [['init_upload', can]]; } return; }
}
function gcNext(M, op) { op.next = op.todo.filter((f) => op.snap.has(f) && abandoned(M, op.snap.get(f))).map((f) => ['cancel_upload', op.snap.get(f).can, f]); op.end = op.must.length ? undefined : {}; }
function ended(M, op) {
  const f = op.o?.a[0].file_path;
  if (op.local) M.cans = op.local;
  if (op.commit) {
    if (op.kind === 'init_upload') M.up.set(f, { st: 'Init', can: op.can, t0: M.S.now });
    if (op.kind === 'store_chunk') M.up.set(f, { ...op.u, st: 'InProgress' });
    if (op.kind === 'finalize_upload') { M.up.set(f, { ...op.u, st: 'Finalized' }); M.redir.set(url(f), `https://${op.u.can}.raw.icp0.io${url(f)}`); }
    if (op.kind === 'cancel_upload') M.up.delete(f);
  }
}

const SELF = '<ic-cdk internal> timer_executor';
export const mgmtAdapter = {
  make(scn, codes) {
    const w = new World(); w.time = L.T0; const c = w.add(LEDGER, codes.core_nft), sdid = didOf(codes.storage);
    const args = L.initArgs(scn.init ?? {}), r = w.init(c, [{ Init: args }], P(1)); if (r.trap) throw new Fail('init', r.trap);
    w.tick(0);
    const M = { S: L.newState(args, P(1)), up: new Map(), cans: new Map(), redir: new Map(), ops: [], lock: null, started: 0, faults: 0, made: 0, nid: 0, gcs: 0, tried: new Map() };
    return { w, c, scn, sdid, M };
  },
  prelude(ctx) { // calls in the prelude are answered with success
    for (const o of ctx.scn.prelude ?? []) {
      this.apply(ctx, o.t ? o : { t: 'call', o, label: label(o) });
      for (let k = 0; ctx.M.ops.length && !ctx.scn.preludeStops; k++) { if (k > 20) throw new Error('prelude does not end'); this.apply(ctx, this.answers(ctx, ctx.M.ops[0])[0]); }
    }
    ctx.M.started = 0; ctx.M.faults = 0;
  },
  answers(ctx, op) {
    const { M, scn } = ctx, [m, can] = op.req, out = [], left = (scn.faults ?? 99) - M.faults;
    const menu = { get_storage_size: [{ size: 0n }, { size: MAXSTORE - 3n }, { size: MAXSTORE - 2n, fault: 1 }], init_upload: [{ ok: 1 }, { err: 'FileAlreadyExists' }, { err: 'NotEnoughStorage' }, { err: 'InvalidChunkSize' }], store_chunk: [{ ok: 1 }, { err: 'InvalidChunkId' }, { err: 'UploadNotInitialized' }, { err: 'UploadAlreadyFinalized' }],
      finalize_upload: [{ ok: 1 }, { err: 'IncompleteUpload' }, { err: 'FileHashMismatch' }, { err: 'UploadNotStarted' }, { err: 'UploadAlreadyFinalized' }], cancel_upload: [{ ok: 1 }, { err: 'UploadNotInitialized' }], create_canister: [{ id: CAN(M.made) }], install_code: [{ ok: 1 }] }[m];
    let l = scn.menu?.[m] ?? [...menu, { rej: 1 }, { rej: 99 }];
    if (op.forced) l = [{ rej: 1 }];
    for (const a0 of l) {
      const a = a0.id === 'new' ? { ...a0, id: CAN(M.made) } : a0;
      const fault = a.rej || a.err || a.fault || a.trap ? 1 : 0; if (fault && left < 1 && !op.forced) continue;
      const nm = a.rej ? (a.rej > 1 ? 'rejected (for good)' : 'rejected') : a.err ? a.err : a.size !== undefined ? 'size ' + a.size : 'ok';
      out.push({ t: 'ans', n: op.n, a, fault: op.forced ? 0 : fault, drain: op.forced || !fault, label: `  ${op.kind === 'gc' ? 'clean-up' : 'call ' + op.n}: ${m} answered ${nm}${a.trap ? ', and the canister traps on it' : ''}` });
    }
    return out;
  },
  actions(ctx, depth) {
    const { M, scn } = ctx, out = [];
    const forced = M.ops.find((o) => o.forced); if (forced) return this.answers(ctx, forced);
    const user = M.ops.filter((o) => o.kind !== 'gc');
    if ((!M.ops.length || scn.overlap) && M.started < (scn.calls ?? 99)) { const l = typeof scn.alphabet === 'function' ? scn.alphabet(M, depth) : scn.alphabet; for (const o of l) { if (o.t === 'pass' && M.ops.some((x) => x.kind === 'gc')) continue; out.push(o.t ? o : { t: 'call', o, label: label(o) }); } }
    for (const o of M.ops) out.push(...this.answers(ctx, o));
    return out;
  },
  save(ctx) { return { w: ctx.w.snap(), M: clone(ctx.M) }; },
  load(ctx, s) { ctx.w.restore(s.w); ctx.M = clone(s.M); },
  key: (ctx) => { const { M } = ctx; return J([M.S.cfg, M.S.next, M.S.tok, M.S.perms, [...M.up].sort(), [...M.cans].sort(), M.ops.map((o) => [o.kind, o.next, o.end]), M.lock]); },
  // what became of op after a step: it asked something, or ended
  follow(ctx, op, a) {
    const { w, M } = ctx, mine = (m) => m.kind === 'req' && (op.kind === 'gc' ? !w.ctxs.get(m.ctx)?.origin.ingress : w.ctxs.get(m.ctx)?.origin.ingress === op.id);
    const rs = w.pending.filter(mine), res = op.kind === 'gc' ? (rs.length ? undefined : {}) : w.results.get(op.id);
    if (rs.length > 1) throw new Fail('async.many', `${a.label}: several requests at once: ${rs.map((r) => r.method)}`);
    if (rs.length) {
      const q = rs[0], mg = q.callee === MGMT, arg = I.decArgs(mg ? I.MGMT_DID : ctx.sdid, q.method, q.arg)[0] ?? null;
      const can = mg ? (q.method === 'create_canister' ? null : arg.canister_id) : q.callee;
      if (!op.next.some(([m, c, f]) => m === q.method && c === can && (f === undefined || arg.file_path === f))) throw new Fail('async.request', `${a.label}: the canister sends ${q.method} to ${can}, expected ${op.next.length ? op.next.map((x) => x.slice(0, 2).join('@')).join(' or ') : 'the end of the call'}`);
      if (!mg && q.method !== 'get_storage_size') { const want = op.kind === 'gc' ? { file_path: arg.file_path } : op.o.a[0]; if (J(canon(arg)) !== J(canon(want))) throw new Fail('async.args', `${a.label}: ${q.method} is sent with ${J(arg)}, expected ${J(want)}`); }
      if (q.method === 'install_code' && !('install' in arg.mode)) throw new Fail('async.args', 'install_code with mode ' + J(arg.mode));
      if (q.method === 'install_code' && arg.wasm_module.length < 1000) throw new Fail('async.args', 'install_code without the storage wasm');
      op.req = [q.method, can]; op.msg = q.id; op.end = undefined; if (op.kind === 'gc') op.at = arg.file_path;
      if (op.force && !(op.force.m === q.method && op.force.can === can)) op.force = null;
      op.forced = !!op.force; return;
    }
    if (res === undefined) throw new Fail('async.stuck', `${a.label}: the call neither asks anything nor ends`);
    const end = op.trapEnd ? { reject: true } : op.end;
    if (end === undefined) throw new Fail('async.early', `${a.label}: the call ended ${J(res.reject ?? 'with an answer')}, expected ${op.next.map((x) => x.slice(0, 2).join('@')).join(' or ')}`);
    M.ops = M.ops.filter((o) => o !== op); if (M.lock === op.n) M.lock = null;
    let got = null;
    if (op.kind !== 'gc') {
      got = canon(norm(res.reply !== undefined ? w.dec(LEDGER, op.kind, res.reply) : null)); if (res.reply === undefined) got = { reject: true };
      const want = canon(norm(end)); w.results.delete(op.id);
      if (J(got) !== J(want)) throw new Fail(`res.${op.kind}.${kind(got, want)}`, `${a.label}: ${op.kind} answered ${J(got)}, expected ${J(want)}`);
    }
    if (!op.trapEnd) ended(M, op);
    return got;
  },
  settle(ctx) { // run the canister's calls to itself and its timers' bookkeeping; refuse what is none of our business
    const { w } = ctx;
    for (let k = 0; k < 200; k++) {
      const i = w.pending.findIndex((m) => m.kind === 'resp' || (m.callee === LEDGER && m.method === SELF) || (m.callee === MGMT && /^(canister_status|deposit_cycles)$/.test(m.method)));
      if (i < 0) return; w.deliver(i, w.pending[i].kind === 'req' && w.pending[i].callee === MGMT ? { reject: [4, 'not now'] } : undefined);
    }
    throw new Error('does not settle');
  },
  apply(ctx, a) {
    const { w, M } = ctx, S = M.S; ctx.quiet = false;
    if (a.t === 'adv') { w.advance(a.dt); S.now = w.time; return { outcome: 'advance' }; }
    if (a.t === 'up') {
      const seq = ctx.scn.pages && this.order(ctx);
      w.advance(200_000_000n); S.now = w.time; const r = w.upgrade(ctx.c, [{ Upgrade: { version: { major: 0, minor: 0, patch: 2 }, commit_hash: 'd' } }], P(1));
      if (r.trap) throw new Fail('upgrade', 'upgrade failed: ' + r.trap); this.settle(ctx); if (seq && J(seq) !== J(this.order(ctx))) throw new Fail('obs.pages', `the upgrade changes the pages of get_all_uploads from ${J(seq)} to ${J(this.order(ctx))}: pages read before and after it miss uploads`); M.ups = (M.ups ?? 0) + 1; M.upAt = S.now; return { outcome: 'upgrade' };
    }
    if (a.t === 'pass') { // time passes and the canister's timers fire; the clean-up may start
      w.advance(a.dt); S.now = w.time;
      for (let k = 0; k < 4; k++) { w.timers(); this.settle(ctx); }
      if (!M.ops.some((o) => o.kind === 'gc') && w.pending.some((m) => m.kind === 'req' && !w.ctxs.get(m.ctx)?.origin.ingress)) {
        const op = { kind: 'gc', n: M.nid++, snap: new Map(M.up), todo: [...M.up.keys()] }; op.must = op.todo.filter((f) => abandoned(M, M.up.get(f))); M.ops.push(op); gcNext(M, op); this.follow(ctx, op, a); M.gcs++;
      }
      // whatever the phase of the daily timer, an abandoned upload is attended to within a day
      if (!M.ops.some((o) => o.kind === 'gc')) for (const [f, u] of M.up) if (abandoned(M, u) && S.now - [M.tried.get(f) ?? u.t0 + DAY, M.upAt ?? 0n].reduce((a, b) => (a > b ? a : b)) >= DAY) throw new Fail('gc.missed', `${a.label}: the upload of ${f}, begun ${(S.now - u.t0) / 3_600_000_000_000n} h ago and not finalised, has not been collected`);
      return { outcome: 'time passes' + (M.ops.some((o) => o.kind === 'gc') ? ', clean-up starts' : '') };
    }
    if (a.t === 'ans') {
      const op = M.ops.find((o) => o.n === a.n), i = w.pending.findIndex((m) => m.id === op.msg), [m, can] = op.req; M.faults += a.fault;
      const mg = can === null || m === 'install_code' ;
      const ans = a.a.rej ? { reject: [4, 'no'] } : mg ? { reply: I.encRets(I.MGMT_DID, m, m === 'create_canister' ? [{ canister_id: a.a.id }] : []) }
        : { reply: I.encRets(ctx.sdid, m, [m === 'get_storage_size' ? a.a.size : a.a.err ? { Err: { [a.a.err]: null } } : { Ok: m === 'finalize_upload' ? { url: 'https://elsewhere/' } : {} }]) };
      if (a.a.id) M.made++;
      w.deliver(i, ans);
      const j = w.pending.findIndex((x) => x.kind === 'resp' && x.req.id === op.msg);
      if (a.a.trap) ctx.c.trapNext = true;
      w.deliver(j); ctx.c.trapNext = false; this.settle(ctx);
      op.force = a.a.rej > 1 ? { m, can } : op.forced ? op.force : null; op.forced = false;
      if (a.a.trap) { op.trapEnd = true; op.next = []; } else answered(M, op, op.req, a.a);
      const r = this.follow(ctx, op, a);
      return { outcome: m + ':' + Object.keys(a.a)[0] + (r ? '->' + (r.Err ? Object.keys(r.Err)[0] : r.reject ? 'reject' : 'Ok') : ''), free: ctx.scn.overlap ? op.forced || a.a.rej > 1 : a.fault === 0 || a.a.rej > 0 };
    }
    const o = a.o; w.advance(o.dt ?? 0n); S.now = w.time; const args = L.resolve(o.a, w.time); M.started++;
    if (UP.has(o.m)) {
      const id = w.start(LEDGER, o.c, o.m, ...args); this.settle(ctx);
      const b = begin(M, { ...o, a: args }), n = M.nid++;
      const op = b.op ?? { kind: o.m, o: { ...o, a: args }, next: [], end: b.done }; op.n = n; op.id = id; M.ops.push(op); if (b.op) M.lock = n;
      const r = this.follow(ctx, op, a);
      ctx.quiet = !!r; // refused at once
      return { outcome: o.m + (r ? ':' + (r.Err ? Object.keys(r.Err)[0] : r.reject ? 'reject' : 'Ok') : ''), failed: !!r };
    }
    const gate = LOCKED[o.m];
    const held = M.lock !== null && gate !== undefined && (gate === null || L.has(S, o.c, gate));
    const want = held ? E('ConcurrentManagementCall') : canon(norm(L.step(S, { ...o, a: args, dt: 0n })));
    const id = w.start(LEDGER, o.c, o.m, ...args); this.settle(ctx); const r = w.result(LEDGER, o.m, id); w.results.delete(id);
    const got = resOf(r);
    if (J(got) !== J(canon(norm(want)))) throw new Fail(`res.${o.m}.${kind(got, want)}`, `${a.label}: the canister answered ${J(got)}, expected ${J(want)}`);
    return { outcome: o.m + ':' + (got.Err ? Object.keys(got.Err)[0] : got.reject ? 'reject' : 'done'), failed: !!(got.Err || got.reject) };
  },
  observe(ctx) {
    const { w, M, scn } = ctx, bad = (m, g, x) => { if (J(g) !== J(x)) throw new Fail('obs.' + m, `${m} answers ${J(g)}, expected ${J(x)}`); };
    const paths = scn.paths ?? ['a', '/a', 'b'];
    const qs = [...paths.map((p) => ['get_upload_status', p]), ['get_all_uploads', null, null], ['get_all_storage_subcanisters']];
    const extra = (scn.observe?.(M) ?? []);
    const rs = w.queries(LEDGER, P(1), [...qs, ...extra]).map((r) => (r.ok !== undefined ? canon(norm(r.ok)) : { trap: true }));
    if (L.has(M.S, P(1), 'ReadUploads')) {
      paths.forEach((p, i) => bad('get_upload_status', rs[i], M.up.has(p) ? Ok({ [M.up.get(p).st]: null }) : E('UploadNotFound')));
      const all = rs[paths.length]; bad('get_all_uploads', [...(all.Ok ?? [all])].sort(), [...M.up].map(([k, u]) => [k, { [u.st]: null }]).sort());
    }
    if (scn.pages) this.pages(ctx, bad);
    if (L.has(M.S, P(1), 'ManageAuthorities')) bad('get_all_storage_subcanisters', Array.isArray(rs[paths.length + 1]) ? [...rs[paths.length + 1]].sort() : rs[paths.length + 1], [...M.cans.keys()].sort());
    extra.forEach(([m, ...args], i) => { const x = L.QUERIES[m](M.S, ...args); bad(m, rs[qs.length + i], L.isTrap(x) ? { trap: true } : canon(norm(x))); });
    if (scn.certified) this.served(ctx);
    else if (scn.http && !M.ops.length && !ctx.quiet) for (const p of scn.http) {
      const r = I.httpGet(w, LEDGER, p, principalBytes(P(9))), want = M.redir.get(decodeURIComponent(p));
      if (want) { if (r.trap || r.status !== 307) throw new Fail('http.missing', `GET ${p}: ${r.trap ?? r.status}, expected a redirect to ${want}`); bad('location of ' + p, r.headers.find(([k]) => k === 'location')?.[1], want); }
      else if (!r.trap && r.status < 400) throw new Fail('http.served', `GET ${p} is answered ${r.status} ${J(r.headers.find(([k]) => k === 'location') ?? '')}, although nothing was finalised there`);
    }
  },
  // the pages of the listing of uploads contain each upload once, whatever the size of the pages
  order(ctx) { const n = ctx.M.up.size; return ctx.w.queries(LEDGER, P(1), [...Array(n).keys()].map((k) => ['get_all_uploads', BigInt(k), 1n])).map((r) => r.ok?.Ok?.map(([p]) => p).join() ?? '?'); },
  pages(ctx, bad) {
    const seq = this.order(ctx), all = [...ctx.M.up.keys()].sort(), n = seq.length, q = [[null, 2n], [1n, 2n], [2n, null], [BigInt(n), null], [BigInt(n + 1), 1n], [2n ** 32n, null], [2n ** 70n, 1n], [null, 2n ** 32n], [1n, 2n ** 70n], [0n, 0n]];
    bad('get_all_uploads in pages of one', [...seq].sort(), all);
    const rs = ctx.w.queries(LEDGER, P(1), q.map((a) => ['get_all_uploads', ...a]));
    q.forEach(([prev, take], i) => { const at = Number(prev ?? 0n); bad(`get_all_uploads(${prev}, ${take})`, rs[i].ok?.Ok?.map(([p]) => p).sort() ?? J(rs[i]), seq.slice(at, at + Number(take ?? 100n)).sort()); });
  },
  // every URL of the scenario is requested; what is answered must be right and proven by the certified root hash
  served(ctx) {
    const { w, M, scn } = ctx, now = Number(w.time / 1_000_000n);
    const rs = I.httpGets(w, LEDGER, scn.certified, principalBytes(P(9)));
    for (const [k, u] of scn.certified.entries()) {
      let p; try { p = decodeURIComponent(u.split('?')[0]); } catch { p = null; }
      const r = rs[k], to = M.redir.get(p), page = ['/metrics', '/logs', '/traces'].includes(p);
      if (!to && !page) {
        if (!r.trap && r.status < 400) throw new Fail('http.served', `GET ${u} is answered ${r.status} ${J(r.headers.find(([k]) => k === 'location') ?? '')}, although nothing was finalised there`);
        if (r.trap || !r.headers.some(([k]) => k === 'ic-certificate')) continue;
      } else if (r.trap) throw new Fail('http.missing', `GET ${u} is not answered: ${r.trap}`);
      const bad = verify({ url: u }, r, ctx.c.cert); if (bad) throw new Fail('http.proof', `GET ${u}: the answer ${r.status} does not verify: ${bad}`);
      if (to) { const l = r.headers.filter(([k]) => k === 'location').map(([, v]) => v); if (r.status !== 307 || J(l) !== J([to])) throw new Fail('http.redirect', `GET ${u} is answered ${r.status} ${l}, expected a redirect to ${to}`); }
      if (!page) continue;
      if (r.status !== 200) throw new Fail('http.page', `GET ${u} is answered ${r.status}`);
      let x; try { x = JSON.parse(r.body.toString()); } catch { throw new Fail('http.page', `GET ${u}: not JSON: ${r.body}`); }
      if (p === '/metrics') {
        const i = x.canister_info ?? {}, perms = Object.fromEntries(Object.entries(x.permissions?.user_permissions ?? {}).map(([k, l]) => [k, [...new Set(l)].sort()]).filter(([, l]) => l.length)), want = Object.fromEntries([...M.S.perms].map(([k, l]) => [k, [...new Set(l)].sort()]).filter(([, l]) => l.length));
        const sort = (o) => J(Object.entries(o).sort()), v = [i.now, i.version?.patch, i.commit_hash, i.test_mode], wv = [now, M.ups ? 2 : 1, M.ups ? 'd' : 'c', false];
        if (J(v) !== J(wv)) throw new Fail('http.metrics', `GET ${u} reports time, version, commit, test mode ${J(v)}, expected ${J(wv)}`);
        if (sort(perms) !== sort(want)) throw new Fail('http.metrics', `GET ${u} reports the permissions ${J(perms)}, expected ${J(want)}`);
      } else {
        const l = x.map((e) => J([e.timestamp, e.message])), old = M.pages?.[p] ?? [];
        if (x.some((e) => !(e.timestamp <= now))) throw new Fail('http.logs', `GET ${u} has an entry of the future`);
        if (old.some((e, k) => l[k] !== e)) throw new Fail('http.logs', `GET ${u}: entries shown before are gone or changed`);
        M.pages = { ...M.pages, [p]: l };
      }
    }
  },
};
