// Adapter for files: the collection with real storage canisters (the wasm it installs), created by a stand-in for the
// management canister.  After every step each path is fetched the way a browser does, following redirections, and the
// bytes answered are compared with the file.
import { World, MGMT } from './mic.mjs'; import * as L from './ledger.mjs'; import { Fail } from './engine.mjs'; import { LEDGER, canon, resOf, label } from './ledgerad.mjs';
import * as I from './ifaces.mjs'; import { principalBytes, principalText, sha256 } from './candid.mjs'; import { verify } from './httpcert.mjs'; import { up, servable } from './mgmtad.mjs';
const { J, norm, P, Ok, E } = L;
const SE = E('StorageCanisterError', 1), url = (p) => (p.startsWith('/') ? p : '/' + p), MIB = 1 << 20;
export const hash = (b) => sha256(b).toString('hex');
// calls: a file is {data, hash?}; a chunk is the right one (of the size the upload was begun with) unless its bytes are given
export const f = {
  init: (p, file, chunk, o = {}) => ({ ...up.init(1, p, { hash: o.hash ?? hash(file), size: o.size ?? file.length, chunk: chunk === null || chunk === undefined ? null : BigInt(chunk) }), file, label: `init_upload ${p}: ${file.length} bytes in chunks of ${chunk ?? 'the default size'}${o.hash ? ', wrong hash' : ''}${o.size !== undefined ? ', as ' + o.size + ' bytes' : ''}` }),
  store: (p, id, data) => ({ c: P(1), m: 'store_chunk', p, id, data, dt: 200_000_000n, label: `store_chunk ${p} ${id}${data === undefined ? '' : ' with ' + (typeof data === 'string' ? data : J(data).slice(0, 40))}` }),
  fin: (p) => ({ ...up.fin(1, p), label: 'finalize_upload ' + p }), cancel: (p) => ({ ...up.cancel(1, p), label: 'cancel_upload ' + p }),
};
// what the storage canister answers after it was sent something wrong is its own business: the answer is followed, and
// what counts is that a file it then serves is the right one
const FREE = { free: 1 };
const step = (M, o) => {
  const p = o.a[0].file_path, u = M.get(p), a = o.a[0];
  if (o.m === 'init_upload') {
    if ([...M.keys()].some((k) => url(k) === url(p))) return E('FileAlreadyExists'); if (!servable(p)) return SE;
    const c = a.chunk_size === null ? MIB : Number(a.chunk_size), n = Number(a.file_size); if (c < 1 || c > MIB) return SE;
    M.set(p, { st: 'Init', want: o.file, hash: a.file_hash, size: n, chunk: c, got: new Map(), free: false }); return Ok({});
  }
  if (!u) return E(o.m === 'finalize_upload' ? 'UploadNotStarted' : 'UploadNotInitialized'); if (u.st === 'Finalized') return E('UploadAlreadyFinalized');
  const put = (x) => { M.set(p, x); return x; };
  if (o.m === 'store_chunk') {
    const id = a.chunk_id, n = Math.ceil(u.size / u.chunk), want = id < n ? Math.min(u.chunk, u.size - Number(id) * u.chunk) : -1;
    if (want !== a.chunk_data.length || u.got.has(Number(id)) || u.free) { put({ ...u, free: true }); return FREE; }
    put({ ...u, st: 'InProgress', got: new Map(u.got).set(Number(id), a.chunk_data) }); return Ok({});
  }
  if (o.m === 'cancel_upload') { M.delete(p); return Ok({}); }
  if (u.st === 'Init') return E('UploadNotStarted'); if (u.free) return FREE;
  const n = Math.ceil(u.size / u.chunk); if (u.got.size < n) { put({ ...u, free: true }); return E('IncompleteUpload'); }
  const all = Buffer.concat([...u.got].sort((x, y) => x[0] - y[0]).map(([, b]) => b));
  if (hash(all) !== u.hash) { put({ ...u, free: true }); return SE; }
  put({ ...u, st: 'Finalized', data: all }); return Ok({ url: `https://${LEDGER}.raw.icp0.io${url(p)}` });
};
// compares an answer with the reference's
function settle(M, o, s, got, label) {
  if (s === FREE) {
    if (!got.Ok && !got.Err) throw new Fail(`res.${o.m}`, `${label}: answered ${J(got)}`);
    const p = o.a[0].file_path, u = M.get(p); if (got.Ok) M.set(p, { ...u, st: o.m === 'store_chunk' ? 'InProgress' : 'Finalized' });
    return { failed: !!got.Err, outcome: o.m + ': free ' + (got.Err ? Object.keys(got.Err)[0] : 'Ok') };
  }
  const want = canon(norm(s));
  if (J(got) !== J(want)) throw new Fail(`res.${o.m}`, `${label}: answered ${J(got)}, expected ${J(want)}`);
  const bad = !!(want.Err || want.reject); return { failed: bad, outcome: o.m + ':' + (want.Err ? Object.keys(want.Err)[0] : 'Ok') };
}
export const fileAdapter = {
  make(scn, codes) {
    const w = new World(); w.time = L.T0; const c = w.add(LEDGER, codes.core_nft), args = L.initArgs(scn.init ?? {}), r = w.init(c, [{ Init: args }], P(1)); if (r.trap) throw new Fail('init', r.trap); w.tick(0);
    const ctx = { w, c, scn, M: new Map() };
    w.env = (m) => {
      if (m.callee !== MGMT) return; const [a] = I.decArgs(I.MGMT_DID, m.method, m.arg);
      if (m.method === 'create_canister') { const id = principalText(Buffer.from([150 + w.cans.size, 2])); w.add(id, codes.storage); return { reply: I.encRets(I.MGMT_DID, m.method, [{ canister_id: id }]) }; }
      if (m.method === 'install_code') { const k = w.can(a.canister_id), x = k.run(() => k.ex.canister_init(), { arg: a.arg, caller: principalBytes(m.from) }); if (x.trap) return { reject: [5, x.trap] }; w.commitCalls(k, x, null); return { reply: I.encRets(I.MGMT_DID, m.method, []) }; }
      return { reject: [4, 'not now'] };
    };
    return ctx;
  },
  prelude(ctx) { for (const o of ctx.scn.prelude ?? []) { const r = this.apply(ctx, { o, label: o.label }); if (r.failed) throw new Error('vacuous prelude: ' + o.label); } },
  actions: (ctx, d) => (typeof ctx.scn.alphabet === 'function' ? ctx.scn.alphabet(ctx.M, d) : ctx.scn.alphabet).map((o) => ({ o, label: o.label ?? label(o) })),
  save: (ctx) => ({ w: ctx.w.snap(), M: new Map(ctx.M) }), load(ctx, s) { ctx.w.restore(s.w); ctx.M = new Map(s.M); },
  key: (ctx) => J([...ctx.M].sort().map(([k, u]) => [k, u.st, u.size, u.chunk, u.hash, u.free, [...u.got].sort()])),
  apply(ctx, a) {
    const { w, M } = ctx, o = a.o; w.advance(o.dt ?? 200_000_000n); ctx.changed = true;
    if (o.m === '@upgrade') { const r = w.upgrade(ctx.c, [{ Upgrade: { version: { major: 0, minor: 0, patch: 2 }, commit_hash: 'd' } }], P(1)); if (r.trap) throw new Fail('upgrade', r.trap); w.drain(); return { outcome: 'upgrade' }; }
    let arg = o.a?.[0];
    if (o.m === 'store_chunk') {
      const u = M.get(o.p), i = Number(o.id), right = u ? u.want.subarray(i * u.chunk, (i + 1) * u.chunk) : Buffer.from('x');
      const data = o.data === undefined ? right : o.data === 'altered' ? Buffer.from(right.map((b, k) => (k ? b : b ^ 1))) : o.data === 'short' ? right.subarray(1) : o.data === 'long' ? Buffer.concat([right, Buffer.from([0])]) : o.data;
      arg = { file_path: o.p, chunk_id: BigInt(o.id), chunk_data: Buffer.from(data) };
    }
    const s = step(M, { ...o, a: [arg] }), got = resOf(w.call(LEDGER, o.c, o.m, arg));
    return settle(M, { ...o, a: [arg] }, s, got, a.label);
  },
  step, settle,
  observe(ctx) {
    const { w, M, scn } = ctx, ps = scn.paths ?? ['a', 'b'];
    const rs = w.queries(LEDGER, P(1), ps.map((p) => ['get_upload_status', p]));
    ps.forEach((p, i) => { const g = canon(norm(rs[i].ok)), x = M.has(p) ? Ok({ [M.get(p).st]: null }) : E('UploadNotFound'); if (J(g) !== J(x)) throw new Fail('status', `get_upload_status ${p}: ${J(g)}, expected ${J(x)}`); });
    if (scn.fetch === 'never') return;
    const snap = w.snap();
    for (const p of ps) {
      const u = [...M].find(([k]) => url(k) === url(p))?.[1], at = encodeURI(url(p)), done = u?.st === 'Finalized';
      let can = LEDGER, to = at, r, hops = 0;
      for (;;) {
        r = I.httpFetch(w, can, to, P(9)); if (r.trap || r.status !== 307) break;
        if (!r.updated) { const bad = verify({ url: to }, r, w.can(can).cert); if (bad) throw new Fail('file.proof', `GET ${to} at ${can}: ${bad}`); }
        const m = r.headers.find(([k]) => k === 'location')?.[1].match(/^https:\/\/(.*)\.raw\.icp0\.io(.*)$/); if (!m) throw new Fail('file.location', `GET ${p}: redirected to ${J(r.headers)}`);
        [can, to] = [m[1], m[2]]; if (!w.can(can)) throw new Fail('file.location', `GET ${p} is redirected to ${can}, which is not a canister`); if (++hops > 4) throw new Fail('file.loop', `GET ${p}: endless redirection`);
      }
      if (done) {
        if (r.trap || r.status !== 200) throw new Fail('file.missing', `GET ${p} ends with ${r.trap ?? r.status}, expected the file`);
        if (can === LEDGER) throw new Fail('file.place', `GET ${p} is answered by the collection itself`);
        if (!r.body.equals(u.want) || hash(r.body) !== u.hash) throw new Fail('file.bytes', `GET ${p} answers ${r.body.length} bytes ${r.body.subarray(0, 20).toString('hex')}, expected ${u.want.length} bytes ${u.want.subarray(0, 20).toString('hex')}`);
        const bad = verify({ url: to }, r, w.can(can).cert); if (bad) throw new Fail('file.proof', `GET ${to} at the storage canister: ${bad}`);
      } else {
        if (!r.trap && r.status < 400) throw new Fail('file.served', `GET ${p} is answered ${r.status} although no file was finalised there`);
        for (const k of w.cans.keys()) if (k !== LEDGER) { const x = I.httpFetch(w, k, at, P(9)); if (!x.trap && x.status < 400) throw new Fail('file.served', `GET ${p} at the storage canister is answered ${x.status} although no file was finalised there`); }
      }
    }
    w.restore(snap);
  },
};
