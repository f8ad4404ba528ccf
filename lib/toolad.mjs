// Adapters for the command-line tool: the real tool, run to its end against the stand-in replica, which passes its calls
// to the real canisters.  A run may be disturbed at any of its calls: refused, rejected, failing on the way there or back,
// answered late, or preceded by somebody else's call.
import fs from 'fs'; import path from 'path'; import { fileAdapter, hash } from './filead.mjs'; import { ledgerAdapter, LEDGER, canon, resOf } from './ledgerad.mjs';
import * as L from './ledger.mjs'; import { Fail } from './engine.mjs'; import { Tool, ME } from './tool.mjs'; import { didOf } from './mic.mjs'; import { decode, encode } from './candid.mjs';
export { ME };
const { J, norm, P } = L;
let shared = null; const toolOf = (codes) => (shared ??= new Tool(codes.tool));
export const INIT = { perms: [[P(1), L.ALLPERMS.map((x) => ({ [x]: null }))], [ME.principal, L.ALLPERMS.map((x) => ({ [x]: null }))]] };
const HEAD = ['--network', 'local', '--identity', 'id.pem', '--canister', LEDGER];
const show = (a) => a.map((x) => (/^[\w\/.,:=-]+$/.test(x) ? x : JSON.stringify(x))).join(' ');
// a disturbance at call k of the run: {k, how} or {k, before: operation}
export const run = (args, o = {}) => ({ tool: args, ...o, label: `tool: ${show(args)}` + (o.stdin !== undefined ? ' (answers ' + J(o.stdin.split('\n').slice(0, -1)) + ')' : '') + (o.files ? Object.entries(o.files).map(([n, b]) => `, ${n} is ${b.length > 60 ? b.length + ' bytes' : JSON.stringify(b.toString('latin1'))}`).join('') : '') + (o.at ? `, at call ${o.at.k + 1} ${o.at.write ? 'after the file has become ' + JSON.stringify(o.at.write.toString('latin1')) : o.at.how ?? 'after ' + [].concat(o.at.before).map((x) => x.label).join(', ')}` : '') });
export const HOWS = ['refused', 'rejected', 'lost', 'unanswered', 'late', 'late rejected', 'typed error'];
const NO = { refused: { refused: [2, 'injected'] }, rejected: { reject: [5, 'injected'] }, lost: { http: 500 }, 'late rejected': { later: { reject: [4, 'injected'] } } };
const TYPED = { init_upload: { StorageCanisterError: 'injected' }, store_chunk: { UploadNotInitialized: null }, finalize_upload: { IncompleteUpload: null } };
// runs the tool; exec(call) performs a call in the world and returns {reply}|{reject}; what became of each call is noted in it
function drive(ctx, o, exec, other) {
  const t = toolOf(ctx.codes); let k = -1;
  return t.run([...HEAD, ...o.tool], { stdin: o.stdin, files: o.files, handler: (q) => {
    k++; const at = o.at?.k === k ? o.at : null;
    if (q.sender !== ME.principal) throw new Fail('tool.sender', `${o.label}: call ${q.method} is made as ${q.sender}`);
    if (q.canister !== LEDGER) throw new Fail('tool.canister', `${o.label}: call ${q.method} goes to ${q.canister}`);
    if (at?.write) for (const n in o.files) fs.writeFileSync(path.join(t.dir, n), at.write);
    if (at?.before) for (const x of [].concat(at.before)) other(x);
    if (at && NO[at.how]) { q.failed = at.how; return NO[at.how]; }
    if (at?.how === 'typed error') { q.failed = at.how; const d = ctx.c.did; return { reply: encode(d, d.methods[q.method].rets, [{ Err: TYPED[q.method] ?? { ConcurrentManagementCall: null } }]) }; }
    const r = exec(q);
    if (r.err) q.failed = r.err;
    if (at?.how === 'unanswered') { q.failed = at.how; return { http: 500 }; }
    return at?.how === 'late' && r.out.reply ? { later: r.out } : r.out;
  } });
}
const decArgs = (ctx, q) => { try { const m = ctx.c.did.methods[q.method]; return decode(ctx.c.did, m.args, q.arg); } catch { return null; } };
function execute(ctx, q, strict) {
  const { w } = ctx, isQ = q.kind === 'query', args = decArgs(ctx, q);
  if (args === null) throw new Fail('tool.args', `call ${q.method} with arguments that do not decode`);
  const s = strict?.(q, args); let out, res;
  if (isQ) { const c = ctx.c, r = c.run(() => c.ex['canister_query ' + q.method](), { arg: q.arg, caller: (q.sb ??= principal(q.sender)), query: true }); out = r.out?.reply !== undefined ? { reply: r.out.reply } : { reject: r.out?.reject ?? [5, String(r.trap)] }; if (out.reply) res = resOf({ ok: w.dec(LEDGER, q.method, out.reply) }); }
  else { const id = w.ingress(LEDGER, q.method, q.arg, q.sender); if (!w.results.has(id)) w.drain(); const r = w.results.get(id); w.results.delete(id); out = r.reply !== undefined ? { reply: r.reply } : { reject: r.reject }; res = resOf(out.reply !== undefined ? { ok: w.dec(LEDGER, q.method, out.reply) } : { reject: r.reject, trap: r.trap }); }
  q.args = args; q.res = res;
  return { out, res, s, err: out.reject ? 'rejected' : res?.Err ? Object.keys(res.Err)[0] : undefined };
}
import { principalBytes as principal } from './candid.mjs';
const href = (x) => { try { return new URL(x).href; } catch { return ''; } };
const died = (r, o) => { if (r.sig) throw new Fail('tool.hang', `${o.label}: did not end`); };

// ---- uploads: the model of files (fileAdapter) follows every call, whoever makes it ----
export const uploadAdapter = {
  ...fileAdapter,
  make(scn, codes) { const ctx = fileAdapter.make({ ...scn, init: scn.init ?? INIT }, codes); ctx.scn = scn; ctx.codes = codes; return ctx; },
  apply(ctx, a) {
    const o = a.o; if (!o.tool) return fileAdapter.apply(ctx, a);
    ctx.w.advance(200_000_000n);
    const dest = o.dest, want = o.want; // where the file is to be, and its bytes
    const exec = (q) => {
      ctx.w.advance(200_000_000n);
      const args = decArgs(ctx, q), p = args?.[0]?.file_path;
      if (p !== dest) throw new Fail('tool.path', `${o.label}: ${q.method} for ${p}, expected ${dest}`);
      const s = ctx.scn.barred ? { reject: true } : fileAdapter.step(ctx.M, { m: q.method, a: args, file: want });
      const r = execute(ctx, q); fileAdapter.settle(ctx.M, { m: q.method, a: args, file: want }, s, r.res, o.label);
      if (q.method === 'finalize_upload' && r.res.Ok) q.done = r.res.Ok.url;
      return r;
    };
    const before = J([...ctx.M].map(([k, u]) => [k, u.st, [...u.got].length])), r = drive(ctx, o, exec, (x) => fileAdapter.apply(ctx, { o: x, label: x.label }));
    died(r, o);
    const bad = r.calls.findIndex((q) => q.failed), ok = r.code === 0, url = r.calls.find((q) => q.done)?.done, u = ctx.M.get(dest);
    if (o.refuse) { if (ok || r.calls.length) throw new Fail('tool.accepts', `${o.label}: ${ok ? 'succeeds' : 'makes calls'}, expected to be refused`); return { failed: true, outcome: 'refused by the tool' }; }
    if (ok && (u?.st !== 'Finalized' || !r.calls.some((q) => q.method === 'finalize_upload' && q.args && q.res?.Ok))) throw new Fail('tool.claims', `${o.label}: ends with success but ${dest} is not finalised: ${r.out}`);
    if (ok && bad >= 0) throw new Fail('tool.claims', `${o.label}: ends with success although call ${bad + 1} (${r.calls[bad].method}) failed (${r.calls[bad].failed})`);
    if (ok && !r.out.split(/\s+/).some((x) => href(x) === href(url))) throw new Fail('tool.url', `${o.label}: prints ${J(r.out)}, expected the URL ${url}`);
    if (bad >= 0 && r.calls.length > bad + 1) throw new Fail('tool.goes on', `${o.label}: after call ${bad + 1} (${r.calls[bad].method}) failed (${r.calls[bad].failed}) it goes on with ${r.calls[bad + 1].method}`);
    if (!ok && bad < 0 && !o.at?.write) throw new Fail('tool.fails', `${o.label}: fails although nothing failed: ${r.err}`);
    if (!ok && /completed|successfully/i.test(r.out)) throw new Fail('tool.claims', `${o.label}: fails but prints ${J(r.out)}`);
    return { failed: !ok, outcome: ok ? 'uploaded' : r.calls[bad] ? `${r.calls[bad].method}: ${r.calls[bad].failed}` : 'given up' };
  },
};
// ---- mint and permissions: what is to happen is said by the reference ledger, from the command line ----
export const toolLedgerAdapter = {
  ...ledgerAdapter,
  make(scn, codes) { const ctx = ledgerAdapter.make({ ...scn, init: { ...INIT, ...scn.init } }, codes); ctx.scn = scn; ctx.codes = codes; return ctx; },
  actions(ctx, depth) { const l = typeof ctx.scn.alphabet === 'function' ? ctx.scn.alphabet(ctx.S, depth) : ctx.scn.alphabet; return l.map((o) => (o.tool ? { op: o, label: o.label } : { op: o, label: ledgerLabel(o) })); },
  apply(ctx, a) {
    const o = a.op; if (!o.tool) return ledgerAdapter.apply(ctx, a);
    const w = ctx.w; w.advance(o.dt ?? 200_000_000n); ctx.S.now = w.time;
    let want = null, n = 0;
    const exec = (q) => {
      n++; if (n > 1 || !o.call || o.call.m !== q.method) throw new Fail('tool.call', `${o.label}: makes call ${n} ${q.method}, expected ${o.call?.m ?? 'none'}`);
      const r = execute(ctx, q);
      if (q.kind === 'call') {
        want = canon(norm(L.step(ctx.S, { c: ME.principal, m: o.call.m, a: o.call.a }))); if (J(r.res) !== J(want)) throw new Fail('tool.call', `${o.label}: ${q.method} ${J(q.args)} is answered ${J(r.res)}, expected ${J(want)} of ${J(o.call.a)}`);
        if (J(canonArgs(q.args)) !== J(canonArgs(o.call.a))) throw new Fail('tool.args', `${o.label}: ${q.method} is called with ${J(q.args)}, expected ${J(o.call.a)}`);
      } else if (J(canonArgs(q.args)) !== J(canonArgs(o.call.a))) throw new Fail('tool.args', `${o.label}: ${q.method} is asked with ${J(q.args)}, expected ${J(o.call.a)}`);
      return r;
    };
    const r = drive(ctx, o, exec, (x) => { const b = ledgerAdapter.apply(ctx, { op: x, label: x.label }); });
    died(r, o);
    const ok = r.code === 0, bad = r.calls.find((q) => q.failed);
    if (!o.call) { if (ok || r.calls.length) throw new Fail('tool.accepts', `${o.label}: ${ok ? 'succeeds: ' + r.out : 'makes calls'}, expected to be refused`); return { failed: true, outcome: 'refused by the tool' }; }
    if (!r.calls.length) throw new Fail('tool.fails', `${o.label}: makes no call: ${r.err}`);
    if (ok === !!bad) throw new Fail(ok ? 'tool.claims' : 'tool.fails', `${o.label}: ends with ${ok ? 'success' : 'failure'} although its call ${bad ? 'failed (' + bad.failed + ')' : 'succeeded'}: ${ok ? r.out : r.err}`);
    if (!ok && /success/i.test(r.out)) throw new Fail('tool.claims', `${o.label}: fails but prints ${J(r.out)}`);
    if (ok) { const x = o.prints?.(want ?? r.calls[0], ctx.S, r.out); if (x) throw new Fail('tool.prints', `${o.label}: prints ${J(r.out)}, expected ${x}`); }
    return { failed: !ok, outcome: o.call.m + ': ' + (ok ? 'done' : bad.failed) };
  },
};
import { label as ledgerLabel } from './ledgerad.mjs';
const canonArgs = (x) => canon(norm(x));
// ---- metadata documents: no canister is involved ----
export const docAdapter = {
  make: (scn, codes) => ({ scn, codes, c: null, last: null }), actions: (ctx, d) => ctx.scn.alphabet(ctx, d).map((o) => ({ o, label: o.label })),
  save: (ctx) => ({ last: ctx.last }), load(ctx, s) { ctx.last = s.last; }, key: (ctx) => J(ctx.last), observe() {},
  apply(ctx, a) {
    const o = a.o, r = toolOf(ctx.codes).run([...HEAD, ...o.tool], { stdin: o.stdin, files: o.files, handler: (q) => ({ reject: [5, 'no call expected'] }) }); died(r, o);
    const ok = r.code === 0; if (r.calls.length) throw new Fail('tool.call', `${o.label}: makes a call`);
    if (ok !== o.ok) throw new Fail(ok ? 'tool.accepts' : 'tool.refuses', `${o.label}: ${ok ? 'succeeds' : 'is refused: ' + r.err}, expected ${o.ok ? 'success' : 'a refusal'}`);
    if (!ok && /success/i.test(r.out)) throw new Fail('tool.claims', `${o.label}: fails but prints ${J(r.out)}`);
    if (o.output) {
      const b = r.file(o.output); if (!ok) { if (b) throw new Fail('doc.written', `${o.label}: is refused but writes ${b}`); ctx.last = null; return { failed: true, outcome: 'refused' }; }
      let d; try { d = JSON.parse(b); } catch { throw new Fail('doc.json', `${o.label}: writes ${b}`); }
      if (canonJ(d) !== canonJ(o.doc)) throw new Fail('doc.content', `${o.label}: writes ${canonJ(d)}, expected ${canonJ(o.doc)}`);
      ctx.last = b.toString();
    }
    return { failed: !ok, outcome: o.tool[0] + (ok ? ': accepted' : ': refused') };
  },
};
const canonJ = (x) => JSON.stringify(x, (k, v) => (v && typeof v === 'object' && !Array.isArray(v) ? Object.fromEntries(Object.keys(v).sort().map((k) => [k, v[k]])) : v));
