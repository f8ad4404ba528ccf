// Runs the command-line tool, built in the working directory, against a collection on the simulator.
import path from 'path'; import { Tool, ME } from './tool.mjs'; import { ledger, storage, CAN, L, P, ok, J } from './ic.mjs'; import { principalBytes } from './candid.mjs';
export { ME };
const all = L.ALLPERMS.map((x) => ({ [x]: null }));
export function collection(init = {}) { const s = ledger({ perms: [[P(1), all], [ME.principal, all]], ...init }); storage(s); return s; }
let t = null;
// before(q, k): somebody acts first, or answers in the collection's stead by returning {reply} or {reject}
export function tool(s, args, { files, stdin, before } = {}) {
  t ??= new Tool(path.resolve('target/debug/origyn_icrc7_cmdlinetools')); let k = -1;
  const r = t.run(['--network', 'local', '--identity', 'id.pem', '--canister', CAN, ...args], { files, stdin, handler: (q) => {
    k++; const b = before?.(q, k); if (b) return b;
    s.w.advance(200_000_000n);
    if (q.kind === 'query') { const x = s.c.run(() => s.c.ex['canister_query ' + q.method](), { arg: q.arg, caller: principalBytes(q.sender), query: true }); return x.out?.reply !== undefined ? { reply: x.out.reply } : { reject: [5, String(x.trap)] }; }
    const id = s.w.ingress(CAN, q.method, q.arg, q.sender); if (!s.w.results.has(id)) s.w.drain(); const o = s.w.results.get(id); s.w.results.delete(id);
    return o.reply !== undefined ? { reply: o.reply } : { reject: o.reject };
  } });
  return { ok: r.code === 0, out: r.out ?? '', r, file: r.file };
}
