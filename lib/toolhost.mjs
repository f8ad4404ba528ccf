// Runs the command-line tool and passes its HTTP requests on to the exploration thread, which answers them.
import { workerData } from 'worker_threads'; import http from 'http'; import { spawn } from 'child_process';
const parentPort = workerData.port, flag = new Int32Array(workerData.flag);
const send = (m) => { parentPort.postMessage(m); Atomics.add(flag, 0, 1); Atomics.notify(flag, 0); };
const waiting = new Map(); let n = 0; // requests may overlap
const server = http.createServer((q, s) => {
  const l = []; q.on('data', (d) => l.push(d)); q.on('end', () => {
    const u = new URL(q.url, 'http://127.0.0.1:4943');
    const id = ++n; waiting.set(id, (a) => { waiting.delete(id); if (a.status === 0) { q.socket.destroy(); return; } s.writeHead(a.status, { 'content-type': a.status === 200 ? 'application/cbor' : 'text/plain' }); s.end(Buffer.from(a.body)); });
    send({ rq: { id, host: u.host, path: u.pathname, method: q.method, body: Buffer.concat(l) } });
  });
});
server.keepAliveTimeout = 1;
await new Promise((r) => server.listen(0, '127.0.0.1', r));
let child = null; const proxy = 'http://127.0.0.1:' + server.address().port;
parentPort.on('message', (m) => {
  if (m.answer) return waiting.get(m.id)?.(m.answer);
  if (m.kill) { child.kill('SIGKILL'); return; }
  const env = { PATH: process.env.PATH, HOME: m.cwd, http_proxy: proxy, HTTP_PROXY: proxy, no_proxy: '', RUST_BACKTRACE: '0' };
  const p = child = spawn(m.bin, m.args, { cwd: m.cwd, env, stdio: ['pipe', 'pipe', 'pipe'] });
  const out = [], err = []; p.stdout.on('data', (d) => out.push(d)); p.stderr.on('data', (d) => err.push(d));
  p.stdin.on('error', () => {}); p.stdin.end(m.stdin ?? '');
  const t = setTimeout(() => p.kill('SIGKILL'), m.limit ?? 120000);
  p.on('error', (e) => { clearTimeout(t); send({ end: { code: -1, err: String(e), out: '' } }); });
  p.on('close', (code, sig) => { clearTimeout(t); send({ end: { code, sig, out: Buffer.concat(out).toString(), err: Buffer.concat(err).toString() } }); });
});
send({ ready: 1 });
