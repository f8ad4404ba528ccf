// The command-line tool, built from the working tree, run to its end against a stand-in replica (replica.mjs).
import { Worker, receiveMessageOnPort, MessageChannel } from 'worker_threads'; import fs from 'fs'; import os from 'os'; import path from 'path';
import { serve, identity } from './replica.mjs';
export const ME = identity(3);
export class Tool {
  constructor(bin) {
    this.bin = bin; this.flag = new SharedArrayBuffer(4); this.F = new Int32Array(this.flag); this.seen = 0;
    const ch = new MessageChannel(); this.p = ch.port1;
    this.w = new Worker(new URL('./toolhost.mjs', import.meta.url), { workerData: { flag: this.flag, port: ch.port2 }, transferList: [ch.port2] }); this.w.unref(); this.p.unref?.();
    this.dir = fs.mkdtempSync(path.join(os.tmpdir(), 'verif-tool-')); fs.writeFileSync(path.join(this.dir, 'id.pem'), ME.pem);
    process.on('exit', () => fs.rmSync(this.dir, { recursive: true, force: true }));
    if (!this.next().ready) throw new Error('tool host did not start');
  }
  next() {
    for (;;) {
      const m = receiveMessageOnPort(this.p); if (m) return m.message;
      const v = Atomics.load(this.F, 0); const again = receiveMessageOnPort(this.p); if (again) return again.message;
      if (Atomics.wait(this.F, 0, v, 150000) === 'timed-out') throw new Error('tool host is silent');
    }
  }
  // files: {name: bytes} put into the working directory first; handler as in serve()
  run(args, { handler, stdin, files = {}, limit } = {}) {
    for (const f of fs.readdirSync(this.dir)) if (f !== 'id.pem') fs.rmSync(path.join(this.dir, f), { recursive: true, force: true });
    for (const k in files) fs.writeFileSync(path.join(this.dir, k), files[k]);
    this.p.postMessage({ bin: this.bin, args, cwd: this.dir, stdin, limit }); const calls = [];
    for (;;) {
      const m = this.next(); if (m.end) return { ...m.end, calls, file: (n) => { try { return fs.readFileSync(path.join(this.dir, n)); } catch { return null; } } };
      if (m.rq.host !== '127.0.0.1:4943') { this.p.postMessage({ id: m.rq.id, answer: { status: 502, body: Buffer.from('no such host') } }); calls.push({ kind: 'host', host: m.rq.host }); continue; }
      let a;
      try { a = serve({ ...m.rq, body: Buffer.from(m.rq.body) }, (q) => { calls.push(q); return handler(q, calls.length - 1); }); }
      catch (e) { this.p.postMessage({ kill: 1 }); while (!this.next().end); throw e; }
      this.p.postMessage({ id: m.rq.id, answer: a });
    }
  }
}
