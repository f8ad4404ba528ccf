// One exploration thread.
import { parentPort, workerData } from 'worker_threads';
import { explore, loadScenarios } from './engine.mjs';
const { file, tier, codes, ctl, claimBuf, first } = workerData;
const { list } = await loadScenarios(file, tier);
const C = new Int32Array(ctl), K = new Int32Array(claimBuf);
// ctl: [0]=stop
for (;;) {
  const msg = await new Promise((r) => parentPort.once('message', r));
  if (msg.end) process.exit(0);
  try {
    const r = explore(list[msg.scn], codes, { first, prefix: msg.prefix, claim: (n) => Atomics.compareExchange(K, msg.base + n, 0, 1) === 0, stopped: () => Atomics.load(C, 0) !== 0, onViolation: () => Atomics.store(C, 0, 1) });
    r.st.states = [...r.st.states]; parentPort.postMessage({ ok: r });
  } catch (e) { parentPort.postMessage({ err: e.stack ?? String(e) }); }
}
