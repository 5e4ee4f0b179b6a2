// Reports a case whose execution does not end: compiled code runs in the main thread, which it then blocks for good.
import { Worker } from 'node:worker_threads';
import { AsyncLocalStorage } from 'node:async_hooks';
import fs from 'node:fs';
import path from 'node:path';
const LIMIT = 75; // seconds without a sign of life; one case takes milliseconds
const als = new AsyncLocalStorage();
let w, n = 0; const beat = new Int32Array(new SharedArrayBuffer(8)); // [signs of life, paused]
export const MARK = (dir, id) => path.join(dir, `.hang-${id}`);
export function start(id, dir) {
  fs.mkdirSync(dir, { recursive: true }); fs.rmSync(MARK(dir, id), { force: true });
  w = new Worker(`
    const { workerData: D, parentPort } = require('node:worker_threads'), fs = require('node:fs'), path = require('node:path');
    const active = new Map(); let hot = null, last = -1, idle = 0;
    parentPort.on('message', ([k, name, value]) => { if (k === 'hot') hot = name; else if (name === undefined) active.delete(k); else active.set(k, [name, value]); });
    setInterval(() => {
      const b = Atomics.load(D.beat, 0); idle = b === last || Atomics.load(D.beat, 1) ? (Atomics.load(D.beat, 1) ? 0 : idle + 1) : 0; last = b;
      if (idle < D.LIMIT || !active.size) return;
      const [name, value] = active.get(hot) ?? [...active.values()].at(-1), f = path.join(D.dir, D.id + '-' + name.replace(/[^\\w.-]+/g, '_') + '-hang.json');
      const msg = 'the code under test does not end within ' + D.LIMIT + ' s';
      fs.writeFileSync(f, '{"property":' + JSON.stringify(D.id) + ',"name":' + JSON.stringify(name) + ',"message":' + JSON.stringify(msg) + ',"value":' + value + '}\\n');
      fs.writeSync(1, 'FAILED ' + D.id + '/' + name + ': ' + msg + '\\n  case: ' + value.slice(0, 1200) + '\\nVIOLATION property=' + D.id + ' replay=' + f + '\\n');
      fs.writeFileSync(D.mark, ''); process.kill(process.pid, 'SIGKILL');
    }, 1000);`, { eval: true, workerData: { beat, LIMIT, id, dir, mark: MARK(dir, id) } });
  w.unref(); w.on('error', () => {});
  setInterval(() => Atomics.add(beat, 0, 1), 1000).unref();
}
export const pause = (on) => { Atomics.store(beat, 1, on ? 1 : 0); };
// Runs one case under watch
export function watched(name, value, encode, f) {
  if (!w) return f();
  const k = ++n; Atomics.add(beat, 0, 1); w.postMessage([k, name, encode(value)]);
  const end = () => { Atomics.add(beat, 0, 1); w.postMessage([k]); };
  let r; try { r = als.run(k, f); } catch (e) { end(); throw e; }
  return r instanceof Promise ? r.finally(end) : (end(), r);
}
// says which of several cases under way is about to run
export const running = () => { const k = als.getStore(); if (w && k) w.postMessage(['hot', k]); };
