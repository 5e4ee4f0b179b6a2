// Framed request/response child processes (the compile server and the front-end driver), restarted on a crash.
import { spawn } from 'node:child_process';
const TIMEOUT = 150; // a request takes seconds at most
export class Server {
  constructor(cmd, args = [], env = {}) { Object.assign(this, { cmd, args, env, q: Promise.resolve(), p: null, stderr: '' }); }
  start() {
    this.buf = Buffer.alloc(0); this.stderr = '';
    const p = (this.p = spawn(this.cmd, this.args, { env: { ...process.env, ...this.env }, stdio: ['pipe', 'pipe', 'pipe'] }));
    p.stdin.on('error', () => {});
    p.stderr.on('data', (d) => { this.stderr = (this.stderr + d).slice(-4000); });
    p.stdout.on('data', (d) => { this.buf = this.buf.length ? Buffer.concat([this.buf, d]) : d; this.pump(); });
    p.on('close', (code, sig) => { if (this.p === p) this.p = null; if (this.wait) { const w = this.wait; this.wait = null; w([Buffer.from('crash'), Buffer.from(`${sig || code}: ${this.stderr.slice(-600)}`)]); } });
  }
  pump() {
    const b = this.buf; if (b.length < 4) return;
    const n = b.readUInt32LE(0); let o = 4; const f = [];
    for (let i = 0; i < n; i++) { if (b.length < o + 4) return; const l = b.readUInt32LE(o); o += 4; if (b.length < o + l) return; f.push(b.subarray(o, o + l)); o += l; }
    this.buf = b.subarray(o);
    const w = this.wait; this.wait = null; w(f);
  }
  ask(fields) { const r = this.q.then(() => this.ask1(fields)); this.q = r.catch(() => {}); return r; }
  ask1(fields) {
    if (!this.p) this.start();
    const parts = [u32(fields.length)];
    for (const f of fields) { const b = Buffer.from(f); parts.push(u32(b.length), b); }
    const p = this.p;
    return new Promise((res) => {
      const t = setTimeout(() => { this.stderr += `no answer within ${TIMEOUT} s`; p.kill('SIGKILL'); }, TIMEOUT * 1000); t.unref();
      this.wait = (x) => { clearTimeout(t); res(x); }; this.p.stdin.write(Buffer.concat(parts));
    });
  }
  stop() { if (this.p) { this.p.kill(); } }
}
const u32 = (n) => { const b = Buffer.alloc(4); b.writeUInt32LE(n); return b; };
export class Pool {
  constructor(n, ...a) { this.s = Array.from({ length: n }, () => new Server(...a)); this.free = [...this.s]; this.waiters = []; }
  async ask(fields) {
    const s = this.free.pop() ?? (await new Promise((r) => this.waiters.push(r)));
    try { return await s.ask(fields); } finally { const w = this.waiters.shift(); if (w) w(s); else this.free.push(s); }
  }
  stop() { for (const s of this.s) s.stop(); }
}
