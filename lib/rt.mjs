// Drives the C library (linked into one wasm module) function by function.
import fs from 'node:fs';
import path from 'node:path';
import { fc, BUILD, fail } from './harness.mjs';
import { Host, instantiate, call } from './host.mjs';
import { hintWord, size } from './dict.mjs';
import { be32, le32, fromBE, fromLE, hex, MASK, u256 } from './util.mjs';
const mods = {};
export const module_ = (k) => (mods[k] ??= new WebAssembly.Module(fs.readFileSync(path.join(BUILD, 'rt', k + '.wasm'))));
// big: more than one initial page; small: one page, static buffer; grown: one page, memory in a new page.
export const LAYOUTS = ['big', 'small', 'grown'];
export class RT {
  constructor(layout = 'big', hostOpts = {}) {
    this.layout = layout; this.host = new Host(hostOpts);
    this.inst = instantiate(module_(layout === 'big' ? 'big' : 'small'), this.host);
    this.x = this.inst.exports; this.mem = this.x.memory;
    if (this.x.__wasm_call_ctors) this.x.__wasm_call_ctors();
    this.x.__init_evm_heap(layout === 'grown' ? 1 : 0);
    this.s0 = this.x.verif_scratch(); this.sn = this.x.verif_scratch_size(); this.sp = this.s0;
  }
  base() { return this.x.evm_get_memory_addr(0) >>> 0; }
  reset() { this.sp = this.s0; }
  alloc(n, align = 32) { this.sp = (this.sp + align - 1) & -align; const p = this.sp; this.sp += n; if (this.sp > this.s0 + this.sn) throw new Error('argument area exhausted'); return p; }
  u8() { return new Uint8Array(this.mem.buffer); }
  put(p, b) { this.u8().set(b, p); return p; }
  get(p, n) { return this.u8().slice(p, p + n); }
  // arguments: pointer to a big-endian / little-endian word, an output word full of garbage
  be(x) { return this.put(this.alloc(32), be32(x)); }
  le(x) { return this.put(this.alloc(32), le32(x)); }
  out() { return this.put(this.alloc(32), new Uint8Array(32).fill(0xa5)); }
  rbe(p) { return fromBE(this.get(p, 32)); }
  rle(p) { return fromLE(this.get(p, 32)); }
  call(name, ...a) { return call(this.inst, name, ...a); }
  fn(name, ...a) { const r = this.call(name, ...a); if (r.kind !== 'fallthrough') fail(`${name} ended in ${r.kind} ${r.msg ?? hex(r.data)}`, { args: a }); return r.ret; }
  // Calls a function with words laid out one after another with canaries between; checks that nothing
  // but the outputs changed. args: ['be', x] ['le', x] ['out-be'] ['out-le'] or a number/bigint scalar.
  pure(name, args) {
    this.reset();
    const start = this.alloc(32); this.put(start, new Uint8Array(32).fill(0xcc));
    const outs = [], ps = [];
    const av = args.map((a) => {
      if (!Array.isArray(a)) return a;
      const p = this.alloc(32);
      if (a[0] === 'be') this.put(p, be32(a[1])); else if (a[0] === 'le') this.put(p, le32(a[1])); else { this.put(p, new Uint8Array(32).fill(0xa5)); outs.push([p, a[0]]); }
      ps.push(p); this.put(this.alloc(32), new Uint8Array(32).fill(0xcc)); return p;
    });
    const end = this.sp, before = this.get(start, end - start);
    const ret = this.fn(name, ...av);
    const after = this.get(start, end - start);
    const res = outs.map(([p, k]) => (k === 'out-be' ? fromBE(after.slice(p - start, p - start + 32)) : fromLE(after.slice(p - start, p - start + 32))));
    for (const [p] of outs) after.set(before.subarray(p - start, p - start + 32), p - start);
    if (!Buffer.from(before).equals(Buffer.from(after))) fail(`${name} changed memory other than its result`, { args, before: hex(before), after: hex(after) });
    return { ret, outs: res };
  }
}
const big = fc.bigInt({ min: 0n, max: MASK });
const bytePat = fc.array(fc.constantFrom(0, 1, 0x7f, 0x80, 0xff, 0x10, 0xaa), { minLength: 32, maxLength: 32 }).map((b) => fromBE(Uint8Array.from(b)));
const pow2 = fc.tuple(fc.integer({ min: 0, max: 255 }), fc.integer({ min: -2, max: 2 })).map(([k, d]) => u256((1n << BigInt(k)) + BigInt(d)));
export const word = fc.oneof({ weight: 3, arbitrary: big }, { weight: 2, arbitrary: pow2 }, { weight: 2, arbitrary: bytePat },
  { weight: 2, arbitrary: fc.integer({ min: 0, max: 300 }).map(BigInt) }, { weight: 1, arbitrary: fc.integer({ min: 1, max: 300 }).map((n) => u256(-BigInt(n))) },
  { weight: 1, arbitrary: fc.tuple(big, fc.integer({ min: 0, max: 255 })).map(([x, k]) => x >> BigInt(k)) },
  { weight: 1, arbitrary: fc.tuple(big, fc.integer({ min: 0, max: 255 })).map(([x, k]) => u256(x << BigInt(k))) },
  { weight: 1, arbitrary: hintWord }, { weight: 1, arbitrary: fc.constantFrom(0n, 1n, MASK, 1n << 255n, (1n << 255n) - 1n, (1n << 160n) - 1n) });
// two words, often nearly equal
export const pair = fc.oneof(fc.tuple(word, word), word.map((x) => [x, x]),
  fc.tuple(word, fc.integer({ min: 0, max: 255 })).map(([x, k]) => [x, x ^ (1n << BigInt(k))]),
  fc.tuple(word, fc.integer({ min: 0, max: 31 }), fc.integer({ min: 0, max: 255 })).map(([x, k, v]) => { const b = be32(x); b[k] = v; return [x, fromBE(b)]; }));
export const bytes = (min, max) => fc.oneof(fc.uint8Array({ minLength: min, maxLength: max }), fc.tuple(fc.integer({ min, max }), fc.integer({ min: 1, max: 255 })).map(([n, s]) => Uint8Array.from({ length: n }, (_, i) => (i * s + s) & 0xff)));
// patterned data of a length from the size generator: never all zero, and short to write down
export const blob = (max, o) => fc.tuple(size(max, o), fc.integer({ min: 1, max: 255 })).map(([n, s]) => Uint8Array.from({ length: n }, (_, i) => (i * s + s + (i >> 8) * 7) & 0xff));
export { size };
