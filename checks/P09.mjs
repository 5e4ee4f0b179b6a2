// EVM memory behaves as one zero-initialised byte array through any history of accesses.
import { fc, fail } from '../lib/harness.mjs';
import { RT, word, bytes, size, LAYOUTS } from '../lib/rt.mjs';
import { be32, fromBE, hex, keccak256 } from '../lib/util.mjs';

// The byte array of the EVM, with its size in use.
export class Mem {
  constructor() { this.b = new Uint8Array(1 << 12); this.top = 0; }
  touch(o, n) { if (!n) return; const e = o + n; if (e > this.b.length) { const c = new Uint8Array(Math.max(e, this.b.length * 2)); c.set(this.b); this.b = c; } if (e > this.top) this.top = e; }
  read(o, n) { this.touch(o, n); return this.b.slice(o, o + n); }
  write(o, d) { this.touch(o, d.length); if (d.length) this.b.set(d, o); }
  msize() { return Math.ceil(this.top / 32) * 32; }
}
const LIMIT = { big: 300000, grown: 300000, small: 16384 };
const offset = (lim) => fc.oneof({ weight: 8, arbitrary: fc.integer({ min: 0, max: 300 }) }, { weight: 3, arbitrary: fc.integer({ min: 0, max: Math.min(lim, 16384) - 700 }) },
  { weight: 2, arbitrary: fc.tuple(fc.constantFrom(...(lim > 70000 ? [65536, 131072, 196608, 262144, 16384] : [lim - 700, 8192])), fc.integer({ min: -80, max: 40 })).map(([a, d]) => a + d) },
  ...(lim > 70000 ? [{ weight: 1, arbitrary: fc.integer({ min: 0, max: lim - 700 }) }] : []));
const len = fc.oneof({ weight: 4, arbitrary: fc.integer({ min: 0, max: 70 }) }, { weight: 2, arbitrary: fc.integer({ min: 0, max: 600 }) }, fc.constantFrom(0, 1, 31, 32, 33, 64), size(70000));
const op = (lim) => {
  const o = offset(lim);
  return fc.oneof(
    fc.tuple(fc.constantFrom('mstore_bytes32', 'mstore_u256'), o, word), fc.tuple(fc.constant('mstore_u32'), o, fc.oneof(fc.integer(), fc.constantFrom(0, 1, 0x80, 0x7fffffff, -1))),
    fc.tuple(fc.constant('mstore_u64'), o, fc.oneof(fc.bigInt({ min: 0n, max: (1n << 64n) - 1n }), fc.constantFrom(0n, 1n, 1n << 63n, 0xffffffffn, 1n << 32n))),
    fc.tuple(fc.constant('mstore_u8'), o, fc.integer({ min: 0, max: 255 })),
    fc.tuple(fc.constantFrom('mload_bytes32', 'mload_u256', 'mload_u32', 'mload_u64'), o),
    fc.tuple(fc.constant('mcopy'), o, o, len),
    // source and destination close together, so that they overlap
    fc.tuple(fc.constant('mcopy'), o, fc.integer({ min: -40, max: 40 }), len).map(([k, a, d, n]) => [k, a, Math.max(0, a + d), n]),
    fc.tuple(fc.constant('const_copy'), o, bytes(0, 200)),
    fc.tuple(fc.constant('keccak256'), o, len),
    fc.tuple(fc.constant('calldata_copy'), o, fc.integer({ min: 0, max: 200 }), len),
    fc.tuple(fc.constant('alloca'), fc.integer({ min: 1, max: 40 })),
    fc.tuple(fc.constant('msize')),
  );
};
export default async function (h) {
  h.build('rt');
  h.rule('histories of 1..40 stores, loads, copies (overlapping too), hashes, calldata copies, internal buffer requests over offsets clustered low, around 16 K and around page boundaries, in all memory layouts, compared byte for byte with a flat array; non-trivial: some location is read after being written');
  const run = ({ layout, calldata, ops }) => {
    const cap = (o, n) => (layout === 'small' ? Math.min(n, 16384 - o) : n);
    ops = ops.map(([k, a, b, c]) => (k === 'mcopy' ? [k, a, b, Math.min(cap(a, c), cap(b, c))] : k === 'keccak256' ? [k, a, cap(a, b)] : k === 'calldata_copy' ? [k, a, b, cap(a, c)] : [k, a, b, c]));
    const rt = new RT(layout, { calldata }), m = new Mem();
    let written = new Set(), hit = false, allocs = 0;
    const wr = (o, n) => { for (let i = 0; i < n; i++) written.add(o + i); };
    const rd = (o, n) => { for (let i = 0; i < n && !hit; i++) if (written.has(o + i)) hit = true; };
    const cls = new Set([layout]);
    ops.forEach((p, i) => {
      const [k, a, b, c] = p; rt.reset();
      const bad = (msg, x) => fail(`${k}: ${msg}`, { step: i, op: p, ...x });
      const cmp = (got, want) => { if (got !== want) bad('wrong value read', { got: got.toString(16), want: want.toString(16) }); };
      if (k === 'mstore_bytes32') { rt.fn('wrapper_mstore_bytes32', a, rt.be(b)); m.write(a, be32(b)); wr(a, 32); }
      else if (k === 'mstore_u256') { rt.fn('wrapper_mstore_u256', a, rt.le(b)); m.write(a, be32(b)); wr(a, 32); }
      else if (k === 'mstore_u32') { rt.fn('wrapper_mstore_u32', a, b); m.write(a, be32(BigInt(b >>> 0))); wr(a, 32); }
      else if (k === 'mstore_u64') { rt.fn('wrapper_mstore_u64', a, BigInt.asIntN(64, b)); m.write(a, be32(b)); wr(a, 32); }
      else if (k === 'mstore_u8') { rt.fn('wrapper_mstore_u8', a, b); m.write(a, Uint8Array.of(b)); wr(a, 1); }
      else if (k === 'mload_bytes32') { const r = rt.out(); rt.fn('wrapper_mload_bytes32', a, r); rd(a, 32); cmp(rt.rbe(r), fromBE(m.read(a, 32))); }
      else if (k === 'mload_u256') { const r = rt.out(); rt.fn('wrapper_mload_u256', a, r); rd(a, 32); cmp(rt.rle(r), fromBE(m.read(a, 32))); }
      else if (k === 'mload_u32') { const r = rt.fn('wrapper_mload_u32', a) >>> 0; rd(a, 32); cmp(BigInt(r), fromBE(m.read(a, 32)) & 0xffffffffn); }
      else if (k === 'mload_u64') { const r = BigInt.asUintN(64, rt.fn('wrapper_mload_u64', a)); rd(a, 32); cmp(r, BigInt.asUintN(64, fromBE(m.read(a, 32)))); }
      else if (k === 'mcopy') {
        rt.fn('wrapper_' + k, a, b, c); rd(b, c); m.write(a, m.read(b, c)); wr(a, c);
        if (c && Math.abs(a - b) < c) cls.add(a > b ? 'overlap forward' : 'overlap backward');
      } else if (k === 'const_copy') {
        // constants lie below the EVM memory: their offset is negative
        const src = rt.put(rt.alloc(b.length + 1), b) - rt.base();
        if (src < 0) { rt.fn('wrapper_data_copy', a, src, b.length); m.write(a, b); wr(a, b.length); }
      } else if (k === 'keccak256') { const r = rt.out(); rt.fn('wrapper_keccak256', a, b, r); rd(a, b); cmp(rt.rbe(r), fromBE(keccak256(m.read(a, b)))); }
      else if (k === 'calldata_copy') { rt.fn('wrapper_calldata_copy', a, b, c); const d = new Uint8Array(c); if (b < calldata.length) d.set(calldata.subarray(b, Math.min(b + c, calldata.length))); m.write(a, d); wr(a, c); }
      else if (k === 'alloca') {
        // Internal buffers past the preallocated ones share the address space with a grown EVM memory: see the known finding.
        if (allocs + a > 300) { h.exclude('more than 300 internal buffers'); return; }
        allocs += a;
        for (let j = 0; j < a; j++) { const q = rt.fn(j & 1 ? 'memory_alloca_bytes32' : 'memory_alloca_u256') >>> 0; rt.put(q, new Uint8Array(32).fill(0xee)); }
        cls.add('alloca');
      } else if (k === 'msize') { const g = rt.fn('wrapper_memory_size'); if (Number(g) !== m.msize()) bad('wrong memory size', { got: Number(g), want: m.msize() }); cls.add('msize'); }
    });
    if (m.top > 65536) cls.add('over one page');
    h.record({ layout, ops }, hit, [...cls]);
    // Everything ever touched, byte for byte.
    const n = m.top, got = n ? rt.get(rt.base(), n) : new Uint8Array();
    for (let i = 0; i < n; i++) if (got[i] !== m.b[i]) fail('memory differs from the byte array at the end of the history', { offset: i, got: hex(got.slice(i, i + 32)), want: hex(m.b.slice(i, i + 32)) });
  };
  for (const layout of LAYOUTS)
    await h.prop(layout, fc.record({ layout: fc.constant(layout), calldata: bytes(0, 160), ops: fc.array(op(LIMIT[layout]), { minLength: 1, maxLength: 40 }) }), run, { runs: h.n(4000) });
  await h.prop('guard', fc.tuple(fc.constantFrom(...LAYOUTS), fc.integer({ min: 0, max: 4096 }), fc.array(word, { minLength: 1, maxLength: 4 })), ([layout, n, ws]) => {
    h.record(['guard', layout, n, ws], n > 96, ['memoryguard']);
    const rt = new RT(layout), p = rt.fn('wrapper_memory_guard', n) >>> 0;
    if (p < n) fail('the memory handed out overlaps the guarded area', { guarded: n, start: p });
    ws.forEach((w, i) => rt.fn('wrapper_mstore_u256', p + 32 * i, rt.le(w)));
    ws.forEach((w, i) => { rt.reset(); const r = rt.out(); rt.fn('wrapper_mload_u256', p + 32 * i, r); if (rt.rle(r) !== w) fail('memory after the guarded area does not keep its value', { i }); });
  }, { runs: h.n(2000) });
}
