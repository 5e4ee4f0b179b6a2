// Internal buffers, the free memory pointer and EVM memory never overlap or lose their values.
import { fc, fail } from '../lib/harness.mjs';
import { RT, word, LAYOUTS } from '../lib/rt.mjs';
import { be32, fromBE, h64 } from '../lib/util.mjs';
export default async function (h) {
  h.build('rt');
  h.rule('histories of buffer requests (up to several thousand, past the preallocated ones), buffer writes, EVM memory writes and free-pointer operations in every layout; every buffer must stay disjoint from all others, from EVM memory and from other data, and keep its value; non-trivial: a buffer is checked after a later write elsewhere');
  const op = (lim) => fc.oneof(
    { weight: 3, arbitrary: fc.tuple(fc.constantFrom('b', 'u'), fc.oneof(fc.integer({ min: 1, max: 40 }), { weight: 1, arbitrary: fc.constantFrom(299, 300, 301, 350, 2047, 2048, 2049, 2500) })) },
    { weight: 3, arbitrary: fc.tuple(fc.constant('m'), fc.integer({ min: 0, max: lim - 32 }), word) }, { weight: 2, arbitrary: fc.tuple(fc.constant('w'), fc.nat(), word) },
    fc.tuple(fc.constant('zero')), fc.tuple(fc.constant('other'), word));
  for (const layout of LAYOUTS) await h.prop('buffers-' + layout, fc.array(op(layout === 'small' ? 16384 : 65536), { minLength: 2, maxLength: 20 }), (ops) => {
    const rt = new RT(layout), bufs = [], mem = new Map(); let nt = false; const cls = new Set([layout]);
    const lim = layout === 'small' ? 16384 : 65536, m0 = rt.base();
    for (const [k, a, b] of ops) {
      rt.reset();
      if (k === 'b' || k === 'u') for (let i = 0; i < a; i++) {
        const p = rt.fn(k === 'b' ? 'memory_alloca_bytes32' : 'memory_alloca_u256') >>> 0;
        if (p + 32 > rt.mem.buffer.byteLength) fail('a buffer lies outside memory', { p });
        if (p + 32 > m0 && p < m0 + lim) fail('a buffer lies inside EVM memory', { p, m0 });
        if (p + 32 > rt.s0 && p < rt.s0 + rt.sn) fail('a buffer lies inside other data', { p });
        const v = fromBE(be32(BigInt(bufs.length + 1) * 0x9e3779b97f4a7c15f39cc0605cedc8341082276bf3a27251f86c6a11d0c18e95n));
        rt.put(p, be32(v)); bufs.push([p, v]);
      }
      else if (k === 'm') { rt.fn('wrapper_mstore_bytes32', a, rt.be(b)); if (bufs.length) nt = true; be32(b).forEach((x, i) => mem.set(a + i, x)); }
      else if (k === 'w' && bufs.length) { const q = bufs[a % bufs.length]; q[1] = b; rt.put(q[0], be32(b)); nt = true; }
      else if (k === 'zero') { if (rt.rbe(rt.fn('wrapper_zero_bytes32') >>> 0) !== 0n) fail('the shared zero word was overwritten'); }
      else if (k === 'other') { rt.fn('wrapper_sstore_u256', rt.le(1n), rt.le(a)); if (rt.host.storage.get(h64(1n)) !== (a ? h64(a) : undefined)) fail('storage write lost'); }
    }
    const s = bufs.map((x) => x[0]).sort((x, y) => x - y);
    for (let i = 1; i < s.length; i++) if (s[i] - s[i - 1] < 32) fail('two buffers overlap', { a: s[i - 1], b: s[i], count: s.length });
    for (const [p, v] of bufs) if (rt.rbe(p) !== v) fail('a buffer lost its value', { p, got: h64(rt.rbe(p)), want: h64(v) });
    if (rt.base() !== m0) fail('EVM memory moved');
    const g = rt.u8(); for (const [o, x] of mem) if (g[m0 + o] !== x) fail('EVM memory lost a value', { offset: o });
    if (s.length > 300) cls.add('over 300 buffers'); if (s.length > 2348) cls.add('over one extra page');
    h.record([layout, ops], nt, [...cls]);
  }, { runs: h.n(700) });
  const sz = fc.oneof(fc.integer({ min: 0, max: 200 }), fc.constantFrom(0, 1, 31, 32, 33, 64, 0x40, 96), fc.integer({ min: 0, max: 100000 }));
  await h.prop('free-pointer', fc.tuple(fc.oneof(fc.integer({ min: 1, max: 40 }).map((n) => 32 * n), fc.integer({ min: 0, max: 5000 })), fc.array(fc.oneof({ weight: 4, arbitrary: fc.tuple(fc.constant('alloc'), sz) }, fc.tuple(fc.constant('set'), fc.integer({ min: 0, max: 100000 })), fc.tuple(fc.constant('get'))), { minLength: 1, maxLength: 12 })), ([start, ops]) => {
    const rt = new RT('small'); let p = start; rt.fn('wrapper_set_memptr_global', p); let nt = false;
    for (const [k, a] of ops) {
      if (k === 'set') { p = a; rt.fn('wrapper_set_memptr_global', a); }
      else if (k === 'alloc') { const g = rt.fn('wrapper_allocate_memory', a); if (g !== p) fail('an allocation does not start at the free memory pointer', { got: g, want: p, size: a }); p += Math.ceil(a / 32) * 32; nt = true; }
      const g = rt.fn('wrapper_get_memptr_global'); if (g !== p) fail('the free memory pointer is wrong', { after: k, arg: a, got: g, want: p });
    }
    h.record([start, ops], nt, [start % 32 ? 'unaligned start' : 'aligned start']);
  }, { runs: h.n(6000) });
  await h.finding('buffers-vs-grown-memory', () => {
    const rt = new RT('big'), ps = []; for (let i = 0; i < 301; i++) { const p = rt.fn('memory_alloca_bytes32') >>> 0; rt.put(p, be32(7n)); ps.push(p); }
    rt.fn('wrapper_mstore_bytes32', 65536, rt.be(0xffffn << 200n));
    return ps.every((p) => rt.rbe(p) === 7n) ? null : 'the 301st internal buffer is overwritten by a store to EVM memory beyond its first page';
  });
  await h.finding('small-layout-16k', () => {
    const rt = new RT('small'); rt.reset(); const all = new Uint8Array(rt.sn).fill(0x5a); rt.put(rt.s0, all);
    const ps = []; for (let i = 0; i < 300; i++) { const p = rt.fn('memory_alloca_bytes32') >>> 0; rt.put(p, be32(7n)); ps.push(p); }
    for (let o = 16384; o < 60000; o += 32) { const r = rt.call('wrapper_mstore_u32', o, -1); if (r.kind !== 'fallthrough') return null; }
    return ps.every((p) => rt.rbe(p) === 7n) && rt.get(rt.s0, rt.sn).every((x) => x === 0x5a) ? null : 'in the one-page layout EVM memory beyond 16 KB overlaps the other data of the contract';
  });
}
