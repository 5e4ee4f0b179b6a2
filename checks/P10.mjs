// Call data reads give the bytes of the call data, zero past its end, in any order and number of reads.
import { fc, fail } from '../lib/harness.mjs';
import { RT, bytes, blob, size, LAYOUTS } from '../lib/rt.mjs';
import { fromBE, hex } from '../lib/util.mjs';
const data = fc.oneof({ weight: 2, arbitrary: bytes(0, 40) }, { weight: 3, arbitrary: bytes(60, 140) }, fc.constantFrom(99, 100, 101, 3, 4, 5, 36, 68).chain((n) => bytes(n, n)), bytes(101, 600), blob(70000));
const off = fc.oneof({ weight: 5, arbitrary: fc.integer({ min: 0, max: 140 }) }, fc.integer({ min: 0, max: 700 }), size(70000), fc.constantFrom(0, 4, 36, 68, 100, 101), fc.integer({ min: 0, max: 0x7fffffff }), fc.constantFrom(0xffffffff, 0xffffffe0, 0xffffffdf, 0x80000000, 0x7fffffff).map((x) => x | 0));
const op = fc.oneof(
  fc.tuple(fc.constantFrom('u256', 'bytes32'), off), fc.tuple(fc.constantFrom('selector', 'size', 'minus4')),
  // near the end of the call data
  fc.tuple(fc.constantFrom('u256end', 'bytes32end'), fc.integer({ min: -40, max: 40 })),
  fc.tuple(fc.constant('copy'), fc.integer({ min: 0, max: 5000 }), off, fc.oneof({ weight: 3, arbitrary: fc.integer({ min: 0, max: 300 }) }, size(70000))),
  fc.tuple(fc.constant('copyend'), fc.integer({ min: 0, max: 300 }), fc.integer({ min: -60, max: 20 }), fc.oneof(fc.integer({ min: 0, max: 80 }), size(2000))),
);
export default async function (h) {
  h.build('rt');
  h.rule('call data of 0..70000 bytes around word, selector and cache-size boundaries; sequences of loads, copies and size queries at offsets inside, across and far past the end, compared with zero-extended slices; copy targets must keep their neighbours; non-trivial: a read that returns a non-zero byte');
  const run = ({ layout, d, ops }) => {
    const rt = new RT(layout, { calldata: d });
    const slice = (o, n) => { o >>>= 0; const r = new Uint8Array(n); if (o < d.length) r.set(d.subarray(o, Math.min(o + n, d.length))); return r; };
    let some = false; const cls = new Set([d.length > 100 ? 'long' : d.length < 4 ? 'shorter than a selector' : 'short']);
    for (let [k, a, b, c] of ops) {
      if (c > 9000 && layout === 'small') c = 9000;
      rt.reset();
      const end = k.endsWith('end'); if (end) { k = k.slice(0, -3); if (k === 'copy') b = Math.max(0, d.length + b); else a = Math.max(0, d.length + a); }
      if (k === 'u256' || k === 'bytes32') {
        const r = rt.out(), want = slice(a, 32); rt.fn('wrapper_calldataload_' + k, a, r);
        const got = k === 'u256' ? rt.rle(r) : rt.rbe(r);
        if (want.some((x) => x)) some = true;
        cls.add((a >>> 0) >= d.length ? 'past the end' : (a >>> 0) + 32 > d.length ? 'across the end' : 'inside');
        if (got !== fromBE(want)) fail(`calldataload (${k}) is wrong`, { size: d.length, offset: a >>> 0, got: got.toString(16), want: hex(want) });
      } else if (k === 'selector') {
        const g = rt.fn('wrapper_calldata_load_selector') >>> 0, w = Number(fromBE(slice(0, 4)));
        if (g !== w) fail('the selector is wrong', { size: d.length, got: g.toString(16), want: w.toString(16) });
      } else if (k === 'size') { const g = rt.fn('wrapper_calldata_size'); if (g !== d.length) fail('calldatasize is wrong', { got: g, want: d.length }); }
      else if (k === 'minus4') { const g = rt.fn('wrapper_calldata_size_minus_4'); if (g !== d.length - 4) fail('calldatasize minus 4 is wrong', { got: g, want: d.length - 4 }); }
      else {
        // surround the target with known bytes
        const lo = Math.max(0, a - 16), n = a - lo + c + 16;
        rt.fn('evm_make_sure_memory', lo + n);
        rt.put(rt.base() + lo, new Uint8Array(n).fill(0xdd));
        rt.fn('wrapper_calldata_copy', a, b, c);
        const want = new Uint8Array(n).fill(0xdd); want.set(slice(b, c), a - lo);
        const got = rt.get(rt.base() + lo, n);
        if (slice(b, c).some((x) => x)) some = true;
        cls.add((b >>> 0) >= d.length ? 'copy past the end' : (b >>> 0) + c > d.length ? 'copy across the end' : 'copy inside');
        if (Buffer.compare(got, want)) fail('calldatacopy is wrong', { size: d.length, target: a, offset: b >>> 0, length: c, first: got.findIndex((x, i) => x !== want[i]) - (a - lo), got: hex(got.slice(0, 300)), want: hex(want.slice(0, 300)) });
      }
    }
    h.record({ d, ops }, some, [...cls]);
  };
  await h.prop('reads', fc.record({ layout: fc.constantFrom(...LAYOUTS), d: data, ops: fc.array(op, { minLength: 1, maxLength: 12 }) }), run, { runs: h.n(16000) });
}
