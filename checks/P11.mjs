// codecopy and codesize see the contract's code, followed during deployment by its arguments, then zeros.
import { fc, fail } from '../lib/harness.mjs';
import { RT, bytes, blob, size, LAYOUTS } from '../lib/rt.mjs';
import { hex } from '../lib/util.mjs';
const op = fc.oneof(
  fc.tuple(fc.constant('copy'), fc.integer({ min: 0, max: 3000 }), fc.oneof(fc.integer({ min: 0, max: 500 }), size(140000)), fc.oneof(fc.integer({ min: 0, max: 200 }), size(70000))),
  // relative to the end of the code, and to the end of the arguments
  fc.tuple(fc.constantFrom('code', 'args'), fc.integer({ min: 0, max: 300 }), fc.integer({ min: -40, max: 40 }), fc.oneof(fc.integer({ min: 0, max: 80 }), size(70000))),
  fc.tuple(fc.constant('exact'), fc.integer({ min: 0, max: 300 }), fc.integer({ min: 0, max: 40 })), // up to exactly the end of the code
  fc.tuple(fc.constant('allargs'), fc.integer({ min: 0, max: 300 })), // what a constructor does to read its arguments
  fc.tuple(fc.constantFrom('const', 'datacopy'), fc.integer({ min: 0, max: 300 }), fc.oneof({ weight: 3, arbitrary: bytes(0, 200) }, blob(70000))),
  fc.tuple(fc.constant('size')),
);
export default async function (h) {
  h.build('rt');
  h.rule('code and call data of 0..70000 bytes, mostly short, deploying or not; copies inside, ending at, across and past the end of the code and of the arguments, and from constant data; compared with the concatenation code ++ arguments ++ zeros; non-trivial: a copied byte is not zero');
  await h.prop('copies', fc.record({ layout: fc.constantFrom(...LAYOUTS), code: fc.oneof({ weight: 3, arbitrary: bytes(0, 300) }, blob(70000)), d: fc.oneof({ weight: 3, arbitrary: bytes(0, 200) }, blob(70000)), dep: fc.boolean(), ops: fc.array(op, { minLength: 1, maxLength: 10 }) }), ({ layout, code, d, dep, ops }) => {
    const rt = new RT(layout, { calldata: d, code });
    if (dep) rt.fn('set_is_deploying_tx');
    if (rt.fn('is_deploying_tx') !== (dep ? 1 : 0)) fail('the deployment flag is wrong', { dep });
    const all = dep ? Uint8Array.from([...code, ...d]) : code;
    const slice = (o, n) => { const r = new Uint8Array(n); if (o < all.length) r.set(all.subarray(o, Math.min(o + n, all.length))); return r; };
    let some = false; const cls = new Set([dep ? 'deploying' : 'called']);
    const check = (k, a, src, n, want, by = 'wrapper_codecopy') => {
      if (layout === 'small' && n > 9000) { n = 9000; want = want.slice(0, n); }
      const lo = Math.max(0, a - 16), m = a - lo + n + 16;
      rt.fn('evm_make_sure_memory', lo + m); rt.put(rt.base() + lo, new Uint8Array(m).fill(0xdd));
      rt.fn(by, a, src, n);
      const w = new Uint8Array(m).fill(0xdd); w.set(want, a - lo); const g = rt.get(rt.base() + lo, m);
      if (want.some((x) => x)) some = true;
      if (Buffer.compare(g, w)) fail(`${by.slice(8)} is wrong`, { kind: k, code: code.length, args: d.length, dep, src, n, first: g.findIndex((x, i) => x !== w[i]) - (a - lo), got: hex(g.slice(0, 300)), want: hex(w.slice(0, 300)) });
      if (src >= 0 && src < code.length && src + n > code.length) cls.add('across the end of the code');
      if (src >= 0 && src + n === code.length) cls.add('to the end of the code');
      if (dep && src >= code.length && src + n <= all.length && n) cls.add('arguments');
    };
    for (let [k, a, b, c] of ops) {
      rt.reset();
      if (k === 'size') {
        const g = rt.fn('wrapper_current_contract_code_size') >>> 0; if (g !== all.length) fail('codesize is wrong', { got: g, want: all.length, dep });
        const p = rt.fn('wrapper_current_contract_pure_contract_size') >>> 0; if (p !== code.length) fail('the size of the contract itself is wrong', { got: p, want: code.length, dep });
      } else if (k === 'const' || k === 'datacopy') { if (layout !== 'big') b = b.slice(0, 1500); if (b.length > 4096) cls.add('constant data over 4096 bytes'); const src = rt.put(rt.alloc(b.length + 1), b) - rt.base(); if (src < 0) check(k, a, src, b.length, b, k === 'const' ? 'wrapper_codecopy' : 'wrapper_data_copy'); }
      else if (k === 'copy') check(k, a, b, c, slice(b, c));
      else if (k === 'exact') { const n = Math.min(b, code.length); check(k, a, code.length - n, n, slice(code.length - n, n)); }
      else if (k === 'allargs') { const n = all.length - code.length; check(k, a, code.length, n, slice(code.length, n)); }
      else { const s = Math.max(0, (k === 'code' ? code.length : all.length) + b); check(k, a, s, c, slice(s, c)); }
    }
    h.record({ code, d, dep, ops }, some, [...cls]);
  }, { runs: h.n(14000) });
}
