// Persistent and transient storage keep the last value written per slot, in every representation used to reach them.
import { fc, fail } from '../lib/harness.mjs';
import { RT, word, LAYOUTS } from '../lib/rt.mjs';
import { be32, fromBE, h64, u256 } from '../lib/util.mjs';
const slots = fc.array(word, { minLength: 1, maxLength: 4 }).chain((s) => fc.constantFrom(
  s, [...s, ...s.map((x) => fromBE(be32(x).reverse()))], // byte-reversed twins catch a wrong byte order
  [...s, ...s.map((x) => u256(x + 1n))]));
const op = fc.tuple(fc.constantFrom('s256', 'sle', 's32', 't256', 't32', 'S256', 'Sle', 'S32', 'T256', 'T32'), fc.nat(15), word);
export default async function (h) {
  h.build('rt');
  h.rule('histories of 1..40 loads and stores over 1..8 slots (with byte-reversed and neighbouring twins) through the 256-bit, byte-string and little-endian entry points, against one map per kind of storage, whose final content must equal the chain state byte for byte; non-trivial: a load returns a value stored through another representation');
  const run = ({ layout, ss, init, ops }) => {
    const rt = new RT(layout), S = new Map(), T = new Map(), how = new Map();
    for (const [i, v] of init) { const k = ss[i % ss.length]; S.set(k, v); if (v) rt.host.storage.set(h64(k), h64(v)); else rt.host.storage.delete(h64(k)); how.set('S' + k, 'init'); }
    let cross = false; const cls = new Set();
    for (const [k, i, v] of ops) {
      rt.reset(); const s = ss[i % ss.length], M = k[0].toUpperCase() === 'S' ? S : T, key = k[0].toUpperCase() + s; cls.add(k);
      if (k[0] === k[0].toUpperCase()) { // store
        if (k === 'S256') rt.pure('wrapper_sstore_u256', [['le', s], ['le', v]]);
        else if (k === 'Sle') rt.pure('wrapper_sstore_u256_using_little_endian_hostapi', [['be', s], ['le', v]]);
        else if (k === 'S32') rt.pure('wrapper_sstore_bytes32', [['be', s], ['be', v]]);
        else if (k === 'T256') rt.pure('wrapper_tstore_u256', [['le', s], ['le', v]]);
        else rt.pure('wrapper_tstore_bytes32', [['be', s], ['be', v]]);
        M.set(s, v); how.set(key, k);
      } else {
        const f = { s256: ['wrapper_sload_u256', 'le'], sle: ['wrapper_sload_u256_using_little_endian_hostapi', 'le'], s32: ['wrapper_sload_bytes32', 'be'], t256: ['wrapper_tload_u256', 'le'], t32: ['wrapper_tload_bytes32', 'be'] }[k];
        const g = rt.pure(f[0], [['be', s], ['out-' + f[1]]]).outs[0], w = M.get(s) ?? 0n;
        if (how.has(key) && how.get(key).toLowerCase() !== k && w) cross = true;
        if (g !== w) fail(`${k}: a load does not give the last value stored`, { slot: h64(s), stored: how.get(key) ?? 'nothing', got: h64(g), want: h64(w) });
      }
    }
    for (const [name, M, H] of [['storage', S, rt.host.storage], ['transient storage', T, rt.host.tstorage]]) {
      const want = new Map([...M].filter(([, v]) => v).map(([k, v]) => [h64(k), h64(v)]));
      if (JSON.stringify([...want].sort()) !== JSON.stringify([...H].sort())) fail(`${name} of the chain differs from the history`, { got: [...H], want: [...want] });
    }
    h.record({ ss, init, ops }, cross, [...cls]);
  };
  await h.prop('history', fc.record({ layout: fc.constantFrom(...LAYOUTS), ss: slots, init: fc.array(fc.tuple(fc.nat(15), word), { maxLength: 3 }), ops: fc.array(op, { minLength: 1, maxLength: 40 }) }), run, { runs: h.n(9000) });
}
