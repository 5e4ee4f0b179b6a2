// Conversions between big-endian words, native 256-bit integers and 32-bit integers are exact inverses.
import { fc, fail } from '../lib/harness.mjs';
import { RT, word } from '../lib/rt.mjs';
import { be32, fromBE } from '../lib/util.mjs';
export default async function (h) {
  h.build('rt');
  h.rule('words from all generator classes, all 32-bit integers incl. boundaries; every conversion compared with its definition, its inverse applied, neighbours unchanged; non-trivial: value not zero and not a palindrome of bytes');
  const rt = new RT('big');
  await h.prop('u256', word, (a) => {
    const r = be32(a), pal = fromBE(r.slice().reverse()) === a;
    h.record(a, !pal, pal ? ['palindrome'] : []);
    const want = (n, got) => { if (got !== a) fail(`${n} is not value-preserving`, { a: a.toString(16), got: got.toString(16) }); };
    want('from big-endian', rt.pure('u256_from_big_endian_bytes', [['be', a], ['out-le']]).outs[0]);
    want('to big-endian', rt.pure('u256_to_big_endian_bytes', [['le', a], ['out-be']]).outs[0]);
    want('decode big-endian', rt.pure('wrapper_decode_big_endian_i256_from_wasm_mem', [['be', a], ['out-le']]).outs[0]);
    const lo = Number(BigInt.asIntN(32, a)), got = rt.pure('i32_from_big_endian_bytes32', [['be', a]]).ret;
    if (got !== lo) fail('the low 32 bits of a word are misread', { a: a.toString(16), got, want: lo });
  }, { runs: h.n(60000) });
  await h.prop('i32', fc.oneof(fc.integer(), fc.constantFrom(0, 1, -1, 255, 256, 65535, 65536, 0x7fffffff, -0x80000000, 0x01020304)), (n) => {
    h.record(n, n !== 0, [n < 0 ? 'negative' : 'non-negative']);
    const w = rt.pure('i32_to_bytes32_big_endian_bytes', [n, ['out-be']]).outs[0];
    if (w !== BigInt(n >>> 0)) fail('a 32-bit integer is miswritten', { n, got: w.toString(16) });
    const back = rt.pure('i32_from_big_endian_bytes32', [['be', w]]).ret;
    if (back !== n) fail('a 32-bit integer does not survive the round trip', { n, back });
  }, { runs: h.n(30000) });
  await h.prop('zero', fc.array(word, { maxLength: 5 }), (ws) => {
    h.record(ws, ws.length > 0, ['zero word']);
    for (const w of ws) rt.pure('u256_to_big_endian_bytes', [['le', w], ['out-be']]);
    const z = rt.rbe(rt.fn('wrapper_zero_bytes32') >>> 0);
    if (z !== 0n) fail('the zero word is not zero', { got: z.toString(16) });
  }, { runs: h.n(500) });
}
