// Exponentiation, sign extension and modular arithmetic of the C library agree with integer arithmetic.
import { fc, fail } from '../lib/harness.mjs';
import { RT, word } from '../lib/rt.mjs';
import { MASK, u256 } from '../lib/util.mjs';
export const powmod = (b, e) => { let r = 1n; b = u256(b); while (e) { if (e & 1n) r = (r * b) & MASK; b = (b * b) & MASK; e >>= 1n; } return r; };
export const signext = (k, x) => { if (k > 31) return x; const n = BigInt(8 * (k + 1)), m = (1n << n) - 1n; return (x >> (n - 1n)) & 1n ? u256(x | (MASK ^ m)) : x & m; };
export default async function (h) {
  h.build('rt');
  h.rule('operands from all word classes; sign extension at every byte position 0..31, 32 and above; exponents small, sparse and full width; modulus zero included; non-trivial: result not 0, 1 or an operand');
  const rt = new RT('big');
  const hx = (x) => x.toString(16);
  await h.prop('exp', fc.tuple(word, word), ([b, e]) => {
    const w = powmod(b, e), g = rt.pure('wrapper_exp', [['le', b], ['le', e], ['out-le']]).outs[0];
    h.record([b, e], w > 1n && w !== b, ['exp', e > 0xffffffffffffffffn ? 'wide exponent' : 'narrow exponent', ...(e === 0n ? ['exponent 0'] : [])]);
    if (g !== w) fail('exp is wrong', { b: hx(b), e: hx(e), got: hx(g), want: hx(w) });
  }, { runs: h.n(12000) });
  await h.prop('signextend', fc.tuple(fc.oneof({ weight: 5, arbitrary: fc.integer({ min: 0, max: 31 }) }, fc.constantFrom(7, 8, 15, 30, 31, 32, 33, 255, 256, 0x7fffffff), { weight: 1, arbitrary: fc.integer({ min: 32, max: 0x7fffffff }) }), word), ([k, x]) => {
    const w = signext(k, x), g = rt.pure('wrapper_sign_extend', [k, ['le', x], ['out-le']]).outs[0];
    h.record([k, x], w !== x, ['signextend', w > x ? 'fills with ones' : w < x ? 'clears' : 'unchanged']);
    if (g !== w) fail('signextend is wrong', { k, x: hx(x), got: hx(g), want: hx(w) });
  }, { runs: h.n(50000) });
  await h.prop('mod', fc.tuple(word, word, word), ([a, b, m]) => {
    h.record([a, b, m], m > 1n, ['mod', ...(m === 0n ? ['modulus 0'] : []), ...(a + b > MASK ? ['wide sum'] : [])]);
    for (const [n, w] of [['addmod', m ? (a + b) % m : 0n], ['mulmod', m ? (a * b) % m : 0n]]) {
      const g = rt.pure('wrapper_' + n, [['be', a], ['be', b], ['be', m], ['out-be']]).outs[0];
      if (g !== w) fail(`${n} is wrong`, { a: hx(a), b: hx(b), m: hx(m), got: hx(g), want: hx(w) });
    }
  }, { runs: h.n(20000) });
}
