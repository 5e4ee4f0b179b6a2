// 256-bit comparisons, bitwise operations, shifts and addition of the C library agree with integer arithmetic.
import { fc, fail } from '../lib/harness.mjs';
import { RT, word, pair } from '../lib/rt.mjs';
import { MASK, toS, u256 } from '../lib/util.mjs';
export default async function (h) {
  h.build('rt');
  h.rule('operand pairs from uniform, near powers of two, byte-pattern, near-equal and boundary words; shift counts 0..300 and large positive; each result compared with BigInt arithmetic, and operands and neighbouring memory must be unchanged; non-trivial: both operands non-zero');
  const rt = new RT('big');
  const cmp = { lt: (a, b) => a < b, gt: (a, b) => a > b, eq: (a, b) => a === b, slt: (a, b) => toS(a) < toS(b), sgt: (a, b) => toS(a) > toS(b) };
  const bit = { and: (a, b) => a & b, or: (a, b) => a | b, xor: (a, b) => a ^ b, add: (a, b) => u256(a + b) };
  await h.prop('binary', pair, ([a, b]) => {
    h.record([a, b], a !== 0n && b !== 0n, [a === b ? 'equal' : a >> 255n === b >> 255n ? 'same sign' : 'signs differ', ...(a + b > MASK ? ['carry out'] : [])]);
    for (const [n, f] of Object.entries(cmp)) {
      const { ret } = rt.pure(`wrapper_bytes32_${n}`, [['be', a], ['be', b]]);
      if (ret !== (f(a, b) ? 1 : 0)) fail(`${n} gives ${ret}`, { a: a.toString(16), b: b.toString(16) });
    }
    for (const [n, f] of Object.entries(bit)) {
      const { outs } = rt.pure(`wrapper_bytes32_${n}`, [['be', a], ['be', b], ['out-be']]);
      if (outs[0] !== f(a, b)) fail(`${n} gives ${outs[0].toString(16)}`, { a: a.toString(16), b: b.toString(16), want: f(a, b).toString(16) });
    }
  }, { runs: h.n(60000) });
  await h.prop('unary', word, (a) => {
    h.record(a, a !== 0n, ['unary']);
    const { outs } = rt.pure('wrapper_bytes32_not', [['be', a], ['out-be']]);
    if (outs[0] !== (a ^ MASK)) fail('not is wrong', { a: a.toString(16), got: outs[0].toString(16) });
    const { ret } = rt.pure('wrapper_bytes32_iszero', [['be', a]]);
    if (ret !== (a === 0n ? 1 : 0)) fail(`iszero gives ${ret}`, { a: a.toString(16) });
  }, { runs: h.n(40000) });
  const count = fc.oneof({ weight: 6, arbitrary: fc.integer({ min: 0, max: 270 }) }, { weight: 1, arbitrary: fc.constantFrom(255, 256, 257, 64, 65, 128, 192, 0x7fffffff, 0x10000, 512) }, { weight: 1, arbitrary: fc.integer({ min: 256, max: 0x7fffffff }) });
  await h.prop('shift', fc.tuple(word, count), ([a, n]) => {
    h.record([a, n], a !== 0n && n > 0 && n < 256, ['shift', n >= 256 ? '>=256' : n > 64 ? '65..255' : n > 32 ? '33..64' : '0..32', a < (1n << 32n) ? '32-bit value' : 'wide value']);
    const shl = n >= 256 ? 0n : u256(a << BigInt(n)), shr = n >= 256 ? 0n : a >> BigInt(n);
    for (const [f, x, want] of [['shl', 'be', shl], ['shr', 'be', shr]]) for (const [k, e] of [['bytes32', 'be'], ['u256', 'le']]) {
      const { outs } = rt.pure(`wrapper_${k}_${f}`, [[e, a], n, ['out-' + e]]);
      if (outs[0] !== want) fail(`${k} ${f} by ${n} gives ${outs[0].toString(16)}`, { a: a.toString(16), want: want.toString(16) });
    }
  }, { runs: h.n(60000) });
}
