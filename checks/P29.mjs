// The call data encoder of the examples against an encoder written from the ABI specification.
import { fail, fc } from '../lib/harness.mjs';
import { hex, selector } from '../lib/util.mjs';
import { run, stop, LANES } from '../lib/script.mjs';
const word = (v) => BigInt.asUintN(256, v).toString(16).padStart(64, '0');
const dynamic = (t) => t === 'string' || t.endsWith('[]');
const pad = (h) => h + '0'.repeat((64 - (h.length % 64)) % 64);
const canonical = (t) => t.replace(/^(u?int)(?=$|\[)/, '$1256');
function tuple(ts, vs) {
  let head = '', tail = '';
  ts.forEach((t, i) => { const e = encode1(t, vs[i]); if (dynamic(t)) { head += word(BigInt(32 * ts.length + tail.length / 2)); tail += e; } else head += e; });
  return head + tail;
}
function encode1(t, v) {
  if (t.endsWith('[]')) return word(BigInt(v.length)) + tuple(v.map(() => t.slice(0, -2)), v);
  if (t === 'string') { const b = Buffer.from(v); return word(BigInt(b.length)) + pad(b.toString('hex')); }
  if (t === 'bool') return word(v ? 1n : 0n);
  return word(v);
}
// An element of a type: [value, text]
const int = (bits, signed) => {
  const lo = signed ? -(1n << BigInt(bits - 1)) : 0n, hi = (1n << BigInt(signed ? bits - 1 : bits)) - 1n;
  return fc.tuple(fc.oneof({ weight: 3, arbitrary: fc.bigInt({ min: lo, max: hi }) }, { weight: 2, arbitrary: fc.constantFrom(lo, hi, lo + 1n, hi - 1n, 0n, 1n, signed ? -1n : 2n) }, { weight: 2, arbitrary: fc.bigInt({ min: signed ? -99n : 0n, max: 99n }) }), fc.constantFrom('', '', '', '0', '+'))
    .map(([v, z]) => [v, v >= 0n ? (z === '+' ? '+' : z) + v : String(v)]);
};
const address = fc.tuple(fc.oneof(fc.bigInt({ min: 0n, max: (1n << 160n) - 1n }), fc.constantFrom(0n, 1n, (1n << 160n) - 1n, 0xffn << 152n)), fc.constantFrom('0x', '0x', '0x', ''), fc.constantFrom('lower', 'lower', 'upper'))
  .map(([v, p, c]) => { const h = v.toString(16).padStart(40, '0'); return [v, p + (c === 'upper' ? h.toUpperCase() : h)]; });
const bool = fc.constantFrom([true, 'true'], [false, 'false'], [true, 'True'], [false, 'FALSE'], [true, 'TRUE'], [false, 'False']);
const string = (inArray) => fc.oneof(fc.string({ maxLength: 70 }), fc.string({ unit: 'grapheme', maxLength: 40 }), fc.nat(70).map((n) => 'x'.repeat(n)))
  .map((s) => s.replace(/\0/g, '').replace(/[\ud800-\udbff](?![\udc00-\udfff])|(?<![\ud800-\udbff])[\udc00-\udfff]/g, '?')).map((s) => (inArray ? s.replace(/,/g, ';').trim() : s)).map((s) => [s, s]);
const scalar = fc.oneof({ weight: 4, arbitrary: fc.tuple(fc.constantFrom('uint', 'int'), fc.oneof(fc.constantFrom(256, 256, 8, 128, 0), fc.integer({ min: 1, max: 32 }).map((n) => 8 * n))).map(([k, b]) => ({ t: k + (b || ''), arb: () => int(b || 256, k === 'int') })) },
  { weight: 2, arbitrary: fc.constant({ t: 'address', arb: () => address }) }, { weight: 1, arbitrary: fc.constant({ t: 'bool', arb: () => bool }) }, { weight: 2, arbitrary: fc.constant({ t: 'string', arb: string }) });
const param = fc.tuple(scalar, fc.integer({ min: 0, max: 9 })).chain(([s, k]) => (k < 3 ? fc.tuple(fc.array(s.arb(true), { minLength: 1, maxLength: 5 }), fc.constantFrom(',', ',', ', ', ' , ')).map(([xs, sep]) => ({ t: s.t + '[]', v: xs.map((x) => x[0]), text: xs.map((x) => x[1]).join(sep) })) : s.arb(false).map(([v, text]) => ({ t: s.t, v, text }))));
const name = fc.oneof(fc.constantFrom('f', 'transfer', 'balanceOf', 'swapExactTokensForTokens', '_', '$x', 'uint', 'A1'), fc.stringMatching(/^[a-zA-Z_$][a-zA-Z0-9_$]{0,20}$/));
export default async function (h) {
  h.rule('signatures of 0..6 parameters over all integer widths, address, bool, string and arrays of them, with boundary values and the spellings the command line takes; non-trivial: at least one parameter. Spoiled invocations: an argument missing, added, out of range or not of its type, a damaged signature');
  const S = 'examples/scripts/abi_encode.py';
  const call = (sig, texts) => run(S, texts.some((t) => t.startsWith('-')) ? ['--', sig, ...texts] : [sig, ...texts]);
  const enc = (n, ps) => `0x${selector(`${n}(${ps.map((p) => canonical(p.t)).join(',')})`).replace(/^0x/, '')}${tuple(ps.map((p) => p.t), ps.map((p) => p.v))}\n`;
  await h.prop('encoding', fc.record({ n: name, ps: fc.array(param, { maxLength: 6 }) }), async ({ n, ps }) => {
    const sig = `${n}(${ps.map((p) => p.t).join(',')})`, r = await call(sig, ps.map((p) => p.text)), want = enc(n, ps);
    const known = ps.some((p) => /^u?int\d*\[\]$/.test(p.t)) && r.code === 2 && r.out === '' && /Encoding error|conversion error/.test(r.err) ? 'arrays of integers (known finding)'
      : want !== r.out && ps.some((p) => /^u?int(\[\])?$/.test(p.t)) && r.out === `0x${selector(sig).replace(/^0x/, '')}${want.slice(10)}` ? 'selector of uint and int (known finding)' : null;
    if (known) { h.exclude(known); return; }
    if (r.code !== 0) fail('valid arguments are rejected', { sig, args: ps.map((p) => p.text), code: r.code, err: r.err.slice(-400) });
    if (r.out !== want) fail('the call data differs', { sig, args: ps.map((p) => p.text), got: r.out, want });
    h.record(sig + JSON.stringify(ps.map((p) => p.text)), ps.length > 0, [ps.some((p) => p.t.endsWith('[]')) ? 'with an array' : 'without arrays', ...new Set(ps.map((p) => p.t.replace(/\d+/, '')))]);
  }, { runs: h.n(2500), lanes: LANES });
  const bad = {
    'an argument missing': (n, ps, k) => [`${n}(${ps.map((p) => p.t)})`, ps.filter((_, i) => i !== k % ps.length).map((p) => p.text)],
    'an argument more': (n, ps) => [`${n}(${ps.map((p) => p.t)})`, [...ps.map((p) => p.text), '1']],
    'no closing bracket': (n, ps) => [`${n}(${ps.map((p) => p.t)}`, ps.map((p) => p.text)],
    'no opening bracket': (n, ps) => [`${n}${ps.map((p) => p.t)})`, ps.map((p) => p.text)],
    'unknown type': (n, ps, k) => [`${n}(${ps.map((p, i) => (i === k % ps.length ? ['uint7', 'uint264', 'adress', 'uint256x', '', 'int0', 'str'][k % 7] : p.t))})`, ps.map((p) => p.text)],
    'a value out of range': (n, ps, k) => { const i = ps.findIndex((p) => /^u?int\d*$/.test(p.t)); if (i < 0) return null; const b = BigInt(/\d+/.exec(ps[i].t)?.[0] ?? 256), u = ps[i].t[0] === 'u', v = u ? [1n << b, -1n, (1n << b) + 5n] : [1n << (b - 1n), -(1n << (b - 1n)) - 1n, 1n << b]; return [`${n}(${ps.map((p) => p.t)})`, ps.map((p, j) => (j === i ? String(v[k % 3]) : p.text))]; },
    'a text that is not a value of the type': (n, ps, k) => { const i = ps.findIndex((p) => !p.t.startsWith('string')); if (i < 0) return null; const e = ps[i].t.replace('[]', ''), bads = e === 'bool' ? ['1', '0', 'yes', '', 'tru', 'true '.repeat(2)] : e === 'address' ? ['0x12', '', '0x' + '1'.repeat(41), 'g'.repeat(40), '0x' + '1'.repeat(42), '1'.repeat(39)] : ['x', '', '1.5', '0x1g', '1e3', '--']; return [`${n}(${ps.map((p) => p.t)})`, ps.map((p, j) => (j === i ? bads[k % 6] : p.text))]; },
  };
  await h.prop('rejections', fc.record({ n: name, ps: fc.array(param, { minLength: 1, maxLength: 4 }), kind: fc.constantFrom(...Object.keys(bad)), k: fc.nat(1000) }), async ({ n, ps, kind, k }) => {
    const b = bad[kind](n, ps, k); if (!b) { h.exclude('no parameter to spoil'); return; }
    const [sig, args] = b, r = await call(sig, args);
    // Known: a text other than true for a bool counts as false, and a missing bracket costs the last character
    if (r.code === 0 && kind === 'no closing bracket') { h.exclude('no closing bracket (known finding)'); return; }
    if (r.code === 0 && kind.startsWith('a text') && ps.find((p) => !p.t.startsWith('string')).t.startsWith('bool')) {
      const i = ps.findIndex((p) => !p.t.startsWith('string')), as = ps.map((p, j) => (j === i ? { ...p, v: p.t === 'bool' ? false : [false] } : p));
      if ([enc(n, as), `0x${selector(sig).replace(/^0x/, '')}${enc(n, as).slice(10)}`].includes(r.out)) { h.exclude('text of a bool (known finding)'); return; }
    }
    if (r.code === 0 || /^0x/m.test(r.out)) fail(`call data for ${kind}`, { sig, args, out: r.out });
    h.record(sig + JSON.stringify(args), true, [kind]);
  }, { runs: h.n(1200), lanes: LANES });
  await h.finding('integer-arrays', async () => { const r = await call('f(uint256[])', ['1,2']); return r.code ? 'an array of integers is rejected' : null; });
  await h.finding('bool-text', async () => { const r = await call('f(bool)', ['yes']); return r.code ? null : 'a text other than true is the bool false'; });
  await h.finding('missing-bracket', async () => { const r = await call('f(uint160', ['1']); return r.code ? null : 'a signature without its closing bracket is encoded'; });
  await h.finding('alias-selector', async () => { const r = await call('f(uint)', ['1']); return r.out.startsWith(`0x${selector('f(uint)').replace(/^0x/, '')}`) ? 'the selector is not that of the canonical signature' : null; });
  stop();
}
