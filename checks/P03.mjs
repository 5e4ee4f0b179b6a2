// String literals decode to the text their escapes denote; data and object names and hex data come through unchanged.
import { fc, fail } from '../lib/harness.mjs';
import { front } from '../lib/front.mjs';
import { decodeString, partsSrc, partsVal, strParts } from '../lib/yulsyntax.mjs';
const bad = fc.oneof(
  fc.integer({ min: 0x80, max: 0xff }).map((n) => '\\x' + n.toString(16).toUpperCase()),
  fc.integer({ min: 0xd800, max: 0xdfff }).map((n) => `\\u{${n.toString(16).toUpperCase()}}`),
  fc.constant('\r'), fc.constantFrom('\\q', '\\', '\\x4', '\\xgg', '\\u{12}', '\\u1234', '\\xab', '\n', '\\0'),
);
export default async function (h) {
  h.build('front');
  h.rule('literals built from [source, denoted text] pairs over every escape form, gaps, Unicode and comment-like text, in expression, case, object-name position; non-trivial: holds an escape, a gap or a non-ASCII character. Undecodable: the same with one escape that denotes no character');
  const at = (s, where) => (where === 'expr' ? `object "o" { code { f(${s}) } }` : where === 'case' ? `object "o" { code { switch x case ${s} {} } }` : `object ${s} { code { } }`);
  const pick = (r, where) => { const o = JSON.parse(r.text); return where === 'expr' ? o[2][0][2][0][1] : where === 'case' ? o[2][0][2][0][1][1] : o[1]; };
  await h.prop('decode', fc.tuple(strParts(16), fc.constantFrom('expr', 'case', 'name')), async ([p, where]) => {
    const src = partsSrc(p), want = partsVal(p);
    if (decodeString(src) !== want) throw new Error('the generator and the reference decoder disagree: ' + src);
    h.record(where + src, /\\|[^ -~]/.test(src), [where, ...(/\\x/.test(src) ? ['hex'] : []), ...(/\\u/.test(src) ? ['unicode'] : []), ...(/\\\s/.test(src) ? ['gap'] : []), ...(/\\\\/.test(src) ? ['backslash'] : [])]);
    const r = await front('load', at(src, where));
    if (r.status !== 'ok') fail(`a well-formed literal is not accepted: ${r.status} ${r.text}`, { src });
    if (pick(r, where) !== want) fail('a string literal has the wrong value', { src, got: pick(r, where), want });
  }, { runs: h.n(12000), lanes: 4 });
  await h.prop('undecodable', fc.tuple(strParts(6), bad, strParts(6)), async ([a, x, b]) => {
    const src = '"' + partsSrc(a).slice(1, -1) + x + partsSrc(b).slice(1, -1) + '"';
    // When what follows completes the escape, the literal is well-formed after all.
    h.record('bad' + src, true, ['undecodable']);
    const r = await front('parse', at(src, 'expr'));
    if (r.status === 'panic' || r.status === 'crash') fail(`the reader crashed: ${r.text}`, { src });
    if (r.status === 'ok' && /Lexer error/.test(r.text)) fail('an undecodable literal got a made-up value', { src, got: r.text });
    if (r.status === 'ok' && (/^\\x[89A-F][0-9A-F]$|^\\u\{D/.test(x) || x === '\r')) fail('an undecodable escape was accepted', { src, got: r.text });
  }, { runs: h.n(3000), lanes: 4 });
  const hx = fc.array(fc.constantFrom(...'0123456789abcdefABCDEF'), { minLength: 1, maxLength: 64 }).map((x) => x.join(''));
  await h.prop('data', fc.tuple(fc.array(fc.constantFrom(...'abzAZ_019.'), { minLength: 1, maxLength: 12 }).map((x) => x.join('')), fc.array(hx, { maxLength: 3 })), async ([n, ds]) => {
    const src = `object "o" { code { } data "${n}" ${ds.map((d) => `hex"${d}"`).join(' ')} }`;
    h.record(src, ds.length > 0, ['data']);
    const r = await front('load', src);
    const want = JSON.stringify([['data', n, ds.map((d) => ['hexdata', d])]]);
    if (r.status !== 'ok' || JSON.stringify(JSON.parse(r.text)[3]) !== want) fail('a data segment is misread', { src, got: r.text, want });
  }, { runs: h.n(3000), lanes: 4 });
}
