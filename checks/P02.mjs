// The reader: print/read round trip of generated programs, and agreement with a reference reader on damaged ones.
import { fc, fail } from '../lib/harness.mjs';
import { front } from '../lib/front.mjs';
import { canon, gaps, print, readObject, tokens, tree } from '../lib/yulsyntax.mjs';
const size = (n) => (Array.isArray(n) ? 1 + n.reduce((a, x) => a + size(x), 0) : 0);
export default async function (h) {
  h.build('front');
  h.rule('ASTs of every statement, expression, literal, data and sub-object form, printed with arbitrary whitespace and comments, and token/character damage of such texts; non-trivial: AST of at least 8 nodes, or a damaged text that the reference reader rejects or reads differently from the original');
  await h.prop('roundtrip', fc.tuple(tree.object, gaps), async ([t, g]) => {
    const want = JSON.stringify(canon(t)), src = print(tokens(t), g);
    h.record(src, size(t) >= 8, ['roundtrip', ...new Set(want.match(/"(for|switch|function|if|data|object|assign|let|call|str|hexdata)"/g))]);
    const r = await front('load', src);
    if (r.status !== 'ok') fail(`a well-formed program is not accepted: ${r.status} ${r.text}`, { src });
    if (JSON.stringify(JSON.parse(r.text)) !== want) fail('the program read differs from the program written', { src, got: r.text, want });
  }, { runs: h.n(6000), lanes: 4 });
  // Damage: delete, duplicate, swap or replace tokens; or edit characters.
  const op = fc.tuple(fc.constantFrom('del', 'dup', 'swap', 'rep', 'ins', 'chr'), fc.nat(), fc.constantFrom('{', '}', '(', ')', ',', ':', ':=', '->', 'let', 'case', 'default', 'switch', 'for', 'if', 'function', 'leave', 'object', 'code', 'x', '1', '0x', '0xg', '0xAB', '1a', '"s"', '"', '"\\', '"\\x80"', '"\\q"', "'a'", 'data "d"', 'data  "d"', 'hex"00"', 'hex""', 'hex"0g"', 'true', '.', '$a', 'a.b', ';', '=', '-', '[', '+', '@', 'é'));
  await h.prop('damaged', fc.tuple(tree.object, fc.array(op, { minLength: 1, maxLength: 3 }), fc.boolean()), async ([t, ops, tight]) => {
    let k = tokens(t); const orig = canon(t);
    let src;
    for (const [o, n, x] of ops) {
      const i = n % k.length, j = (n >> 8) % k.length;
      if (o === 'del') k = k.filter((_, q) => q !== i);
      else if (o === 'dup') k = [...k.slice(0, i), k[i], ...k.slice(i)];
      else if (o === 'swap') [k[i], k[j]] = [k[j], k[i]];
      else if (o === 'rep') k[i] = x;
      else if (o === 'ins') k = [...k.slice(0, i), x, ...k.slice(i)];
      else k[i] = k[i].slice(0, j % (k[i].length + 1)) + x[0] + k[i].slice((j % (k[i].length + 1)) + 1);
      if (!k.length) k = ['{'];
    }
    src = k.join(tight ? '\n' : ' ');
    // A quote or slash out of place changes what a comment is; the reader proper is asked here.
    const want = readObject(src);
    const changed = want === null || JSON.stringify(want) !== JSON.stringify(orig);
    h.record('d' + src, changed, [want ? 'damaged-accepted' : 'damaged-rejected']);
    const r = await front('parse', src);
    if (r.status === 'panic' || r.status === 'crash') fail(`the reader crashed: ${r.text}`, { src });
    if ((r.status === 'ok') !== (want !== null)) fail(want ? `a well-formed program is rejected: ${r.text}` : 'an ill-formed program is accepted', { src, got: r.text });
    if (want && JSON.stringify(JSON.parse(r.text)) !== JSON.stringify(want)) fail('the program is misread', { src, got: r.text, want });
  }, { runs: h.n(8000), lanes: 4 });
}
