// Robustness: any input text is accepted or rejected, never a crash; comment removal terminates on any text.
import { fc, fail } from '../lib/harness.mjs';
import { front } from '../lib/front.mjs';
import { gaps, print, tokens, tree } from '../lib/yulsyntax.mjs';
const frag = fc.constantFrom('object', '"', '""', '\\', '//', '/*', '*/', '*', '/', "'", '{', '}', '(', ')', 'code', 'data "', 'data ".metadata"', 'hex"', 'hex"00"', 'let', ':=', '0x', '0', '\n', ' ', '\r', '\0', 'é', '😀', '\ufeff', '\u2028', '\\u{D800}', '\\x80', '\\x4', '"\\', 'switch', 'case', 'for', 'function', '->', 'a', ':', ',');
export default async function (h) {
  h.build('front');
  h.rule('arbitrary Unicode, token soup, truncated or spliced valid programs, very long tokens and lists, and deep nesting; non-trivial: at least 4 characters');
  const run = async (src, cls) => {
    h.record(src.length > 4000 ? cls + src.length + src.slice(0, 400) : src, src.length >= 4, [cls]);
    for (const op of ['load', 'parse', 'strip']) {
      const r = await front(op, src);
      if (r.status === 'panic' || r.status === 'crash') fail(`${op}: the front end crashed: ${r.text}`, { src: src.slice(0, 2000) });
      if (op === 'strip' && r.status !== 'ok') fail(`comment removal failed: ${r.text}`, { src });
      h.classes[`${cls}:${r.status}`] = (h.classes[`${cls}:${r.status}`] || 0) + 1;
    }
  };
  await h.prop('text', fc.string({ unit: 'binary', maxLength: 300 }), async (s) => run(s, 'text'), { runs: h.n(1500), lanes: 4 });
  await h.prop('soup', fc.array(frag, { maxLength: 60 }).map((x) => x.join('')), async (s) => run(s, 'soup'), { runs: h.n(3000), lanes: 4 });
  await h.prop('cut', fc.tuple(tree.object, gaps, fc.nat(), fc.nat(), fc.array(frag, { maxLength: 3 })), async ([t, g, a, b, x]) => {
    const s = print(tokens(t), g); const c = Array.from(s); const i = a % (c.length + 1), j = b % (c.length + 1);
    await run(c.slice(0, i).join('') + x.join('') + c.slice(Math.max(i, j)).join(''), 'cut');
  }, { runs: h.n(2500), lanes: 4 });
  const len = fc.oneof(fc.integer({ min: 1, max: 400 }), fc.integer({ min: 1, max: 20000 })), long = {
    dec: (n, d) => `let x := ${d.repeat(n)}`, hex: (n, d) => `let x := 0x${d.repeat(n)}`, name: (n) => `let ${'a'.repeat(n)} := 1`, string: (n) => `f("${'é'.repeat(n)}")`, escapes: (n) => `f("${'\\\\'.repeat(n)}")`, gaps: (n) => `f("${'\\ \\'.repeat(n)}")`,
    comment: (n) => `/*${'*'.repeat(n)}/ stop()`, line: (n) => `//${'/'.repeat(n)}\nstop()`, open: (n) => `/*${' *'.repeat(n)}`, args: (n) => `f(${Array(n).fill('1').join(',')})`, lets: (n) => 'let x := 1 '.repeat(n), cases: (n) => 'switch 1 ' + 'case 1 {} '.repeat(n), rets: (n) => `function f() -> ${Array(n).fill('a').join(',')} {}`, data: (n, d) => `} data "${'a'.repeat(n % 500 + 1)}" hex"${d.repeat(n)}" object "b" { code {} `,
  };
  await h.prop('long', fc.tuple(fc.constantFrom(...Object.keys(long)), len, fc.constantFrom(...'0179')), async ([k, n, d]) => run(`object "a" { code { ${long[k](n, d)} } }`, 'long'), { runs: h.n(300), lanes: 4 });
  await h.prop('deep', fc.tuple(fc.integer({ min: 1, max: 3000 }), fc.constantFrom('{', 'f(', 'if 1 {', 'object "a" { code {} '), fc.boolean()), async ([n, o, close]) => {
    const c = o === 'f(' ? ')' : '}';
    await run((o[0] === 'o' ? '' : 'object "a" { code { ') + o.repeat(n) + (o === 'f(' ? '1' : '') + (close ? c.repeat(n) : '') + (o[0] === 'o' ? '' : '}}'), 'deep');
  }, { runs: h.n(60), lanes: 2 });
}
