// Comment removal: the program is the concatenation of pieces whose comment-free form is known by construction.
import { fc, fail } from '../lib/harness.mjs';
import { front } from '../lib/front.mjs';
import { blockComment, lineComment, partsSrc, strParts, tokens, tree, print, canon, gaps } from '../lib/yulsyntax.mjs';
const code = fc.array(fc.constantFrom('a', 'x1', ' ', '\n', '(', ')', '{', '}', ':=', ',', '0x1f', '->', '\t', '\r\n', 'é'), { minLength: 0, maxLength: 6 }).map((x) => [x.join(''), x.join('')]);
const piece = fc.oneof(
  { weight: 4, arbitrary: code.map((c) => ['code', ...c]) },
  { weight: 3, arbitrary: strParts(8).map((p) => ['string', partsSrc(p), partsSrc(p)]) },
  { weight: 3, arbitrary: blockComment.map((c) => ['block', ...c]) },
  { weight: 3, arbitrary: lineComment.map((c) => ['line', c[0] + '\n', '\n']) },
);
// The comment-free form of any text by the lexical rules, or null where a string literal is broken (a line end in it, or no end)
function scan(t) {
  let out = '', i = 0, strings = 0, comments = 0, slashes = 0;
  while (i < t.length) {
    const c = t[i];
    if (c === '"' || c === "'") {
      const q = i; let j = i + 1;
      for (;;) {
        if (j >= t.length || t[j] === '\n' || t[j] === '\r') return null;
        if (t[j] === c) break;
        if (t[j] !== '\\') { j++; continue; }
        if (j + 1 >= t.length) return null;
        if (/[ \n\t\r\f]/.test(t[j + 1])) { const e = t.indexOf('\\', j + 2); if (e < 0) return null; j = e + 1; } else j += 2;
      }
      out += t.slice(q, j + 1); i = j + 1; strings++; continue;
    }
    if (c === '/' && t[i + 1] === '/') { const e = t.indexOf('\n', i); i = e < 0 ? t.length : e; comments++; continue; }
    if (c === '/' && t[i + 1] === '*') { const e = t.indexOf('*/', i + 2); i = e < 0 ? t.length : e + 2; comments++; continue; }
    if (c === '/') slashes++;
    out += c; i++;
  }
  return { out, strings, comments, slashes };
}
export default async function (h) {
  h.build('front');
  h.rule('source text assembled from code, string literals (escapes, comment-like text inside), line comments and block comments (stars, quotes, nested openers, newlines), and arbitrary mixes of slashes, stars, quotes, backslashes, line ends and letters against a reference scanner; non-trivial: holds at least one comment and one other non-empty piece');
  await h.prop('pieces', fc.tuple(fc.array(piece, { maxLength: 14 }), fc.boolean()), async ([ps, tail]) => {
    let src = ps.map((p) => p[1]).join(''), want = ps.map((p) => p[2]).join('');
    if (tail && ps.length && ps.at(-1)[0] === 'line') { src = src.slice(0, -1); want = want.slice(0, -1); } // a line comment ended by the end of the file
    h.record(src, ps.some((p) => p[0] === 'line' || p[0] === 'block') && ps.some((p) => p[2].length > 1), ps.map((p) => p[0]));
    const r = await front('strip', src);
    if (r.status !== 'ok') fail(`comment removal ${r.status}: ${r.text}`, { src });
    if (r.text !== want) fail('comment removal changed the program', { src, got: r.text, want });
  }, { runs: h.n(12000), lanes: 4 });
  // any text at all, also where slashes and stars stand alone and comments never end
  const text = fc.array(fc.constantFrom('/', '/', '*', '"', "'", '\\', '\n', 'a', ' ', '//', '/*', '*/', '"x"', '\r\n', 'é', '0'), { minLength: 1, maxLength: 16 }).map((x) => x.join(''));
  await h.prop('text', text, async (src) => {
    const want = scan(src);
    if (!want) { h.exclude('broken string literal'); return; }
    h.record('t' + src, want.comments > 0 && want.out.length > 0, ['text', want.strings ? 'text with strings' : '', want.slashes ? 'text with lone slashes' : ''].filter(Boolean));
    const r = await front('strip', src);
    if (r.status !== 'ok') fail(`comment removal ${r.status}: ${r.text}`, { src });
    if (r.text !== want.out) fail('comment removal changed the text', { src, got: r.text, want: want.out });
  }, { runs: h.n(12000), lanes: 4 });
  await h.prop('idempotent', fc.array(piece, { maxLength: 14 }), async (ps) => {
    const want = ps.map((p) => p[2]).join('');
    h.record('i' + want, want.length > 2, ['idempotent']);
    const r = await front('strip', want);
    if (r.text !== want) fail('comment removal changed a program without comments', { want, got: r.text });
  }, { runs: h.n(3000), lanes: 4 });
  await h.prop('program', fc.tuple(tree.object, gaps), async ([t, g]) => {
    const toks = tokens(t), src = print(toks, g);
    h.record(src, /\/[/*]/.test(src), ['program']);
    const a = await front('load', src), b = await front('load', print(toks, [' ']));
    if (a.status !== b.status || (a.status === 'ok' && a.text !== b.text)) fail('a program reads differently with comments than without', { src, with: a.text, without: b.text });
  }, { runs: h.n(1500), lanes: 4 });
}
