// Yul concrete syntax: generated ASTs, a printer with arbitrary trivia, and a reference reader written
// from the Yul specification's grammar (the subset docs and grammar of the repository declare).
import { fc } from './harness.mjs';
import { NAMES, TEXTS } from './dict.mjs';
export const KEYWORDS = ['object', 'code', 'function', 'let', 'if', 'switch', 'case', 'default', 'for', 'leave', 'break', 'continue', 'true', 'false'];

// ---- string literals -------------------------------------------------------------------------
// An element of a literal: [source text, decoded text]
const plain = fc.constantFrom(...'abcXYZ019 _-+*/(){}[]:;,.<>|&^%$#@!~`?=\''.split('')).map((c) => [c, c]);
const uni = fc.constantFrom('é', 'ß', '漢', '😀', '\u00a0', '\u0300', '\t', '\u007f').map((c) => [c, c]);
const esc = fc.oneof(
  fc.constantFrom(['\\"', '"'], ['\\\\', '\\'], ['\\n', '\n'], ['\\t', '\t']),
  fc.integer({ min: 0, max: 0x7f }).map((n) => ['\\x' + n.toString(16).toUpperCase().padStart(2, '0'), String.fromCharCode(n)]),
  fc.integer({ min: 0, max: 0xffff }).filter((n) => n < 0xd800 || n > 0xdfff).map((n) => [`\\u{${n.toString(16).toUpperCase().padStart(4, '0')}}`, String.fromCharCode(n)]),
  fc.array(fc.constantFrom(' ', '\t', '\n', '\r', '\f'), { minLength: 1, maxLength: 4 }).map((w) => ['\\' + w.join('') + '\\', '']),
);
const hints = TEXTS.filter((t) => !t.includes('"'));
const commentish = fc.constantFrom(...hints, '//', '/*', '//', '/*', '*/', '//', '/*', '*/', '/**/', '///', "'", 'hex', '{', '}', 'https://x.y/*z*/').map((c) => [c, c]);
export const strParts = (max = 12) => fc.array(fc.oneof({ weight: 5, arbitrary: plain }, { weight: 3, arbitrary: esc }, { weight: 2, arbitrary: commentish }, { weight: 1, arbitrary: uni }), { maxLength: max });
export const partsSrc = (p) => '"' + p.map((x) => x[0]).join('') + '"';
export const partsVal = (p) => p.map((x) => x[1]).join('');

// ---- ASTs in the driver's dump format, plus ["str", value, type, source] while printing --------
const first = 'abcdefgxyzABZ_'.split(''), rest = 'abcxyzABZ_0189.$'.split('');
export const ident = fc.oneof(
  { weight: 6, arbitrary: fc.tuple(fc.constantFrom(...first), fc.array(fc.constantFrom(...rest), { maxLength: 8 })).map(([a, b]) => a + b.join('')) },
  { weight: 2, arbitrary: fc.constantFrom('add', 'mload', 'datasize', 'dataoffset', 'linkersymbol', 'abi_encode_tuple__to__fromStack', 'checked_add_t_uint256', 'x', 'usr$x', 'data', 'hex', 'u256', 'lets', 'iff', 'codes', 'objects', 'true_', 'casex') },
  { weight: 1, arbitrary: fc.constantFrom(...KEYWORDS).map((k) => k + '_1') },
  { weight: 1, arbitrary: fc.constantFrom(...NAMES, 'x').chain((n) => fc.constantFrom(n, n + '_1', n + '$', '_' + n)) },
  { weight: 1, arbitrary: fc.tuple(fc.constantFrom(...first), fc.array(fc.constantFrom(...rest), { maxLength: 300, size: 'max' })).map(([a, b]) => a + b.join('')) },
).filter((s) => !KEYWORDS.includes(s));
const otype = fc.option(ident, { freq: 5, nil: null }).map((x) => x);
const digits = (cs, max) => fc.array(fc.constantFrom(...cs.split('')), { minLength: 1, maxLength: max, size: 'max' }).map((d) => d.join(''));
const strLit = fc.tuple(strParts(8), otype).map(([p, t]) => ['str', partsVal(p), t, partsSrc(p)]);
export const literal = fc.oneof(
  fc.tuple(fc.constantFrom('true', 'false'), otype).map(([k, t]) => [k, t]),
  fc.tuple(digits('0123456789', 78), otype).map(([d, t]) => ['dec', d, t]),
  fc.tuple(digits('0123456789abcdefABCDEF', 64), otype).map(([d, t]) => ['hex', '0x' + d, t]),
  strLit,
);
const tid = fc.tuple(ident, otype).map(([i, t]) => ['id', i, t]);
// mostly short, seldom long
const list = (a, minLength, maxLength) => fc.oneof({ weight: 14, arbitrary: fc.array(a, { minLength, maxLength }) }, { weight: 1, arbitrary: fc.array(a, { minLength, maxLength: maxLength * 5 + 2, size: 'max', depthIdentifier: 'b' }) });
export const tree = fc.letrec((tie) => ({
  expr: fc.oneof({ depthSize: 'small', withCrossShrink: true }, ident.map((i) => ['var', i]), literal, tie('call')),
  call: fc.tuple(ident, list(tie('expr'), 0, 4)).map(([i, a]) => ['call', i, a]),
  block: fc.oneof({ weight: 20, arbitrary: fc.array(tie('stmt'), { maxLength: 4, depthIdentifier: 'b' }) }, { weight: 1, arbitrary: fc.array(tie('leaf'), { maxLength: 40, size: 'max' }) }),
  leaf: fc.oneof(
    fc.constantFrom(['leave'], ['break'], ['continue']),
    fc.tuple(list(ident, 1, 3), tie('expr')).map(([i, e]) => ['assign', i, e]),
    fc.tuple(list(tid, 1, 3), fc.option(tie('expr'), { nil: null })).map(([i, e]) => ['let', i, e]),
    tie('call'),
  ),
  stmt: fc.oneof(
    { depthSize: 'small', depthIdentifier: 'b', withCrossShrink: true },
    tie('leaf'),
    tie('block').map((b) => ['block', b]),
    fc.tuple(tie('expr'), tie('block')).map(([e, b]) => ['if', e, b]),
    fc.tuple(tie('block'), tie('expr'), tie('block'), tie('block')).map((x) => ['for', ...x]),
    fc.tuple(tie('expr'), list(fc.tuple(literal, tie('block')).map((x) => ['case', ...x]), 0, 3), fc.option(tie('block'), { nil: null })).map(([e, c, d]) => ['switch', e, c, c.length ? d : d ?? []]),
    fc.tuple(ident, list(tid, 0, 3), list(tid, 0, 3), tie('block')).map((x) => ['function', ...x]),
  ),
  data: fc.tuple(digits('abcXYZ_09.', 10), list(digits('0123456789abcdefABCDEF', 200).map((h) => ['hexdata', h]), 0, 3)).map(([n, d]) => ['data', n, d]),
  object: fc.tuple(strParts(6), tie('block'), fc.array(fc.oneof({ depthSize: 'small', depthIdentifier: 'o' }, tie('data'), tie('object')), { maxLength: 3, depthIdentifier: 'o' })).map(([n, b, s]) => ['object', partsVal(n), b, s, partsSrc(n)]),
}));
// The AST as the driver prints it (source texts of strings dropped).
export function canon(n) {
  if (!Array.isArray(n)) return n;
  if (n[0] === 'str' && n.length === 4) return ['str', n[1], n[2]];
  if (n[0] === 'object' && n.length === 5) return ['object', n[1], canon(n[2]), canon(n[3])];
  return n.map(canon);
}
// ---- printing to tokens ------------------------------------------------------------------------
export function tokens(n) {
  const o = [];
  const t = (...x) => o.push(...x);
  const ty = (x) => { if (x !== null) t(':', x); };
  const sep = (v, f) => v.forEach((x, i) => { if (i) t(','); f(x); });
  const idt = (x) => { t(x[1]); ty(x[2]); };
  const expr = (e) => {
    switch (e[0]) {
      case 'var': t(e[1]); break;
      case 'call': t(e[1], '('); sep(e[2], expr); t(')'); break;
      case 'true': case 'false': t(e[0]); ty(e[1]); break;
      case 'str': t(e[3] ?? quote(e[1])); ty(e[2]); break;
      default: t(e[1]); ty(e[2]);
    }
  };
  const block = (b) => { t('{'); b.forEach(stmt); t('}'); };
  const stmt = (s) => {
    switch (s[0]) {
      case 'assign': sep(s[1], (x) => t(x)); t(':='); expr(s[2]); break;
      case 'let': t('let'); sep(s[1], idt); if (s[2]) { t(':='); expr(s[2]); } break;
      case 'if': t('if'); expr(s[1]); block(s[2]); break;
      case 'for': t('for'); block(s[1]); expr(s[2]); block(s[3]); block(s[4]); break;
      case 'switch': t('switch'); expr(s[1]); for (const c of s[2]) { t('case'); expr(c[1]); block(c[2]); } if (s[3]) { t('default'); block(s[3]); } break;
      case 'block': block(s[1]); break;
      case 'function': t('function', s[1], '('); sep(s[2], idt); t(')'); if (s[3].length) { t('->'); sep(s[3], idt); } block(s[4]); break;
      case 'call': expr(s); break;
      default: t(s[0]);
    }
  };
  const object = (x) => {
    t('object', x[4] ?? quote(x[1]), '{', 'code'); block(x[2]);
    for (const s of x[3]) { if (s[0] === 'object') object(s); else { t(`data "${s[1]}"`); for (const d of s[2]) t(`hex"${d[1]}"`); } }
    t('}');
  };
  object(n);
  return o;
}
export const quote = (s) => '"' + [...s].map((c) => (c === '"' || c === '\\' ? '\\' + c : c === '\n' ? '\\n' : c)).join('') + '"';
const word = (c) => /[\w.$]/.test(c);
// gaps[i] is the trivia before token i; a separating blank is added where two tokens would run together.
export function print(toks, gaps) {
  let s = '', sepd = true;
  toks.forEach((t, i) => {
    let g = gaps.length ? gaps[i % gaps.length] : ' ';
    const last = s[s.length - 1] ?? ' ';
    const bare = g.replace(/\/\*[^]*?\*\/|\/\/[^\n]*\n/g, (m) => (m[1] === '/' ? '\n' : ''));
    if (bare === '' && ((word(last) && (word(t[0]) || t[0] === '"')) || (last === '"' && word(t[0])) || (last === ':' && t[0] === '=') || (last === '-' && t[0] === '>'))) g += ' ';
    s += g + t;
  });
  return s;
}
// Comments, as [source, what remains after removal].
const cchars = fc.constantFrom(...'ab *\'"/\\{}x*/'.split(''), '\t', 'é', '//', '/*', "don't", '@src 0:1:2 "ab"', '*', '**');
export const lineComment = fc.array(cchars, { maxLength: 8 }).map((x) => ['//' + x.join(''), '']);
export const blockComment = fc.array(fc.oneof({ weight: 6, arbitrary: cchars }, fc.constant('\n')), { maxLength: 8 }).map((x) => { let b = x.join(''); while (b.includes('*/')) b = b.replace('*/', '*'); return ['/*' + b + '*/', '']; });
const ws = fc.array(fc.constantFrom(' ', '\n', '\t', '\r\n', '  '), { minLength: 0, maxLength: 3 }).map((x) => x.join(''));
export const gap = fc.oneof({ weight: 6, arbitrary: ws }, { weight: 2, arbitrary: fc.tuple(ws, blockComment, ws).map(([a, c, b]) => a + c[0] + b) }, { weight: 2, arbitrary: fc.tuple(ws, lineComment, ws).map(([a, c, b]) => a + c[0] + '\n' + b) });
export const gaps = fc.array(gap, { minLength: 1, maxLength: 30 });

// ---- reference reader ----------------------------------------------------------------------------
class Reject extends Error {}
const STR = /"(?:\\(?:["\\nt]|x[0-9A-F]{2}|u\{[0-9A-F]{4}\}|[ \n\t\r\f]+\\)|[^"\n\\])*"/y;
const LEX = [
  ['str', STR], ['name', /[a-zA-Z_][a-zA-Z_0-9.$]*/y], ['hex', /0x[0-9a-fA-F]+/y], ['dec', /[0-9]+/y],
  ['hexdata', /hex"[0-9a-fA-F]+"/y], ['data', /data "[a-zA-Z_0-9.]+"/y], ['op', /:=|->|[{}(),:]/y],
];
const SPACE = /[\s\u0085]*/y;
export function lex(s) {
  const out = []; let i = 0;
  for (;;) {
    SPACE.lastIndex = i; SPACE.exec(s); i = SPACE.lastIndex;
    if (i >= s.length) return out;
    let best = null;
    for (const [k, r] of LEX) { r.lastIndex = i; const m = r.exec(s); if (m && m[0].length > (best ? best[1].length : 0)) best = [k, m[0]]; }
    if (!best) throw new Reject('lex at ' + i);
    if (best[0] === 'name' && KEYWORDS.includes(best[1])) best[0] = 'kw';
    out.push(best); i += best[1].length;
  }
}
export function decodeString(t) {
  const s = t.slice(1, -1); let o = '';
  for (let i = 0; i < s.length; i++) {
    const c = s[i];
    if (c === '\r') throw new Reject('raw CR');
    if (c !== '\\') { o += c; continue; }
    const d = s[++i];
    if (d === '"' || d === '\\') o += d; else if (d === 'n') o += '\n'; else if (d === 't') o += '\t';
    else if (d === 'x') { const v = parseInt(s.substr(i + 1, 2), 16); if (v > 0x7f) throw new Reject('\\x'); o += String.fromCharCode(v); i += 2; }
    else if (d === 'u') { const v = parseInt(s.substr(i + 2, 4), 16); if (v >= 0xd800 && v <= 0xdfff) throw new Reject('\\u'); o += String.fromCharCode(v); i += 6; }
    else { i = s.indexOf('\\', i); }
  }
  return o;
}
export function readObject(text) {
  try {
    const t = lex(text); let i = 0;
    const peek = (v, k) => t[i] && (k ? t[i][0] === k : t[i][1] === v && t[i][0] !== 'str' && t[i][0] !== 'name');
    const eat = (v) => { if (!peek(v)) throw new Reject(`expected ${v}`); i++; };
    const take = (k) => { if (!peek(null, k)) throw new Reject(`expected ${k}`); return t[i++][1]; };
    const ty = () => (peek(':') ? (i++, take('name')) : null);
    const idt = () => { const n = take('name'); return ['id', n, ty()]; };
    const many = (f) => { const v = [f()]; while (peek(',')) { i++; v.push(f()); } return v; };
    const lit = () => {
      if (peek('true')) { i++; return ['true', ty()]; } if (peek('false')) { i++; return ['false', ty()]; }
      for (const k of ['dec', 'hex']) if (peek(null, k)) { const x = take(k); return [k, x, ty()]; }
      if (peek(null, 'str')) { const x = decodeString(take('str')); return ['str', x, ty()]; }
      return null;
    };
    const call = (n) => { eat('('); const a = peek(')') ? [] : many(expr); eat(')'); return ['call', n, a]; };
    const expr = () => { const l = lit(); if (l) return l; const n = take('name'); return peek('(') ? call(n) : ['var', n]; };
    const block = () => { eat('{'); const b = []; while (!peek('}')) b.push(stmt()); i++; return b; };
    const stmt = () => {
      if (peek('{')) return ['block', block()];
      if (peek('function')) { i++; const n = take('name'); eat('('); const p = peek(')') ? [] : many(idt); eat(')'); let r = []; if (peek('->')) { i++; r = many(idt); } return ['function', n, p, r, block()]; }
      if (peek('let')) { i++; const v = many(idt); let e = null; if (peek(':=')) { i++; e = expr(); } return ['let', v, e]; }
      if (peek('if')) { i++; const e = expr(); return ['if', e, block()]; }
      if (peek('for')) { i++; const a = block(), c = expr(), p = block(); return ['for', a, c, p, block()]; }
      if (peek('switch')) {
        i++; const e = expr(), cs = []; let d = null;
        while (peek('case')) { i++; const l = lit(); if (!l) throw new Reject('case'); cs.push(['case', l, block()]); }
        if (peek('default')) { i++; d = block(); }
        if (!cs.length && !d) throw new Reject('switch');
        return ['switch', e, cs, d];
      }
      for (const k of ['leave', 'break', 'continue']) if (peek(k)) { i++; return [k]; }
      const n = take('name');
      if (peek('(')) return call(n);
      const v = [n]; while (peek(',')) { i++; v.push(take('name')); }
      eat(':='); return ['assign', v, expr()];
    };
    const object = () => {
      eat('object'); const n = decodeString(take('str')); eat('{'); eat('code'); const b = block(), s = [];
      for (;;) {
        if (peek('}')) break;
        if (peek(null, 'data')) { const x = take('data'), d = []; while (peek(null, 'hexdata')) d.push(['hexdata', take('hexdata').slice(4, -1)]); s.push(['data', x.slice(6, -1), d]); } else s.push(object());
      }
      i++; return ['object', n, b, s];
    };
    const r = object(); if (i !== t.length) throw new Reject('trailing');
    return r;
  } catch (e) { if (e instanceof Reject) return null; throw e; }
}
