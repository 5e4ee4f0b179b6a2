// The same tokens of a Yul source in another layout: white space, line ends and comments differ.
const TOKEN = /data "[^"]*"|hex"[^"]*"|"(?:[^"\\]|\\.)*"|[A-Za-z_$][\w.$]*|0x[0-9a-fA-F]+|\d+|:=|->|[^\s]/gs;
export const tokens = (src) => src.match(TOKEN);
const WORD = /[\w.$"]$/, START = /^[\w.$"]/;
const TEXT = ['', ' ', 'x', 'let y := 1', '{', '}', '@src 0:1:2  "a := b"', "it's", '/', '*', '**', '//', 'http://x', 'é中', '\t', '"', '""', 'function f() {', 'data ".metadata" hex"00"', '\\', '\\"'];
const comment = (R) => { const t = Array.from({ length: R.int(1, 3) }, () => R.pick(TEXT)).join(R.pick(['', ' '])); return R.p(0.5) ? `//${t.replaceAll('\n', ' ')}${R.pick(['\n', '\n', '\r\n'])}` : `/*${t.replaceAll('*/', '* /').replace(/\/$/, '/ ').replace(/^\//, ' /').replace(/\*$/, '* ')}${R.p(0.3) ? '\n' : ''}*/`; };
const space = (R) => R.pick([' ', ' ', ' ', '\n', '  ', '\t', '\r\n', '\n\n  ', ' \n']);
export function relayout(R, src) {
  const ts = tokens(src), style = R.int(0, 3); let out = '';
  ts.forEach((t, i) => {
    const need = i && WORD.test(ts[i - 1]) && START.test(t);
    const n = style === 0 ? 0 : style === 1 ? 1 : R.int(0, 2);
    let gap = Array.from({ length: n }, () => space(R)).join(''); if (need && !gap) gap = ' ';
    if (style !== 0 && R.p(style === 3 ? 0.15 : 0.03)) gap = (gap || ' ') + comment(R) + space(R) + (R.p(0.2) ? comment(R) + ' ' : '');
    out += gap + t;
  });
  return (R.p(0.2) ? comment(R) + '\n' : '') + out + R.pick(['', '\n', '\n\n', ' ']) + (R.p(0.2) ? comment(R) + '\n' : '');
}
