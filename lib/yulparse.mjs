// Yul text to the AST of yulref.mjs, for hand-written templates.
export function parse(text) {
  const T = text.match(/"[^"]*"|[A-Za-z_$][\w$.]*|0x[0-9a-fA-F]+|\d+|:=|->|[{}(),]/g); let i = 0;
  const eat = (t) => { if (T[i] !== t) throw new Error(`expected ${t}, found ${T[i]} after ${T.slice(Math.max(0, i - 8), i).join(' ')}`); i++; };
  const list = () => { const xs = [T[i++]]; while (T[i] === ',') { i++; xs.push(T[i++]); } return xs; };
  const expr = () => {
    const t = T[i++];
    if (t === 'true' || t === 'false') return ['n', t, t === 'true' ? 1n : 0n];
    if (/^\d/.test(t)) return ['n', t, BigInt(t)];
    if (t[0] === '"') { const s = Buffer.from(t.slice(1, -1)); return ['n', t, BigInt('0x' + Buffer.concat([s, Buffer.alloc(32 - s.length)]).toString('hex'))]; }
    if (T[i] !== '(') return ['v', t];
    i++; const a = []; while (T[i] !== ')') { a.push(expr()); if (T[i] === ',') i++; } i++;
    return ['c', t, a];
  };
  const block = () => { eat('{'); const b = []; while (T[i] !== '}') b.push(stmt()); i++; return b; };
  const stmt = () => {
    switch (T[i]) {
      case 'let': { i++; const n = list(); if (T[i] !== ':=') return ['let', n, null]; i++; return ['let', n, expr()]; }
      case 'if': { i++; const e = expr(); return ['if', e, block()]; }
      case 'for': { i++; const a = block(), e = expr(), p = block(); return ['for', a, e, p, block()]; }
      case 'switch': { i++; const e = expr(), cs = []; while (T[i] === 'case') { i++; const l = expr(); cs.push([l, block()]); } let d = null; if (T[i] === 'default') { i++; d = block(); } return ['switch', e, cs, d]; }
      case 'leave': case 'break': case 'continue': return [T[i++]];
      case '{': return ['block', block()];
      case 'function': throw new Error('a function inside a block');
    }
    if (T[i + 1] === '(') return ['do', expr()];
    const n = list(); eat(':='); return ['set', n, expr()];
  };
  const funcs = [], body = [];
  while (i < T.length) {
    if (T[i] !== 'function') { body.push(stmt()); continue; }
    i++; const name = T[i++]; eat('('); const params = T[i] === ')' ? [] : list(); eat(')');
    let rets = []; if (T[i] === '->') { i++; rets = list(); }
    funcs.push({ name, params, rets, body: block() });
  }
  return { funcs, body };
}
