// Type names on declarations, parameters, results and literals, as the typed form of Yul has them.
const WIDE = ['u256', 'uint256', 'bytes32', 'address'];
const NARROW = { bool: 1n, u8: 0xffn, u32: 0xffffffffn, u64: 0xffffffffffffffffn };
const MASKS = { u8: 0xffn, u32: 0xffffffffn, u64: 0xffffffffffffffffn };
const CMP = new Set(['lt', 'gt', 'slt', 'sgt', 'eq', 'iszero']);
const mix = (a, b) => { let x = Math.imul(a ^ (b * 0x9e3779b1), 0x85ebca6b) >>> 0; x ^= x >>> 13; x = Math.imul(x, 0xc2b2ae35) >>> 0; return (x ^ (x >>> 16)) >>> 0; };
const str = (s) => [...s].reduce((h, c) => mix(h, c.charCodeAt(0)), 7);
const walk = (x, f) => { if (Array.isArray(x)) { f(x); x.forEach((y) => walk(y, f)); } };
// whether an expression is certainly a value of a narrow type
const fits = (e, t) => (e[0] === 'n' ? e[2] <= NARROW[t] : e[0] === 'c' && (CMP.has(e[1]) || (t !== 'bool' && e[1] === 'and' && e[2].some((a) => a[0] === 'n' && a[2] <= NARROW[t]))));
const assigned = (f) => { const s = new Set(); walk(f.body, (x) => { if (x[0] === 'set' && Array.isArray(x[1])) x[1].forEach((n) => s.add(n)); }); return s; };
// Makes the arguments of some parameters narrow, so that a narrow type is right for them.
export function narrow(R, p) {
  const pick = new Map(); for (const f of p.funcs) f.params.forEach((_, i) => { if (R.p(0.3)) pick.set(f.name + ' ' + i, R.pick(Object.keys(NARROW))); });
  walk([p.body, p.funcs.map((f) => f.body)], (x) => {
    if (x[0] !== 'c' || !Array.isArray(x[2])) return;
    x[2].forEach((a, i) => { const t = pick.get(x[1] + ' ' + i); if (t && !fits(a, t)) x[2][i] = t === 'bool' ? ['c', 'iszero', [['c', 'iszero', [a]]]] : ['c', 'and', [a, ['n', '0x' + MASKS[t].toString(16), MASKS[t]]]]; });
  });
  return p;
}
// The program with type names; only for printing.
export function annotate(p, seed) {
  let n = 0; const rnd = (k) => mix(seed, n++) % k, wide = () => (rnd(3) ? ':' + WIDE[rnd(4)] : '');
  const calls = new Map(); walk([p.body, p.funcs.map((f) => f.body)], (x) => { if (x[0] === 'c' && Array.isArray(x[2])) (calls.get(x[1]) ?? calls.set(x[1], []).get(x[1])).push(x[2]); });
  const E = (e) => (e[0] === 'n' ? (rnd(4) ? e : ['n', e[1] + ':' + ['u256', 'uint256', 'bytes32', 'address'][rnd(4)], e[2]]) : e[0] === 'v' ? e : ['c', e[1], e[2].map((a) => (a[0] === 'n' && /^"/.test(a[1]) ? a : E(a)))]);
  const B = (b, set) => b.map((s) => S(s, set));
  const S = (s, set) => {
    switch (s[0]) {
      case 'let': {
        if (s[1].length === 1 && s[2] && !set.has(s[1][0])) { const ok = Object.keys(NARROW).filter((t) => fits(s[2], t)); if (ok.length && rnd(2)) return ['let', [s[1][0] + ':' + ok[rnd(ok.length)]], E(s[2])]; }
        return ['let', s[1].map((x) => x + wide()), s[2] && E(s[2])];
      }
      case 'set': return ['set', s[1], E(s[2])];
      case 'do': return ['do', E(s[1])];
      case 'if': return ['if', E(s[1]), B(s[2], set)];
      case 'switch': return ['switch', E(s[1]), s[2].map(([l, b]) => [E(l), B(b, set)]), s[3] && B(s[3], set)];
      case 'for': return ['for', B(s[1], set), E(s[2]), B(s[3], set), B(s[4], set)];
      case 'block': return ['block', B(s[1], set)];
      default: return s;
    }
  };
  const F = (f) => {
    const set = assigned(f);
    const params = f.params.map((x, i) => { const args = calls.get(f.name) ?? [], ok = set.has(x) ? [] : Object.keys(NARROW).filter((t) => args.every((a) => fits(a[i], t))); return x + (ok.length && rnd(3) ? ':' + ok[rnd(ok.length)] : wide()); });
    return { ...f, params, rets: f.rets.map((x) => x + wide()), body: B(f.body, set) };
  };
  return { body: B(p.body, assigned({ body: p.body })), funcs: p.funcs.map(F) };
}
