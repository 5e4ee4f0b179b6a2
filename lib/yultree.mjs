// Random trees of objects: contracts with data segments and embedded contracts in their constructor and runtime code.
import { Gen, section, valid, shrinkSection } from './yulprog.mjs';
import { hex } from './util.mjs';
export const MAGIC = 0x5eed0f9e3779b97f4a7c15f39cc0605cedc8341082276bf3a27251f86c6a11n << 8n;
const num = (v) => ['n', String(v), BigInt(v)], C = (f, ...a) => ['c', f, a], str = (s) => ['n', `"${s}"`, 0n, s];
const DN = ['.metadata', 'd', 'D', 'data', 'f', 'g', 'call', 'memory', 'runtime', 'x.y', 'C.x', 'D_deployed.d', '0', 'fun_a', 'Lib_12', 'main', 'deploy'], ON = ['D', 'E', 'Sub', 'Token_42', 'C_1', 'A', 'ERC20', 'D1', 'Dd', 'memory', 'c', 'E_deployed', 'Sub_deployed', 'D_1_deployed', '_deployed', 'deployed'];
// One object: {name, deploy, ddata, dsubs, prog, data, subs}; data: [[name, [[hex, bytes], ...]], ...]
export class TreeGen extends Gen {
  // o.here: {own, size: {data name: bytes}, subs: [names], deploying}
  program() { const p = super.program(), H = this.o.here; if (H.deploying && this.R.p(0.6)) p.body.unshift(...this.ctor()); return p; }
  names() { const H = this.o.here; return [...Object.keys(H.size), ...H.subs, ...(H.deploying ? [H.own + '_deployed'] : [])]; }
  sizeOf() { const R = this.R, H = this.o.here, ns = this.names(); return C('datasize', str(ns.length && R.p(0.8) ? R.pick(ns) : H.own)); }
  leaf(c) { return this.R.p(0.3) ? this.sizeOf() : super.leaf(c); }
  expr(c, d) { return this.R.p(0.05) ? this.sizeOf() : super.expr(c, d); }
  // arguments of the constructor are what follows the code
  ctor() {
    const R = this.R, H = this.o.here, o = this.base + 32 * R.int(0, 6), [a, b] = this.fresh([], 2), own = C('datasize', str(H.own));
    return [['block', [['let', [a], own], ['let', [b], C('sub', C('codesize'), R.p(0.7) ? ['v', a] : own)], ['do', C('codecopy', num(o), ['v', a], ['v', b])], ['do', C('sstore', num(R.int(50, 60)), ['v', b])], ['if', C('gt', ['v', b], num(31)), [['do', C('sstore', num(R.int(60, 70)), C('mload', num(o)))]]]]]];
  }
  stmt(c) {
    const R = this.R, H = this.o.here, ds = Object.keys(H.size), s1 = (k, e) => ['do', C('sstore', num(k), e)];
    if (R.p(c.loop ? 0.1 : 0.3)) {
      const ns = this.names(), k = R.int(0, 3);
      if (k === 0) return [s1(R.int(0, 40), this.sizeOf())];
      if (k === 1 && ds.length) { const n = R.pick(ds), len = H.size[n], at = R.int(0, len), m = R.p(0.5) ? len - at : R.int(0, len - at), o = C('dataoffset', str(n)); return [['do', C('datacopy', this.moff(c, 0), at ? C('add', ...(R.p(0.5) ? [o, num(at)] : [num(at), o])) : o, R.p(0.7) ? num(m) : C('sub', C('datasize', str(n)), num(len - m)))]]; }
      if (k === 2 && ns.length) { const n = R.pick(ns), t = this.fresh(c.vars, 1), v = R.p(0.5); return [...(v ? [['let', t, C('datasize', str(n))]] : []), ['do', C('datacopy', H.subs.includes(n) ? (R.p(0.5) ? num(1024) : this.moff(c, 0)) : this.moff(c, 0), C('dataoffset', str(n)), v ? ['v', t[0]] : C('datasize', str(n)))]]; }
      if (H.subs.length && c.depth < 2) return this.creation(c);
    }
    return super.stmt(c);
  }
  creation(c) {
    const R = this.R, n = R.pick(this.o.here.subs), [p, z, a] = this.fresh(c.vars, 3), two = R.p(0.4), args = R.int(0, 3), size = C('datasize', str(n));
    const put = Array.from({ length: args }, (_, i) => ['do', C('mstore', C('add', C('add', ['v', p], ['v', z]), num(32 * i)), this.expr(c, 1))]);
    const len = args ? C('add', ['v', z], num(32 * args)) : R.p(0.5) ? size : ['v', z];
    return [['let', [p], this.o.fmp && R.p(0.5) ? C('mload', num(64)) : num(R.pick([this.base, 160, 1024, 2048]))], ['let', [z], size], ['do', C('datacopy', ['v', p], C('dataoffset', str(n)), R.p(0.5) ? size : ['v', z])], ...put, ['let', [a], C(two ? 'create2' : 'create', this.expr(c, 0), ['v', p], len, ...(two ? [this.expr(c, 0)] : []))], ['do', C('sstore', num(R.int(20, 40)), ['v', a])]];
  }
}
// now and then more than a page, or than what the static memory of a small contract holds
const LARGE = (R, o) => { const n = R.pick(o.all ? [5000, 9000] : [4096, 16500, 33000, 65530, 65536, 70000]) + R.int(0, 9), s = R.int(1, 255), b = Uint8Array.from({ length: n }, (_, i) => (i * s + (i >> 8) * 7 + s) & 0xff); return [hex(b), b]; };
function piece(R, o) { if (R.p(o.large ?? 0)) return LARGE(R, o); const b = R.bytes(R.pick([1, 2, 3, 31, 32, 33, R.int(1, 80), 64, 300].slice(0, R.p(0.8) ? 7 : 9))); if (R.p(0.3)) b.fill(0, R.int(0, b.length - 1)); const x = hex(b); return [R.p(0.2) ? x.toUpperCase() : x, b]; }
const withPrefix = (b) => { const r = new Uint8Array(4 + b.length); new DataView(r.buffer).setUint32(0, b.length); r.set(b, 4); return r; };
export const bytesOf = (d) => withPrefix(Uint8Array.from(d[1].flatMap((x) => [...x[1]])));
const pickNames = (R, from, n, not) => { const s = new Set(); while (s.size < n) { const x = R.pick(from) + (R.p(0.3) ? R.int(0, 99) : ''); if (!not.has(x)) s.add(x); } return [...s]; };
export function tree(R, name, level, o) {
  // an object called *_deployed that is not the own one of its parent has runtime code alone
  const bare = name.endsWith('_deployed'), inner = name + (bare ? '' : '_deployed');
  const side = (deploying, want) => {
    const data = pickNames(R, DN, R.weighted([[2, 0], [3, 1], [2, 2], [1, 4]]), new Set([name, name + '_deployed'])).map((n) => [n, Array.from({ length: R.weighted([[5, 1], [2, 2], [1, 4]]) }, () => piece(R, o))]);
    // an object may bear the name of one it lies in, except the innermost
    const up = R.p(0.4) ? o.path ?? [] : [], subs = pickNames(R, up.length && R.p(0.8) ? up : o.all ? ON.filter((x) => !x.endsWith('_deployed')) : ON, want, new Set([name, name + '_deployed', ...data.map((d) => d[0])])).map((n) => tree(R, n, level + 1, { ...o, path: [...(o.path ?? []), name] }));
    const g = new TreeGen(R, { ...o, funcs: level ? [0, 2] : o.funcs, stmts: level ? [2, 8] : o.stmts, fmp: o.all || (!o.features.has('msize') && R.p(0.35)), here: { own: deploying ? name : inner, size: Object.fromEntries(data.map((d) => [d[0], bytesOf(d).length])), subs: subs.map((s) => s.name), deploying } });
    return [g.program(), data, subs, g.o.fmp];
  };
  const n = level === 0 ? R.weighted([[1, 0], [4, 1], [2, 2]]) : level === 1 ? R.weighted([[4, 0], [2, 1]]) : 0, up = !bare && R.p(0.3) ? n : 0;
  const [prog, data, subs, fmp] = side(false, n - up), ctor = !bare && (up || R.p(0.6)), [deploy, ddata, dsubs, dfmp] = ctor ? side(true, up) : [null, [], [], false];
  return { name, inner, deploy, ddata, dsubs, dfmp, prog, data, subs, fmp, first: R.p(0.3) };
}
const pieces = (ds, ind) => ds.map(([n, xs]) => `${ind}data "${n}" ${xs.map(([t]) => `hex"${t}"`).join(' ')}\n`).join('');
// code that hands out the bytes of the embedded objects when asked to
const probes = (p, subs) => ({ ...p, body: [...subs.map((s, k) => ['if', C('eq', C('calldataload', num(0)), ['n', '0x' + (MAGIC + BigInt(k)).toString(16), 0n]), [['do', C('datacopy', num(0), C('dataoffset', str(s.name)), C('datasize', str(s.name)))], ['do', C('return', num(0), C('datasize', str(s.name)))]]]), ...p.body] });
export const print = (o, ind = '') => {
  const bare = o.inner === o.name, i2 = ind + (bare ? '' : '  '), rest = `${i2}object "${o.inner}" {\n${i2}  code ${section(probes(o.prog, o.subs), i2 + '  ')}\n${pieces(o.data, i2 + '  ')}${o.subs.map((s) => print(s, i2 + '  ')).join('')}${i2}}\n`, mine = pieces(o.ddata, ind + '  ') + o.dsubs.map((s) => print(s, ind + '  ')).join('');
  return bare ? rest : `${ind}object "${o.name}" {\n${ind}  code ${o.deploy ? section(probes(o.deploy, o.dsubs), ind + '  ') : '{ }'}\n${o.first ? mine + rest : rest + mine}${ind}}\n`;
};
const used = (p) => { const s = new Set(); const go = (x) => { if (Array.isArray(x)) { if (x[0] === 'c' && (x[1] === 'datasize' || x[1] === 'dataoffset')) s.add(x[2][0]?.[3]); x.forEach(go); } }; go(p.body); go(p.funcs.map((f) => f.body)); return s; };
// places of data are used to copy from there alone
const placed = (p) => { let ok = true; const go = (x, at) => { if (!Array.isArray(x)) return; if (x[0] === 'c' && x[1] === 'dataoffset') { ok &&= at; return; } if (x[0] === 'c' && x[1] === 'datacopy') { const [d, s, n] = x[2]; go(d); go(n); if (s?.[0] === 'c' && s[1] === 'dataoffset') return; if (s?.[0] === 'c' && s[1] === 'add') s[2].forEach((y) => go(y, true)); else go(s); return; } x.forEach((y) => go(y)); }; go(p.body); go(p.funcs.map((f) => f.body)); return ok; };
const okSide = (p, ds, subs, own, more = []) => { const ns = new Set([own, ...ds.map((d) => d[0]), ...subs.map((s) => s.name), ...more]); return valid(p) && placed(p) && [...used(p)].every((n) => ns.has(n)); };
export function* shrTree(o) {
  for (const s of [...o.subs, ...o.dsubs]) if (s.inner !== s.name) yield s;
  for (const [p, d, s, f] of [['prog', 'data', 'subs', 'fmp'], ['deploy', 'ddata', 'dsubs', 'dfmp']]) {
    if (!o[p]) continue;
    const own = p === 'prog' ? o.inner : o.name, ok = (x) => okSide(x[p], x[d], x[s], own, p === 'prog' ? [] : [o.inner]);
    if (p === 'deploy' && !o.dsubs.length) yield { ...o, deploy: null, ddata: [] };
    for (let i = 0; i < o[s].length; i++) { const gone = { ...o, [s]: o[s].filter((_, j) => j !== i) }; if (ok(gone)) yield gone; }
    for (let i = 0; i < o[d].length; i++) { const cut = o[d][i][1].findIndex((x) => x[1].length > 600); if (cut >= 0) { const q = o[d][i][1][cut], k = 2 * (q[1].length >> 1), x = [q[0].slice(0, k), q[1].slice(0, k / 2)]; yield { ...o, [d]: o[d].map((y, n) => (n === i ? [y[0], y[1].map((z, m) => (m === cut ? x : z))] : y)) }; } const gone = { ...o, [d]: o[d].filter((_, j) => j !== i) }; if (ok(gone)) yield gone; for (let j = 0; j < o[d][i][1].length && o[d][i][1].length > 1; j++) { const x = { ...o, [d]: o[d].map((q, k) => (k === i ? [q[0], q[1].filter((_, m) => m !== j)] : q)) }; yield x; } }
    for (const q of shrinkSection(o[p])) { const x = { ...o, [p]: q }; if (ok(x)) yield x; }
    for (let i = 0; i < o[s].length; i++) for (const q of shrTree(o[s][i])) if (q.name === o[s][i].name) yield { ...o, [s]: o[s].map((y, j) => (j === i ? q : y)) };
  }
}
