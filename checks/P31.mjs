// Programs that break one static rule of Yul are not compiled.
import { fail } from '../lib/harness.mjs';
import { BUILDS, ALL } from '../lib/e2e.mjs';
import { LANES, yulcPool, compile } from '../lib/yulc.mjs';
import { Gen, Custom, Rng, source, section, valid, shrinkSection } from '../lib/yulprog.mjs';
import { BUILTINS } from '../lib/yulref.mjs';
import { tokens } from '../lib/layout.mjs';
const NAMED = new Set(['linkersymbol', 'loadimmutable', 'setimmutable', 'dataoffset', 'datasize']);
const rng = (seed) => { let s = seed >>> 0; return new Rng({ nextInt: (a, b) => { s = (Math.imul(s, 1664525) + 1013904223) >>> 0; return a + Math.floor((s / 4294967296) * (b - a + 1)); } }); };
const clone = (x) => (Array.isArray(x) ? x.map(clone) : x && typeof x === 'object' ? Object.fromEntries(Object.entries(x).map(([k, v]) => [k, clone(v)])) : x);
const revertOnly = (f) => f.body.length === 1 && f.body[0][0] === 'do' && f.body[0][1][1] === 'revert';
// Every place of a section with what is visible there: values (with a setter), calls, blocks, statements.
function places(p) {
  const out = { values: [], calls: [], blocks: [], lets: [], sets: [], switches: [], statements: [] };
  const E = (e, put, sc, fn) => {
    if (e[0] !== 'c') { out.values.push({ e, put, sc: [...sc], fn }); return; }
    out.calls.push({ e, sc: [...sc], fn });
    if (put) out.values.push({ e, put, sc: [...sc], fn });
    if (!NAMED.has(e[1])) e[2].forEach((x, i) => E(x, (y) => { e[2][i] = y; }, sc, fn));
  };
  const B = (bl, sc, c) => { sc = [...sc]; const own = [...(c.own ?? [])]; out.blocks.push({ bl, sc, own, ...c }); for (const s of bl) S(s, sc, { ...c, own: undefined }, own, bl); };
  const S = (s, sc, c, own, bl) => {
    const put = (i) => (y) => { s[i] = y; };
    if (bl) out.statements.push({ s, bl, sc: [...sc], ...c });
    switch (s[0]) {
      case 'let': if (s[2]) { if (s[1].length === 1) E(s[2], put(2), sc, c.fn); else E(s[2], null, sc, c.fn); } out.lets.push({ s, sc: [...sc], fn: c.fn }); sc.push(...s[1]); own?.push(...s[1]); break;
      case 'set': if (s[1].length === 1) E(s[2], put(2), sc, c.fn); else E(s[2], null, sc, c.fn); out.sets.push({ s, sc: [...sc], fn: c.fn }); break;
      case 'do': E(s[1], null, sc, c.fn); break;
      case 'if': E(s[1], put(1), sc, c.fn); B(s[2], sc, c); break;
      case 'switch': E(s[1], put(1), sc, c.fn); if (s[2].length) out.switches.push(s); s[2].forEach((x) => B(x[1], sc, c)); if (s[3]) B(s[3], sc, c); break;
      case 'for': { const v = [...sc]; for (const x of s[1]) S(x, v, { ...c, loop: true }, null, null); E(s[2], put(2), v, c.fn); B(s[3], v, { ...c, loop: true }); B(s[4], v, { ...c, loop: true }); break; }
      case 'block': B(s[1], sc, c); break;
      default:
    }
  };
  B(p.body, [], { fn: null, loop: false, top: true });
  for (const f of p.funcs) if (!revertOnly(f)) B(f.body, [...f.params, ...f.rets], { fn: f.name, loop: false, own: [...f.params, ...f.rets] });
  return out;
}
const allVars = (p) => { const s = new Set(); const go = (x) => { if (Array.isArray(x)) { if (x[0] === 'let') x[1].forEach((n) => s.add(n)); x.forEach(go); } }; go(p.body); p.funcs.forEach((f) => { go(f.body); f.params.forEach((n) => s.add(n)); f.rets.forEach((n) => s.add(n)); }); return [...s]; };
// Each breaks one rule somewhere and says what it did, or gives nothing where the program has no place for it.
const BREAK = {
  'unknown variable': (R, p, q) => { if (!q.values.length) return; const x = R.pick(q.values), names = [...allVars(p), 'nowhere', 'f$', 'x_', ...p.funcs.map((f) => f.name), 'caller', 'add'].filter((n) => !x.sc.includes(n)); const n = R.pick(names); x.put(['v', n]); return n; },
  'assignment to an unknown variable': (R, p, q) => { const xs = q.sets; if (!xs.length) return; const x = R.pick(xs), n = R.pick([...allVars(p), 'nowhere', ...p.funcs.map((f) => f.name)].filter((m) => !x.sc.includes(m))); x.s[1] = x.s[1].map((m, i) => (i ? m : n)); return n; },
  'unknown function': (R, p, q) => { const x = R.pick(q.calls); x.e[1] = R.pick(['nowhere', x.e[1] + '_', x.e[1].toUpperCase() + '$', 'keccak', 'jump', ...x.sc.filter((n) => !p.funcs.some((f) => f.name === n))]); return x.e[1]; },
  'number of arguments': (R, p, q) => { const xs = q.calls.filter((x) => { const f = p.funcs.find((g) => g.name === x.e[1]); return !(f && revertOnly(f)) && x.e[1] !== 'memoryguard'; }); if (!xs.length) return; const { e } = R.pick(xs); if (e[2].length && R.p(0.5)) e[2].splice(R.int(0, e[2].length - 1), 1); else e[2].splice(NAMED.has(e[1]) ? e[2].length : R.int(0, e[2].length), 0, ['n', '1', 1n]); return e[1]; },
  'no value where one is needed': (R, p, q) => { const vs = p.funcs.filter((f) => !f.rets.length).map((f) => ['c', f.name, f.params.map(() => ['n', '0', 0n])]); const e = R.p(0.5) && vs.length ? R.pick(vs) : ['c', ...R.pick([['sstore', 2], ['mstore', 2], ['log0', 2], ['pop', 1], ['stop', 0], ['revert', 2], ['calldatacopy', 3], ['mcopy', 3], ['tstore', 2]]).map((x) => (typeof x === 'number' ? Array.from({ length: x }, () => ['n', '0', 0n]) : x))]; if (!q.values.length) return; R.pick(q.values).put(e); return e[1]; },
  'several values where one is needed': (R, p, q) => { const vs = p.funcs.filter((f) => f.rets.length > 1 && !revertOnly(f)); if (!vs.length || !q.values.length) return; const f = R.pick(vs); R.pick(q.values).put(['c', f.name, f.params.map(() => ['n', '0', 0n])]); return f.name; },
  'number of values of a declaration or an assignment': (R, p, q) => { const xs = [...q.lets, ...q.sets].filter((x) => x.s[2]?.[0] === 'c' && p.funcs.some((f) => f.name === x.s[2][1] && !revertOnly(f))); if (!xs.length) return; const { s, sc } = R.pick(xs); if (s[0] === 'let') { if (s[1].length > 1 && R.p(0.5)) s[1] = s[1].slice(0, -1); else s[1] = [...s[1], 'one_more']; } else if (s[1].length > 1 && R.p(0.5)) s[1] = s[1].slice(0, -1); else { const o = sc.filter((n) => !s[1].includes(n)); if (!o.length) return; s[1] = [...s[1], R.pick(o)]; } return s[1].length; },
  'variable declared twice': (R, p, q) => { const xs = q.blocks.flatMap((b) => [...b.bl.map((s, i) => [b, i, s]).filter((x) => x[2][0] === 'let').flatMap(([bb, i, s]) => s[1].map((n) => [bb.bl, i, n])), ...(b.fn && b.own ? b.own.slice(0, p.funcs.find((f) => f.name === b.fn).params.length + 3).map((n) => [b.bl, -1, n]) : [])]); if (!xs.length) return; const [bl, i, n] = R.pick(xs); if (i === -1 && bl.some((s) => ['leave', 'break', 'continue'].includes(s[0]))) return; bl.splice(R.int(i + 1, i + 1), 0, ['let', [n], ['n', '1', 1n]]); return n; },
  'function declared twice': (R, p) => { if (!p.funcs.length) return; const f = R.pick(p.funcs); p.funcs.splice(R.int(0, p.funcs.length), 0, R.p(0.5) ? clone(f) : { name: f.name, params: clone(f.params), rets: clone(f.rets), body: [['do', ['c', 'sstore', [['n', '0', 0n], ['n', '7', 7n]]]]] }); return f.name; },
  'parameter declared twice': (R, p) => { const fs = p.funcs.filter((f) => f.params.length + f.rets.length > 1 && !revertOnly(f)); if (!fs.length) return; const f = R.pick(fs), ns = [...f.params, ...f.rets], k = R.int(1, ns.length - 1); ns[k] = ns[R.int(0, k - 1)]; f.params = ns.slice(0, f.params.length); f.rets = ns.slice(f.params.length); return ns[k]; },
  'break or continue outside a loop': (R, p, q) => { const bs = q.blocks.filter((b) => !b.loop); const { bl } = R.pick(bs), w = R.pick(['break', 'continue']); bl.splice(R.int(0, bl.length), 0, R.p(0.5) ? [w] : ['if', ['c', 'caller', []], [[w]]]); return w; },
  'case given twice': (R, p, q) => { if (!q.switches.length) return; const s = R.pick(q.switches), [l] = R.pick(s[2]); s[2].splice(R.int(0, s[2].length), 0, [R.p(0.5) ? l : ['n', R.p(0.5) ? String(l[2]) : '0x' + (R.p(0.5) ? '00' : '') + l[2].toString(16), l[2]], [['do', ['c', 'sstore', [['n', '0', 0n], ['n', '7', 7n]]]]]]); return l[1]; },
  'literal of more than 256 bits': (R, p, q) => { const v = R.pick([1n << 256n, (1n << 256n) + BigInt(R.int(0, 300)), 1n << BigInt(R.int(256, 300)), 10n ** BigInt(R.int(78, 90))]), t = R.pick([String(v), '0x' + v.toString(16), `"${'abcdefgh'.repeat(R.int(4, 6)).slice(0, R.int(33, 40)).padEnd(33, 'z')}"`]); if (R.p(0.2) && q.switches.length) { R.pick(R.pick(q.switches)[2])[0] = ['n', t, v]; return t; } if (!q.values.length) return; R.pick(q.values).put(['n', t, v]); return t; },
  'unknown object or data': (R, p, q) => { if (!q.values.length) return; const n = R.pick(['nowhere', 'D', '', 'C_deployed_', 'C.C_deployed']); R.pick(q.values).put(['c', 'datasize', [['n', `"${n}"`, 0n, n]]]); return n; },
  'place of unknown data': (R, p, q) => { const { bl } = R.pick(q.blocks.filter((b) => !b.bl.some((s) => ['leave', 'break', 'continue'].includes(s[0])))); bl.unshift(['do', ['c', 'datacopy', [['n', '0', 0n], ['c', 'dataoffset', [['n', '"nowhere"', 0n, 'nowhere']]], ['n', '1', 1n]]]]); return 'nowhere'; },
  'unknown linker symbol': (R, p, q) => { if (!q.values.length) return; R.pick(q.values).put(['c', 'or', [['c', 'linkersymbol', [['n', '"a.sol:A"', 0n, 'a.sol:A']]], ['n', '0', 0n]]]); return 'a.sol:A'; },
};
const KINDS = Object.keys(BREAK);
export default async function (h) {
  h.build('yulc');
  h.rule(`contracts with 0..5 functions in which one rule is broken at a random place (${KINDS.join(', ')}, a bracket removed), at random options; none may give a module, while the program before the change is compiled; non-trivial: the change applied`);
  const gen = (R) => {
    const o = { funcs: [0, 5], stmts: [4, 12], depth: 2, nest: 3, accounts: [0x1234n], blocks: [1n], fmp: R.p(0.3), features: new Set(R.p(0.5) ? ALL : ['log']) };
    return { prog: new Gen(R, o).program(), deploy: R.p(0.3), opts: R.weighted([[12, { opt_level: 'none' }], ...BUILDS]), kind: R.pick([...KINDS, 'bracket']), seed: R.int(1, 1 << 30) };
  };
  function* shr(c) { for (const p of shrinkSection(c.prog)) if (valid(p)) yield { ...c, prog: p }; }
  await h.prop('one rule broken', new Custom(gen, shr, 60), async (c) => {
    const text = (p) => (c.deploy ? source({ funcs: [], body: [] }, p) : source(p, null)), R = rng(c.seed); let src, what;
    if (c.kind === 'bracket') { const ts = tokens(text(c.prog)), at = ts.map((t, i) => i).filter((i) => /^[(){}]$/.test(ts[i])), k = R.pick(at); what = `${ts[k]} no. ${k}`; ts.splice(k, 1); src = ts.join(' '); }
    else { const p = clone(c.prog); for (let i = 0; i < 3 && what === undefined; i++) what = BREAK[c.kind](R, p, places(p)); if (what === undefined) { h.exclude('no place for the change'); return; } src = text(p); }
    const r = await compile(src, c.opts);
    if (r.status === 'ok') {
      const good = await compile(text(c.prog), c.opts);
      fail(`an ill-formed program is compiled: ${c.kind} (${what})`, { opts: c.opts, src, wellFormed: good.status });
    }
    if (r.status === 'crash') fail(`the compiler crashes: ${c.kind} (${what})`, { message: r.message.slice(-400), opts: c.opts, src });
    h.record(src, true, [c.kind, r.status]);
    if (R.p(0.15)) { const good = await compile(text(c.prog), c.opts); if (good.status !== 'ok') fail(`a well-formed program is not compiled (${good.status})`, { message: good.message.slice(0, 800), opts: c.opts, src: text(c.prog) }); h.record(text(c.prog), true, ['well-formed']); }
  }, { runs: h.n(+process.env.RUNS || 3500), lanes: LANES });
  yulcPool().stop();
}
