// Linker symbols evaluate to the given addresses, and immutables read as what the deployment set, name by name.
import { fail } from '../lib/harness.mjs';
import { histories, check, BUILDS } from '../lib/e2e.mjs';
import { LANES, yulcPool, compile } from '../lib/yulc.mjs';
import { source } from '../lib/yulprog.mjs';
import { names, NamedGen } from '../lib/yulnamed.mjs';
import { ADDR } from '../lib/util.mjs';
const lit = (R, a) => { const x = a.toString(16), y = R.p(0.3) ? x : x.padStart(40, '0'); return R.pick(['0x', '0x', '0x', '']) + (R.p(0.3) ? y.toUpperCase() : R.p(0.2) ? [...y].map((d, i) => (i % 3 ? d : d.toUpperCase())).join('') : y); };
export default async function (h) {
  h.build('yulc');
  h.rule('contracts whose code uses 0..5 linker symbols and 0..5 immutables of similar names as operands, addresses, topics, arguments and variables, with a constructor that sets immutables from its input (some twice, some never), compiled with a table of addresses (upper or lower case, padded or not) at random options and run through deployment and 1..3 transactions; compared with the reference interpreter; non-trivial: a symbol is used or an immutable is set and read');
  const arb = histories({
    features: ['log', 'calls', 'env'], stmts: [5, 14], txs: [1, 3], imms: [], syms: [],
    make: (R, o) => { const imms = R.p(0.8) ? names(R, R.int(1, 5)) : [], syms = R.p(0.75) || !imms.length ? names(R, R.int(1, 5), /=/) : []; const g = (deploying) => new NamedGen(R, { ...o, imms, syms, deploying }).program(); return { prog: g(false), deploy: imms.length ? g(true) : null, symbols: Object.fromEntries(syms.map((s) => [s, R.word() & ADDR])), immutables: true }; },
    more: (R) => ({ opts: R.weighted(BUILDS) }),
  });
  await h.prop('history', arb, async (c) => {
    const R = { n: 0, p: (x) => ((h1(JSON.stringify(Object.keys(c.symbols)) + R.n++) % 1000) < x * 1000), pick: (xs) => xs[h1('p' + R.n++) % xs.length] };
    const table = Object.fromEntries(Object.entries(c.symbols).map(([k, v]) => [k, lit(R, v)]));
    await check(h, c, { ...c.opts, ...(Object.keys(table).length ? { symbols: table } : {}) }, { ref: { symbols: c.symbols }, nontrivial: (S, ref) => S.symbol || S.immutable });
  }, { runs: h.n(800), lanes: LANES });
  // one of the symbols is missing from the table
  await h.prop('unknown symbol', arb, async (c) => {
    const used = new Set(); const go = (x) => { if (Array.isArray(x)) { if (x[0] === 'c' && x[1] === 'linkersymbol') used.add(x[2][0][3]); x.forEach(go); } }; go(c.prog.body);
    if (!used.size) return;
    const gone = [...used][c.txs[0].calldata.length % used.size], syms = { ...c.symbols }; delete syms[gone];
    const table = Object.fromEntries(Object.entries(syms).map(([k, v]) => [k, '0x' + v.toString(16).padStart(40, '0')]));
    const src = source(c.prog, c.deploy), r = await compile(src, { opt_level: 'none', ...(Object.keys(table).length ? { symbols: table } : {}) });
    h.record([c.prog, gone], true, ['unknown symbol']);
    if (r.status === 'ok') fail('a program with an unknown linker symbol is compiled', { symbol: gone, src });
    await check(h, c, { opt_level: 'none', ignore_unknown: true, ...(Object.keys(table).length ? { symbols: table } : {}) }, { ref: { symbols: { ...syms, [gone]: ADDR } } });
  }, { runs: h.n(140), lanes: LANES });
  yulcPool().stop();
}
const h1 = (s) => { let x = 2166136261; for (const ch of s) x = Math.imul(x ^ ch.charCodeAt(0), 16777619) >>> 0; return x >>> 5; };
