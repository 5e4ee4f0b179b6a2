// Compiling is a function of the tokens of the source and the options: same bytes each time, in any process, after any
// other compilation, in any layout.
import { fail } from '../lib/harness.mjs';
import { BUILDS } from '../lib/e2e.mjs';
import { LANES, yulcPool, compile } from '../lib/yulc.mjs';
import { Gen, Custom, source, valid, shrinkSection } from '../lib/yulprog.mjs';
import { names, NamedGen } from '../lib/yulnamed.mjs';
import { tree, print, shrTree } from '../lib/yultree.mjs';
import { relayout } from '../lib/layout.mjs';
import { Rng } from '../lib/yulprog.mjs';
import { ADDR } from '../lib/util.mjs';
import { createHash } from 'node:crypto';
const FEATURES = [['env', 'log'], ['log', 'calls'], ['env', 'calls', 'create', 'log', 'code', 'msize', 'bigloop']];
const ACCOUNTS = [0x1234n, 0x1111111111111111111111111111111111111111n];
// A generator of its own for what the layout picks, so that it can be replayed and shrunk with the program fixed.
const rng = (seed) => { let s = seed >>> 0; return new Rng({ nextInt: (a, b) => { s = (Math.imul(s, 1664525) + 1013904223) >>> 0; return a + (Math.floor((s / 4294967296) * (b - a + 1))); } }); };
const md5 = (b) => createHash('md5').update(b).digest('hex').slice(0, 12);
export default async function (h) {
  h.build('yulc');
  h.rule('contracts with 0..10 functions (twins among them), object trees with data and embedded contracts, and contracts with several linker symbols and immutables, compiled three times at the same options by different processes with other programs in between and in other layouts (white space, line ends, comments with any text); all outputs have the same bytes; non-trivial: the program has functions, data or names and is compiled');
  const gen = (R) => {
    const base = { funcs: [0, 10], stmts: [4, 14], depth: 2, nest: 2, accounts: ACCOUNTS, blocks: [1n], features: new Set(R.pick(FEATURES)) }, kind = R.weighted([[5, 'plain'], [3, 'tree'], [3, 'named']]);
    const c = { kind, opts: R.weighted([...BUILDS, ...(kind === 'tree' ? [] : [[2, { enable_all: true }], [1, { enable_all: true, le_storage: true }]])]), seeds: [R.int(1, 1 << 30), R.int(1, 1 << 30)] };
    if (kind === 'plain') Object.assign(c, { prog: new Gen(R, { ...base, fmp: !!c.opts.enable_all || R.p(0.4) }).program(), deploy: R.p(0.4) ? new Gen(R, { ...base, fmp: !!c.opts.enable_all }).program() : null });
    else if (kind === 'tree') c.tree = tree(R, 'C', 0, base);
    else { const imms = names(R, R.int(1, 6)), syms = names(R, R.int(1, 6), /=/), g = (deploying) => new NamedGen(R, { ...base, imms, syms, deploying, fmp: !!c.opts.enable_all }).program(); Object.assign(c, { prog: g(false), deploy: g(true) }); c.opts = { ...c.opts, symbols: Object.fromEntries(syms.map((s) => [s, '0x' + (R.word() & ADDR).toString(16).padStart(40, '0')])) }; }
    return c;
  };
  function* shr(c) {
    if (c.tree) { for (const t of shrTree(c.tree)) yield { ...c, tree: t }; return; }
    if (c.deploy) { yield { ...c, deploy: null }; for (const p of shrinkSection(c.deploy)) if (valid(p)) yield { ...c, deploy: p }; }
    for (const p of shrinkSection(c.prog)) if (valid(p)) yield { ...c, prog: p };
  }
  const text = (c) => (c.tree ? print(c.tree) : source(c.prog, c.deploy));
  let turn = 0;
  await h.prop('same bytes', new Custom(gen, shr, 60), async (c) => {
    const src = text(c), opts = c.opts, a = await compile(src, opts);
    if (a.status !== 'ok') fail(`a valid program is not compiled (${a.status})`, { message: a.message.slice(0, 800), opts, src });
    const other = c.seeds.map((s) => relayout(rng(s), src));
    for (const [what, s] of [['again', src], ['in another layout', other[0]], ['in another layout', other[1]]]) {
      const b = await compile(s, opts);
      if (b.status !== 'ok') fail(`a program is not compiled ${what} (${b.status})`, { message: b.message.slice(0, 800), opts, src: s });
      if (Buffer.compare(Buffer.from(a.wasm), Buffer.from(b.wasm))) fail(`compiling ${what} gives other bytes`, { first: [a.wasm.length, md5(a.wasm)], then: [b.wasm.length, md5(b.wasm)], opts, src, again: s });
    }
    const sections = c.tree ? [c.tree.prog] : [c.prog, c.deploy].filter(Boolean);
    h.record(src, c.kind !== 'plain' || sections.some((p) => p.funcs.length), [c.kind, `${a.wasm.length >> 12 << 2}K`]);
  }, { runs: h.n(220), lanes: LANES });
  yulcPool().stop();
}
