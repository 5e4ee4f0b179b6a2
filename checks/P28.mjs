// The command line tool: it writes the module that was asked for and its deployable images, or fails and writes nothing.
import fs from 'node:fs';
import os from 'node:os';
import path from 'node:path';
import { execFile } from 'node:child_process';
import { fail, BUILD } from '../lib/harness.mjs';
import { histories, reference, compareModule, key } from '../lib/e2e.mjs';
import { LANES, yulcPool, compile } from '../lib/yulc.mjs';
import { Gen, Custom, Rng, source, section, valid, shrinkSection } from '../lib/yulprog.mjs';
import { names, NamedGen } from '../lib/yulnamed.mjs';
import { ADDR, hex } from '../lib/util.mjs';
import { relayout } from '../lib/layout.mjs';
const FLAG = { debug: '--debug', minify: '--minify-wasm-size', disable_all: '--disable-all-optimizers', enable_all: '--enable-all-optimizers', le_storage: '--enable-little-endian-storage-load-store', ignore_unknown: '--ignore-unknown-linker-library' };
const args = (o) => Object.entries(o).flatMap(([k, v]) => (k === 'opt_level' ? ['--opt-level', v] : k === 'ret' ? [`--default_ret_type=${v}`] : k === 'main' ? ['--main-contract', v] : k === 'symbols' ? Object.entries(v).map(([p, a]) => `--symbol=${p}=${a}`) : v ? [FLAG[k]] : []));
const tool = (argv, cwd) => new Promise((res) => { execFile(path.join(BUILD, 'target/release/yul2wasm'), argv, { cwd, env: { ...process.env, CHAIN_IR_CLANG_RT_LIB_DIR: path.join(BUILD, 'rt'), RUST_BACKTRACE: '0' }, timeout: 120000, maxBuffer: 1 << 26 }, (e, out, err) => res({ code: e ? (typeof e.code === 'number' ? e.code : e.signal || 'error') : 0, out: String(out), err: String(err) })); });
const stemOf = (f) => { const d = path.dirname(f), b = path.basename(f), i = b.lastIndexOf('.'); return path.join(d, i > 0 ? b.slice(0, i) : b); };
const files = (dir) => fs.readdirSync(dir, { recursive: true, withFileTypes: true }).filter((e) => e.isFile()).map((e) => path.relative(dir, path.join(e.parentPath ?? e.path, e.name))).sort();
const OUTS = ['x.wasm', 'x.wasm', 'out/x.wasm', 'a/b/c/My Token.wasm', 'x', 'v1.2.wasm', 'x.out.wasm', './x.wasm', 'sub/../y.wasm', 'ü.wasm', 'x.WASM'];
const SETS = [[6, { opt_level: 'none' }], [3, {}], [2, { opt_level: 'less' }], [2, { opt_level: 'default' }], [2, { opt_level: 'aggressive' }], [2, { debug: true }], [2, { minify: true }], [2, { minify: true, opt_level: 'none' }], [2, { disable_all: true }], [2, { disable_all: true, opt_level: 'none' }], [2, { le_storage: true, opt_level: 'none' }], [2, { ret: 'bytes32', opt_level: 'none' }], [1, { ret: 'u256', opt_level: 'less' }], [2, { enable_all: true }], [1, { ret: 'bytes32', le_storage: true }]];
export default async function (h) {
  h.build('yulc', 'cli');
  h.rule('generated contracts (some with linker symbols, embedded contracts or up to 140000 bytes of constant data, in several layouts) compiled by the command line tool in a scratch directory under generated options, tables of symbols, output names and directories, over outputs of an earlier run; the files are compared with each other and with the library, and the module runs 1..2 transactions against the reference; non-trivial: it has an effect or more than default options. Failures: a missing, unreadable, ill-formed or cut input, wrong options, unwritable outputs (/dev/full, a directory, a file as directory)');
  const dir = fs.mkdtempSync(path.join(os.tmpdir(), 'p28-')); let k = 0;
  const scratch = () => { const d = path.join(dir, String(k++)); fs.mkdirSync(d); return d; };
  const arb = histories({
    features: ['log', 'calls', 'env'], stmts: [4, 12], funcs: [0, 3], txs: [1, 2], deploy: 0.3, syms: [], imms: [],
    make: (R, o) => {
      const syms = R.p(0.5) ? names(R, R.int(1, 4), /=/) : [], flags = { ...R.weighted(SETS) };
      const g = () => (syms.length ? new NamedGen(R, { ...o, syms, imms: [], fmp: !!flags.enable_all }) : new Gen(R, { ...o, fmp: !!flags.enable_all })).program();
      return { prog: g(), deploy: R.p(0.3) ? g() : null, symbols: Object.fromEntries(syms.map((s) => [s, R.word() & ADDR])), flags, main: R.p(0.15) ? R.pick(['M', 'other', 'C_deployed']) : null,
        sub: !syms.length && !flags.enable_all && R.p(0.25) ? { name: R.pick(['Sub', 'D_1', 'C2']), prog: new Gen(R, { ...o, features: new Set(['log']), stmts: [2, 5], funcs: [0, 1] }).program() } : null };
    },
    more: (R) => ({ out: R.pick(OUTS), input: R.pick(['in.yul', 'in.yul', 'src/C.yul', 'a b.yul', 'noext']), abs: R.p(0.5), stale: R.pick([null, null, '', 'stale', 'x'.repeat(400000)]), seed: R.int(0, 1 << 30), layout: R.p(0.3), order: R.int(0, 5), twice: R.p(0.2), verbose: R.p(0.1), big: R.p(0.08) ? R.pick([60000, 64000, 65535, 70000, 131072, R.int(30000, 140000)]) : 0 }),
  });
  const text = (c) => {
    let s = source(c.prog, c.deploy);
    // constant data makes a large module, here in a branch that is never taken
    if (c.big) s = s.replace(/(object "C_deployed" \{\s*code \{)/, (x) => `${x} if eq(chainid(), 0xabcdef0123456789abcdef) { datacopy(0, dataoffset("big"), datasize("big")) }`).replace(/\}\s*\}\s*$/, `data "big" hex"${hex(Uint8Array.from({ length: c.big }, (_, i) => (i * 7 + (i >> 8)) & 255))}"\n}\n}\n`);
    // an embedded contract that the constructor's object holds next to the runtime
    if (c.sub) { const inner = source(c.sub.prog, null, c.sub.name); s = s.replace(/\}\s*$/, inner + '\n}\n'); }
    return s;
  };
  try {
    await h.prop('artefacts', arb, async (c) => {
      const ref = reference(h, c, { ref: { symbols: c.symbols } }); if (!ref) return;
      let src = text(c); if (c.layout) src = relayout(rng(c.seed), src);
      const d = scratch(), inp = path.join(d, c.input), out = path.join(d, c.out), opts = { ...c.flags, ...(c.main ? { main: c.main } : {}) };
      const table = Object.fromEntries(Object.entries(c.symbols).map(([n, v], i) => [n, (i % 2 ? '0x' : '') + v.toString(16).padStart(40, '0')]));
      fs.mkdirSync(path.dirname(inp), { recursive: true }); fs.writeFileSync(inp, src);
      const stem = stemOf(out), all = [out, stem + '.cbin', stem + '.cbin.hex'];
      if (c.stale !== null) { fs.mkdirSync(path.dirname(out), { recursive: true }); for (const f of all) fs.writeFileSync(f, c.stale); }
      if (c.out.startsWith('sub/') && c.stale === null) fs.mkdirSync(path.join(d, 'sub'));
      let flags = [['--input', c.abs ? inp : c.input], [c.order % 2 ? '--output=' + (c.abs ? out : c.out) : ['--output', c.abs ? out : c.out]].flat(), ...args(opts).reduce((a, x) => { if (x.startsWith('--')) a.push([x]); else a.at(-1).push(x); return a; }, []), ...args({ symbols: table }).map((x) => [x]), ...(c.verbose ? [['--verbose']] : [])];
      if (c.twice && Object.keys(table).length) flags = [[`--symbol=${Object.keys(table)[0]}=0x0000000000000000000000000000000000000bad`], ...flags];
      if (c.order % 3 === 0 && !c.twice) flags.reverse();
      const argv = flags.flat(), r = await tool(argv, d), info = { argv, src, out: r.out.slice(-300), err: r.err.slice(-600) };
      if (r.code !== 0) fail(`a valid program is not compiled (${r.code})`, info);
      const [wasm, cbin, text1] = all.map((f) => { if (!fs.existsSync(f)) fail(`${path.relative(d, f)} is missing`, { files: files(d), ...info }); return fs.readFileSync(f); });
      let mod; try { mod = new WebAssembly.Module(wasm); } catch (e) { fail('the output is not a valid WebAssembly module', { message: e.message, ...info }); }
      if (cbin.length < 4 || cbin.readUInt32BE(0) !== wasm.length || !cbin.subarray(4).equals(wasm)) fail('the deployable image is not the length and the module', { module: wasm.length, image: cbin.length, starts: hex(cbin.subarray(0, 8)), ...info });
      if (text1.toString('latin1') !== cbin.toString('hex')) fail('the hexadecimal image is not the image', { image: cbin.length, text: text1.length, starts: text1.toString('latin1', 0, 40), ...info });
      const lib = await compile(src, { ...opts, ...(Object.keys(table).length ? { symbols: table } : {}) });
      if (lib.status !== 'ok') fail(`the library does not compile what the tool compiles (${lib.status})`, { message: lib.message.slice(0, 600), ...info });
      if (!wasm.equals(Buffer.from(lib.wasm))) fail('the module is not the one that the library gives for these options', { tool: wasm.length, library: lib.wasm.length, opts, ...info });
      if (c.sub) { const f = path.join(path.dirname(out), `${c.main ?? 'C'}_${c.sub.name}.wasm`); if (!fs.existsSync(f)) fail('the module of the embedded contract is missing', { files: files(d), ...info }); try { new WebAssembly.Module(fs.readFileSync(f)); } catch (e) { fail('the embedded contract is not a valid WebAssembly module', { message: e.message, ...info }); } }
      if (fs.readFileSync(inp, 'utf8') !== src) fail('the input has changed', info);
      compareModule(mod, c, ref, { ...opts, symbols: table }, src);
      fs.rmSync(d, { recursive: true });
      h.record(key(c) + JSON.stringify(argv), true, [...Object.entries(c.flags).map(([a, b]) => `${a}=${b}`), ...(c.sub ? ['embedded contract'] : []), ...(Object.keys(table).length ? ['symbols'] : []), ...(wasm.length >= 65536 ? ['module of 64 KiB or more'] : []), c.stale === null ? 'new outputs' : 'outputs replaced', ...(c.layout ? ['other layout'] : [])]);
    }, { runs: h.n(+process.env.RUNS || 260), lanes: LANES });

    const KINDS = ['missing input', 'input is a directory', 'not UTF-8', 'empty input', 'cut', 'a character more', 'unknown function', 'unknown symbol', 'no --input', 'no --output', 'unknown option', 'default_ret_type', 'opt-level', 'module to /dev/full', 'image to /dev/full', 'text to /dev/full', 'output is a directory', 'a file as directory'];
    const gen = (R) => ({ prog: new Gen(R, { funcs: [0, 2], stmts: [2, 7], depth: 2, nest: 2, accounts: [0x1234n], blocks: [1n], features: new Set(['log']) }).program(), kind: R.pick(KINDS), stale: R.pick([null, '', 'old module']), seed: R.int(0, 1 << 30) });
    function* shr(c) { for (const p of shrinkSection(c.prog)) if (valid(p)) yield { ...c, prog: p }; }
    await h.prop('failures', new Custom(gen, shr, 60), async (c) => {
      const R = rng(c.seed), d = scratch(), inp = path.join(d, 'in.yul'), out = path.join(d, 'o/x.wasm'), all = ['.wasm', '.cbin', '.cbin.hex'].map((e) => path.join(d, 'o/x' + e));
      let src = source(c.prog, null).trimEnd(), argv = ['--opt-level', 'none'], o = out, i = inp, hit = [];
      const fault = { 'module to /dev/full': 0, 'image to /dev/full': 1, 'text to /dev/full': 2 }[c.kind];
      if (c.kind === 'cut') src = src.slice(0, R.int(0, src.length - 1));
      else if (c.kind === 'a character more') { const at = R.pick([0, src.length]); src = src.slice(0, at) + R.pick(['}', '{', 'x', '0', ')', '"', '#', '\\', '=']) + src.slice(at); }
      else if (c.kind === 'unknown function') src = src.replace(/(object "C_deployed" \{\s*code \{)/, '$1 sstore(0, nowhere(1)) ');
      else if (c.kind === 'unknown symbol') src = src.replace(/(object "C_deployed" \{\s*code \{)/, '$1 sstore(0, linkersymbol("a.sol:A")) ');
      else if (c.kind === 'empty input') src = R.pick(['', '\n', ' ', '// nothing', '/* */']);
      else if (c.kind === 'default_ret_type') argv.push(`--default_ret_type=${R.pick(['u25', 'bytes', 'U256', '', 'u128', 'bytes32 '])}`);
      else if (c.kind === 'opt-level') argv = ['--opt-level', R.pick(['5', 'fast', '', 'nonee', 'O2'])];
      else if (c.kind === 'unknown option') argv.push(R.pick(['--optimise', '-x', 'more', '--verbos', '--main']));
      let body = Buffer.from(src); if (c.kind === 'not UTF-8') body = Buffer.concat([body, Buffer.from(R.pick([[0xff], [0xc3], [0xc3, 0x28], [0xed, 0xa0, 0x80]]))]);
      if (c.kind === 'input is a directory') fs.mkdirSync(inp); else if (c.kind !== 'missing input') fs.writeFileSync(inp, body);
      if (c.kind === 'a file as directory') { fs.writeFileSync(path.join(d, 'o'), 'file'); }
      else if (c.stale !== null || fault !== undefined || c.kind === 'output is a directory') {
        fs.mkdirSync(path.join(d, 'o'));
        all.forEach((f, j) => { if (j === fault) fs.symlinkSync('/dev/full', f); else if (c.kind === 'output is a directory' && j === 0) fs.mkdirSync(f); else if (c.stale !== null) fs.writeFileSync(f, c.stale); });
      }
      argv = [...(c.kind === 'no --input' ? [] : ['--input', i]), ...(c.kind === 'no --output' ? [] : ['--output', o]), ...argv];
      const r = await tool(argv, d), info = { argv, kind: c.kind, src, stdout: r.out.slice(-300), err: r.err.slice(-300) };
      if (r.code === 0) fail(`success is reported: ${c.kind}`, { files: files(d), ...info });
      if (typeof r.code !== 'number') fail(`the tool is ended by ${r.code}: ${c.kind}`, info);
      if (!(r.out + r.err).trim()) fail(`the tool fails without a word: ${c.kind}`, info);
      // nothing new may be there, except for what comes before the write that failed
      if (fault === undefined) for (const f of all) { const now = fs.existsSync(f) && fs.statSync(f).isFile() ? fs.readFileSync(f, 'latin1') : null, was = c.kind === 'a file as directory' ? null : c.kind === 'output is a directory' && f === out ? null : c.stale; if (now !== was) fail(`a failed run writes ${path.basename(f)}: ${c.kind}`, { now: now?.length, was: was?.length, ...info }); }
      fs.rmSync(d, { recursive: true });
      h.record(JSON.stringify([c.kind, c.stale, src]), true, ['fails: ' + c.kind]);
    }, { runs: h.n(+process.env.RUNS2 || 360), lanes: LANES });
  } finally { fs.rmSync(dir, { recursive: true, force: true }); yulcPool().stop(); }
}
const rng = (seed) => { let s = seed >>> 0; return new Rng({ nextInt: (a, b) => { s = (Math.imul(s, 1664525) + 1013904223) >>> 0; return a + Math.floor((s / 4294967296) * (b - a + 1)); } }); };
