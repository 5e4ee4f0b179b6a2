// Contracts in the form in which the Solidity compiler emits Yul behave as their source, under every build.
import { fail } from '../lib/harness.mjs';
import { reference, compare, key, flat, world, script } from '../lib/e2e.mjs';
import { LANES, yulcPool } from '../lib/yulc.mjs';
import { Custom, source, shrinkSection, valid } from '../lib/yulprog.mjs';
import { contract, args, input } from '../lib/solc.mjs';
import { ADDR } from '../lib/util.mjs';
export default async function (h) {
  h.build('yulc');
  h.rule('contracts of 2..7 external functions with a dispatcher, ABI coding of static types, strings and arrays, checked arithmetic at all widths, packed storage, mappings, dynamic arrays, stored strings, events, error strings, external calls with scripted results, constructor arguments and immutables, in the verbose style of unoptimized and the terse style of optimized output; a deployment and 4..10 calls with mostly valid arguments; built under 2 random option sets, mostly with all optimizers; compared with the reference interpreter; non-trivial: at least three calls complete');
  const options = (R) => { const o = { opt_level: R.weighted([[5, 'none'], [3, 'less'], [3, 'default'], [1, 'aggressive']]) }; if (R.p(0.6)) o.enable_all = true; if (R.p(0.3)) o.le_storage = true; if (R.p(0.15)) o.no_inline = true; if (R.p(0.15)) o.minify = true; if (R.p(0.15)) o.disable_all = true; if (R.p(0.2)) o.ret = 'bytes32'; if (R.p(0.1)) o.debug = true; return o; };
  const gen = (R) => {
    const c = contract(R), code = R.bytes(R.int(0, 60)), accounts = Array.from({ length: 3 }, () => R.word() & ADDR || 9n), env = { ...world(R), callvalue: 0n, caller: R.pick(accounts) };
    return { ...c, args: args(R, c.all, accounts), dscript: [], txs: Array.from({ length: R.int(4, 10) }, () => ({ calldata: input(R, c, accounts), script: script(R), ...(R.p(0.1) ? { value: R.word() } : {}) })), storage: new Map(), env, code, ddata: { [c.name]: code }, immutables: true, opts: [options(R), options(R)] };
  };
  function* shr(c) {
    if (c.opts.length > 1) for (const x of c.opts) yield { ...c, opts: [x] };
    if (c.txs.length > 1) for (let i = 0; i < c.txs.length; i++) yield { ...c, txs: c.txs.filter((_, j) => j !== i) };
    if (c.deploy) yield { ...c, deploy: null };
    for (const p of shrinkSection(c.prog)) if (valid(p)) yield { ...c, prog: p };
    if (c.deploy) for (const p of shrinkSection(c.deploy)) if (valid(p)) yield { ...c, deploy: p };
  }
  await h.prop('contract', new Custom(gen, shr, 90), async (c) => {
    const ref = reference(h, c, { ref: { fmp: true, memCap: 1 << 16 } }); if (!ref) return;
    for (const o of c.opts) await compare(c, ref, o, source(c.prog, c.deploy, c.name));
    const ends = ref.out.slice(c.deploy ? 1 : 0).map((x) => x.end.kind);
    h.record(key(c), ends.filter((k) => k === 'return').length >= 3, [c.verbose ? 'verbose' : 'terse', ...ends.map((k) => 'call ends in ' + k), ...Object.keys(ref.stats).filter((k) => /call|immut/.test(k))]);
  }, { runs: h.n(300), lanes: LANES });
  yulcPool().stop();
}
