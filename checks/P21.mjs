// Every builtin gives its EVM result in compiled programs, whatever the origin of its operands and the use of its result.
import { histories, check, BUILDS } from '../lib/e2e.mjs';
import { LANES, yulcPool, compile } from '../lib/yulc.mjs';
import { Host, instantiate, call } from '../lib/host.mjs';
export default async function (h) {
  h.build('yulc');
  h.rule('programs of 10..26 uses (stored, as key, condition, case, topic, argument, memory or loop bound) of random builtins over literals, input words, sizes, addresses, truth values, storage, memory, hashes and results of functions, compiled by the real compiler at a random optimisation level and run on 1..2 inputs; compared with the reference interpreter; non-trivial: it stores at least five different words');
  const arb = histories({ exprs: true, features: ['env', 'calls', 'log', 'code', 'msize'], stmts: [10, 26], depth: 2, nest: 2, txs: [1, 2], more: (R) => ({ opts: R.weighted(BUILDS) }) });
  const distinct = (S, ref) => new Set(ref.out.flatMap((x) => Object.values(x.snap.storage))).size >= 5;
  await h.prop('program', arb, async (c) => { await check(h, c, c.opts, { nontrivial: distinct }); }, { runs: h.n(1100), lanes: LANES });
  await h.finding('memory-offset-truncated', async () => {
    const r = await compile('object "C" { code { } object "C_deployed" { code { mstore(shl(32, 1), 5) sstore(1, mload(0)) } } }', {});
    if (r.status !== 'ok') return null;
    const host = new Host({}), inst = instantiate(new WebAssembly.Module(r.wasm), host);
    call(inst, '_start');
    const end = call(inst, 'call'), s = Object.values(host.snapshot().storage);
    return end.kind === 'fallthrough' && BigInt('0x' + s[0]) === 5n ? { program: 'mstore(shl(32, 1), 5)', got: 'the word at offset 0 is 5' } : null;
  });
  yulcPool().stop();
}
