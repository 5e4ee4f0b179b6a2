// A compiled contract and the reference agree on whole histories: deployment, then transactions that share storage.
import { histories, check, BUILDS, ALL } from '../lib/e2e.mjs';
import { LANES, yulcPool } from '../lib/yulc.mjs';
export default async function (h) {
  h.build('yulc');
  h.rule('contracts using every supported builtin (environment, calls with scripted results, creation, logs, code, transient storage, memory up to 128 KB) with a constructor in half of the cases, run through a deployment and 1..5 transactions over one storage that failed transactions leave alone, at a random optimisation level; outcome, data, storage, transient storage, logs and calls of each compared with the reference interpreter; non-trivial: two transactions complete with effects');
  const arb = histories({ features: (R) => (R.p(0.3) ? [...ALL, 'bigmem'] : ALL), deploy: 0.5, txs: [1, 5], maxdata: 260, more: (R) => ({ opts: R.weighted(BUILDS) }) });
  const two = (S, ref) => ref.out.filter((x) => x.end.kind === 'return' && Object.keys(x.snap.storage).length).length >= 2;
  await h.prop('history', arb, async (c) => {
    // known finding of P19: buffers of the builds with byte-word results and grown memory do not mix
    const opts = c.opts.ret && flatHas(c.prog, c.deploy) ? { opt_level: 'none' } : c.opts;
    await check(h, c, opts, { ref: { memCap: 1 << 18 }, nontrivial: two });
  }, { runs: h.n(900), lanes: LANES });
  yulcPool().stop();
}
const flatHas = (...xs) => xs.some((x) => { let big = false; const go = (e) => { if (Array.isArray(e)) { if (e[0] === 'n' && typeof e[2] === 'bigint' && e[2] > 900n && e[2] < 200000n) big = true; e.forEach(go); } else if (e && typeof e === 'object') Object.values(e).forEach(go); }; go(x); return big; });
