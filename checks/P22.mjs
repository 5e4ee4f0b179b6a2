// Control flow, functions, scopes and evaluation order of compiled programs are those of Yul.
import { histories, check, BUILDS } from '../lib/e2e.mjs';
import { LANES, yulcPool } from '../lib/yulc.mjs';
import { reference, compare, key } from '../lib/e2e.mjs';
import { Gen, source } from '../lib/yulprog.mjs';
import { annotate, narrow } from '../lib/yultypes.mjs';
export default async function (h) {
  h.build('yulc');
  h.rule('programs of up to 6 functions (up to 7 parameters and 3 results, nested calls, recursion up to tens of calls deep, leave) with nested if, switch, for (break, continue, long loops), blocks, several assignments and side effects inside expressions, compiled by the real compiler at a random optimisation level and run on 1..3 inputs; compared with the reference interpreter; annotated: the same with type names on declarations, parameters, results and literals, the narrow ones only where the values fit; non-trivial: it calls functions of its own and takes a loop iteration or a case, with an effect');
  const arb = histories({ features: ['log', 'bigloop'], funcs: [1, 6], stmts: [8, 26], depth: 2, nest: 4, txs: [1, 3], more: (R) => ({ opts: R.weighted(BUILDS) }) });
  await h.prop('program', arb, async (c) => { await check(h, c, c.opts, { nontrivial: (S) => S['user call'] && (S.iteration || S.case) }); }, { runs: h.n(1100), lanes: LANES });
  const made = histories({ features: ['log'], txs: [1, 2], make: (R, o) => ({ prog: narrow(R, new Gen(R, { ...o, funcs: [1, 4], stmts: [5, 16], depth: 2, nest: 3 }).program()), deploy: null }), more: (R) => ({ opts: R.weighted(BUILDS), seed: R.int(0, 0x7fffffff) }) });
  await h.prop('annotated', made, async (c) => {
    const ref = reference(h, c); if (!ref) return;
    const p = annotate(c.prog, c.seed); await compare(c, ref, c.opts, source(p, null));
    h.record(key(c), !!(ref.stats['user call'] && /:/.test(source(p, null))), ['annotated']);
  }, { runs: h.n(250), lanes: LANES });
  yulcPool().stop();
}
