// Objects within objects: data segments and embedded contracts have the sizes and bytes the source gives them, an
// embedded contract is a deployable module that behaves as its own source, and creating it hands over exactly its code.
import { fail } from '../lib/harness.mjs';
import { reference, compareModule, key, calldata, script, world, flat, BUILDS } from '../lib/e2e.mjs';
import { LANES, yulcPool, compile } from '../lib/yulc.mjs';
import { Custom } from '../lib/yulprog.mjs';
import { MAGIC, tree, print, shrTree, bytesOf } from '../lib/yultree.mjs';
import { Host, instantiate, call } from '../lib/host.mjs';
import { be32, hex } from '../lib/util.mjs';
// What a section hands out when asked for its k-th embedded object
function fetch(mod, fn, k, opts, src) {
  const host = new Host({ calldata: be32(MAGIC + BigInt(k)) }), inst = instantiate(mod, host), s = call(inst, '_start');
  if (s.kind !== 'fallthrough') fail('the module does not start', { ended: s, opts, src });
  const r = call(inst, fn); if (r.kind !== 'return') fail('the bytes of an embedded object cannot be copied and returned', { ended: r.kind, msg: r.msg, fn, k, opts, src });
  return r.data;
}
// the bytes of every embedded object, each a module with its length before it
function harvest(mod, o, opts, src, at = '') {
  const side = (fn, subs) => subs.map((s, k) => {
    const b = fetch(mod, fn, k, opts, src), path = `${at}${o.name}.${fn}/${s.name}`;
    if (b.length < 4 || new DataView(b.buffer, b.byteOffset).getUint32(0) !== b.length - 4) fail('an embedded object does not start with its length', { path, starts: hex(b.slice(0, 8)), bytes: b.length, opts, src });
    let m; try { m = new WebAssembly.Module(b.slice(4)); } catch (e) { fail('an embedded object is not a WebAssembly module', { path, message: e.message, opts, src }); }
    return { o: s, bytes: b, mod: m, path, ...harvest(m, s, opts, src, path + '/') };
  });
  return { inCall: side('call', o.subs), inDeploy: o.deploy ? side('deploy', o.dsubs) : [] };
}
export default async function (h) {
  h.build('yulc');
  h.rule('object trees up to depth 3: contracts with 0..2 embedded contracts and 0..4 data segments (1..4 literals each, up to 70 KB) in the constructor and the runtime object, whose code copies data whole and in part, uses sizes as values, reads constructor arguments behind its code and creates embedded contracts with arguments; names that resemble functions and each other, or are those of an object further out; compiled at random options, all optimizers included. Every embedded object is fetched, checked to be a length and a module, run against the reference of its own source, and then used as the data of the reference of its parent; non-trivial: data is copied or a contract created');
  const subsOf = (o) => [...o.subs, ...o.dsubs], within = (o) => [o, ...subsOf(o).flatMap(within)], total = (o) => within(o).flatMap((x) => [...x.data, ...x.ddata]).reduce((n, d) => n + bytesOf(d).length, 0);
  const gen = (R) => { const all = R.p(0.2); return ({ tree: tree(R, R.pick(['C', 'C', 'Factory_7', 'D', 'MyToken']), 0, { all, large: R.p(0.15) ? 0.25 : 0, funcs: [0, 3], stmts: [4, 12], depth: 2, nest: 2, accounts: [0x1234n, 0x1111111111111111111111111111111111111111n], blocks: [1n], features: new Set(R.pick([['log'], ['log', 'calls', 'code'], ['env', ...(all ? [] : ['msize']), 'log']])) }),
    opts: all ? { enable_all: true, opt_level: R.pick(['none', 'none', 'default', 'aggressive']), ...(R.p(0.4) ? { le_storage: true } : {}), ...(R.p(0.2) ? { ret: 'bytes32' } : {}) } : R.weighted(BUILDS), args: calldata(R), dscript: script(R), txs: Array.from({ length: R.int(1, 2) }, () => ({ calldata: calldata(R), script: script(R) })), storage: new Map([[0n, R.word()], [1n, R.word()]].filter((x) => x[1])), env: world(R), code: R.bytes(R.int(0, 90)) }); };
  function* shr(c) { if (c.txs.length > 1) for (const t of c.txs) yield { ...c, txs: [t] }; for (const t of shrTree(c.tree)) yield { ...c, tree: t }; if (c.storage.size) yield { ...c, storage: new Map() }; }
  await h.prop('tree', new Custom(gen, shr, 90), async (c) => {
    const src = print(c.tree), opts = c.opts, r = await compile(src, opts);
    if (r.status !== 'ok') fail(`a valid program is not compiled (${r.status})`, { message: r.message.slice(0, 1200), opts, src });
    let mod; try { mod = new WebAssembly.Module(r.wasm); } catch (e) { fail('the output is not a valid WebAssembly module', { message: e.message, opts, src }); }
    const all = [];
    const go = (x) => { [...x.inCall, ...x.inDeploy].forEach(go); all.push(x); };
    go({ o: c.tree, mod, path: c.tree.name, ...harvest(mod, c.tree, opts, src) });
    let hits = 0; const classes = new Set();
    for (const x of all) {
      const o = x.o, map = (ds, subs, own) => Object.fromEntries([...ds.map((d) => [d[0], bytesOf(d)]), ...subs.map((s) => [s.o.name, s.bytes]), [own, c.code]]);
      const hist = { prog: o.prog, deploy: o.deploy, args: c.args, dscript: c.dscript, txs: x.path === c.tree.name ? c.txs : c.txs.slice(0, 1), storage: c.storage, env: c.env, code: c.code, data: map(o.data, x.inCall, o.inner), ddata: { ...map(o.ddata, x.inDeploy, o.name), [o.inner]: new Uint8Array(4) } };
      const ref = reference(h, hist, { ref: { memCap: c.opts.enable_all && !subsOf(o).length ? 16000 : 400000, fmp: !!c.opts.enable_all } }); if (!ref) continue;
      compareModule(x.mod, hist, ref, { ...opts, object: x.path }, src);
      const S = ref.stats; hits += (S.datacopy || 0) + (S.creation || 0); for (const k of ['datacopy', 'creation']) if (S[k]) classes.add('with ' + k); if (total(o) > 65536) classes.add('data of more than 64 KiB'); if (x !== all.at(-1)) classes.add('embedded contract run'); if (o.deploy) classes.add('with deployment'); if (c.opts.enable_all) classes.add('all optimizers'); if (x.bytes?.length > 65536) classes.add('embedded object of more than 64 KiB');
    }
    h.record(flat([src, c.txs.map((t) => hex(t.calldata))]), hits > 0, [...classes]);
  }, { runs: h.n(+process.env.RUNS || 300), lanes: LANES });
  yulcPool().stop();
}
