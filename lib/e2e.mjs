// Compiles generated programs, runs them on the mock chain and compares every transaction with the reference.
import { fail, encode } from './harness.mjs';
import { compile } from './yulc.mjs';
import { Host, instantiate, call, defaultEnv } from './host.mjs';
import { Ref, Discard } from './yulref.mjs';
import { Gen, ExprGen, Custom, source, valid, shrinkSection } from './yulprog.mjs';
import { running } from './watchdog.mjs';
import { h64, hex, be32, ADDR } from './util.mjs';
const toHost = (m) => new Map([...m].map(([k, v]) => [h64(k), h64(v)]));
const norm = (o) => (o.kind === 'fallthrough' ? { kind: 'return', data: '' } : o.kind === 'returndata-oob' ? { kind: 'failure', data: '' } : { kind: o.kind, data: hex(o.data), ...(o.msg ? { msg: o.msg } : {}) });
const big = (k, v) => (typeof v === 'bigint' ? h64(v) : v);
export const flat = (x) => JSON.stringify(x, big);

// c: {prog, deploy|null, txs: [{calldata, script, value}], args, code, storage: Map, env}
// Returns the outcomes of the reference, or null when the case is outside its domain.
export function reference(h, c, o = {}) {
  const out = []; let storage = new Map(c.storage), imm = new Map();
  const stats = {};
  const txs = [...(c.deploy ? [{ calldata: c.args ?? new Uint8Array(), script: c.dscript ?? [], deploy: true }] : []), ...c.txs];
  for (const t of txs) {
    const env = { ...c.env, callvalue: t.value ?? c.env.callvalue };
    const r = new Ref({ env, calldata: t.calldata, code: c.code, storage: new Map(storage), tstorage: new Map(), script: t.script, deploying: !!t.deploy, data: t.deploy ? c.ddata : c.data, imm: new Map(imm), ...o.ref });
    let end;
    try { end = r.run(t.deploy ? c.deploy : c.prog); }
    catch (e) { if (e instanceof Discard) { h.exclude(e.message); return out.length ? { txs, out, stats } : null; } throw e; }
    for (const [k, v] of Object.entries(r.stats)) stats[k] = (stats[k] || 0) + v;
    out.push({ t, env, before: storage, end, snap: r.snapshot(), imms: r.imm.size });
    if (end.kind === 'return' || end.kind === 'selfdestruct') { storage = r.storage; imm = r.imm; }
    if (t.deploy && end.kind !== 'return') break;
  }
  return { txs, out, stats };
}
// Runs the compiled program on the same histories; throws a Violation at the first difference.
export async function compare(c, ref, opts = {}, src) {
  src ??= source(c.prog, c.deploy);
  const r = await compile(src, opts);
  if (r.status !== 'ok') fail(`a valid program is not compiled (${r.status})`, { message: r.message.slice(0, 1200), opts, src });
  let mod; try { mod = new WebAssembly.Module(r.wasm); } catch (e) { fail('the output is not a valid WebAssembly module', { message: e.message, opts, src }); }
  compareModule(mod, c, ref, opts, src);
}
export function compareModule(mod, c, ref, opts, src) {
  // slots the compiler keeps immutables in, which the reference does not know
  let kept = []; running();
  ref.out.forEach((x, i) => {
    const host = new Host({ env: x.env, calldata: x.t.calldata, code: c.code, storage: new Map([...toHost(x.before), ...kept]), tstorage: new Map(), script: x.t.script });
    const inst = instantiate(mod, host);
    const s = call(inst, '_start'); if (s.kind !== 'fallthrough') fail('the module does not start', { ended: s, opts, src });
    const end = norm(call(inst, x.t.deploy ? 'deploy' : 'call')), snap = host.snapshot();
    if (c.immutables) {
      const own = Object.keys(snap.storage).filter((k) => (x.t.deploy ? !(k in x.snap.storage) : kept.some(([s]) => s === k)));
      if (x.t.deploy && own.length > 2 * x.imms) fail('a constructor writes slots of its own accord', { got: flat(snap.storage), want: flat(x.snap.storage), immutables: x.imms, opts, src });
      if (end.kind === 'return') kept = own.map((k) => [k, snap.storage[k]]);
      for (const k of own) delete snap.storage[k];
    }
    const d = () => ({ tx: i, input: hex(x.t.calldata), opts, src });
    if (end.kind !== x.end.kind || (end.kind !== 'failure' && end.data !== x.end.data)) fail('a transaction ends differently', { got: end, want: x.end, logs: [flat(snap.logs), flat(x.snap.logs)], storage: [flat(snap.storage), flat(x.snap.storage)], ...d() });
    for (const k of ['storage', 'tstorage', 'logs', 'calls']) if (flat(snap[k]) !== flat(x.snap[k])) fail(`a transaction has different ${k}`, { got: flat(snap[k]), want: flat(x.snap[k]), ...d() });
  });
}
export const key = (c) => encode([c.prog, c.deploy, c.txs]);

// ---- generated histories
export const ALL = ['env', 'calls', 'create', 'log', 'code', 'msize', 'bigloop'];
const ACCOUNTS = [0x1234n, (1n << 159n) + 5n, 0x1111111111111111111111111111111111111111n, 0xdeadbeef00000000000000000000000000000000n, 0xffffffffffffffffffffffffffffffffffffffffn];
const BLOCKS = [0n, 1n, 1234566n, 0xffffffffn, 0x100000000n];
export const calldata = (R, max = 180) => { const d = new Uint8Array(R.int(0, max)); for (let i = 0; i < d.length; i += 32) d.set(be32(R.word()).subarray(0, Math.min(32, d.length - i)), i); return d; };
export const script = (R) => Array.from({ length: R.int(1, 4) }, () => ({ status: R.p(0.75) ? 0 : 1, cstatus: 0, ret: R.bytes(R.p(0.5) ? R.int(64, 100) : R.int(64, 140)), addr: R.p(0.5) ? R.word() & ADDR : R.pick(ACCOUNTS) }));
// The chain's state around the contract; what a successful call returns may be shorter than the output area.
export const world = (R) => {
  const m = (f) => new Map(ACCOUNTS.filter(() => R.p(0.7)).map((a) => [a, f()]));
  const i64 = () => R.word() & (R.p(0.6) ? (1n << 63n) - 1n : (1n << 64n) - 1n), w = () => R.word();
  return { ...defaultEnv(), balances: m(w), codes: m(() => R.bytes(R.int(0, 80))), hashes: m(w), blockhashes: new Map(BLOCKS.filter(() => R.p(0.7)).map((b) => [b, R.word()])),
    ...(R.p(0.6) ? { callvalue: w(), prevrandao: w(), gasprice: w(), basefee: w(), blobbasefee: w(), chainid: w(), timestamp: i64(), number: i64(), gas: i64(), gaslimit: i64() } : {}) };
};
// o: Gen's options, deploy (chance of a constructor), txs
export function histories(o) {
  const gen = (R) => {
    const ft = typeof o.features === 'function' ? o.features(R) : o.features ?? ALL;
    const g = () => new (o.exprs ? ExprGen : Gen)(R, { funcs: [0, 4], stmts: [6, 18], depth: 3, nest: 3, accounts: ACCOUNTS, blocks: BLOCKS, ...o, features: new Set(ft) });
    const st = new Map(); for (let k = 0; k < 5; k++) if (R.p(0.7)) st.set(BigInt(k), R.word() || 1n);
    const made = o.make?.(R, { funcs: [0, 4], stmts: [6, 18], depth: 3, nest: 3, accounts: ACCOUNTS, blocks: BLOCKS, ...o, features: new Set(ft) });
    const deploy = made ? made.deploy : R.p(o.deploy ?? 0) ? g().program() : null;
    return { prog: made ? null : g().program(), ...made, deploy, args: deploy ? calldata(R) : undefined, dscript: deploy ? script(R) : undefined, txs: Array.from({ length: R.int(...(o.txs ?? [1, 3])) }, () => ({ calldata: calldata(R, o.maxdata), script: script(R), ...(R.p(0.3) ? { value: R.word() } : {}) })), storage: st, env: world(R), code: R.bytes(R.int(0, 90)), ...(o.more ? o.more(R) : {}) };
  };
  function* shr(c) {
    if (c.txs.length > 1) for (let i = 0; i < c.txs.length; i++) yield { ...c, txs: c.txs.filter((_, j) => j !== i) };
    if (c.deploy) { yield { ...c, deploy: null }; for (const p of shrinkSection(c.deploy)) if (valid(p)) yield { ...c, deploy: p }; }
    for (const p of shrinkSection(c.prog)) if (valid(p)) yield { ...c, prog: p };
    if (c.storage.size) yield { ...c, storage: new Map() };
  }
  return new Custom(gen, shr, o.shrinkSeconds ?? 60);
}
// Builds that must all behave alike; weights favour those that compile fast.
export const BUILDS = [[6, { opt_level: 'none' }], [4, {}], [2, { opt_level: 'less' }], [2, { opt_level: 'aggressive' }], [2, { debug: true }], [2, { ret: 'bytes32', opt_level: 'none' }], [1, { ret: 'bytes32' }], [2, { disable_all: true, opt_level: 'none' }], [1, { le_storage: true }], [1, { minify: true }], [1, { no_inline: true }]];
// The usual check of one history: reference first, then the compiled program under the given options.
export async function check(h, c, opts, o = {}) {
  const ref = reference(h, c, o); if (!ref) return null;
  for (const x of Array.isArray(opts) ? opts : [opts]) await compare(c, ref, x);
  const S = ref.stats, kinds = [...new Set(ref.out.map((x) => 'ends in ' + x.end.kind))];
  const effects = ref.out.some((x) => x.snap.logs.length || x.snap.calls.length || flat(x.snap.storage) !== flat(Object.fromEntries([...x.before].map(([k, v]) => [h64(k), h64(v)]).sort())) || x.end.data);
  h.record(key(c), effects && (o.nontrivial ? o.nontrivial(S, ref) : true), [...kinds, ...Object.keys(S).map((k) => 'with ' + k), ...(c.deploy ? ['with deployment'] : [])]);
  return ref;
}
