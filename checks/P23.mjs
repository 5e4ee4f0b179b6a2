// Builds of one source under different options behave alike, and as the source says.
import { fail } from '../lib/harness.mjs';
import { histories, check, compare, reference, ALL, key, world } from '../lib/e2e.mjs';
import { LANES, yulcPool, compile } from '../lib/yulc.mjs';
import { Host, instantiate, call } from '../lib/host.mjs';
import { Custom, source } from '../lib/yulprog.mjs';
import { parse } from '../lib/yulparse.mjs';
import { ADDR, MASK, be32, fromBE, hex, h64, keccak256, u256 } from '../lib/util.mjs';
// any combination of options; all = the conventions of solc are kept, so all optimizers may be on
const options = (R, all) => {
  const o = { opt_level: R.weighted([[5, 'none'], [3, 'less'], [3, 'default'], [2, 'aggressive']]) };
  if (R.p(0.15)) o.debug = true;
  if (R.p(0.2)) o.no_inline = true;
  if (R.p(0.15)) o.minify = true;
  if (R.p(0.25)) o.disable_all = true;
  if (R.p(0.35)) o.le_storage = true;
  if (R.p(0.3)) o.ret = 'bytes32';
  if (all && R.p(0.7)) o.enable_all = true;
  return o;
};
const sets = (R, all, n) => { const m = new Map(); while (m.size < n) { const o = options(R, all); m.set(JSON.stringify(o), o); } return [...m.values()]; };
const transfer = (R) => {
  const n = (v) => R.pick([String(v), '0x' + v.toString(16)]), m = () => R.pick(['_2', 'let _2']);
  const [f, t, v] = R.pick([['var_from', 'var_to', 'var_value'], ['a', 'b', 'c'], ['from', 'to', 'value']]), name = R.pick(['fun_transfer', 'fun__transfer']);
  const err = (sel) => (R.p(0.5) ? `let m := mload(64) mstore(m, ${sel}) mstore(add(m, 4), ${n(0)}) revert(m, 36)` : `mstore(${n(0)}, ${sel}) mstore(4, ${n(0)}) revert(${n(0)}, 36)`);
  return [name, `function ${name}(${f}, ${t}, ${v}) {
    let _1 := sub(shl(160, 1), 1) let _2 := and(${R.pick([`${f}, _1`, `_1, ${f}`])}) if iszero(_2) { ${err('shl(225, 0x4b637e8f)')} }
    let _4 := and(${R.pick([`${t}, _1`, `_1, ${t}`])}) if iszero(_4) { ${err('shl(224, 0xec442f05)')} }
    mstore(${n(0)}, _2) mstore(${n(32)}, ${n(0)}) let _6 := sload(keccak256(${n(0)}, ${n(64)}))
    if lt(_6, ${v}) { mstore(0, shl(226, 0x391434e3)) mstore(4, _2) mstore(36, _6) mstore(68, ${v}) revert(0, 100) }
    mstore(${n(0)}, _2) mstore(${n(32)}, ${n(0)}) sstore(keccak256(${n(0)}, ${n(64)}), sub(_6, ${v}))
    mstore(${n(0)}, _4) let slot := keccak256(${n(0)}, ${n(64)}) sstore(slot, add(sload(slot), ${v}))
    let _8 := mload(${n(64)}) mstore(_8, ${v}) log3(_8, ${n(32)}, 0xddf252ad1be2c89b69c2b068fc378daa952ba7f163c4a11628f55a4df523b3ef, _2, _4) }`];
};
const slotOf = (a, i = 0n) => fromBE(keccak256(Uint8Array.from([...be32(a & ADDR), ...be32(i)])));
export default async function (h) {
  h.build('yulc');
  h.rule('options: generated programs with all builtins built under 2 random combinations of optimisation level, debug, inlining, size, storage order and representation; all optimizers: the same for programs that keep the memory pointer convention, mostly with all optimizers on; token: transfers among accounts through the function the built-in transfer stands for, inside generated dispatchers, built under 3 combinations; each build compared with the reference interpreter; non-trivial: the builds differ in options and the program has effects');
  const run = (ref) => async (c) => { await check(h, c, c.opts, { ref }); h.record(key(c) + JSON.stringify(c.opts), false, c.opts.flatMap((o) => Object.entries(o).map(([k, v]) => `${k}=${v}`))); };
  await h.prop('options', histories({ features: ALL, deploy: 0.3, txs: [1, 2], more: (R) => ({ opts: sets(R, false, 2) }) }), run({ memCap: 1 << 18 }), { runs: h.n(380), lanes: LANES });
  await h.prop('all optimizers', histories({ fmp: true, features: ALL.filter((x) => x !== 'msize'), deploy: 0.3, txs: [1, 2], more: (R) => ({ opts: sets(R, true, 2) }) }), run({ memCap: 1 << 18, fmp: true }), { runs: h.n(420), lanes: LANES });
  const gen = (R) => {
    const accts = Array.from({ length: 3 }, () => R.word() & ADDR || 7n), storage = new Map(), bal = accts.map(() => R.word());
    accts.forEach((a, i) => bal[i] && storage.set(slotOf(a), bal[i]));
    const [name, fn] = transfer(R), dirty = (a) => (R.p(0.3) ? a | (R.word() << 160n) & MASK : a);
    const acc = () => (R.p(0.08) ? 0n : R.pick(accts));
    const lit = (v) => (R.p(0.5) ? '0x' + v.toString(16) : String(v));
    const amt = () => R.weighted([[2, () => u256(R.pick(bal) + BigInt(R.int(-1, 1)))], [3, () => R.pick(bal) / BigInt(R.int(1, 50))], [1, () => R.word()], [1, () => BigInt(R.int(0, 5))]])();
    const arg = (k) => R.weighted([[4, () => `calldataload(${4 + 32 * k})`], [2, () => lit(k < 2 ? dirty(acc()) : amt())], [k === 0 ? 2 : 0, () => 'caller()'], [1, () => `sload(${k})`], [1, () => `pick(${k})`], [1, () => `noted(${k}, calldataload(${4 + 32 * k}))`], [k === 2 ? 1 : 0, () => `div(calldataload(${4 + 32 * k}), ${R.int(2, 5)})`], [k < 2 ? 1 : 0, () => `and(calldataload(${4 + 32 * k}), sub(shl(160, 1), 1))`]])();
    const one = () => `${name}(${[0, 1, 2].map(arg).join(', ')})`;
    const calls = Array.from({ length: R.int(1, 3) }, () => R.weighted([[4, one], [1, () => `if lt(${R.int(0, 1)}, calldataload(4)) { ${one()} }`], [1, () => `pop(moved(calldataload(4), calldataload(36), calldataload(68)))`], [1, () => `for { let i := 0 } lt(i, ${R.int(1, 3)}) { i := add(i, 1) } { ${one()} }`]])());
    const text = `mstore(64, 128) ${calls.join('\n')} sstore(5, add(sload(5), 1)) mstore(128, ${R.pick(['1', 'sload(5)', 'mload(64)'])}) return(128, 32)
      ${fn} function pick(k) -> r { r := calldataload(add(4, mul(k, 32))) } function noted(k, x) -> r { sstore(add(10, k), sload(5)) sstore(5, k) r := x }
      function moved(x, y, z) -> r { ${name}(x, y, z) r := 1 }`;
    accts.slice(0, 2).forEach((a, k) => { if (R.p(0.6)) storage.set(BigInt(k), dirty(a)); });
    if (R.p(0.5)) storage.set(2n, amt());
    const prog = parse(text);
    const called = (n, t) => t.includes(n + '(');
    prog.funcs = prog.funcs.filter((f) => f.name === name || calls.some((t) => called(f.name, t)));
    if (R.p(0.5)) prog.funcs.reverse();
    const data = () => { const d = new Uint8Array(100); [dirty(acc()), dirty(acc()), amt()].forEach((v, k) => d.set(be32(v), 4 + 32 * k)); return d; };
    const env = { ...world(R), caller: R.pick(accts) };
    return { prog, deploy: null, obj: R.pick(['Token_7', 'MyERC20', 'ERC20_x_Token']), txs: Array.from({ length: R.int(1, 3) }, () => ({ calldata: data(), script: [] })), storage, env, code: new Uint8Array(9),
      opts: [{ ...options(R, false), enable_all: true, le_storage: true }, { ...options(R, true) }, { ...options(R, false), le_storage: R.p(0.5) }] };
  };
  function* shr(c) { if (c.txs.length > 1) for (let i = 0; i < c.txs.length; i++) yield { ...c, txs: c.txs.filter((_, j) => j !== i) }; if (c.opts.length > 1) for (const o of c.opts) yield { ...c, opts: [o] }; for (let i = 0; i < c.prog.body.length; i++) yield { ...c, prog: { ...c.prog, body: c.prog.body.filter((_, j) => j !== i) } }; }
  await h.prop('token', new Custom(gen, shr, 60), async (c) => {
    const ref = reference(h, c, { ref: { fmp: true } }); if (!ref) return;
    for (const o of c.opts) await compare(c, ref, o, source(c.prog, null, c.obj));
    const moved = ref.out.filter((x) => x.end.kind === 'return' && x.snap.logs.length);
    h.record(key(c), moved.length > 0, [`token: ${ref.out.map((x) => x.end.kind === 'revert' ? x.end.kind + ' ' + hex(x.end.data).slice(0, 8) : x.end.kind)[0]}`]);
  }, { runs: h.n(240), lanes: LANES });
  const probe = async (src, opts, env, input) => {
    const r = await compile(src, opts); if (r.status !== 'ok') return null;
    const host = new Host(env), inst = instantiate(new WebAssembly.Module(r.wasm), host);
    call(inst, '_start'); const end = call(inst, 'call');
    return { end, storage: host.snapshot().storage };
  };
  await h.finding('memory-pointer-register', async () => {
    const r = await probe('object "C" { code { } object "C_deployed" { code { mstore(64, 0x100000005) sstore(1, mload(64)) } } }', { enable_all: true }, {});
    return r && r.end.kind === 'fallthrough' && BigInt('0x' + Object.values(r.storage)[0]) === 5n ? { program: 'mstore(64, 0x100000005) sstore(1, mload(64))', got: 5 } : null;
  });
  // the same function over the balances mapping at slot 1
  await h.finding('transfer-of-other-layout', async () => {
    const R = { p: () => false, pick: (x) => x[0] }, [name, fn] = transfer(R), a = 0x11n, b = 0x22n;
    const src = source(parse(`mstore(64, 128) ${name}(${a}, ${b}, 5) ${fn.replaceAll('mstore(32, 0)', 'mstore(32, 1)')}`), null, 'Token');
    const storage = new Map([[h64(slotOf(a, 1n)), h64(9n)]]);
    const r = await probe(src, { enable_all: true, le_storage: true }, { storage: new Map(storage) });
    return r && (r.end.kind !== 'fallthrough' || !Object.keys(r.storage).includes(h64(slotOf(b, 1n)))) ? { got: r.end.kind, data: hex(r.end.data ?? new Uint8Array()), storage: r.storage } : null;
  });
  yulcPool().stop();
}
