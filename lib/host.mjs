// The mock chain: an implementation of the host API that a contract imports, recording everything
// observable. The behaviour of a call/creation comes from a script, so that it is part of the case.
import { fail } from './harness.mjs';
import { be32, fromBE, hex, keccak256, sha256, M256 } from './util.mjs';

export class Halt extends Error { constructor(kind, data) { super(kind); this.kind = kind; this.data = data; } }
export class HostError extends Error {} // the contract called the host with arguments out of the instance's memory

export const defaultEnv = () => ({
  address: 0x1111111111111111111111111111111111111111n, caller: 0x2222222222222222222222222222222222222222n,
  origin: 0x3333333333333333333333333333333333333333n, coinbase: 0x4444444444444444444444444444444444444444n,
  callvalue: 0n, prevrandao: 0x5555n, gaslimit: 30000000n, timestamp: 1700000000n, number: 1234567n, gas: 9999999n,
  gasprice: 7n, basefee: 8n, blobbasefee: 9n, chainid: 1234n, balances: new Map(), codes: new Map(), hashes: new Map(), blockhashes: new Map(),
});

export class Host {
  constructor(o = {}) {
    this.env = { ...defaultEnv(), ...(o.env || {}) };
    this.calldata = o.calldata || new Uint8Array();
    this.code = o.code || new Uint8Array();
    this.storage = o.storage || new Map(); // hex key -> hex value
    this.tstorage = o.tstorage || new Map();
    this.logs = [];
    this.calls = [];
    this.script = o.script || []; // per call/creation: {status, ret: Uint8Array, addr: bigint}
    this.si = 0;
    this.returndata = new Uint8Array();
    this.counts = {};
    this.undefinedImports = [];
    this.fill = o.fill ?? null; // when set, bytes the host must not touch keep their garbage: nothing is cleared for the contract
  }
  attach(mem) { this.mem = mem; }
  view(p, n) {
    p >>>= 0; n = n >>> 0;
    if (n === 0) return new Uint8Array(); // no bytes, whatever the address
    if (p + n > this.mem.buffer.byteLength) throw new HostError(`host access out of bounds: ${p}+${n}`);
    return new Uint8Array(this.mem.buffer, p, n);
  }
  get(p, n) { return this.view(p, n).slice(); }
  put(p, b) { this.view(p, b.length).set(b); }
  addr(p) { return fromBE(this.get(p, 20)); }
  putAddr(p, a) { this.put(p, be32(a).slice(12)); }
  next(kind, info) {
    const r = this.script.length ? this.script[this.si++ % this.script.length] : { status: 0, ret: new Uint8Array(), addr: 0xabcdn };
    this.calls.push({ kind, ...info });
    this.returndata = r.ret || new Uint8Array();
    return kind.startsWith('create') && 'cstatus' in r ? { ...r, status: r.cstatus } : r;
  }
  imports() {
    const e = this.env, H = this;
    const env = {
      getAddress: (p) => H.putAddr(p, e.address), getCaller: (p) => H.putAddr(p, e.caller), getTxOrigin: (p) => H.putAddr(p, e.origin),
      getBlockCoinbase: (p) => H.putAddr(p, e.coinbase), getCallValue: (p) => H.put(p, be32(e.callvalue)),
      getCallDataSize: () => H.calldata.length,
      callDataCopy: (t, o, n) => {
        o >>>= 0; n >>>= 0;
        // As the chain does: bytes past the end read as zero.
        const b = new Uint8Array(n); if (o < H.calldata.length) b.set(H.calldata.subarray(o, Math.min(o + n, H.calldata.length))); H.put(t, b);
      },
      getBlockHash: (n, p) => { const v = e.blockhashes.get(BigInt.asUintN(64, n)); if (v === undefined) { H.put(p, new Uint8Array(32)); return 0; } H.put(p, be32(v)); return 1; },
      getBlockPrevRandao: (p) => H.put(p, be32(e.prevrandao)),
      getBlockGasLimit: () => BigInt.asIntN(64, e.gaslimit), getBlockTimestamp: () => BigInt.asIntN(64, e.timestamp),
      getGasLeft: () => BigInt.asIntN(64, e.gas), getBlockNumber: () => BigInt.asIntN(64, e.number),
      getTxGasPrice: (p) => H.put(p, be32(e.gasprice)), getBaseFee: (p) => H.put(p, be32(e.basefee)),
      getBlobBaseFee: (p) => H.put(p, be32(e.blobbasefee)), getChainId: (p) => H.put(p, be32(e.chainid)),
      getExternalBalance: (a, p) => H.put(p, be32(e.balances.get(H.addr(a)) ?? 0n)),
      getExternalCodeHash: (a, p) => H.put(p, be32(e.hashes.get(H.addr(a)) ?? 0n)),
      getExternalCodeSize: (a) => (e.codes.get(H.addr(a)) ?? []).length,
      externalCodeCopy: (a, p, o, n) => {
        const c = e.codes.get(H.addr(a)) ?? new Uint8Array(), b = new Uint8Array(n >>> 0); o >>>= 0;
        if (o < c.length) b.set(c.subarray(o, Math.min(o + (n >>> 0), c.length))); H.put(p, b);
      },
      storageLoad: (k, p) => H.put(p, Buffer.from(H.storage.get(hex(H.get(k, 32))) ?? '00'.repeat(32), 'hex')),
      storageStore: (k, v) => { H.set(H.storage, hex(H.get(k, 32)), hex(H.get(v, 32))); },
      storageLoadLittleEndian: (k, p) => H.put(p, Buffer.from(H.storage.get(hex(H.get(k, 32))) ?? '00'.repeat(32), 'hex').reverse()),
      storageStoreLittleEndian: (k, v) => { H.set(H.storage, hex(H.get(k, 32)), hex(H.get(v, 32).reverse())); },
      transientLoad: (k, p) => H.put(p, Buffer.from(H.tstorage.get(hex(H.get(k, 32))) ?? '00'.repeat(32), 'hex')),
      transientStore: (k, v) => { H.set(H.tstorage, hex(H.get(k, 32)), hex(H.get(v, 32))); },
      codeCopy: (t, o, n) => { const b = new Uint8Array(n >>> 0); o >>>= 0; if (o < H.code.length) b.set(H.code.subarray(o, Math.min(o + (n >>> 0), H.code.length))); H.put(t, b); },
      getCodeSize: () => H.code.length,
      callContract: (g, a, v, d, n) => H.next('call', { gas: BigInt.asUintN(64, g), to: H.addr(a), value: fromBE(H.get(v, 32)), data: hex(H.get(d, n)) }).status,
      callCode: (g, a, v, d, n) => H.next('callcode', { gas: BigInt.asUintN(64, g), to: H.addr(a), value: fromBE(H.get(v, 32)), data: hex(H.get(d, n)) }).status,
      callDelegate: (g, a, d, n) => H.next('delegatecall', { gas: BigInt.asUintN(64, g), to: H.addr(a), data: hex(H.get(d, n)) }).status,
      callStatic: (g, a, d, n) => H.next('staticcall', { gas: BigInt.asUintN(64, g), to: H.addr(a), data: hex(H.get(d, n)) }).status,
      createContract: (v, c, cn, d, dn, s, two, r) => {
        const x = H.next(two ? 'create2' : 'create', { value: fromBE(H.get(v, 32)), code: hex(H.get(c, cn)), data: hex(H.get(d, dn)), salt: two ? fromBE(H.get(s, 32)) : 0n });
        if (x.status === 0) H.putAddr(r, x.addr ?? 0n);
        return x.status;
      },
      finish: (p, n) => { throw new Halt('return', H.get(p, n)); },
      revert: (p, n) => { throw new Halt('revert', H.get(p, n)); },
      invalid: () => { throw new Halt('invalid', new Uint8Array()); },
      selfDestruct: (a) => { throw new Halt('selfdestruct', be32(H.addr(a))); },
      emitLogEvent: (p, n, k, t1, t2, t3, t4) => { H.logs.push({ data: hex(H.get(p, n)), topics: [t1, t2, t3, t4].slice(0, k).map((t) => hex(H.get(t, 32))) }); },
      getReturnDataSize: () => H.returndata.length,
      returnDataCopy: (t, o, n) => {
        o >>>= 0; n >>>= 0;
        if (o + n > H.returndata.length) throw new Halt('returndata-oob', new Uint8Array());
        H.put(t, H.returndata.subarray(o, o + n));
      },
      keccak256: (p, n, r) => H.put(r, keccak256(H.get(p, n))),
      sha256: (p, n, r) => H.put(r, sha256(H.get(p, n))),
      addmod: (a, b, n, r) => { const m = fromBE(H.get(n, 32)); H.put(r, be32(m ? (fromBE(H.get(a, 32)) + fromBE(H.get(b, 32))) % m : 0n)); },
      mulmod: (a, b, n, r) => { const m = fromBE(H.get(n, 32)); H.put(r, be32(m ? (fromBE(H.get(a, 32)) * fromBE(H.get(b, 32))) % m : 0n)); },
      debug_bytes: () => {},
    };
    for (const k of Object.keys(env)) { const f = env[k]; env[k] = (...a) => { H.counts[k] = (H.counts[k] || 0) + 1; return f(...a); }; }
    return { env };
  }
  set(map, k, v) { if (/^0*$/.test(v)) map.delete(k); else map.set(k, v); }
  snapshot() { return { storage: Object.fromEntries([...this.storage].sort()), tstorage: Object.fromEntries([...this.tstorage].sort()), logs: this.logs, calls: this.calls }; }
}

// Runs exports of a compiled contract. Returns {kind, data}.
export function instantiate(module, host) {
  const imp = host.imports();
  for (const i of WebAssembly.Module.imports(module)) if (i.module !== 'env' || !(i.name in imp.env)) fail('a module imports what the chain does not provide', { import: `${i.module}.${i.name}` });
  let inst; try { inst = new WebAssembly.Instance(module, imp); } catch (e) { fail('a module cannot be instantiated', { message: e.message }); }
  if (!inst.exports.memory) fail('a module exports no memory', {});
  host.attach(inst.exports.memory);
  return inst;
}
export function call(inst, name, ...args) {
  if (typeof inst.exports[name] !== 'function') return { kind: 'no such export', data: new Uint8Array(), msg: name };
  try { const r = inst.exports[name](...args); return { kind: 'fallthrough', data: new Uint8Array(), ret: r }; }
  catch (e) {
    if (e instanceof Halt) return { kind: e.kind, data: e.data };
    if (e instanceof WebAssembly.RuntimeError || e instanceof RangeError || e instanceof HostError) return { kind: 'trap', data: new Uint8Array(), msg: e.message };
    throw e;
  }
}
