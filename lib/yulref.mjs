// Reference interpreter: Yul with EVM semantics over BigInt words, against a model of the chain of its own.
// AST: expressions ['n', text, value] ['v', name] ['c', function, args]; statements ['let', names, expr|null]
// ['set', names, expr] ['do', expr] ['if', cond, block] ['switch', cond, [[literal, block]], default|null]
// ['for', init, cond, post, body] ['block', block] ['leave'] ['break'] ['continue']; blocks are arrays.
// Functions {name, params, rets, body}; a code section {funcs, body}.
import { u256, toS, MASK, M256, ADDR, keccak256, h64, hex, be32, fromBE } from './util.mjs';

export class Discard extends Error {} // the case leaves the domain of the reference (cost, memory size, known finding)
class End { constructor(kind, data) { this.kind = kind; this.data = data; } }
const b = (x) => (x ? 1n : 0n);
const sx = (k, x) => { if (k >= 31n) return x; const bit = k * 8n + 7n; return (x >> bit) & 1n ? u256(x | (MASK << bit)) : x & ((1n << (bit + 1n)) - 1n); };
const pow = (a, e) => { let r = 1n; while (e) { if (e & 1n) r = (r * a) % M256; a = (a * a) % M256; e >>= 1n; } return r; };
export const PURE = {
  add: (x, y) => u256(x + y), sub: (x, y) => u256(x - y), mul: (x, y) => u256(x * y), div: (x, y) => (y ? x / y : 0n), mod: (x, y) => (y ? x % y : 0n),
  sdiv: (x, y) => (y ? u256(toS(x) / toS(y)) : 0n), smod: (x, y) => (y ? u256(toS(x) % toS(y)) : 0n), exp: pow, not: (x) => MASK ^ x,
  lt: (x, y) => b(x < y), gt: (x, y) => b(x > y), slt: (x, y) => b(toS(x) < toS(y)), sgt: (x, y) => b(toS(x) > toS(y)), eq: (x, y) => b(x === y), iszero: (x) => b(!x),
  and: (x, y) => x & y, or: (x, y) => x | y, xor: (x, y) => x ^ y, byte: (n, x) => (n < 32n ? (x >> (248n - 8n * n)) & 255n : 0n),
  shl: (n, x) => (n < 256n ? u256(x << n) : 0n), shr: (n, x) => (n < 256n ? x >> n : 0n), sar: (n, x) => u256(n < 256n ? toS(x) >> n : toS(x) < 0n ? -1n : 0n),
  addmod: (x, y, m) => (m ? (x + y) % m : 0n), mulmod: (x, y, m) => (m ? (x * y) % m : 0n), signextend: sx,
};
const DATA = 0xda7a0ffn << 200n; // stands for the places of embedded data
const I64 = (1n << 63n) - 1n;
const ENV0 = { address: 'address', caller: 'caller', origin: 'origin', coinbase: 'coinbase', callvalue: 'callvalue', prevrandao: 'prevrandao', difficulty: 'prevrandao', gaslimit: 'gaslimit', timestamp: 'timestamp', number: 'number', gas: 'gas', gasprice: 'gasprice', basefee: 'basefee', blobbasefee: 'blobbasefee', chainid: 'chainid' };
// arity of every builtin, and whether it gives a value
export const BUILTINS = { ...Object.fromEntries(Object.entries(PURE).map(([k, f]) => [k, [f.length, 1]])), ...Object.fromEntries(Object.keys(ENV0).map((k) => [k, [0, 1]])),
  exp: [2, 1], selfbalance: [0, 1], balance: [1, 1], extcodesize: [1, 1], extcodehash: [1, 1], blockhash: [1, 1], calldataload: [1, 1], calldatasize: [0, 1], calldatacopy: [3, 0], codesize: [0, 1], codecopy: [3, 0],
  extcodecopy: [4, 0], returndatasize: [0, 1], returndatacopy: [3, 0], mload: [1, 1], mstore: [2, 0], mstore8: [2, 0], mcopy: [3, 0], msize: [0, 1], sload: [1, 1], sstore: [2, 0], tload: [1, 1], tstore: [2, 0],
  keccak256: [2, 1], pop: [1, 0], log0: [2, 0], log1: [3, 0], log2: [4, 0], log3: [5, 0], log4: [6, 0], call: [7, 1], delegatecall: [6, 1], staticcall: [6, 1], create: [3, 1], create2: [4, 1],
  return: [2, 0], revert: [2, 0], stop: [0, 0], invalid: [0, 0], selfdestruct: [1, 0], loadimmutable: [1, 1], setimmutable: [3, 0], datasize: [1, 1], dataoffset: [1, 1], datacopy: [3, 0], linkersymbol: [1, 1], memoryguard: [1, 1] };

export class Ref {
  // o: {env, calldata, code, storage, tstorage, script, memCap, maxSteps, data: {name: bytes}, symbols}
  constructor(o) {
    Object.assign(this, { env: o.env, calldata: o.calldata ?? new Uint8Array(), code: o.code ?? new Uint8Array(), storage: o.storage ?? new Map(), tstorage: o.tstorage ?? new Map(), script: o.script ?? [], imm: o.imm ?? new Map(), si: 0, logs: [], calls: [], returndata: new Uint8Array(), cap: o.memCap ?? 8192, steps: o.maxSteps ?? 60000, size: 0, o });
    this.mem = new Uint8Array(this.cap); this.depth = 0; this.stats = {};
  }
  run(section) {
    this.funcs = new Map(section.funcs.map((f) => [f.name, f]));
    try { this.block(section.body, new Map(), true); return { kind: 'return', data: '' }; }
    catch (e) { if (e instanceof End) return { kind: e.kind, data: hex(e.data) }; throw e; }
  }
  stat(k) { this.stats[k] = (this.stats[k] || 0) + 1; }
  // scopes: one Map per function with shadow-free names; a block removes what it declared
  block(bl, sc) {
    const mine = [];
    let r = null;
    for (const s of bl) { r = this.stmt(s, sc, mine); if (r) break; }
    for (const n of mine) sc.delete(n);
    return r;
  }
  tick() { if (--this.steps < 0) throw new Discard('too many steps'); }
  stmt(s, sc, mine) {
    this.tick();
    switch (s[0]) {
      case 'let': { const v = s[2] ? this.multi(s[2], sc, s[1].length) : s[1].map(() => 0n); s[1].forEach((n, i) => { if (sc.has(n)) throw new Error(`redeclared ${n}`); sc.set(n, v[i]); mine.push(n); }); return null; }
      case 'set': { const v = this.multi(s[2], sc, s[1].length); s[1].forEach((n, i) => { if (!sc.has(n)) throw new Error(`unknown ${n}`); sc.set(n, v[i]); }); return null; }
      case 'do': this.multi(s[1], sc, 0); return null;
      case 'if': if (this.ev(s[1], sc)) return this.block(s[2], sc); return null;
      case 'switch': { const v = this.ev(s[1], sc); for (const [l, bl] of s[2]) if (l[2] === v) { this.stat('case'); return this.block(bl, sc); } return s[3] ? this.block(s[3], sc) : null; }
      case 'block': return this.block(s[1], sc);
      case 'for': {
        const my = []; let r = null;
        for (const x of s[1]) { r = this.stmt(x, sc, my); if (r) break; }
        while (!r && this.ev(s[2], sc)) {
          this.tick();
          r = this.block(s[4], sc);
          if (r === 'break') { r = null; break; }
          if (r === 'continue') r = null;
          if (r) break;
          this.stat('iteration');
          r = this.block(s[3], sc);
        }
        for (const n of my) sc.delete(n);
        return r;
      }
      default: return s[0]; // leave, break, continue
    }
  }
  ev(e, sc) { return this.multi(e, sc, 1)[0]; }
  multi(e, sc, n) {
    if (e[0] === 'n') return [e[2]];
    if (e[0] === 'v') { const v = sc.get(e[1]); if (v === undefined) throw new Error(`unknown ${e[1]}`); return [v]; }
    this.tick();
    const a = new Array(e[2].length), strs = e[1] === 'loadimmutable' || e[1] === 'datasize' || e[1] === 'dataoffset' || e[1] === 'linkersymbol';
    if (strs) return [this.named(e[1], e[2][0])];
    for (let i = a.length - 1; i >= 0; i--) a[i] = e[1] === 'setimmutable' && i === 1 ? e[2][1] : this.ev(e[2][i], sc);
    // the memory pointer convention of solc: the word at 64 is used through mload(64) and mstore(64, p) alone
    if (this.o.fmp && (e[1] === 'mload' || e[1] === 'mstore') && e[2][0][0] === 'n' && e[2][0][2] === 64n) {
      if (e[1] === 'mload') return [this.ptr ?? 0n];
      if (a[1] >= 1n << 31n) throw new Discard('large memory pointer'); this.ptr = a[1]; return [];
    }
    const f = this.funcs.get(e[1]);
    if (f) {
      if (++this.depth > 200) throw new Discard('too deep');
      if (a.length !== f.params.length || f.rets.length !== n) throw new Error(`arity of ${f.name}`);
      const ns = new Map(); f.params.forEach((p, i) => ns.set(p, a[i])); for (const r of f.rets) ns.set(r, 0n);
      this.block(f.body, ns); this.depth--; this.stat('user call');
      return f.rets.map((r) => ns.get(r));
    }
    const p = PURE[e[1]]; if (p) return [p(...a)];
    const r = this.builtin(e[1], a);
    if ((r === undefined ? 0 : 1) !== n) throw new Error(`value of ${e[1]}`);
    return r === undefined ? [] : [r];
  }
  // memory
  touch(o, n) { if (n === 0n) return; if (this.o.fmp && o < 96n && o + n > 64n) throw new Discard('memory pointer accessed as memory'); if (o + n > BigInt(this.cap)) throw new Discard('memory'); const s = Math.ceil(Number(o + n) / 32) * 32; if (s > this.size) this.size = s; }
  get(o, n) { this.touch(o, n); return n ? this.mem.slice(Number(o), Number(o + n)) : new Uint8Array(); }
  put(o, bytes) { this.touch(o, BigInt(bytes.length)); if (bytes.length) this.mem.set(bytes, Number(o)); }
  src(data, o, n) { if (n > BigInt(this.cap)) throw new Discard('length'); const r = new Uint8Array(Number(n)); if (o < BigInt(data.length)) r.set(data.subarray(Number(o), Number(o) + Math.min(r.length, data.length - Number(o)))); return r; }
  allcode() { return this.o.deploying ? Uint8Array.from([...this.code, ...this.calldata]) : this.code; }
  next(info) {
    const r = this.script.length ? this.script[this.si++ % this.script.length] : { status: 0, ret: new Uint8Array(), addr: 0xabcdn };
    this.calls.push(info); this.returndata = r.ret || new Uint8Array(); return info.kind.startsWith('create') && 'cstatus' in r ? { ...r, status: r.cstatus } : r;
  }
  named(f, lit) {
    const name = lit[3] ?? lit[1].slice(1, -1);
    if (f === 'loadimmutable') { this.stat('immutable'); return this.imm.get(name) ?? 0n; }
    if (f === 'linkersymbol') { const v = this.o.symbols?.[name]; if (v === undefined) throw new Error(`no symbol ${name}`); this.stat('symbol'); return v; }
    const d = this.o.data?.[name]; if (!d) throw new Error(`no data ${name}`);
    if (f === 'datasize') return BigInt(d.length);
    return DATA + (BigInt(Object.keys(this.o.data).indexOf(name)) << 40n);
  }
  builtin(f, a) {
    const E = this.env;
    if (f in ENV0) return E[ENV0[f]];
    const S = (m, k, v) => { if (v) m.set(k, v); else m.delete(k); };
    switch (f) {
      case 'selfbalance': return E.balances.get(E.address) ?? 0n;
      case 'balance': return E.balances.get(a[0] & ADDR) ?? 0n;
      case 'extcodesize': return BigInt((E.codes.get(a[0] & ADDR) ?? []).length);
      case 'extcodehash': return E.hashes.get(a[0] & ADDR) ?? 0n;
      case 'blockhash': return E.blockhashes.get(a[0] > I64 ? I64 : a[0]) ?? 0n;
      case 'calldatasize': return BigInt(this.calldata.length);
      case 'calldataload': return fromBE(this.src(this.calldata, a[0], 32n));
      case 'calldatacopy': this.put(a[0], this.src(this.calldata, a[1], a[2])); return;
      case 'datacopy': {
        const at = u256(a[1] - DATA), d = at >> 40n < 1000n && this.o.data?.[Object.keys(this.o.data)[Number(at >> 40n)]], k = at & ((1n << 40n) - 1n);
        if (!d || k + a[2] > BigInt(d.length)) throw new Discard('data beyond its end');
        this.stat('datacopy'); this.put(a[0], d.slice(Number(k), Number(k + a[2]))); return;
      }
      case 'codesize': return BigInt(this.allcode().length);
      case 'codecopy': this.put(a[0], this.src(this.allcode(), a[1], a[2])); return;
      case 'extcodecopy': this.put(a[1], this.src(E.codes.get(a[0] & ADDR) ?? new Uint8Array(), a[2], a[3])); return;
      case 'returndatasize': return BigInt(this.returndata.length);
      case 'returndatacopy': if (a[1] + a[2] > BigInt(this.returndata.length)) throw new End('failure', new Uint8Array()); this.put(a[0], this.src(this.returndata, a[1], a[2])); return;
      case 'mload': return fromBE(this.get(a[0], 32n));
      case 'mstore': this.put(a[0], be32(a[1])); return;
      case 'mstore8': this.put(a[0], Uint8Array.of(Number(a[1] & 255n))); return;
      case 'mcopy': { this.touch(a[1], a[2]); this.put(a[0], this.get(a[1], a[2])); return; }
      case 'msize': return BigInt(this.size);
      case 'sload': return this.storage.get(a[0]) ?? 0n;
      case 'sstore': S(this.storage, a[0], a[1]); this.stat('sstore'); return;
      case 'tload': return this.tstorage.get(a[0]) ?? 0n;
      case 'tstore': S(this.tstorage, a[0], a[1]); return;
      case 'keccak256': return fromBE(keccak256(this.get(a[0], a[1])));
      case 'pop': return;
      case 'log0': case 'log1': case 'log2': case 'log3': case 'log4': this.logs.push({ data: hex(this.get(a[0], a[1])), topics: a.slice(2).map(h64) }); return;
      case 'call': case 'delegatecall': case 'staticcall': {
        const v = f === 'call' ? [a[2]] : [], [io, il, oo, ol] = f === 'call' ? a.slice(3) : a.slice(2);
        const data = this.get(io, il); this.touch(oo, ol);
        const r = this.next({ kind: f, gas: a[0] > I64 ? I64 : a[0], to: a[1] & ADDR, ...(v.length ? { value: v[0] } : {}), data: hex(data) });
        if (r.status !== 0 && a[1] & ADDR && (a[1] & ADDR) <= 10n) throw new Discard('failed precompile');
        // Known finding: failed calls with less return data than the output area end the caller.
        if (r.status !== 0 && (r.status !== 1 || r.ret.length < Number(ol))) throw new Discard('failed call with short return data');
        this.put(oo, r.ret.subarray(0, Math.min(r.ret.length, Number(ol)))); this.stat('external call');
        return b(r.status === 0);
      }
      case 'create': case 'create2': {
        // The code carries its length in its first four bytes; constructor arguments follow it.
        const all = this.get(a[1], a[2]), n = all.length < 4 ? -1 : Number(fromBE(all.slice(0, 4))) + 4;
        if (n < 0 || n > all.length) throw new Discard('creation code without its length');
        const r = this.next({ kind: f, value: a[0], code: hex(all.slice(0, n)), data: hex(all.slice(n)), salt: f === 'create2' ? a[3] : 0n });
        if (r.status !== 0) throw new Discard('failed creation');
        this.stat('creation');
        return r.addr & ADDR;
      }
      case 'return': throw new End('return', this.get(a[0], a[1]));
      case 'revert': throw new End('revert', this.get(a[0], a[1]));
      case 'stop': throw new End('return', new Uint8Array());
      case 'invalid': throw new End('invalid', new Uint8Array());
      case 'selfdestruct': throw new End('selfdestruct', be32(a[0] & ADDR));
      case 'memoryguard': return a[0];
      case 'setimmutable': { const k = a[1][3] ?? a[1][1].slice(1, -1); if (this.imm.has(k)) throw new End('revert', Buffer.from('immutable slot already set')); this.imm.set(k, a[2]); return; }
      default: throw new Error(`builtin ${f}`);
    }
  }
  snapshot() {
    const m = (x) => Object.fromEntries([...x].map(([k, v]) => [h64(k), h64(v)]).sort());
    return { storage: m(this.storage), tstorage: m(this.tstorage), logs: this.logs, calls: this.calls };
  }
}
