// Random contracts in the form in which the Solidity compiler emits Yul: a dispatcher over selectors, ABI decoding and
// encoding, checked arithmetic, packed storage, mappings, arrays, byte strings, events, external calls, a constructor
// with arguments and immutables. The text is parsed to the AST of yulref.mjs, so its meaning is that of plain Yul.
import { parse } from './yulparse.mjs';
import { selector, keccak256, be32, fromBE, u256, MASK, ADDR } from './util.mjs';
const ones = (b) => (1n << BigInt(b)) - 1n;
const num = (h) => BigInt('0x' + h);
const H = (x) => '0x' + x.toString(16);
const ERR = { ca: 'revert_error_ca66f745a3ce8ff40e2ccaf1ad45db7774001b90d25810abd9040049be7bf4bb', db: 'revert_error_dbdddcbe895c83990c08b3492a0e83918d802a52331272ac6fdb6a7c4aea3b1b', c1: 'revert_error_c1322bf8034eace5e0b5c7295db60986aa89aae5e0ea0873e4689e076861a5db', x42: 'revert_error_42b3090547df1d2001c96683413b8cf91c1b902ef5e3cb8d9f6f304cf7446f74', b8: 'revert_error_1b9f4a0a5773e33b91aa01db23bf8c55fce1411167c872835e7fa00a4f17d46d', f0: 'revert_error_0cc013b6b3b6beabea4e3a74a6d380f0df81852ca99887912475e1f66b2a2c20' };
const PANIC = (k) => `function panic_error_${k}() { mstore(0, ${(0x4e487b71n << 224n)}) mstore(4, ${k}) revert(0, 0x24) }`;
// value types: bits kept, signed or left-aligned
const T = {};
for (const b of [8, 16, 32, 64, 96, 128, 160, 248, 256]) { T['uint' + b] = { bits: b }; T['int' + b] = { bits: b, s: true }; }
Object.assign(T, { address: { bits: 160 }, bool: { bits: 8, bool: true }, bytes32: { bits: 256, left: 32 }, bytes4: { bits: 32, left: 4 }, bytes1: { bits: 8, left: 1 } });
export const TYPES = Object.keys(T);
const isNum = (t) => /^u?int/.test(t);
// Text of helper functions, added to the contract when used. V: verbose, as without the optimizer.
class Out {
  constructor(R, verbose) { this.R = R; this.V = verbose; this.fns = new Map(); this.n = 0; }
  def(name, text) { if (!this.fns.has(name)) { this.fns.set(name, ''); this.fns.set(name, text()); } return name; }
  tmp(p = 'expr') { this.n++; return this.V ? `${p}_${this.n}` : `_${this.n}`; }
  err(k) { return this.def(ERR[k], () => `function ${ERR[k]}() { revert(0, 0) }`); }
  rev0(k = 'ca') { return this.V || this.R.p(0.2) ? `${this.err(k)}()` : 'revert(0, 0)'; }
  panic(k) { return this.def('panic_error_' + k, () => PANIC(k)) + '()'; }
  unbounded() { return this.V ? this.def('allocate_unbounded', () => 'function allocate_unbounded() -> memPtr { memPtr := mload(64) }') + '()' : 'mload(64)'; }
  mask(b) { return this.R.p(this.V ? 0.9 : 0.3) ? H(ones(b)) : `sub(shl(${b}, 1), 1)`; }
  cleanExpr(t, v) { const x = T[t]; if (x.bits === 256) return v; if (x.bool) return `iszero(iszero(${v}))`; if (x.s) return `signextend(${x.bits / 8 - 1}, ${v})`; if (x.left) return `and(${v}, ${this.R.p(0.5) ? H(ones(x.bits) << BigInt(256 - x.bits)) : `shl(${256 - x.bits}, ${H(ones(x.bits))})`})`; return `and(${v}, ${this.mask(x.bits)})`; }
  clean(t, v) {
    if (!this.V) return T[t].bits === 256 ? v : this.cleanExpr(t, v);
    if (t === 'address') this.def('cleanup_t_uint160', () => `function cleanup_t_uint160(value) -> cleaned { cleaned := and(value, ${H(ADDR)}) }`);
    return this.def(`cleanup_t_${t}`, () => `function cleanup_t_${t}(value) -> cleaned { cleaned := ${t === 'address' ? 'cleanup_t_uint160(value)' : this.cleanExpr(t, 'value')} }`) + `(${v})`;
  }
  convert(a, b, v) { return this.V ? this.def(`convert_t_${a}_to_t_${b}`, () => `function convert_t_${a}_to_t_${b}(value) -> converted { converted := ${this.clean(b, T[a].bits < 256 ? this.clean(a, 'value') : 'value')} }`) + `(${v})` : T[b].bits < T[a].bits || T[a].s !== T[b].s ? this.clean(b, v) : v; }
  // reading an argument from call data, rejecting values out of its type
  decode1(t, off) {
    const bad = this.V ? this.rev0() : this.rev0();
    const val = this.def(`validator_revert_t_${t}`, () => `function validator_revert_t_${t}(value) { if iszero(eq(value, ${this.clean(t, 'value')})) { ${bad} } }`);
    const f = `abi_decode_t_${t}`;
    if (this.V || this.R.p(0.3)) return this.def(f, () => `function ${f}(offset, end) -> value { value := calldataload(offset) ${val}(value) }`) + `(${off}, dataEnd)`;
    const g = t === 'address' ? 'abi_decode_address' : `abi_decode_${t}`;
    return this.def(g, () => `function ${g}(offset) -> value { value := calldataload(offset) ${T[t].bits === 256 ? '' : `if iszero(eq(value, ${this.clean(t, 'value')})) { ${this.rev0()} }`} }`) + `(${off})`;
  }
  decodeTuple(ts, from = 'calldata') {
    if (!ts.length) return null;
    const name = `abi_decode_tuple_${ts.map((t) => 't_' + t.replace('[]', '_array').replace('string', 'string_memory_ptr').replace('bytes_', 'bytes_memory_ptr')).join('')}${from === 'memory' ? '_fromMemory' : ''}`;
    return this.def(name, () => {
      const rs = ts.map((_, i) => `value${i}`);
      const body = ts.map((t, i) => (t === 'string' ? `{ let offset := calldataload(add(headStart, ${32 * i})) if gt(offset, 0xffffffffffffffff) { ${this.rev0('c1')} } value${i} := ${this.decodeString()}(add(headStart, offset), dataEnd) }`
        : t === 'uint256[]' ? `{ let offset := calldataload(add(headStart, ${32 * i})) if gt(offset, 0xffffffffffffffff) { ${this.rev0('c1')} } value${i} := ${this.decodeArray()}(add(headStart, offset), dataEnd) }`
          : from === 'memory' ? `{ let offset := ${32 * i} value${i} := mload(add(headStart, offset)) if iszero(eq(value${i}, ${this.clean(t, `value${i}`)})) { ${this.rev0()} } }`
            : this.V || this.R.p(0.5) ? `{ let offset := ${32 * i} value${i} := ${this.decode1(t, 'add(headStart, offset)')} }` : `value${i} := ${this.decode1(t, i ? `add(headStart, ${32 * i})` : 'headStart')}`)).join('\n');
      return `function ${name}(headStart, dataEnd) -> ${rs.join(', ')} { if slt(sub(dataEnd, headStart), ${32 * ts.length}) { ${this.rev0('db')} } ${body} }`;
    });
  }
  roundUp() { return this.def('round_up_to_mul_of_32', () => `function round_up_to_mul_of_32(value) -> result { result := and(add(value, 31), ${this.R.p(0.5) ? 'not(31)' : H(MASK ^ 31n)}) }`); }
  finalize() { return this.def('finalize_allocation', () => `function finalize_allocation(memPtr, size) { let newFreePtr := add(memPtr, ${this.V ? `${this.roundUp()}(size)` : 'and(add(size, 31), not(31))'}) if or(gt(newFreePtr, 0xffffffffffffffff), lt(newFreePtr, memPtr)) { ${this.panic('0x41')} } mstore(64, newFreePtr) }`); }
  allocate() { return this.def('allocate_memory', () => `function allocate_memory(size) -> memPtr { memPtr := ${this.unbounded()} ${this.finalize()}(memPtr, size) }`); }
  decodeString() {
    return this.def('abi_decode_t_string_memory_ptr', () => `function abi_decode_t_string_memory_ptr(offset, end) -> array { if iszero(slt(add(offset, 0x1f), end)) { ${this.rev0(this.V ? 'b8' : 'ca')} } let length := calldataload(offset)
      if gt(length, 0xffffffffffffffff) { ${this.panic('0x41')} } array := ${this.allocate()}(add(${this.roundUp()}(length), 0x20)) mstore(array, length) let src := add(offset, 0x20) let dst := add(array, 0x20)
      if gt(add(src, length), end) { ${this.rev0(this.V ? 'f0' : 'ca')} } calldatacopy(dst, src, length) mstore(add(dst, length), 0) }`);
  }
  decodeArray() {
    return this.def('abi_decode_t_array_t_uint256_dyn_memory_ptr', () => `function abi_decode_t_array_t_uint256_dyn_memory_ptr(offset, end) -> array { if iszero(slt(add(offset, 0x1f), end)) { ${this.rev0()} } let length := calldataload(offset)
      if gt(length, 0xffffffffffffffff) { ${this.panic('0x41')} } let size := mul(length, 0x20) array := ${this.allocate()}(add(size, 0x20)) mstore(array, length) let src := add(offset, 0x20) let srcEnd := add(src, size) if gt(srcEnd, end) { ${this.rev0()} }
      let dst := add(array, 0x20) for { } lt(src, srcEnd) { src := add(src, 0x20) } { let elementPos := src mstore(dst, calldataload(elementPos)) dst := add(dst, 0x20) } }`);
  }
  encode1(t, v, pos) {
    if (!this.V) return `mstore(${pos}, ${this.clean(t, v)})`;
    return this.def(`abi_encode_t_${t}_to_t_${t}_fromStack`, () => `function abi_encode_t_${t}_to_t_${t}_fromStack(value, pos) { mstore(pos, ${this.clean(t, 'value')}) }`) + `(${v}, ${pos})`;
  }
  copyMem() { return this.def('copy_memory_to_memory_with_cleanup', () => (this.R.p(0.3) ? 'function copy_memory_to_memory_with_cleanup(src, dst, length) { mcopy(dst, src, length) mstore(add(dst, length), 0) }' : `function copy_memory_to_memory_with_cleanup(src, dst, length) { let i := 0 for { } lt(i, length) { i := add(i, 32) } { mstore(add(dst, i), mload(add(src, i))) } ${this.V ? 'mstore(add(dst, length), 0)' : 'if gt(i, length) { mstore(add(dst, length), 0) }'} }`)); }
  encodeTuple(ts) {
    const nm = `abi_encode_tuple_${ts.map((t) => 't_' + (t === 'string' ? 'string_memory_ptr' : t === 'uint256[]' ? 'array' : t)).join('_')}__to_${ts.map((t) => 't_' + (t === 'uint256[]' ? 'array' : t)).join('_')}__fromStack${ts.length ? '' : 'empty'}`;
    return this.def(nm, () => {
      const n = 32 * ts.length, dyn = ts.some((t) => t === 'string' || t === 'uint256[]');
      const body = ts.map((t, i) => (t === 'string' ? `mstore(add(headStart, ${32 * i}), sub(tail, headStart)) { let length := mload(value${i}) mstore(tail, length) ${this.copyMem()}(add(value${i}, 0x20), add(tail, 0x20), length) tail := add(add(tail, 0x20), ${this.roundUp()}(length)) }`
        : t === 'uint256[]' ? `mstore(add(headStart, ${32 * i}), sub(tail, headStart)) { let length := mload(value${i}) mstore(tail, length) let pos := add(tail, 0x20) let srcPtr := add(value${i}, 0x20) let i := 0 for { } lt(i, length) { i := add(i, 1) } { mstore(pos, mload(srcPtr)) srcPtr := add(srcPtr, 0x20) pos := add(pos, 0x20) } tail := pos }`
          : this.encode1(t, `value${i}`, this.V || i ? `add(headStart, ${32 * i})` : 'headStart'))).join('\n');
      const vs = ts.map((_, i) => `value${i}`); if (this.R.p(0.5)) vs.reverse();
      this.order ??= new Map(); this.order.set(nm, vs.map((v) => +v.slice(5)));
      return `function ${nm}(headStart${vs.map((v) => ', ' + v).join('')}) -> tail { tail := add(headStart, ${n}) ${dyn || ts.length ? body : ''} }`;
    });
  }
  encodeCall(ts, vs, head) { const f = this.encodeTuple(ts); return `${f}(${[head, ...this.order.get(f).map((i) => vs[i])].join(', ')})`; }
  // checked arithmetic of Solidity
  arith(op, t, a, b) {
    const { bits, s } = T[t], c = (x) => this.clean(t, x), full = bits === 256;
    const min = H(u256(-(1n << BigInt(bits - 1)))), max = H(s ? ones(bits - 1) : ones(bits)), p11 = this.panic('0x11');
    const names = { add: 'checked_add', sub: 'checked_sub', mul: 'checked_mul', div: 'checked_div', mod: 'mod' }, f = `${names[op]}_t_${t}`;
    return this.def(f, () => {
      const pre = `x := ${c('x')} y := ${c('y')}`; let r;
      if (op === 'add') r = s ? (full ? `r := add(x, y) if or(and(iszero(slt(x, 0)), slt(r, y)), and(slt(x, 0), iszero(slt(r, y)))) { ${p11} }` : `r := add(x, y) if or(sgt(r, ${max}), slt(r, ${min})) { ${p11} }`) : `r := add(x, y) if gt(${full ? 'x, r' : `r, ${max}`}) { ${p11} }`;
      else if (op === 'sub') r = s ? (full ? `r := sub(x, y) if or(and(iszero(slt(y, 0)), sgt(r, x)), and(slt(y, 0), slt(r, x))) { ${p11} }` : `r := sub(x, y) if or(slt(r, ${min}), sgt(r, ${max})) { ${p11} }`) : `r := sub(x, y) if gt(r, ${full ? 'x' : max}) { ${p11} }`;
      else if (op === 'mul') r = s ? `let product_raw := mul(x, y) r := ${c('product_raw')} ${full ? `if and(slt(x, 0), eq(y, ${min})) { ${p11} }` : ''} if iszero(or(iszero(x), eq(y, sdiv(r, x)))) { ${p11} }` : full ? `let product_raw := mul(x, y) r := ${c('product_raw')} if iszero(or(iszero(x), eq(y, div(r, x)))) { ${p11} }` : `let product_raw := mul(x, y) r := ${c('product_raw')} if iszero(eq(r, product_raw)) { ${p11} }`;
      else if (op === 'div') r = `if iszero(y) { ${this.panic('0x12')} } ${s ? `if and(eq(x, ${min}), eq(y, sub(0, 1))) { ${p11} } r := sdiv(x, y)` : 'r := div(x, y)'}`;
      else r = `if iszero(y) { ${this.panic('0x12')} } r := ${s ? 'smod' : 'mod'}(x, y)`;
      return `function ${f}(x, y) -> r { ${pre} ${r} }`;
    }) + `(${a}, ${b})`;
  }
  exp(a, b) {
    this.def('checked_exp_helper', () => `function checked_exp_helper(_power, _base, exponent, max) -> power, base { power := _power base := _base for { } gt(exponent, 1) { } { if gt(base, div(max, base)) { ${this.panic('0x11')} } if and(exponent, 1) { power := mul(power, base) } base := mul(base, base) exponent := shr(1, exponent) } }`);
    return this.def('checked_exp_unsigned', () => `function checked_exp_unsigned(base, exponent, max) -> power { if iszero(exponent) { power := 1 leave } if iszero(base) { power := 0 leave } switch base case 1 { power := 1 leave } case 2 { if gt(exponent, 255) { ${this.panic('0x11')} } power := exp(2, exponent) if gt(power, max) { ${this.panic('0x11')} } leave }
      if or(and(lt(base, 11), lt(exponent, 78)), and(lt(base, 307), lt(exponent, 32))) { power := exp(base, exponent) if gt(power, max) { ${this.panic('0x11')} } leave } power, base := checked_exp_helper(1, base, exponent, max) if gt(power, div(max, base)) { ${this.panic('0x11')} } power := mul(power, base) }`) + `(${a}, ${b}, ${H(MASK)})`;
  }
  require(cond, msg) {
    const k = selector(`e(${msg})`);
    const f = this.def(`require_helper_t_stringliteral_${k}`, () => {
      const b = Buffer.from(msg), ws = []; for (let i = 0; i < b.length; i += 32) ws.push(fromBE(Uint8Array.from([...b.subarray(i, i + 32), ...new Uint8Array(32)]).slice(0, 32)));
      const lit = (w, i) => (this.R.p(0.5) ? `"${msg.slice(32 * i, 32 * i + 32)}"` : H(w));
      return `function require_helper_t_stringliteral_${k}(condition) { if iszero(condition) { let memPtr := ${this.unbounded()} mstore(memPtr, ${this.R.p(0.5) ? String(0x08c379a0n << 224n) : 'shl(229, 4594637)'}) mstore(add(memPtr, 4), 32) mstore(add(memPtr, 36), ${b.length}) ${ws.map((w, i) => `mstore(add(memPtr, ${68 + 32 * i}), ${lit(w, i)})`).join(' ')} revert(memPtr, ${68 + 32 * ws.length}) } }`;
    });
    return `${f}(${cond})`;
  }
  // storage
  load(v) {
    if (v.off === undefined || T[v.t].bits === 256) return v.off === undefined ? null : this.V ? this.readFn(v) : `sload(${v.slot})`;
    if (this.V) return this.readFn(v);
    const raw = v.off ? (this.R.p(0.5) ? `shr(${8 * v.off}, sload(${v.slot}))` : `div(sload(${v.slot}), ${H(1n << BigInt(8 * v.off))})`) : `sload(${v.slot})`;
    return this.fromSlot(v.t, raw);
  }
  fromSlot(t, raw) { const x = T[t]; return x.left && x.left < 32 ? `shl(${256 - x.bits}, ${raw})` : x.bool ? `and(${raw}, 0xff)` : x.bits === 256 ? raw : this.cleanExpr(t, raw); }
  readFn(v) {
    const ex = this.def(`extract_from_storage_value_offset_${v.off}t_${v.t}`, () => `function extract_from_storage_value_offset_${v.off}t_${v.t}(slot_value) -> value { value := ${this.fromSlot(v.t, `shr(${8 * v.off}, slot_value)`)} }`);
    return this.def(`read_from_storage_split_offset_${v.off}_t_${v.t}`, () => `function read_from_storage_split_offset_${v.off}_t_${v.t}(slot) -> value { value := ${ex}(sload(slot)) }`) + `(${v.slot})`;
  }
  store(v, e) {
    const { t, off } = v, x = T[t], prep = (w) => (x.left && x.left < 32 ? `shr(${256 - x.bits}, ${w})` : w), m = ones(x.bits) << BigInt(8 * off);
    if (x.bits === 256 && !this.V) return `sstore(${v.slot}, ${e})`;
    if (!this.V && this.R.p(0.6)) {
      const kept = `and(sload(${v.slot}), ${this.R.p(0.5) ? H(MASK ^ m) : `not(${H(m)})`})`, w = prep(this.clean(t, e));
      return `sstore(${v.slot}, or(${kept}, ${off ? `and(shl(${8 * off}, ${w}), ${H(m)})` : `and(${w}, ${H(m)})`}))`;
    }
    const ub = this.def(`update_byte_slice_${x.bits / 8}_shift_${off}`, () => `function update_byte_slice_${x.bits / 8}_shift_${off}(value, toInsert) -> result { let mask := ${H(m)} toInsert := shl(${8 * off}, toInsert) value := and(value, not(mask)) result := or(value, and(toInsert, mask)) }`);
    return this.def(`update_storage_value_offset_${off}t_${t}_to_t_${t}`, () => `function update_storage_value_offset_${off}t_${t}_to_t_${t}(slot, value_0) { let convertedValue_0 := ${this.convert(t, t, 'value_0')} sstore(slot, ${ub}(sload(slot), ${prep('convertedValue_0')})) }`) + `(${v.slot}, ${e})`;
  }
  mapSlot(base, key, kt) {
    if (this.V || this.R.p(0.3)) return this.def(`mapping_index_access_t_mapping$_t_${kt}_$_of_t_${kt}`, () => `function mapping_index_access_t_mapping$_t_${kt}_$_of_t_${kt}(slot, key) -> dataSlot { mstore(0, ${this.clean(kt, 'key')}) mstore(0x20, slot) dataSlot := keccak256(0, 0x40) }`) + `(${base}, ${key})`;
    return this.def(`mapping_index_access_${kt}`, () => `function mapping_index_access_${kt}(slot, key) -> dataSlot { mstore(0, ${this.clean(kt, 'key')}) mstore(32, slot) dataSlot := keccak256(0, 64) }`) + `(${base}, ${key})`;
  }
  arraySlot(base, index) {
    return this.def('storage_array_index_access_t_array$_t_uint256_$dyn_storage', () => `function storage_array_index_access_t_array$_t_uint256_$dyn_storage(array, index) -> slot, offset { let arrayLength := sload(array) if iszero(lt(index, arrayLength)) { ${this.panic('0x32')} } mstore(0, array) slot := add(keccak256(0, 0x20), index) offset := 0 }`) + `(${base}, ${index})`;
  }
  byteLength() { return this.def('extract_byte_array_length', () => `function extract_byte_array_length(data) -> length { length := ${this.R.p(0.5) ? 'div(data, 2)' : 'shr(1, data)'} let outOfPlaceEncoding := and(data, 1) if iszero(outOfPlaceEncoding) { length := and(length, 0x7f) } if eq(outOfPlaceEncoding, lt(length, 32)) { ${this.panic('0x22')} } }`); }
  stringLoad() {
    return this.def('copy_array_from_storage_to_memory_t_string_storage', () => `function copy_array_from_storage_to_memory_t_string_storage(slot) -> memPtr { memPtr := ${this.unbounded()} let slotValue := sload(slot) let length := ${this.byteLength()}(slotValue) mstore(memPtr, length) let pos := add(memPtr, 0x20) let end
      switch and(slotValue, 1) case 0 { mstore(pos, and(slotValue, not(0xff))) end := add(pos, mul(0x20, iszero(iszero(length)))) } case 1 { mstore(0, slot) let dataPos := keccak256(0, 0x20) let i := 0 for { } lt(i, length) { i := add(i, 0x20) } { mstore(add(pos, i), sload(dataPos)) dataPos := add(dataPos, 1) } end := add(pos, i) }
      ${this.finalize()}(memPtr, sub(end, memPtr)) }`);
  }
  stringStore() {
    return this.def('copy_byte_array_to_storage_from_t_string_memory_ptr_to_t_string_storage', () => `function copy_byte_array_to_storage_from_t_string_memory_ptr_to_t_string_storage(slot, src) { let newLen := mload(src) if gt(newLen, 0xffffffffffffffff) { ${this.panic('0x41')} } let oldLen := ${this.byteLength()}(sload(slot))
      if gt(oldLen, 31) { mstore(0, slot) let data := keccak256(0, 0x20) let start := add(data, shr(5, add(newLen, 31))) if lt(newLen, 0x20) { start := data } let finish := add(data, shr(5, add(oldLen, 31))) for { } lt(start, finish) { start := add(start, 1) } { sstore(start, 0) } }
      let srcOffset := 0x20 switch gt(newLen, 31) case 1 { let loopEnd := and(newLen, not(0x1f)) mstore(0, slot) let dstPtr := keccak256(0, 0x20) let i := 0 for { } lt(i, loopEnd) { i := add(i, 0x20) } { sstore(dstPtr, mload(add(src, srcOffset))) dstPtr := add(dstPtr, 1) srcOffset := add(srcOffset, 32) }
        if lt(loopEnd, newLen) { let lastValue := mload(add(src, srcOffset)) sstore(dstPtr, and(lastValue, not(shr(mul(8, and(newLen, 0x1f)), not(0))))) } sstore(slot, add(mul(newLen, 2), 1)) }
      default { let value := 0 if newLen { value := mload(add(src, srcOffset)) } sstore(slot, or(and(value, not(shr(mul(8, newLen), not(0)))), mul(2, newLen))) } }`);
  }
  forward() { return this.def('revert_forward_1', () => `function revert_forward_1() { let pos := ${this.unbounded()} returndatacopy(pos, 0, returndatasize()) revert(pos, returndatasize()) }`) + '()'; }
}
// One contract: {prog, deploy, methods: [{sel, ts}], ctor types, imms}
export function contract(R) {
  const name = R.pick(['C_77', 'MyToken_541', 'Vault_3', 'ERC20_9', 'Counter_1']), V = R.p(0.5), o = new Out(R, V), full = new Set(['uint256', 'int256', 'bytes32']);
  const vt = () => R.weighted([[4, 'uint256'], [3, 'address'], [2, 'bool'], [2, 'int256'], [1, 'bytes32'], [4, R.pick(TYPES)]]);
  // state variables, packed into slots as Solidity does
  const vars = []; let slot = 0, off = 0;
  for (let k = R.int(2, 6); k > 0; k--) { const t = vt(), n = T[t].bits / 8; if (off + n > 32) { slot++; off = 0; } vars.push({ t, slot, off }); off += n; if (off === 32) { slot++; off = 0; } }
  if (off) slot++;
  const maps = Array.from({ length: R.int(1, 2) }, () => ({ kt: R.pick(['address', 'address', 'uint256', 'bytes32']), t: R.pick(['uint256', 'uint256', 'bool', 'address', 'int64', 'uint128']), nested: R.p(0.4), slot: slot++ }));
  const arr = { slot: slot++ }, str = { slot: slot++ };
  const imms = Array.from({ length: R.int(0, 3) }, (_, i) => ({ id: String(R.pick([5, 12, 31, 777]) + i), t: vt() })).filter((x, i, a) => a.findIndex((y) => y.id === x.id) === i);
  const numVars = vars.filter((v) => isNum(v.t));
  const methods = []; let body = '';
  // an expression of a type over the parameters
  const ex = (t, ps, d) => {
    const have = ps.filter((p) => p.t === t), num = isNum(t);
    if (d <= 0 || R.p(0.2)) return R.weighted([[have.length ? 6 : 0, () => R.pick(have).n], [2, () => { const vs = vars.filter((v) => v.t === t); return vs.length ? o.load(R.pick(vs)) : konst(t); }], [2, () => konst(t)], [t === 'address' ? 2 : 0, () => 'caller()'], [t === 'uint256' ? 1 : 0, () => R.pick(['timestamp()', 'number()', 'callvalue()', 'gas()', 'chainid()', 'selfbalance()'].slice(0, 3))], [imms.some((x) => x.t === t) ? 6 : 0, () => `loadimmutable("${R.pick(imms.filter((x) => x.t === t)).id}")`]])();
    const m = maps.filter((x) => x.t === t && !x.nested);
    return R.weighted([
      [num ? 8 : 0, () => o.arith(R.pick(['add', 'add', 'sub', 'sub', 'mul', 'div', 'mod']), t, ex(t, ps, d - 1), ex(t, ps, d - 1))],
      [num ? 2 : 0, () => o.clean(t, `${R.pick(['add', 'sub', 'mul', 'xor', 'or', 'and'])}(${ex(t, ps, d - 1)}, ${ex(t, ps, d - 1)})`)],
      [t === 'uint256' ? 1 : 0, () => o.exp(ex(t, ps, d - 1), `and(${ex(t, ps, 0)}, ${R.pick([3, 15, 255])})`)],
      [num ? 1 : 0, () => `${o.clean(t, `${R.pick(T[t].s ? ['sar', 'shl'] : ['shr', 'shl'])}(${R.p(0.5) ? R.int(0, 70) : `and(${ex(t, ps, 0)}, 0xff)`}, ${ex(t, ps, d - 1)})`)}`],
      [num ? 2 : 0, () => { const a = R.pick(TYPES.filter(isNum)); return o.convert(a, t, ex(a, ps, d - 1)); }],
      [m.length ? 4 : 0, () => { const x = R.pick(m); return o.fromSlot(t, `sload(${o.mapSlot(x.slot, ex(x.kt, ps, 0), x.kt)})`); }],
      [t === 'bool' ? 8 : 0, () => cond(ps, d - 1)],
      [t === 'bytes32' ? 3 : 0, () => hash(ps, d - 1)],
      [t === 'uint256' ? 2 : 0, () => sum(ps)],
      [t === 'uint256' ? 1 : 0, () => `sload(${arr.slot})`],
      [2, () => ex(t, ps, 0)],
    ])();
  };
  const konst = (t) => { const x = T[t], v = R.word(); if (x.bool) return R.p(0.5) ? 'true' : R.pick(['0', '1', '0x01', '0x00']); if (x.left) return H((v & ones(x.bits)) << BigInt(256 - x.bits)); const k = R.p(0.6) ? BigInt(R.int(0, 20)) : x.s ? (v & 1n ? u256(-((v >> 1n) & ones(x.bits - 1))) : (v >> 1n) & ones(x.bits - 1)) : v & ones(x.bits); return R.p(0.5) ? H(k) : String(k); };
  const cond = (ps, d) => { const t = R.pick(['uint256', 'address', 'int256', ...(ps.length ? ps.map((p) => p.t) : []), R.pick(TYPES)]), a = ex(t, ps, d), b = ex(t, ps, d), c = (x) => (V ? o.clean(t, x) : x);
    const r = isNum(t) ? R.pick([`${T[t].s ? 'slt' : 'lt'}(${c(a)}, ${c(b)})`, `${T[t].s ? 'sgt' : 'gt'}(${c(a)}, ${c(b)})`, `iszero(${T[t].s ? 'sgt' : 'gt'}(${c(a)}, ${c(b)}))`, `eq(${c(a)}, ${c(b)})`]) : t === 'bool' ? R.pick([a, `iszero(${c(a)})`, `and(${c(a)}, ${c(b)})`]) : `eq(${c(a)}, ${c(b)})`;
    return R.p(0.2) ? `iszero(${r})` : r; };
  const hash = (ps, d) => { const ts = [vt(), vt()].slice(0, R.int(1, 2)); const f = `hash_${ts.join('_')}`; o.def(f, () => `function ${f}(${ts.map((_, i) => `v${i}`).join(', ')}) -> r { let p := ${o.unbounded()} ${ts.map((t, i) => `mstore(add(p, ${32 * i}), ${o.clean(t, `v${i}`)})`).join(' ')} r := keccak256(p, ${32 * ts.length}) }`); return `${f}(${ts.map((t) => ex(t, ps, d)).join(', ')})`; };
  const sum = () => { o.def('fun_sum', () => `function fun_sum() -> var_s { let var_i := 0 for { } 1 { var_i := ${o.arith('add', 'uint256', 'var_i', '1')} } { let expr := lt(var_i, sload(${arr.slot})) if iszero(expr) { break } let _1, _2 := ${o.arraySlot(arr.slot, 'var_i')} var_s := ${R.p(0.5) ? o.arith('add', 'uint256', 'var_s', 'sload(_1)') : 'add(var_s, sload(_1))'} } }`); return 'fun_sum()'; };
  const event = (ps) => { const k = R.int(0, 3), ts = Array.from({ length: k }, vt), ds = Array.from({ length: R.int(0, 3) }, vt), p = o.tmp(), q = o.tmp(), sig = fromBE(keccak256(Buffer.from(`E(${ts})${ds}`)));
    const vals = ds.map((t) => [o.tmp(), ex(t, ps, 1)]), topics = ts.map((t) => [o.tmp(), ex(t, ps, 1)]);
    return `${[...topics, ...vals].map(([n, e]) => `let ${n} := ${e}`).join(' ')} let ${p} := ${o.unbounded()} let ${q} := ${o.encodeCall(ds, vals.map((v) => v[0]), p)} log${k + 1}(${[p, `sub(${q}, ${p})`, H(sig), ...topics.map(([n], i) => o.clean(ts[i], n))].join(', ')})`; };
  const outside = (ps) => { const p = o.tmp(), q = o.tmp(), r = o.tmp(), a = o.tmp('addr'), kind = R.pick(['call', 'call', 'staticcall', 'delegatecall']), t = R.pick(['uint256', 'bool', 'address', 'bytes32']), ts = Array.from({ length: R.int(0, 3) }, vt), vs = ts.map((x) => [o.tmp(), ex(x, ps, 1)]), v = o.tmp();
    const sel = num(selector(`ext${R.int(0, 9)}(${ts})`)), check = R.p(0.15) ? `if iszero(extcodesize(${a})) { ${o.rev0('x42')} }` : '';
    return `let ${a} := ${ex('address', ps, 0)} ${check} ${vs.map(([n, e]) => `let ${n} := ${e}`).join(' ')} let ${p} := ${o.unbounded()} mstore(${p}, ${R.p(0.5) ? H(sel << 224n) : `shl(224, ${H(sel)})`}) let ${q} := ${o.encodeCall(ts, vs.map((x) => x[0]), `add(${p}, 4)`)}
      let ${r} := ${kind}(gas(), ${a}${kind === 'call' ? `, ${R.p(0.7) ? 0 : 'callvalue()'}` : ''}, ${p}, sub(${q}, ${p}), ${p}, 0x20) if iszero(${r}) { ${o.forward()} } let ${v} := 0 if ${r} { let size := 0x20 if gt(size, returndatasize()) { size := returndatasize() } ${o.finalize()}(${p}, size) ${v} := ${o.decodeTuple([t], 'memory')}(${p}, add(${p}, size)) }
      ${numVars.length && R.p(0.5) ? o.store(numVars[0], o.clean(numVars[0].t, v)) : `sstore(${90 + R.int(0, 5)}, ${v})`}`; };
  const assign = (ps) => { const k = R.int(0, 9);
    if (k < 4) { const v = R.pick(vars); return o.store(v, ex(v.t, ps, 2)); }
    if (k < 7) { const m = R.pick(maps), key = ex(m.kt, ps, 0), s = m.nested ? o.mapSlot(o.mapSlot(m.slot, ex('address', ps, 0), 'address'), key, m.kt) : o.mapSlot(m.slot, key, m.kt), n = o.tmp('slot'); const w = { t: m.t, slot: n, off: 0 };
      return `let ${n} := ${s} ${isNum(m.t) && R.p(0.6) ? o.store(w, o.arith(R.pick(['add', 'sub']), m.t, o.fromSlot(m.t, `sload(${n})`), ex(m.t, ps, 1))) : o.store(w, ex(m.t, ps, 1))}`; }
    if (k < 8) { const l = o.tmp('len'), e = o.tmp(); return `let ${e} := ${ex('uint256', ps, 1)} let ${l} := sload(${arr.slot}) if iszero(lt(${l}, 12)) { ${o.panic('0x41')} } sstore(${arr.slot}, add(${l}, 1)) mstore(0, ${arr.slot}) sstore(add(keccak256(0, 0x20), ${l}), ${e})`; }
    if (k < 9) { const a = o.tmp(), b = o.tmp(); return `let ${a}, ${b} := ${o.arraySlot(arr.slot, R.p(0.5) ? R.int(0, 3) : ex('uint256', ps, 0))} sstore(${a}, ${ex('uint256', ps, 1)})`; }
    const l = o.tmp('len'), s = o.tmp(); return `let ${l} := sload(${arr.slot}) if iszero(${l}) { ${o.panic('0x31')} } ${l} := sub(${l}, 1) mstore(0, ${arr.slot}) let ${s} := add(keccak256(0, 0x20), ${l}) sstore(${s}, 0) sstore(${arr.slot}, ${l})`; };
  const stmts = (ps, d) => { let r = ''; for (let k = R.int(1, 3); k > 0; k--) r += ' ' + R.weighted([
    [6, () => assign(ps)], [2, () => `{ ${event(ps)} }`], [1, () => `{ ${outside(ps)} }`], [2, () => o.require(cond(ps, 1), R.pick(['no', 'Insufficient balance', 'Ownable: caller is not the owner', 'ERC20: transfer amount exceeds balance of the account']))], [1, () => `if iszero(${cond(ps, 1)}) { let p := ${o.unbounded()} mstore(p, shl(224, ${H(num(selector('E' + R.int(0, 9) + '(uint256)')))})) mstore(add(p, 4), ${ex('uint256', ps, 0)}) revert(p, 36) }`],
    [d > 0 ? 2 : 0, () => `if ${cond(ps, 1)} { ${stmts(ps, d - 1)} }`], [d > 0 ? 1 : 0, () => `switch ${cond(ps, 1)} case 0 { ${stmts(ps, d - 1)} } default { ${stmts(ps, d - 1)} }`],
    [d > 0 ? 1 : 0, () => { const i = o.tmp('var_i'); return `{ let ${i} := 0 for { } lt(${i}, ${R.p(0.5) ? R.int(1, 4) : `and(${ex('uint256', ps, 0)}, 3)`}) { ${i} := ${V ? o.def('increment_t_uint256', () => `function increment_t_uint256(value) -> ret { value := ${o.clean('uint256', 'value')} if eq(value, ${H(MASK)}) { ${o.panic('0x11')} } ret := add(value, 1) }`) + `(${i})` : `add(${i}, 1)`} } { ${R.p(0.3) ? `if ${cond([...ps, { t: 'uint256', n: i }], 0)} { ${R.pick(['break', 'continue'])} }` : ''} ${stmts([...ps, { t: 'uint256', n: i }], 0)} } }`; }],
  ])(); return r; };
  const used = new Set();
  const method = (k) => {
    const kind = R.weighted([[6, 'plain'], [2, 'getter'], [1, 'string'], [1, 'setString'], [1, 'array'], [1, 'payable']]), ts = kind === 'getter' || kind === 'string' ? [] : kind === 'setString' ? R.p(0.5) ? ['string'] : ['uint256', 'string'] : kind === 'array' ? ['uint256[]', 'uint256'].slice(0, R.int(1, 2)) : Array.from({ length: R.int(0, 4) }, vt);
    const fn = `${R.pick(['set', ts.length === 3 ? 'setOwner' : 'transferOwner', 'swap', 'mint', 'get', 'approve', 'burn', 'f'])}${k}`, sel = num(selector(`${fn}(${ts})`)); if (used.has(sel)) return; used.add(sel);
    const ps = ts.map((t, i) => ({ t, n: `var_${'abcdef'[i]}_${10 + i}` })), rt = kind === 'string' || kind === 'setString' ? (R.p(0.7) ? ['string'] : []) : kind === 'array' ? R.pick([[], ['uint256'], ['uint256[]']]) : kind === 'getter' ? [R.pick(vars).t] : Array.from({ length: R.weighted([[3, 0], [5, 1], [2, 2], [1, 3]]) }, vt);
    const rs = rt.map((_, i) => `var_r${i}`);
    let b;
    if (kind === 'string') b = rt.length ? `var_r0 := ${o.stringLoad()}(${str.slot})` : '';
    else if (kind === 'setString') b = `${o.stringStore()}(${str.slot}, ${ps.at(-1).n}) ${rt.length ? `var_r0 := ${R.p(0.5) ? ps.at(-1).n : `${o.stringLoad()}(${str.slot})`}` : ''}`;
    else if (kind === 'array') { const s = o.tmp('sum'), i = o.tmp('i'); b = `let ${s} := 0 { let ${i} := 0 for { } lt(${i}, mload(${ps[0].n})) { ${i} := add(${i}, 1) } { ${s} := ${R.p(0.6) ? o.arith('add', 'uint256', s, `mload(add(add(${ps[0].n}, 32), mul(${i}, 32)))`) : `xor(${s}, mload(add(add(${ps[0].n}, 32), shl(5, ${i}))))`} } } sstore(80, ${s}) ${rt[0] === 'uint256' ? `var_r0 := ${s}` : rt[0] ? `var_r0 := ${ps[0].n}` : ''}`; }
    else b = `${kind === 'getter' && R.p(0.7) ? '' : stmts(ps, 2)} ${rt.map((t, i) => `var_r${i} := ${ex(t, ps, 2)}`).join(' ')}`;
    const call = `fun_${fn}_${k}`;
    o.fns.set(call, `function ${call}(${ps.map((p) => p.n).join(', ')})${rs.length ? ' -> ' + rs.join(', ') : ''} { ${V && kind !== 'string' && kind !== 'setString' && kind !== 'array' ? rt.map((t, i) => `var_r${i} := ${zero(t)}`).join(' ') : ''} ${b} }`);
    methods.push({ sel, ts, payable: kind === 'payable' });
    const dec = o.decodeTuple(ts), pn = ts.map((_, i) => `param_${i}`), rn = rt.map((_, i) => `ret_${i}`), mp = 'memPos', me = 'memEnd';
    const guard = kind === 'payable' ? '' : `if callvalue() { ${o.rev0('ca')} }`;
    const decode = dec ? `let ${pn.join(', ')} := ${dec}(4, calldatasize())` : V ? `${o.def('abi_decode_tuple_', () => `function abi_decode_tuple_(headStart, dataEnd) { if slt(sub(dataEnd, headStart), 0) { ${o.rev0('db')} } }`)}(4, calldatasize())` : 'if slt(add(calldatasize(), not(3)), 0) { revert(0, 0) }';
    const fin = `${rn.length ? `let ${rn.join(', ')} := ` : ''}${call}(${pn.join(', ')}) let ${mp} := ${o.unbounded()} let ${me} := ${o.encodeCall(rt, rn, mp)} return(${mp}, sub(${me}, ${mp}))`;
    const c = `${guard} ${decode} ${fin}`;
    body += `case ${H(sel)} { ${V ? o.def(`external_fun_${fn}_${k}`, () => `function external_fun_${fn}_${k}() { ${c} }`) + '()' : c} }\n`;
  };
  const zero = (t) => (V ? o.def(`zero_value_for_split_t_${t}`, () => `function zero_value_for_split_t_${t}() -> ret { ret := 0 }`) + '()' : '0');
  for (let k = R.int(2, 7); k > 0; k--) method(k);
  const sel = V ? o.def('shift_right_224_unsigned', () => 'function shift_right_224_unsigned(value) -> newValue { newValue := shr(224, value) }') + '(calldataload(0))' : 'shr(224, calldataload(0))';
  const fallback = R.weighted([[3, 'revert(0, 0)'], [1, () => `stop()`], [1, () => `sstore(95, add(sload(95), 1)) return(0, 0)`]]);
  const fb = typeof fallback === 'function' ? fallback() : fallback;
  const head = `mstore(64, ${imms.length && !V ? 'memoryguard(0x80)' : R.pick(['memoryguard(0x80)', '128', '0x80'])})`;
  const run = `${V ? `${head} ` : `let _0 := ${head.slice(11, -1)} mstore(64, _0) `}if iszero(lt(calldatasize(), 4)) { ${V ? `let selector := ${sel}` : ''} switch ${V ? 'selector' : sel} ${body} default { } } ${R.p(0.3) && fb === 'revert(0, 0)' ? 'if iszero(calldatasize()) { stop() }' : ''} ${fb}`;
  const whole = (main, out) => { const text = `${main}\n${[...out.fns.values()].join('\n')}`; return prune(parse(text), R); };
  const prog = whole(run, o);
  // the constructor stores its arguments, which follow the code, and sets the immutables
  const q = new Out(R, V), cts = vars.slice(0, R.int(0, 2)).map((v) => v.t), its = imms.map((x) => x.t), all = [...cts, ...its];
  const size = `datasize("${name}")`;
  const ctor = `mstore(64, 128) if callvalue() { revert(0, 0) } ${all.length ? `let programSize := ${size} let argSize := sub(codesize(), programSize) let memoryDataOffset := ${q.allocate()}(argSize) codecopy(memoryDataOffset, programSize, argSize) let ${all.map((_, i) => `arg_${i}`).join(', ')} := ${q.decodeTuple(all, 'memory')}(memoryDataOffset, add(memoryDataOffset, argSize)) ${cts.map((t, i) => q.store(vars[i], `arg_${i}`)).join(' ')}` : 'sstore(96, 1)'}
    let _1 := ${q.unbounded()} codecopy(_1, 0, 0) ${imms.map((x, i) => `setimmutable(_1, "${x.id}", arg_${cts.length + i})`).join(' ')} return(_1, 0)`;
  const deploy = whole(ctor, q);
  return { name, prog, deploy, methods, all, vars: vars.length, verbose: V };
}
// only what is called
function prune(p, R) {
  const by = new Map(p.funcs.map((f) => [f.name, f])), seen = new Set(), go = (x) => { if (Array.isArray(x)) { if (x[0] === 'c' && by.has(x[1]) && !seen.has(x[1])) { seen.add(x[1]); go(by.get(x[1]).body); } x.forEach(go); } };
  go(p.body);
  const fs = p.funcs.filter((f) => seen.has(f.name)); if (R.p(0.3)) fs.reverse(); else if (R.p(0.3)) fs.sort((a, b) => (a.name < b.name ? -1 : 1));
  return { funcs: fs, body: p.body };
}
// a value of a type as a word, mostly valid
export function value(R, t, accounts) {
  const x = T[t] ?? T.uint256; if (R.p(0.04)) return R.word();
  if (x.bool) return BigInt(R.int(0, 1));
  if (t === 'address') return R.pick(accounts);
  if (x.left) return (R.word() & ones(x.bits)) << BigInt(256 - x.bits);
  const v = R.p(0.6) ? BigInt(R.int(0, 12)) : R.p(0.2) ? (x.s ? ones(x.bits - 1) : ones(x.bits)) - BigInt(R.int(0, 3)) : R.word();
  return x.s ? u256(BigInt.asIntN(x.bits, R.p(0.3) ? -v : v)) : v & ones(x.bits);
}
export function args(R, ts, accounts) {
  const head = [], tail = []; let at = 32 * ts.length;
  for (const t of ts) {
    if (t === 'string') { const n = R.pick([0, 1, 5, 31, 32, 33, 40, 64, 70, R.int(0, 100)]), b = new Uint8Array(32 + ((n + 31) & ~31)); b.set(be32(BigInt(n))); b.set(R.bytes(n), 32); head.push(be32(BigInt(at))); tail.push(b); at += b.length; }
    else if (t === 'uint256[]') { const n = R.int(0, 5), b = new Uint8Array(32 + 32 * n); b.set(be32(BigInt(n))); for (let i = 0; i < n; i++) b.set(be32(value(R, 'uint256', accounts)), 32 + 32 * i); head.push(be32(BigInt(at))); tail.push(b); at += b.length; }
    else head.push(be32(value(R, t, accounts)));
  }
  return Uint8Array.from([...head, ...tail].flatMap((b) => [...b]));
}
export function input(R, c, accounts) {
  if (R.p(0.05)) return R.bytes(R.int(0, 40));
  const m = R.pick(c.methods), a = args(R, m.ts, accounts), d = new Uint8Array(4 + a.length); d.set(be32(m.sel).slice(28)); d.set(a, 4);
  if (R.p(0.05)) return d.slice(0, R.int(0, d.length)); if (R.p(0.05)) { d[R.int(0, d.length - 1)] ^= 1 << R.int(0, 7); } if (R.p(0.1)) return Uint8Array.from([...d, ...R.bytes(R.int(1, 40))]);
  return d;
}
