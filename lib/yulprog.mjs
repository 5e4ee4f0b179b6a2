// Random well-formed Yul programs (see yulref.mjs for the AST), their printer, validity check and shrinking.
import { fc } from './harness.mjs';
import { BUILTINS, PURE } from './yulref.mjs';
import { NUMS, NAMES } from './dict.mjs';
import { u256, MASK, be32, fromBE, hex } from './util.mjs';

// ---- randomness: a thin layer over fast-check's generator
export class Rng {
  constructor(mrng) { this.r = mrng; }
  int(a, b) { return this.r.nextInt(a, b); }
  p(x) { return this.r.nextInt(0, 999) < x * 1000; }
  pick(xs) { return xs[this.r.nextInt(0, xs.length - 1)]; }
  weighted(ps) { let t = 0; for (const [w] of ps) t += w; let k = this.r.nextInt(0, t - 1); for (const [w, f] of ps) { k -= w; if (k < 0) return f; } }
  bytes(n) { return Uint8Array.from({ length: n }, () => this.r.nextInt(0, 255)); }
  word() {
    const k = this.int(0, 21);
    if (k < 4) return BigInt(this.int(0, 9));
    if (k < 6) return BigInt(this.int(0, 300));
    if (k < 9) { let x = 0n; for (let i = 0; i < 8; i++) x = (x << 32n) | BigInt(this.int(0, 0xffff) * 65536 + this.int(0, 0xffff)); return k < 8 ? x : x >> BigInt(this.int(0, 255)); }
    if (k < 12) return u256((1n << BigInt(this.pick([7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 159, 160, 191, 192, 224, 248, 255, this.int(0, 255)]))) + BigInt(this.int(-2, 2)));
    if (k < 14) return u256(-BigInt(this.int(1, 300)));
    if (k < 16) return fromBE(Uint8Array.from({ length: 32 }, () => this.pick([0, 1, 0x7f, 0x80, 0xff, 0x10])));
    if (k < 18) { const v = this.pick(NUMS), s = this.pick([0n, 0n, 8n, 96n, 224n]); return u256((this.p(0.2) ? ~v : v + BigInt(this.int(-1, 1))) << s); }
    if (k < 20) { let x = 0n; for (let i = 0; i < 8; i++) x = (x << 32n) | (this.p(0.25) ? BigInt(this.pick([1, 0x80000000, 0xffffffff, this.int(0, 0x7fffffff)])) : 0n); return x; } // few limbs set
    return this.pick([MASK, 1n << 255n, (1n << 255n) - 1n, (1n << 160n) - 1n, 0xffffffffffffffffn, 0xffffffffn, 0x80000000n, 0x8000000000000000n]);
  }
}

const num = (v, text) => ['n', text ?? String(v), BigInt(v)];
export const lit = num;
// constants on the edge of a representation
const edge = (R) => u256((1n << BigInt(R.pick([7, 8, 15, 16, 31, 32, 32, 33, 63, 64, 64, 65, 127, 128, 159, 160, 255]))) + BigInt(R.int(-1, 1)));
const PRINTABLE = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 _-+*/.,:;!?()[]{}<>=@#$%^&|~';
function literal(R, v) {
  const k = R.int(0, 9);
  if (v !== undefined) return k < 5 ? num(v, '0x' + v.toString(16)) : num(v, v.toString());
  if (k === 0) { const n = R.weighted([[6, R.int(1, 8)], [2, R.int(1, 32)], [1, 32], [1, 0]]); let s = ''; for (let i = 0; i < n; i++) s += PRINTABLE[R.int(0, PRINTABLE.length - 1)]; if (/\/[/*]|\*\//.test(s)) s = s.replaceAll('/', '_'); return num(fromBE(Uint8Array.from([...Buffer.from(s), ...new Uint8Array(32 - s.length)])), `"${s}"`); }
  if (k === 1) return R.p(0.5) ? num(1n, 'true') : num(0n, 'false');
  return literal(R, R.word());
}

const PUREN = Object.keys(PURE).concat(['exp']), P1 = ['not', 'iszero'], P3 = ['addmod', 'mulmod'];
const ENV = ['address', 'caller', 'origin', 'coinbase', 'callvalue', 'prevrandao', 'difficulty', 'gaslimit', 'timestamp', 'number', 'gas', 'gasprice', 'basefee', 'blobbasefee', 'chainid', 'selfbalance', 'calldatasize', 'codesize', 'returndatasize'];
const RESERVED = new Set([...Object.keys(BUILTINS), 'callcode', 'blobhash', 'datacopy', 'verbatim', 'debug_print', 'pc', 'jump', 'jumpi', 'jumpdest', 'let', 'if', 'switch', 'case', 'default', 'for', 'function', 'leave', 'break', 'continue', 'true', 'false', 'hex', 'object', 'code', 'data']);
const okName = (n) => !RESERVED.has(n);
const isTransfer = (n) => /fun__?transfer/.test(n); // with all optimizers, only the token's own transfer may have such a name
const HINTN = NAMES.filter((n) => okName(n) && /^[a-zA-Z_$][a-zA-Z_0-9.$]*$/.test(n) && n.length < 40);
const VN = ['a', 'b', 'c', 'x', 'y', 'z', 'i', 'j', '_1', '_2', 'var_from', 'ret_0', 'usr$v', 'memPtr', 'value0', 'expr.1', 'offset', 'end'];
const FN = ['f', 'g', 'h', 'k', 'fun_a', 'fun_b', 'abi_decode', 'abi_encode_uint256', 'checked_add', 'revert_error', 'usr$w', 'convert.1', 'zero_value', 'panic_0x11', 'abi_decode_address', 'abi_decode_t_address', 'fun_transfer', 'fun__transfer', 'fun_transferFrom', 'init', 'deploy', '_start', 'memory', 'memcpy', 'main'];

// o: {funcs, stmts, depth, features: Set of 'env' 'calls' 'create' 'log' 'code' 'msize' 'bigloop' 'bigmem',
// fmp: the words below 128 belong to the memory pointer, as in the output of solc; base: lowest memory offset}
export class Gen {
  constructor(R, o) { this.R = R; this.o = o; this.F = o.features; this.base = o.fmp ? 128 : 0; }
  // an offset below the base becomes one above it
  up(e) { return this.base ? ['c', 'add', this.R.p(0.5) ? [num(this.base), e] : [e, num(this.base)]] : e; }
  program() {
    const R = this.R, nf = R.int(this.o.funcs[0], this.o.funcs[1]);
    const names = []; while (names.length < nf) { const n = R.p(0.15) && HINTN.length ? R.pick(HINTN) : R.pick(FN) + (R.p(0.3) ? R.int(0, 9) : ''); if (!names.includes(n) && !VN.includes(n) && !(this.o.fmp && isTransfer(n))) names.push(n); }
    this.sigs = names.map((name, i) => ({ name, i, np: R.weighted([[2, 0], [4, 1], [5, 2], [3, 3], [1, 4], [1, 7]]), nr: R.weighted([[2, 0], [7, 1], [3, 2], [1, 3]]), rec: R.p(0.12) }));
    for (const s of this.sigs) if (s.rec) { s.np = Math.max(1, s.np); s.nr = Math.max(1, s.nr); }
    const fnames = new Set(names);
    this.vn = VN.concat(R.p(0.3) ? [R.pick(HINTN), R.pick(HINTN)] : []).filter((n) => !fnames.has(n));
    const funcs = this.sigs.map((s) => this.func(s));
    this.cur = null; this.budget = R.int(this.o.stmts[0], this.o.stmts[1]);
    const body = this.block({ vars: [], loop: false, depth: 0, protect: new Set() }, true);
    // every function is reachable: those nothing calls yet are called at the end or the start
    const used = new Set(); const mark = (x) => { if (Array.isArray(x)) { if (x[0] === 'c' && typeof x[1] === 'string') used.add(x[1]); x.forEach(mark); } };
    mark(body); funcs.forEach((f) => mark(f.body));
    const c0 = { vars: [], loop: false, depth: 2, protect: new Set() }, top = body.filter((x) => x[0] === 'let').flatMap((x) => x[1]);
    for (const s of this.sigs) if (!used.has(s.name)) { const st = this.callStmt(s, c0, declared(body)); if (R.p(0.7)) body.unshift(...st); else body.push(...st); }
    if (funcs.length && R.p(0.25)) this.twin(funcs, body);
    if (R.p(0.2)) this.tiny(funcs, body);
    if (R.p(0.12)) this.deep(funcs, body);
    top.slice(-6).forEach((v, k) => { if (R.p(0.8)) body.push(['do', ['c', 'sstore', [num(100 + k), ['v', v]]]]); });
    if (R.p(0.6)) body.unshift(['do', ['c', 'calldatacopy', [num(this.base), num(R.pick([0, 4])), num(R.pick([96, 160]))]]]);
    if (this.o.fmp) body.unshift(['do', ['c', 'mstore', [num(64), R.p(0.5) ? num(128) : ['c', 'memoryguard', [num(128)]]]]]);
    for (let k = R.int(0, 2); k > 0; k--) body.push(this.ret(c0, true));
    return { funcs: R.p(0.5) ? funcs : funcs.reverse(), body };
  }
  // recursion: tens of calls deep, mutual, or branching
  deep(funcs, body) {
    const R = this.R, N = ['rec_f', 'rec_g']; if (N.some((n) => this.vn.includes(n) || this.sigs.some((s) => s.name === n))) return;
    const V = (n) => ['v', n], C = (f, ...a) => ['c', f, a], less = C('sub', V('n'), num(1)), op = () => R.pick(['add', 'xor', 'sub', 'mul']), B = this.base, kind = R.int(0, 4);
    const local = R.p(0.5) ? [['let', ['t'], R.pick([C('mul', V('n'), literal(R)), C('not', V('n')), C('sload', C('and', V('n'), num(3))), C('lt', V('n'), num(9)), C('calldatasize')])]] : [], t = local.length ? V('t') : V('n');
    const rec = (to, n = less) => (R.p(0.5) ? [['set', ['r'], C(op(), C(to, n), t)]] : [['set', ['r'], C(op(), t, C(to, n))], ...(R.p(0.3) ? [['do', C('sstore', C('add', V('n'), num(4000)), V('r'))]] : [])]);
    const f = (name, to, n) => ({ name, params: ['n'], rets: ['r'], body: R.p(0.5) ? [...local, ['if', V('n'), rec(to, n)]] : [['if', C('iszero', V('n')), [['set', ['r'], literal(R)], ['leave']]], ...local, ...rec(to, n)] });
    const depth = kind === 4 ? R.int(0, 7) : R.pick([5, 17, 40, 60, R.int(0, 60)]);
    if (kind < 2) funcs.push(f(N[0], N[0]));
    else if (kind === 2) funcs.push(f(N[0], N[1]), f(N[1], N[0]));
    else if (kind === 3) funcs.push({ name: N[0], params: ['n', 'a'], rets: ['r', 's'], body: [['set', ['s'], V('a')], ['if', V('n'), [['set', ['r', 's'], C(N[0], less, C(op(), V('a'), V('n')))], ['set', ['r'], C('add', V('r'), V('a'))]]]] });
    else funcs.push({ name: N[0], params: ['n'], rets: ['r'], body: [['switch', V('n'), [[num(0), [['set', ['r'], num(1)]]], [num(1), [['set', ['r'], literal(R)]]]], [['set', ['r'], C('add', C(N[0], less), C(N[0], C('sub', V('n'), num(2))))]]]] });
    const d = R.p(0.5) ? num(depth) : C('mod', C('calldataload', num(0)), num(depth + 1));
    const st = kind === 3 ? [['let', ['rec_r', 'rec_s'], C(N[0], d, literal(R))], ['do', C('sstore', num(70), V('rec_r'))], ['do', C('sstore', num(71), V('rec_s'))]] : [['do', C('sstore', num(70), C(N[0], d))]];
    if (R.p(0.5)) body.push(['block', st]); else body.unshift(['block', st]);
  }
  // functions of one statement, mostly ends, alike but for a number; each is called in some runs, after memory was written
  tiny(funcs, body) {
    const R = this.R, n = R.int(1, 4), B = this.base, same = R.p(0.6) ? R.pick(['revert', 'revert', 'return', 'sstore']) : null, calls = [];
    for (let k = 0; k < n; k++) {
      const name = R.pick(['revert_error', 'panic_error_0x', 'forward', 'usr$end', 'zero_value']) + '_' + k; if (this.sigs.some((s) => s.name === name) || this.vn.includes(name)) continue;
      const z = () => literal(R, BigInt(B + R.pick([0, 0, 0, 0, 4, 32]))), f = same ?? R.pick(['revert', 'return', 'sstore', 'stop', 'invalid', 'mstore']);
      const stmt = f === 'stop' || f === 'invalid' ? [] : f === 'sstore' || f === 'mstore' ? [f === 'mstore' ? z() : num(R.int(0, 2)), num(R.int(0, 2))] : [z(), R.p(0.25) ? ['c', 'calldatasize', []] : literal(R, BigInt(R.pick([0, 0, 4, 32, 36, 68])))];
      const np = R.weighted([[4, 0], [1, 1]]), nr = R.weighted([[4, 0], [1, 1]]), v = this.fresh(declared(body).concat(declared(calls)), 1);
      funcs.splice(R.int(0, funcs.length), 0, { name, params: np ? ['p'] : [], rets: nr ? ['q'] : [], body: [['do', ['c', f, stmt]]] });
      const call = ['c', name, np ? [num(R.int(0, 9))] : []];
      calls.push(['if', ['c', 'eq', [['c', 'and', [['c', 'calldataload', [num(R.pick([0, 32]))]], num(3)]], num(k)]], [['do', ['c', 'mstore', [num(B), R.p(0.5) ? ['c', 'calldataload', [num(0)]] : literal(R)]]], nr ? ['let', v, call] : ['do', call], ...(nr ? [['do', ['c', 'sstore', [num(50), ['v', v[0]]]]]] : [])]]);
    }
    for (const c of calls) body.splice(R.p(0.5) ? 0 : body.length, 0, c);
  }
  // a second function that is the first one with other names, or differs from it in one place; some calls go there
  twin(funcs, body) {
    const R = this.R, f = R.pick(funcs), name = `${f.name}_${R.int(0, 99)}`;
    if (this.sigs.some((s) => s.name === name) || this.vn.includes(name)) return;
    const g = clone(f); g.name = name;
    if (R.p(0.5)) { const r = new Map(); const rn = (n) => { if (!r.has(n)) r.set(n, `${n}_t`); return r.get(n); }; g.params = g.params.map(rn); g.rets = g.rets.map(rn); renameVars(g.body, rn); }
    if (R.p(0.7)) {
      const at = []; const go = (x) => { if (Array.isArray(x) && x[0] !== 'for' && x[0] !== 'switch' && x[1] !== 'datacopy') { if (x[0] === 'n' && typeof x[2] === 'bigint' && x.length === 3 && /^\d/.test(x[1])) at.push(() => { const v = R.pick([x[2] ^ 1n, x[2] + 1n]) & MASK; x[1] = String(v); x[2] = v; }); if (x[0] === 'c' && TWINS[x[1]]) at.push(() => { x[1] = R.pick(TWINS[x[1]]); }); if (x[0] === 'c' && PURE[x[1]] && x[2].length === 2) at.push(() => x[2].reverse()); x.forEach(go); } };
      g.body.forEach(go); if (at.length) R.pick(at)();
    }
    let hit = false; const redirect = (x) => { if (Array.isArray(x)) { if (x[0] === 'c' && x[1] === f.name && R.p(0.5)) { x[1] = name; hit = true; } x.forEach(redirect); } };
    redirect(body); funcs.forEach((h) => { if (h !== f) redirect(h.body); });
    if (!hit) { const st = this.callStmt({ ...this.sigs.find((s) => s.name === f.name), name }, { vars: [], loop: false, depth: 2, protect: new Set() }, declared(body)); body.push(...st); }
    funcs.splice(R.int(0, funcs.length), 0, g);
  }
  func(s) {
    const R = this.R; const ns = this.fresh([], s.np + s.nr), params = ns.slice(0, s.np), rets = ns.slice(s.np);
    if (R.p(0.04)) return { name: s.name, params, rets, body: [['do', ['c', 'revert', [num(0, R.pick(['0', '0x00'])), num(0, '0')]]]] };
    this.cur = s; this.budget = R.int(1, Math.max(2, this.o.stmts[1] >> 1));
    const c = { vars: [...ns], loop: false, depth: 0, fn: true, rets, protect: new Set(s.rec ? [params[0]] : []) };
    const body = this.block(c, true);
    s.rec || rets.forEach((r) => { const live = body.filter((x) => x[0] === 'let').flatMap((x) => x[1]); if (R.p(0.7)) body.push(['set', [r], R.p(0.5) && live.length ? ['c', R.pick(['add', 'xor', 'sub']), [['v', r], ['v', R.pick(live)]]] : this.expr({ ...c, vars: [...ns, ...live] }, 1)]); });
    if (s.rec) {
      // may call itself or the next recursive function with a smaller first argument
      const tgt = R.p(0.3) ? this.sigs.find((t) => t.rec && t.i !== s.i) ?? s : s;
      const args = Array.from({ length: tgt.np }, (_, k) => (k ? this.expr({ ...c, depth: 2 }, 1) : ['c', 'sub', [['v', params[0]], num(1)]]));
      const call = ['c', tgt.name, args]; const t = this.fresh(ns.concat(declared(body)), tgt.nr);
      const use = tgt.nr === 1 ? [['set', [rets[0]], ['c', R.pick(['add', 'xor', 'mul', 'sub']), R.p(0.5) ? [['v', rets[0]], call] : [call, ['v', rets[0]]]]]] : [['let', t, call], ['set', [rets[0]], ['c', 'add', [['v', rets[0]], ['v', t[0]]]]]];
      const guarded = R.p(0.5) ? [['if', ['v', params[0]], use]] : [['if', ['c', 'iszero', [['v', params[0]]]], [['set', [rets[0]], this.expr({ ...c, depth: 2 }, 1)], ['leave']]], ...use];
      body.splice(R.int(0, body.length > 1 ? 1 : 0), 0, ...guarded);
    }
    return { name: s.name, params, rets, body };
  }
  fresh(taken, n) { const R = this.R, out = []; let k = 0; while (out.length < n) { const v = k++ < 40 ? R.pick(this.vn) : R.pick(this.vn) + k; if (!taken.includes(v) && !out.includes(v)) out.push(v); } return out; }
  block(c, top = false) {
    const R = this.R, out = [], vars = [...c.vars], cc = { ...c, vars };
    let n = top ? Math.max(1, this.budget) : R.int(0, 4);
    while (n-- > 0 && this.budget-- > 0) for (const s of this.stmt(cc)) { out.push(s); if (s[0] === 'let') vars.push(...s[1]); if (['leave', 'break', 'continue'].includes(s[0])) n = Math.min(n, R.p(0.2) ? 1 : 0); }
    const own = vars.slice(c.vars.length);
    if (!top && own.length && R.p(0.3) && !['leave', 'break', 'continue'].includes(out.at(-1)?.[0])) out.push(['do', ['c', 'sstore', [num(R.int(20, 40)), ['v', R.pick(own)]]]]);
    if (!c.loop && out.length === 0 && top) out.push(['do', ['c', 'sstore', [num(0), this.expr(cc, 1)]]]);
    return out;
  }
  writable(c) { return c.vars.filter((v) => !c.protect.has(v)); }
  callable(c) { return this.sigs.filter((s) => this.cur === null || s.i < this.cur.i).filter((s) => !(c.nocall && s.rec)); }
  callArgs(s, c, d) { return Array.from({ length: s.np }, (_, k) => (s.rec && k === 0 ? (this.R.p(0.5) ? num(this.R.int(0, 4)) : ['c', 'and', [this.expr(c, d), num(3)]]) : this.expr(c, d))); }
  callStmt(s, c, taken = []) {
    const R = this.R, call = ['c', s.name, this.callArgs(s, c, 1)];
    if (s.nr === 0) return [['do', call]];
    const w = this.writable(c);
    if (R.p(0.4) && w.length >= s.nr) { const t = []; while (t.length < s.nr) { const v = R.pick(w); if (!t.includes(v)) t.push(v); } return [['set', t, call]]; }
    const t = this.fresh(c.vars.concat(taken), s.nr); return [['let', t, call], ['do', ['c', 'sstore', [num(R.int(0, 40)), ['v', R.pick(t)]]]]].slice(0, this.cur || c.vars.length ? (R.p(0.5) ? 1 : 2) : 2);
  }
  // memory offsets and lengths stay small
  moff(c, d) {
    const R = this.R, B = this.base;
    return R.weighted([[9, () => literal(R, BigInt(B + R.int(0, 6) * 32))], [3, () => literal(R, BigInt(B + R.int(0, 200)))], [4, () => this.up(['c', 'and', [this.expr(c, d), num(0xff)]])], [1, () => this.up(['c', 'and', [num(0x1ff, '0x1ff'), this.expr(c, d)]])],
      [1, () => this.up(['c', 'mod', [this.expr(c, d), num(300)]])], [1, () => this.up(['c', 'byte', [num(31), this.expr(c, d)]])], [1, () => this.up(['c', 'shr', [num(248), this.expr(c, d)]])],
      ...(this.o.fmp ? [[4, () => this.mptr()]] : []),
      ...(this.F.has('bigmem') ? [[1, () => literal(R, BigInt(R.pick([992, 1000, 4000, 4096, 8160, 16380, 32000, 65500, 65504, 65536, 70000, 100000, 131040])))]] : [])])();
  }
  mptr() { const R = this.R, m = ['c', 'mload', [num(64)]]; return R.p(0.5) ? m : ['c', 'add', R.p(0.5) ? [m, num(R.int(0, 4) * 32)] : [num(R.int(0, 100)), m]]; }
  mlen(c, d) { const R = this.R; return R.weighted([[6, () => literal(R, BigInt(R.pick([0, 32, 64, 32, 64, 96, 4, 20])))], [3, () => literal(R, BigInt(R.int(0, 100)))], [2, () => ['c', 'and', [this.expr(c, d), num(0x3f)]]]])(); }
  key(c, d) { const R = this.R; return R.weighted([[6, () => literal(R, BigInt(R.int(0, 4)))], [3, () => ['c', 'and', [this.expr(c, d), num(3)]]], [2, () => this.expr(c, d)], [1, () => ['c', 'keccak256', [this.moff(c, 0), num(R.pick([32, 64]))]]]])(); }
  addr(c, d) { const R = this.R; return R.weighted([[7, () => literal(R, R.pick(this.o.accounts))], [2, () => ['c', R.pick(['address', 'caller', 'origin']), []]], [2, () => this.expr(c, d)], [1, () => literal(R, R.pick(this.o.accounts) | (R.word() << 160n) & MASK)]])(); }
  expr(c, d) {
    const R = this.R, F = this.F;
    if (d <= 0 || R.p(0.12)) return c.vars.length && R.p(0.55) ? ['v', R.pick(c.vars)] : R.p(0.25) ? this.leaf(c) : literal(R);
    return R.weighted([
      [18, () => { const f = R.pick(PUREN); return ['c', f, Array.from({ length: BUILTINS[f][0] }, (_, i) => (i === 1 && f === 'exp' && R.p(0.7) ? num(R.int(0, 6)) : ['shl', 'shr', 'sar'].includes(f) && i === 0 && R.p(0.6) ? literal(R, BigInt(R.int(0, 258))) : ['byte', 'signextend'].includes(f) && i === 0 && R.p(0.7) ? literal(R, BigInt(R.int(0, 33))) : this.expr(c, d - 1)))]; }],
      [4, () => (c.vars.length ? ['v', R.pick(c.vars)] : literal(R))], [3, () => literal(R)], [5, () => this.leaf(c)], [5, () => this.idiom(c, d)],
      [3, () => ['c', 'mload', [this.moff(c, d - 1)]]], [3, () => ['c', 'sload', [this.key(c, d - 1)]]], [1, () => ['c', 'tload', [this.key(c, d - 1)]]],
      [3, () => ['c', 'calldataload', [R.p(0.7) ? literal(R, BigInt(R.int(0, 4) * 32 + (R.p(0.3) ? 4 : 0))) : this.expr(c, d - 1)]]], [2, () => ['c', 'keccak256', [this.moff(c, d - 1), this.mlen(c, d - 1)]]],
      [5, () => { const s = this.callable(c).filter((x) => x.nr === 1); return s.length && !(c.loopDepth > 1) ? this.call1(R.pick(s), c, d) : literal(R); }],
      ...(F.has('env') ? [[2, () => ['c', R.pick(['balance', 'extcodesize', 'extcodehash']), [this.addr(c, d - 1)]]], [1, () => ['c', 'blockhash', [R.p(0.7) ? literal(R, R.pick(this.o.blocks)) : this.expr(c, d - 1)]]]] : []),
      ...(F.has('calls') ? [[2, () => this.extcall(c, d - 1)]] : []),
      ...(F.has('msize') ? [[1, () => ['c', 'msize', []]]] : []),
    ])();
  }
  // shapes that the output of solc is full of
  idiom(c, d) {
    const R = this.R, n = (v) => literal(R, v), C = (f, ...a) => ['c', f, a], dec = (v) => num(v), mask = (k) => C('sub', C('shl', R.p(0.7) ? dec(k) : n(BigInt(k)), num(1)), num(1));
    const k = () => R.pick([8, 16, 31, 32, 33, 63, 64, 65, 96, 128, 160, 192, 224, 248, 255, 256, 257, R.int(0, 256)]), e = () => this.expr(c, d - 1), v = () => (c.vars.length ? ['v', R.pick(c.vars)] : e());
    return R.weighted([
      [3, () => C('shr', R.p(0.8) ? dec(224) : n(BigInt(k())), C('calldataload', R.p(0.7) ? num(0) : n(BigInt(R.pick([0, 4, 32, 36])))))], [2, () => C('add', C('calldatasize'), C('not', R.p(0.8) ? num(3) : n(BigInt(R.int(0, 40)))))],
      [2, () => C('slt', C('add', C('calldatasize'), C('not', num(3))), n(BigInt(R.pick([0, 32, 64, 96]))))], [1, () => C('lt', C('calldatasize'), n(BigInt(R.int(0, 70))))],
      [4, () => C('and', v(), mask(k()))], [1, () => C('and', mask(k()), v())], [3, () => { const x = v(); return C('iszero', C('eq', x, C('and', x, mask(R.pick([8, 32, 64, 128, 160, 160, 160]))))); }], [2, () => C('eq', C('and', v(), mask(160)), C('caller'))],
      [2, () => C('shl', n(BigInt(k())), n(BigInt(R.pick([0, 1, 1, 3, 255, 0x4e487b71, 0x7fffffff, 0x80000000, 0xffffffff, 0x391434e3]))))], [2, () => C(R.pick(['shl', 'shr', 'sar']), n(BigInt(k())), e())], [2, () => C(R.pick(['mul', 'div', 'mod', 'sdiv', 'smod']), e(), n(u256(1n << BigInt(k()))))],
      [1, () => C('not', n(BigInt(R.pick([0, 3, 31, 127]))))], [1, () => C('sub', num(0), e())], [1, () => { const x = v(); return C(R.pick(['iszero', 'not']), C('iszero', x)); }], [2, () => C('or', C('and', C('sload', num(R.int(0, 3))), C('not', mask(k()))), C('and', e(), mask(k())))],
      [2, () => C('and', C(R.pick(['shr', 'div']), ...(([a, b]) => [a, b])(R.p(0.5) ? [n(BigInt(k())), C('sload', num(R.int(0, 3)))] : [C('sload', num(R.int(0, 3))), n(1n << BigInt(R.int(0, 248)))])), mask(k()))], [1, () => C('signextend', n(BigInt(R.int(0, 33))), e())], [1, () => C('byte', n(BigInt(R.int(0, 33))), e())],
      [1, () => C('exp', n(BigInt(R.pick([2, 10, 256, 0x100]))), R.p(0.5) ? num(R.int(0, 80)) : e())], [1, () => { const x = v(); return C('gt', x, C('add', x, e())); }],
    ])();
  }
  call1(s, c, d) { return ['c', s.name, this.callArgs(s, c, Math.min(d - 1, 1))]; }
  leaf(c) { const R = this.R; return R.weighted([[this.F.has('env') ? 4 : 1, () => ['c', R.pick(ENV.filter((x) => this.F.has('env') || ['caller', 'callvalue', 'calldatasize', 'number', 'address'].includes(x))), []]], [3, () => ['c', 'calldataload', [num(R.int(0, 4) * 32)]]], [2, () => ['c', 'sload', [num(R.int(0, 4))]]], [2, () => ['c', 'mload', [num(this.base + R.int(0, 5) * 32)]]], [this.o.fmp ? 1 : 0, () => this.mptr()]])(); }
  extcall(c, d) {
    const R = this.R, k = R.pick(['call', 'call', 'delegatecall', 'staticcall']);
    const out = R.p(0.3) ? num(0) : literal(R, BigInt(R.pick([32, 64, 4])));
    return ['c', k, [R.p(0.5) ? ['c', 'gas', []] : this.expr(c, d), this.addr(c, d), ...(k === 'call' ? [this.expr(c, d)] : []), this.moff(c, d), this.mlen(c, d), this.moff(c, d), out]];
  }
  // conditions of every shape: truth of the whole word counts
  cond(c, d) {
    const R = this.R;
    return R.weighted([[8, () => ['c', R.pick(['lt', 'gt', 'slt', 'sgt', 'eq']), [this.expr(c, d), this.expr(c, d)]]], [3, () => ['c', 'iszero', [this.expr(c, d)]]], [2, () => ['c', 'iszero', [['c', 'iszero', [this.expr(c, d)]]]]], [4, () => this.expr(c, d)], [2, () => ['c', R.pick(['and', 'or']), [this.cond(c, d - 1), this.cond(c, d - 1)]]], [2, () => ['c', 'and', [this.expr(c, d), literal(R, 1n << BigInt(R.pick([0, 1, 2, 31, 32, 63, 64, 128, 255])))]]], [1, () => ['c', 'not', [this.expr(c, d)]]], [1, () => ['c', 'sub', [this.expr(c, d), this.expr(c, d)]]], [1, () => literal(R)], [2, () => { const e = ['c', this.F.has('env') ? R.pick(ENV) : R.pick(['callvalue', 'calldatasize', 'caller']), []]; return R.p(0.5) ? e : ['c', 'iszero', [e]]; }]].map(([w, f]) => [w, d < -1 ? () => literal(R) : f]))();
  }
  ret(c, end) {
    const R = this.R;
    return ['do', R.weighted([[5, () => ['c', 'return', [this.moff(c, 1), this.mlen(c, 1)]]], [end ? 1 : 4, () => ['c', 'revert', [this.moff(c, 1), this.mlen(c, 1)]]], [1, () => ['c', 'stop', []]], [1, () => ['c', 'invalid', []]], [1, () => ['c', 'selfdestruct', [this.addr(c, 1)]]]])()];
  }
  stmt(c) {
    const R = this.R, F = this.F, D = this.o.depth, deep = c.depth >= this.o.nest, w = this.writable(c), sub = { ...c, depth: c.depth + 1 };
    const dd = R.int(0, D);
    return R.weighted([
      [9, () => { const t = this.fresh(c.vars, R.p(0.05) ? R.int(2, 3) : 1); return [['let', t, t.length > 1 || R.p(0.08) ? null : this.expr(c, dd)]]; }],
      [10, () => (w.length ? [['set', [R.pick(w)], this.expr(c, dd)]] : [['let', this.fresh(c.vars, 1), this.expr(c, dd)]])],
      [7, () => [['do', ['c', 'sstore', [this.key(c, 1), this.expr(c, dd)]]]]], [6, () => [['do', ['c', 'mstore', [this.moff(c, 1), this.expr(c, dd)]]]]],
      [2, () => [['do', ['c', 'mstore8', [this.moff(c, 1), this.expr(c, dd)]]]]], [2, () => [['do', ['c', 'tstore', [this.key(c, 1), this.expr(c, dd)]]]]],
      [1, () => [['do', ['c', 'mcopy', [this.moff(c, 1), this.moff(c, 1), this.mlen(c, 1)]]]]], [1, () => [['do', ['c', 'calldatacopy', [this.moff(c, 1), R.p(0.6) ? literal(R, BigInt(R.int(0, 140))) : this.expr(c, 1), this.mlen(c, 1)]]]]],
      [1, () => [['do', ['c', 'pop', [this.expr(c, dd)]]]]],
      [5, () => { const s = this.callable(c); return s.length && !(c.loopDepth > 1) ? this.callStmt(R.pick(s), c) : [['do', ['c', 'sstore', [this.key(c, 0), this.expr(c, dd)]]]]; }],
      [deep || c.loop ? 0 : 3, () => this.widen(c)], [2, () => { const o = this.moff(c, 0), v = literal(R, edge(R)); return [['do', ['c', 'mstore', [o, v]]], ['do', ['c', 'sstore', [num(R.int(20, 60)), ['c', 'mload', [o]]]]]]; }],
      [deep ? 0 : 6, () => [['if', this.cond(c, Math.min(2, dd)), this.block(sub)]]],
      [deep ? 0 : 1, () => [['if', this.cond(c, 1), [...this.block(sub), this.ret(c, false)]]]],
      [deep ? 0 : 4, () => [this.switch_(c, sub)]], [deep ? 0 : 4, () => [this.for_(c, sub)]], [deep ? 0 : 2, () => [['block', this.block(sub)]]],
      [c.loop ? 4 : 0, () => [['if', this.cond(c, 1), [...this.block(sub), [R.pick(['break', 'continue'])]]]]], [c.loop ? 1 : 0, () => [[R.pick(['break', 'continue'])]]],
      [c.fn ? 2 : 0, () => [['if', this.cond(c, 1), [...this.block(sub), ['leave']]]]], [c.fn && c.depth > 0 ? 1 : 0, () => [['leave']]],
      ...(this.o.fmp ? [[2, () => [['do', ['c', 'mstore', [num(64), R.p(0.5) ? num(128 + 32 * R.int(0, 8)) : ['c', 'add', [num(128), ['c', 'and', [this.expr(c, 1), num(0xff)]]]]]]]]]] : []),
      ...(F.has('log') ? [[3, () => { const n = R.int(0, 4); return [['do', ['c', 'log' + n, [this.moff(c, 1), this.mlen(c, 1), ...Array.from({ length: n }, () => this.expr(c, 1))]]]]; }]] : []),
      ...(F.has('calls') ? [[2, () => [['do', ['c', 'pop', [this.extcall(c, 1)]]]]], [1, () => [['do', ['c', 'returndatacopy', [this.moff(c, 1), num(0), R.p(0.7) ? ['c', 'returndatasize', []] : literal(R, BigInt(R.pick([0, 4, 32])))]]]]], [1, () => [['if', ['c', 'iszero', [this.extcall(c, 1)]], [['do', ['c', 'returndatacopy', [num(this.base), num(0), ['c', 'returndatasize', []]]]], ...(R.p(0.5) ? [['do', ['c', 'revert', [num(this.base), ['c', 'returndatasize', []]]]]] : [])]]]]] : []),
      // creation code starts with its length
      ...(F.has('create') ? [[1, () => { const o = this.base + R.int(0, 6) * 32, k = R.int(0, 40), n = 4 + k + R.int(0, 70), [v] = this.fresh(c.vars, 1), two = R.p(0.5); return [['do', ['c', 'mstore', [num(o), ['c', 'or', [['c', 'shl', [num(224), num(k)]], ['c', 'shr', [num(32), this.expr(c, 1)]]]]]]], ['let', [v], ['c', two ? 'create2' : 'create', [this.expr(c, 0), num(o), num(n), ...(two ? [this.expr(c, 0)] : [])]]], ['do', ['c', 'sstore', [num(R.int(20, 40)), ['v', v]]]]]; }]] : []),
      ...(F.has('code') ? [[1, () => [['do', ['c', 'codecopy', [this.moff(c, 1), R.p(0.7) ? literal(R, BigInt(R.int(0, 90))) : ['c', 'codesize', []], this.mlen(c, 1)]]]]], [1, () => [['do', ['c', 'extcodecopy', [this.addr(c, 1), this.moff(c, 1), R.p(0.7) ? literal(R, BigInt(R.int(0, 60))) : this.expr(c, 1), this.mlen(c, 1)]]]]]] : []),
    ])();
  }
  // a variable of a small first value that gets a wide one in one place alone, and is read in one place alone
  widen(c) {
    const R = this.R, [v, w] = this.fresh(c.vars, 2), cc = { ...c, vars: [...c.vars, v] }, deep = { ...cc, depth: 9 }, V = ['v', v];
    const small = R.weighted([[3, () => ['c', R.pick(['calldatasize', 'timestamp', 'number', 'gaslimit', 'returndatasize', 'codesize', 'callvalue', 'caller'].filter((x) => this.F.has('env') || !['timestamp', 'gaslimit', 'codesize', 'returndatasize'].includes(x))), []]], [3, () => literal(R, BigInt(R.int(0, 300)))], [2, () => ['c', R.pick(['lt', 'eq', 'gt']), [this.expr(c, 0), this.expr(c, 0)]]], [1, () => ['c', 'iszero', [this.expr(c, 0)]]], [1, () => literal(R, R.word() & 0xffffffffffffffffn)], [1, () => null]])();
    const wide = R.weighted([[4, () => ['c', 'calldataload', [num(32 * R.int(0, 3))]]], [2, () => ['c', 'not', [V]]], [2, () => ['c', R.pick(['add', 'mul', 'sub', 'or']), [V, ['c', 'calldataload', [num(32 * R.int(0, 3))]]]]], [2, () => literal(R)], [1, () => ['c', 'shl', [num(R.int(32, 255)), ['c', 'add', [V, num(1)]]]]], [1, () => ['c', 'sload', [num(R.int(0, 4))]]], [2, () => this.expr(cc, 1)]])();
    const yes = () => R.weighted([[3, () => num(1)], [2, () => ['c', 'iszero', [['c', 'iszero', [['c', 'calldatasize', []]]]]]], [1, () => this.cond(cc, 1)]])();
    const wrap = (b) => R.weighted([
      [2, () => [['if', yes(), b]]], [2, () => [['block', b]]],
      [3, () => [['switch', R.p(0.5) ? this.expr(cc, 1) : num(R.int(0, 9)), [[num(77), R.p(0.5) ? [] : this.block(deep)], ...(R.p(0.3) ? [[num(78), []]] : [])].slice(R.p(0.2) ? 2 : 0), b]]],
      [2, () => [['switch', ['c', 'and', [this.expr(cc, 0), num(R.pick([1, 3]))]], [[num(0), b], [num(1), clone(b)]], R.p(0.5) ? b.map(clone) : null]]],
      [2, () => [['for', [['let', [w], num(0)]], ['c', 'lt', [['v', w], num(1)]], [['set', [w], ['c', 'add', [['v', w], num(1)]]]], b]]],
      [1, () => [['for', [['let', [w], num(0)]], ['c', 'lt', [['v', w], num(1)]], [...b, ['set', [w], ['c', 'add', [['v', w], num(1)]]]], []]]],
      [1, () => [['for', b, num(1), [], [['break']]]]],
    ])();
    const many = c.loopDepth > 1 ? [] : this.callable(c).filter((x) => x.nr > 1); let also = [], set = ['set', [v], wide];
    if (many.length && R.p(0.4)) { const f = R.pick(many); also = this.fresh(c.vars.concat(v, w), f.nr - 1); cc.vars.push(...also); const t = [...also]; t.splice(R.int(0, t.length), 0, v); set = ['set', t, ['c', f.name, this.callArgs(f, cc, 1)]]; }
    let b = [set]; for (let k = R.pick([0, 1, 1, 1]); k >= 0; k--) { const u = wrap(b); b = declared(b).length && JSON.stringify(u).includes('"break"') ? b : u; if (declared(b).length) break; }
    const at = () => num(R.int(20, 60)), use = R.weighted([[5, () => [['do', ['c', 'sstore', [at(), V]]]]], [1, () => [['do', ['c', 'sstore', [V, num(1)]]]]], [1, () => [['do', ['c', 'mstore', [num(this.base), V]]], ['do', ['c', 'log0', [num(this.base), num(32)]]]]], [1, () => [['if', V, [['do', ['c', 'sstore', [at(), num(5)]]]]]]], [1, () => [['do', ['c', 'sstore', [at(), ['c', R.pick(['add', 'lt', 'shr', 'eq', 'div']), [V, this.expr(c, 0)]]]]]]]])();
    return [['let', [v], small], ...also.map((x) => ['let', [x], R.p(0.5) ? clone(small) : null]), ...b, ...also.filter(() => R.p(0.6)).map((x) => ['do', ['c', 'sstore', [at(), ['v', x]]]]), ...(R.p(0.2) && !c.loop ? [['do', ['c', 'sstore', [at(), ['c', 'iszero', [V]]]]]] : []), ...use];
  }
  switch_(c, sub) {
    const R = this.R, n = R.int(0, 4), vals = [], cs = [];
    const shape = R.int(0, 3); let cond;
    const sh = BigInt(R.pick([0, 1, 8, 32, 64, 128, 192, 254]));
    if (shape === 0) cond = this.expr(c, 2);
    else if (shape === 1) cond = ['c', 'and', [this.expr(c, 1), num(R.pick([1, 3]))]];
    else if (shape === 2) cond = ['c', 'shl', [num(sh), ['c', 'and', [this.expr(c, 1), num(3)]]]];
    else cond = ['c', 'sub', [num(0), ['c', 'and', [this.expr(c, 1), num(3)]]]];
    while (vals.length < n) { const k = BigInt(R.int(0, 3)); const l = shape === 0 || R.p(0.15) ? literal(R) : literal(R, shape === 1 ? k : shape === 2 ? u256(k << sh) : u256(-k)); if (!vals.includes(l[2])) { vals.push(l[2]); cs.push([l, this.block(sub)]); } else if (R.p(0.3)) break; }
    return ['switch', cond, cs, cs.length === 0 || R.p(0.6) ? this.block(sub) : null];
  }
  for_(c, sub) {
    const R = this.R, extra = R.p(0.25), [i, j] = this.fresh(c.vars, 2);
    const iv = ['v', i], big = this.F.has('bigloop') && !c.loop && c.depth === 0 && R.p(0.08);
    const n = big ? num(R.pick([301, 350, 700, 1500])) : R.p(0.5) ? num(R.int(0, 6)) : ['c', 'and', [this.expr(c, 1), num(R.pick([3, 7]))]];
    const vars = [...c.vars, i, ...(extra ? [j] : [])], lc = { ...sub, vars, loop: true, loopDepth: (c.loopDepth || 0) + (big ? 2 : 1), protect: new Set([...c.protect, i]), depth: big ? this.o.nest : c.depth + 1 };
    const more = extra ? [['let', [j], this.expr(c, 1)]] : [];
    const down = R.p(0.3);
    const init = [...(R.p(0.5) ? more : []), ['let', [i], down ? n : num(0)]]; if (more.length && init.length === 1) init.push(more[0]);
    // the bound is evaluated again and again: it may change while the loop runs, but stays bounded
    const cond = down ? R.pick([iv, ['c', 'iszero', [['c', 'iszero', [iv]]]], ['c', 'gt', [iv, num(0)]]]) : R.pick([['c', 'lt', [iv, n]], ['c', 'gt', [n, iv]], ['c', 'iszero', [['c', 'gt', [['c', 'add', [iv, num(1)]], n]]]], ['c', 'slt', [iv, n]]]);
    const step = ['set', [i], down ? ['c', 'sub', [iv, num(1)]] : ['c', 'add', R.p(0.5) ? [iv, num(1)] : [num(1), iv]]];
    const post = R.p(0.25) && !big ? [...this.block({ ...lc, loop: false, depth: 9 }), step].filter((s) => s[0] !== 'let' && !['leave', 'break', 'continue'].includes(s[0])).filter((s) => s === step || okPost(s, vars)) : [step];
    return ['for', init, cond, post, this.block(lc)];
  }
}

// Programs that are mostly expressions over operands of every kind the compiler tells apart: literals small and
// large, words from the input, sizes, addresses, truth values, storage, memory, hashes and function results.
export class ExprGen extends Gen {
  program() {
    const R = this.R; this.cur = null; this.budget = 99;
    this.sigs = [{ name: 'f', i: 0, np: 1, nr: 1 }, { name: R.pick(['g', 'abi_decode_address', 'fun_transfer', 'abi_decode_t_address', 'checked_add']), i: 1, np: 3, nr: 1 }].slice(0, R.int(0, 2));
    if (this.o.fmp && this.sigs[1]) this.sigs[1].name = 'g';
    this.vn = VN;
    const leaf = () => R.weighted([[3, () => ['c', 'calldataload', [num(R.int(0, 4) * 32)]]], [2, () => ['c', R.pick(ENV), []]], [2, () => ['c', R.pick(['caller', 'address', 'origin', 'coinbase', 'prevrandao', 'callvalue']), []]], [1, () => ['c', 'sload', [num(R.int(0, 4))]]], [1, () => ['c', 'mload', [num(this.base + 32 * R.int(0, 4))]]], [2, () => literal(R)], [1, () => ['c', 'keccak256', [num(this.base), num(R.int(0, 64))]]]])();
    const vars = this.fresh([], R.int(2, 6)); const body = [['do', ['c', 'calldatacopy', [num(this.base), num(0), num(160)]]]]; if (this.o.fmp) body.unshift(['do', ['c', 'mstore', [num(64), num(128)]]]);
    for (const v of vars) body.push(['let', [v], leaf()]);
    const c = { vars, loop: false, depth: 9, protect: new Set() };
    const funcs = this.sigs.map((s) => { const ns = this.fresh([], s.np + 1); this.cur = s; const fc2 = { ...c, vars: ns, fn: true }; const b = []; if (R.p(0.4)) b.push(['let', ['tmp'], this.op(fc2)], ['set', [ns.at(-1)], ['c', 'xor', [['v', 'tmp'], this.op(fc2)]]]); else if (R.p(0.3)) b.push(['if', this.op(fc2), [['set', [ns.at(-1)], this.op(fc2)]]], ['if', this.cond(fc2, 1), [['set', [ns[0]], this.op(fc2)]]], ['set', [ns.at(-1)], ['c', 'add', [['v', ns.at(-1)], ['v', ns[0]]]]]); else b.push(['set', [ns.at(-1)], this.op(fc2)]); return { name: s.name, params: ns.slice(0, -1), rets: ns.slice(-1), body: b }; });
    this.cur = null;
    for (const s of this.sigs) body.push(['do', ['c', 'sstore', [num(60 + s.i), this.call1(s, c, 2)]]]);
    const n = R.int(...this.o.stmts);
    for (let k = 0; k < n; k++) body.push(...this.use(c, k));
    if (R.p(0.7)) body.push(['do', ['c', 'return', [num(this.base), num(160)]]]); else body.push(this.ret(c, true));
    return { funcs, body };
  }
  // one builtin (or a shape of several) applied to operands
  op(c) {
    const R = this.R;
    if (R.p(0.12)) return this.idiom(c, R.int(1, 2));
    if (R.p(0.12)) return this.cond(c, 1);
    if (R.p(0.25)) return this.expr(c, R.int(1, 3));
    const f = R.pick(PUREN), arg = (i) => (['shl', 'shr', 'sar'].includes(f) && i === 0 && R.p(0.5) ? literal(R, BigInt(R.int(0, 258))) : ['byte', 'signextend'].includes(f) && i === 0 && R.p(0.6) ? literal(R, BigInt(R.int(0, 33))) : this.expr(c, R.weighted([[6, 0], [3, 1], [1, 2]])));
    return ['c', f, Array.from({ length: BUILTINS[f][0] }, (_, i) => (i === 1 && f === 'exp' && R.p(0.6) ? num(R.int(0, 12)) : arg(i)))];
  }
  use(c, k) {
    const R = this.R, e = this.op(c), s = (x) => ['do', ['c', 'sstore', [num(100 + k), x]]];
    return R.weighted([
      [10, () => [s(e)]], [2, () => [['do', ['c', 'sstore', [e, num(1000 + k)]]]]], [3, () => [['do', ['c', 'mstore', [num(this.base + 32 * R.int(0, 4)), e]]]]], [1, () => [['do', ['c', 'mstore8', [num(this.base + R.int(0, 159)), e]]]]], [2, () => [['do', ['c', 'tstore', [num(k), e]]]]], [1, () => [['do', ['c', 'tstore', [e, num(k + 1)]]]]],
      [2, () => [['if', e, [s(num(1))]]]], [1, () => [['if', ['c', 'iszero', [e]], [s(num(2))]]]], [1, () => [['switch', e, [[num(0), [s(num(3))]], [num(1), [s(num(4))]], ...(R.p(0.5) ? [[literal(R, (1n << 255n) + BigInt(k)), [s(num(5))]]] : [])], R.p(0.5) ? [s(num(6))] : null]]],
      [2, () => { const m = R.int(0, 4); return [['do', ['c', 'log' + m, [num(this.base), num(R.int(0, 64)), ...Array.from({ length: m }, () => this.op(c))]]]]; }], [3, () => [['set', [R.pick(c.vars)], e]]], [2, () => { const v = R.pick(c.vars); return [['set', [v], ['c', R.pick(['add', 'sub', 'mul', 'xor', 'and', 'or', 'shl', 'lt']), R.p(0.5) ? [['v', v], e] : [e, ['v', v]]]]]; }],
      [2, () => [s(['c', 'sload', [e]])]], [1, () => [s(['c', 'calldataload', [e]])]], [1, () => [s(['c', 'balance', [e]])]], [1, () => [s(['c', 'keccak256', [this.up(['c', 'and', [e, num(127)]]), num(R.int(0, 70))]])]], [this.F.has('calls') ? 2 : 0, () => [s(['c', 'call', [e, this.addr(c, 0), this.op(c), num(this.base), num(R.pick([0, 4, 36])), num(this.base), num(R.pick([0, 32]))]])]],
      [1, () => [['for', [['let', ['q'], ['c', 'and', [e, num(3)]]]], ['c', 'lt', [['v', 'q'], num(5)]], [['set', ['q'], ['c', 'add', [['v', 'q'], num(1)]]]], [['do', ['c', 'sstore', [['c', 'add', [num(2000 + 10 * k), ['v', 'q']]], this.expr(c, 1)]]]]]]],
      [1, () => [['do', ['c', 'pop', [e]]]]],
      [3, () => { const o = num(this.base + 32 * R.int(0, 4)), x = literal(R, edge(R)); return [['do', ['c', 'mstore', [o, x]]], s(['c', 'mload', [o]])]; }], [2, () => [['if', this.cond(c, 0), [s(num(7))]]]], [1, () => [s(literal(R, edge(R)))]],
      [1, () => [s(['c', R.pick(PUREN.filter((x) => x !== 'exp' && BUILTINS[x][0] === 2)), R.p(0.5) ? [literal(R, edge(R)), this.expr(c, 0)] : [this.expr(c, 0), literal(R, edge(R))]])]],
    ])();
  }
}
const clone = (x) => (Array.isArray(x) ? x.map(clone) : x && typeof x === 'object' ? Object.fromEntries(Object.entries(x).map(([k, v]) => [k, clone(v)])) : x);
const renameVars = (b, rn) => { const go = (x) => { if (!Array.isArray(x)) return; if (x[0] === 'v' && typeof x[1] === 'string' && x.length === 2) x[1] = rn(x[1]); else if ((x[0] === 'let' || x[0] === 'set') && Array.isArray(x[1])) { x[1] = x[1].map(rn); if (x[2]) go(x[2]); } else x.forEach(go); }; go(b); };
const TWINS = { lt: ['gt', 'slt'], gt: ['lt', 'sgt'], add: ['sub', 'xor'], sub: ['add'], and: ['or'], or: ['and', 'xor'], mload: ['sload'], sload: ['tload'], shl: ['shr'], shr: ['sar'], mstore: ['sstore'], div: ['sdiv'], caller: ['origin'], timestamp: ['number'], callvalue: ['chainid'], calldatasize: ['returndatasize'] };
const ids = (x, out = new Set()) => { if (Array.isArray(x)) { if (x[0] === 'v' && typeof x[1] === 'string') out.add(x[1]); else if (x[0] === 'set') { x[1].forEach((n) => out.add(n)); ids(x[2], out); } else x.forEach((y) => ids(y, out)); } return out; };
const okPost = (s, vars) => [...ids(s)].every((v) => vars.includes(v)) && !JSON.stringify(s, (k, v) => (typeof v === 'bigint' ? '' : v)).match(/"(leave|break|continue)"/);
const declared = (bl) => { const out = []; const go = (x) => { if (Array.isArray(x)) { if (x[0] === 'let') out.push(...x[1]); x.forEach(go); } }; go(bl); return out; };

// ---- printing
const ex = (e) => (e[0] === 'n' ? e[1] : e[0] === 'v' ? e[1] : `${e[1]}(${e[2].map(ex).join(', ')})`);
function st(s, ind) {
  const nl = '\n' + ind, B = (b) => blk(b, ind);
  switch (s[0]) {
    case 'let': return `let ${s[1].join(', ')}${s[2] ? ' := ' + ex(s[2]) : ''}`;
    case 'set': return `${s[1].join(', ')} := ${ex(s[2])}`;
    case 'do': return ex(s[1]);
    case 'if': return `if ${ex(s[1])} ${B(s[2])}`;
    case 'switch': return `switch ${ex(s[1])}${s[2].map(([l, b]) => `${nl}case ${l[1]} ${B(b)}`).join('')}${s[3] ? `${nl}default ${B(s[3])}` : ''}`;
    case 'for': return `for ${B(s[1])} ${ex(s[2])} ${B(s[3])} ${B(s[4])}`;
    case 'block': return B(s[1]);
    default: return s[0];
  }
}
const blk = (b, ind) => (b.length ? `{\n${b.map((s) => ind + '  ' + st(s, ind + '  ')).join('\n')}\n${ind}}` : '{ }');
const fun = (f, ind) => `${ind}function ${f.name}(${f.params.join(', ')})${f.rets.length ? ' -> ' + f.rets.join(', ') : ''} ${blk(f.body, ind)}`;
export const section = (p, ind = '    ') => `{\n${p.body.map((s) => ind + '  ' + st(s, ind + '  ')).join('\n')}\n${p.funcs.map((f) => fun(f, ind + '  ')).join('\n')}\n${ind}}`;
export const source = (deployed, deploy, name = 'C') => `object "${name}" {\n  code ${deploy ? section(deploy, '  ') : '{ }'}\n  object "${name}_deployed" {\n    code ${section(deployed)}\n  }\n}\n`;

// ---- validity (used while shrinking)
export function valid(p) {
  const F = new Map(); for (const f of p.funcs) { if (F.has(f.name)) return false; F.set(f.name, f); }
  const E = (e, sc, n) => {
    if (e[0] === 'n') return n === 1;
    if (e[0] === 'v') return n === 1 && sc.includes(e[1]);
    const f = F.get(e[1]), b = f ? [f.params.length, f.rets.length] : BUILTINS[e[1]];
    const nm = !f && (['linkersymbol', 'loadimmutable', 'dataoffset', 'datasize'].includes(e[1]) ? 0 : e[1] === 'setimmutable' ? 1 : -1);
    if (nm >= 0 && nm !== false && !/^"/.test(e[2][nm]?.[1] ?? '')) return false;
    return !!b && b[0] === e[2].length && b[1] === n && e[2].every((x) => E(x, sc, 1));
  };
  const B = (bl, sc, c) => { sc = [...sc]; return bl.every((s) => S(s, sc, c)); };
  const S = (s, sc, c) => {
    switch (s[0]) {
      case 'let': { if (s[2] && !E(s[2], sc, s[1].length)) return false; for (const n of s[1]) { if (sc.includes(n) || F.has(n)) return false; sc.push(n); } return true; }
      case 'set': return s[1].every((n) => sc.includes(n)) && new Set(s[1]).size === s[1].length && E(s[2], sc, s[1].length);
      case 'do': return s[1][0] === 'c' && E(s[1], sc, 0);
      case 'if': return E(s[1], sc, 1) && B(s[2], sc, c);
      case 'switch': return (s[2].length > 0 || !!s[3]) && E(s[1], sc, 1) && new Set(s[2].map((x) => x[0][2])).size === s[2].length && s[2].every((x) => x[0][0] === 'n' && B(x[1], sc, c)) && (!s[3] || B(s[3], sc, c));
      case 'for': { const v = [...sc]; return s[1].every((x) => S(x, v, { ...c, loop: false })) && E(s[2], v, 1) && B(s[3], v, { ...c, loop: false }) && B(s[4], v, { ...c, loop: true }); }
      case 'block': return B(s[1], sc, c);
      case 'leave': return c.fn; default: return c.loop;
    }
  };
  return B(p.body, [], { fn: false, loop: false }) && p.funcs.every((f) => new Set([...f.params, ...f.rets]).size === f.params.length + f.rets.length && B(f.body, [...f.params, ...f.rets], { fn: true, loop: false }));
}

// ---- shrinking: smaller valid variants of a code section, biggest cuts first
export function* shrinkSection(p) {
  const used = new Set(); const mark = (x) => { if (Array.isArray(x)) { if (x[0] === 'c' && typeof x[1] === 'string') used.add(x[1]); x.forEach(mark); } };
  mark(p.body); p.funcs.forEach((f) => mark(f.body));
  const un = p.funcs.filter((f) => used.has(f.name)); if (un.length < p.funcs.length) yield { ...p, funcs: un };
  for (const b of shrinkBlock(p.body)) yield { ...p, body: b };
  for (let i = 0; i < p.funcs.length; i++) {
    const put = (f) => ({ ...p, funcs: p.funcs.map((g, j) => (j === i ? f : g)) });
    for (const b of shrinkBlock(p.funcs[i].body)) yield put({ ...p.funcs[i], body: b });
  }
}
function* shrinkBlock(b) {
  if (b.length > 3) { const h = b.length >> 1; yield b.slice(0, h); yield b.slice(h); }
  if (b.length > 8) { const q = b.length >> 2; for (let i = 0; i < b.length; i += q) yield [...b.slice(0, i), ...b.slice(i + q)]; }
  for (let i = b.length - 1; i >= 0; i--) yield [...b.slice(0, i), ...b.slice(i + 1)];
  for (let i = 0; i < b.length; i++) for (const s of shrinkStmt(b[i])) yield [...b.slice(0, i), ...s, ...b.slice(i + 1)];
}
function* shrinkStmt(s) {
  switch (s[0]) {
    case 'let': case 'set': if (s[2]) for (const e of shrinkExpr(s[2])) yield [[s[0], s[1], e]]; break;
    case 'do': for (let i = 0; i < s[1][2].length; i++) for (const e of shrinkExpr(s[1][2][i])) yield [['do', ['c', s[1][1], s[1][2].map((x, j) => (j === i ? e : x))]]]; break;
    case 'if': yield s[2]; for (const b of shrinkBlock(s[2])) yield [['if', s[1], b]]; for (const e of shrinkExpr(s[1])) yield [['if', e, s[2]]]; break;
    case 'block': yield s[1]; for (const b of shrinkBlock(s[1])) yield [['block', b]]; break;
    case 'switch':
      for (const [, b] of s[2]) yield b; if (s[3]) yield s[3];
      for (let i = 0; i < s[2].length; i++) { yield [['switch', s[1], s[2].filter((_, j) => j !== i), s[3]]]; for (const b of shrinkBlock(s[2][i][1])) yield [['switch', s[1], s[2].map((x, j) => (j === i ? [x[0], b] : x)), s[3]]]; }
      if (s[3]) { yield [['switch', s[1], s[2], null]]; for (const b of shrinkBlock(s[3])) yield [['switch', s[1], s[2], b]]; }
      for (const e of shrinkExpr(s[1])) yield [['switch', e, s[2], s[3]]]; break;
    case 'for':
      yield [...s[1], ...s[4]];
      for (const b of shrinkBlock(s[4])) yield [['for', s[1], s[2], s[3], b]];
      for (const e of shrinkExpr(s[2])) yield [['for', s[1], e, s[3], s[4]]];
      for (const b of shrinkBlock(s[1])) yield [['for', b, s[2], s[3], s[4]]];
      if (s[3].length > 1) for (const b of shrinkBlock(s[3])) yield [['for', s[1], s[2], b, s[4]]]; break;
    default:
  }
}
function* shrinkExpr(e) {
  if (e[0] === 'n') { if (e[2] > 1n) { yield num(0); yield num(1); if (e[2] > 255n && !e[1].startsWith('"')) { yield num(e[2] >> 8n); yield num(e[2] >> 1n); } } else if (e[1] !== '0' && e[1] !== '1') yield num(e[2]); return; }
  if (e[0] === 'v') { yield num(0); yield num(1); return; }
  yield num(0); yield num(1);
  for (const a of e[2]) yield a;
  for (let i = 0; i < e[2].length; i++) for (const a of shrinkExpr(e[2][i])) yield ['c', e[1], e[2].map((x, j) => (j === i ? a : x))];
}

// An arbitrary made of a generator and a shrinker of its own. Shrinking stops after the given time.
export class Custom extends fc.Arbitrary {
  constructor(gen, shr, seconds = 45) { super(); Object.assign(this, { gen, shr, seconds, deadline: 0 }); }
  generate(mrng) { return new fc.Value(this.gen(new Rng(mrng)), undefined); }
  canShrinkWithoutContext() { return false; }
  shrink(v) {
    if (!this.deadline) this.deadline = Date.now() + this.seconds * 1000;
    const self = this;
    return new fc.Stream((function* () { for (const x of self.shr(v)) { if (Date.now() > self.deadline) return; yield new fc.Value(x, undefined); } })());
  }
}
export { hex, be32 };
