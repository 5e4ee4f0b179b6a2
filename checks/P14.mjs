// External calls send exactly what was asked and give back status, output and return data as the callee left them.
import { fc, fail } from '../lib/harness.mjs';
import { RT, word, bytes, blob, size, LAYOUTS } from '../lib/rt.mjs';
import { ADDR, hex, h64 } from '../lib/util.mjs';
const addr = fc.oneof({ weight: 4, arbitrary: word }, { weight: 2, arbitrary: fc.integer({ min: 0, max: 14 }).map(BigInt) }, fc.integer({ min: 1, max: 10 }).chain((n) => fc.constantFrom(BigInt(n) | (1n << 64n), BigInt(n) | (1n << 152n), BigInt(n) | 0x100n, BigInt(n) << 8n)));
const callOp = fc.record({
  kind: fc.constantFrom('call', 'delegatecall', 'staticcall'), to: addr.map((a) => a & ADDR), dirty: fc.boolean(), value: word, gas: fc.oneof(fc.bigInt({ min: 0n, max: (1n << 63n) - 1n }), fc.constantFrom(0n, (1n << 64n) - 1n, 21000n)),
  inOff: fc.oneof(fc.integer({ min: 0, max: 700 }), size(70000)), inLen: fc.oneof(fc.integer({ min: 0, max: 160 }), size(70000)), outOff: fc.oneof(fc.integer({ min: 0, max: 900 }), size(70000)), outLen: fc.oneof({ weight: 2, arbitrary: fc.constantFrom(0, 32, 64) }, { weight: 2, arbitrary: fc.integer({ min: 0, max: 140 }) }, size(70000)),
  status: fc.oneof({ weight: 5, arbitrary: fc.constant(0) }, { weight: 4, arbitrary: fc.constant(1) }, { weight: 1, arbitrary: fc.constant(2) }), ret: fc.oneof(fc.constantFrom(new Uint8Array()), bytes(0, 140), bytes(32, 32), bytes(64, 200), blob(70000)), longer: fc.option(fc.integer({ min: 1, max: 40 }), { freq: 4 }),
  copy: fc.option(fc.record({ dst: fc.integer({ min: 0, max: 900 }), off: size(2000), len: size(2000), all: fc.boolean() })),
});
const name = { call: 'wrapper_call_contract', delegatecall: 'wrapper_delegatecall', staticcall: 'wrapper_staticcall' };
const precompile = (a) => a >= 1n && a <= 10n;
export default async function (h) {
  h.build('rt');
  h.rule('sequences of 1..4 calls of every kind to ordinary and precompile addresses, with scripted outcomes (success, revert, failure to call) and return data shorter, equal and longer than the output area, followed by size queries and copies of return data; the calls seen by the chain and the whole memory are compared; non-trivial: return data non-empty');
  const run = ({ layout, init, ops }) => {
    // sometimes the output area is just longer than the return data
    ops = ops.map((o) => (o.longer !== null && o.longer !== undefined ? { ...o, outLen: o.ret.length + o.longer } : o));
    if (layout === 'small') ops = ops.map((o) => ({ ...o, inOff: Math.min(o.inOff, 4000), inLen: Math.min(o.inLen, 4000), outOff: Math.min(o.outOff, 4000), outLen: Math.min(o.outLen, 4000) }));
    const M = Math.max(16000, ...ops.map((o) => Math.max(o.inOff + o.inLen, o.outOff + o.outLen) + 64));
    const rt = new RT(layout, { script: ops.map((o) => ({ status: o.status, ret: o.ret })) });
    const m = new Uint8Array(M); rt.fn('evm_make_sure_memory', M); m.set(init); rt.put(rt.base(), m);
    const want = []; let nt = false; const cls = new Set();
    const same = (msg, d) => { const g = rt.get(rt.base(), M); if (!Buffer.compare(g, m)) return; const i = g.findIndex((x, j) => x !== m[j]); fail(msg, { ...d, at: i, got: hex(g.slice(i, i + 32)), want: hex(m.slice(i, i + 32)) }); };
    for (const o of ops) {
      rt.reset();
      const to = rt.be(o.dirty ? 0n : o.to), v = rt.le(o.value);
      if (o.dirty) rt.put(to, rt.get(rt.be(o.to | (0xabcdn << 200n)), 32)); // the upper bytes of an address word are ignored
      const args = [BigInt.asIntN(64, o.gas), to, ...(o.kind === 'call' ? [v] : []), o.inOff, o.inLen, o.outOff, o.outLen];
      const w = { kind: o.kind, gas: BigInt.asUintN(64, o.gas), to: o.to, ...(o.kind === 'call' ? { value: o.value } : {}), data: hex(m.slice(o.inOff, o.inOff + o.inLen)) };
      want.push(w);
      const r = rt.call(name[o.kind], ...args), pre = precompile(o.to) && !o.dirty, d = { op: o };
      const got = rt.host.calls.at(-1);
      if (rt.host.calls.length !== want.length || JSON.stringify(got, big) !== JSON.stringify(w, big)) fail('the chain saw a different call', { got, want: w });
      const n = Math.min(o.ret.length, o.outLen), short = o.ret.length < o.outLen;
      cls.add(`${o.kind} status ${o.status}${pre && o.status ? ' precompile' : ''}${o.status === 1 && short ? ' short' : ''}`);
      if (o.status && o.dirty && precompile(o.to)) { h.exclude('failed precompile with a dirty address word'); if (r.kind !== 'fallthrough') return; if (r.ret !== 0) fail('a failed call reports success', d); m.set(rt.get(rt.base(), M)); continue; }
      if (o.status === 0) {
        if (r.kind !== 'fallthrough' || r.ret !== 1) fail('a successful call does not report success', { ended: r.kind, ret: r.ret, ...d });
        m.set(o.ret.subarray(0, n), o.outOff);
      } else if (pre) {
        if (r.kind !== 'fallthrough' || r.ret !== 0) fail('a failed precompile call does not report failure', { ended: r.kind, ret: r.ret, ...d });
      } else if (o.status === 2) {
        // The call could not be made at all: the contract ends in failure, or sees a failed call.
        if (r.kind === 'revert') { cls.add('could not call'); break; }
        if (r.kind !== 'fallthrough' || r.ret !== 0) fail('a call that could not be made does not report failure', { ended: r.kind, ret: r.ret, ...d });
      } else if (short && r.kind === 'revert') {
        // Known finding short-revert-data: here the failure must at least be passed on unchanged.
        h.exclude('failed call with less return data than the output area');
        if (o.ret.length && o.ret.length <= 1024 && hex(r.data) !== hex(o.ret)) fail('the failure of a call is passed on with different data', { got: hex(r.data), want: hex(o.ret) });
        break;
      } else {
        if (r.kind !== 'fallthrough' || r.ret !== 0) fail('a failed call does not report failure', { ended: r.kind, ret: r.ret, ...d });
        m.set(o.ret.subarray(0, n), o.outOff);
      }
      if (o.ret.length) nt = true;
      same('memory after a call is wrong', d);
      const sz = rt.fn('wrapper_returndata_size') >>> 0;
      if (sz !== o.ret.length) fail('returndatasize is wrong', { got: sz, want: o.ret.length });
      if (o.copy) {
        const c = o.copy.all ? { dst: o.copy.dst, off: 0, len: Math.min(sz, 2000) } : o.copy;
        const r = rt.call('wrapper_returndata_copy', c.dst, c.off, c.len);
        if (c.off + c.len > sz) { cls.add('returndatacopy out of bounds'); if (r.kind === 'fallthrough') fail('returndatacopy past the end did not fail', c); break; }
        if (r.kind !== 'fallthrough') fail('returndatacopy failed', { ended: r.kind, ...c });
        m.set(o.ret.subarray(c.off, c.off + c.len), c.dst); cls.add('returndatacopy');
        same('memory after returndatacopy is wrong', c);
      }
    }
    h.record({ layout, ops }, nt, [...cls]);
  };
  const big = (k, v) => (typeof v === 'bigint' ? h64(v) : v);
  await h.prop('calls', fc.record({ layout: fc.constantFrom(...LAYOUTS), init: bytes(600, 900), ops: fc.array(callOp, { minLength: 1, maxLength: 4 }) }), run, { runs: h.n(14000) });
  await h.finding('short-revert-data', () => {
    const rt = new RT('big', { script: [{ status: 1, ret: Uint8Array.of(1, 2, 3, 4) }] });
    const r = rt.call('wrapper_call_contract', 100000n, rt.be(0x1234n), rt.le(0n), 0, 0, 0, 32);
    return r.kind === 'fallthrough' && r.ret === 0 ? null : `a failed call with 4 bytes of return data and a 32-byte output area ends the caller (${r.kind}) instead of giving 0`;
  });
}
