// Contract creation hands the chain exactly the code, arguments, value and salt, and gives back the new address.
import { fc, fail } from '../lib/harness.mjs';
import { RT, word, bytes, blob, size, LAYOUTS } from '../lib/rt.mjs';
import { ADDR, h64, hex } from '../lib/util.mjs';
const one = fc.record({ two: fc.boolean(), value: word, salt: word, off: fc.oneof(fc.integer({ min: 0, max: 2000 }), size(70000)), code: fc.oneof(bytes(0, 60), bytes(200, 700), blob(140000)), args: fc.oneof(bytes(0, 130), blob(70000)), addr: word.map((a) => a & ADDR), ok: fc.integer({ min: 0, max: 7 }).map((n) => n > 0), status: fc.constantFrom(1, 2) });
export default async function (h) {
  h.build('rt');
  h.rule('sequences of 1..4 creations of both kinds with embedded code of 0..140000 bytes behind its 4-byte length and arguments of 0..70000 bytes at any memory offset; what the chain saw, the address given back and memory are compared; non-trivial: code and arguments not empty');
  const js = (x) => JSON.stringify(x, (k, v) => (typeof v === 'bigint' ? h64(v) : v));
  await h.prop('create', fc.record({ layout: fc.constantFrom(...LAYOUTS), ops: fc.array(one, { minLength: 1, maxLength: 4 }) }), ({ layout, ops }) => {
    const rt = new RT(layout, { script: ops.map((o) => ({ status: o.ok ? 0 : o.status, addr: o.addr, ret: new Uint8Array() })) });
    const want = [], cls = new Set(); let nt = false;
    for (let o of ops) {
      rt.reset();
      if (layout === 'small') o = { ...o, off: Math.min(o.off, 2000), code: o.code.slice(0, 12000), args: o.args.slice(0, 2000) };
      const n = o.code.length, whole = Uint8Array.from([n >>> 24, (n >> 16) & 255, (n >> 8) & 255, n & 255, ...o.code, ...o.args]);
      const M = Math.max(4096, o.off + whole.length + 32); rt.fn('evm_make_sure_memory', M); const m = new Uint8Array(M).fill(0xdd); m.set(whole, o.off); rt.put(rt.base(), m);
      const v = rt.le(o.value), s = rt.le(o.salt), r = rt.fn('memory_alloca_bytes32') >>> 0; rt.put(r, new Uint8Array(32).fill(0xa5)); // any buffer will do, such as a used stack slot
      const e = o.two ? rt.call('wrapper_create2', v, o.off, whole.length, s, r) : rt.call('wrapper_create', v, o.off, whole.length, r);
      want.push({ kind: o.two ? 'create2' : 'create', value: o.value, code: hex(whole.slice(0, 4 + n)), data: hex(o.args), salt: o.two ? o.salt : 0n });
      if (js(rt.host.calls) !== js(want)) fail('the chain saw a different creation', { got: rt.host.calls.at(-1), want: want.at(-1) });
      cls.add(o.two ? 'create2' : 'create'); if (n && o.args.length) nt = true;
      if (o.ok) {
        if (e.kind !== 'fallthrough') fail('a successful creation ended the caller', { ended: e.kind, msg: e.msg });
        if (rt.rbe(r) !== o.addr) fail('the address of the new contract is wrong', { got: h64(rt.rbe(r)), want: h64(o.addr) });
      } else {
        cls.add('failed');
        if (e.kind === 'revert') { h.exclude('failed creation'); break; } // known finding create-failure-reverts
        if (e.kind !== 'fallthrough' || rt.rbe(r) !== 0n) fail('a failed creation does not give the zero address', { ended: e.kind, got: h64(rt.rbe(r)) });
      }
      if (Buffer.compare(rt.get(rt.base(), M), m)) fail('a creation changed memory');
      if (rt.rle(v) !== o.value || rt.rle(s) !== o.salt) fail('a creation changed its operands');
    }
    h.record({ layout, ops }, nt, [...cls]);
  }, { runs: h.n(9000) });
  await h.finding('create-failure-reverts', () => {
    const rt = new RT('big', { script: [{ status: 1, addr: 0n, ret: new Uint8Array() }] });
    rt.fn('evm_make_sure_memory', 64);
    const r = rt.call('wrapper_create', rt.le(0n), 0, 4, rt.fn('memory_alloca_bytes32'));
    return r.kind === 'fallthrough' ? null : `a failed creation ends the caller (${r.kind}) instead of giving the zero address`;
  });
}
