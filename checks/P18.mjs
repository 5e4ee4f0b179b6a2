// Return, revert, stop, invalid and self-destruct end the contract with exactly the stated outcome and data.
import { fc, fail } from '../lib/harness.mjs';
import { RT, word, bytes, size, LAYOUTS } from '../lib/rt.mjs';
import { ADDR, fromBE, hex } from '../lib/util.mjs';
export default async function (h) {
  h.build('rt');
  h.rule('one halting operation after 0..4 memory writes, over written, partly written, untouched and not yet expanded memory in every layout; outcome and data compared with a flat array; non-trivial: the data handed out is not empty');
  const w = fc.tuple(fc.integer({ min: 0, max: 900 }), bytes(1, 200));
  await h.prop('halt', fc.record({ layout: fc.constantFrom(...LAYOUTS), ws: fc.array(w, { maxLength: 4 }), how: fc.constantFrom('return', 'revert', 'stop', 'invalid', 'selfdestruct'), off: fc.oneof(fc.integer({ min: 0, max: 1000 }), fc.integer({ min: 0, max: 15000 }), fc.integer({ min: 60000, max: 140000 }), size(140000)), len: fc.oneof(fc.constantFrom(0, 4, 32, 36, 64), fc.integer({ min: 0, max: 1300 }), size(140000)), to: word }), ({ layout, ws, how, off, len, to }) => {
    if (layout === 'small') { off = Math.min(off, 15000); len = Math.min(len, 16384 - off); }
    const rt = new RT(layout), m = new Uint8Array(280100);
    for (const [o, b] of ws) { rt.fn('evm_make_sure_memory', o + b.length); rt.put(rt.base() + o, b); m.set(b, o); }
    const r = how === 'selfdestruct' ? rt.call('wrapper_selfdestruct', rt.be(to)) : how === 'return' || how === 'revert' ? rt.call('wrapper_' + how, off, len) : rt.call('wrapper_' + how);
    const kind = how === 'stop' ? 'return' : how, data = how === 'selfdestruct' ? hex(r.data) : hex(m.slice(off, off + (how === 'return' || how === 'revert' ? len : 0)));
    h.record({ layout, ws, how, off, len }, data.length > 0, [how, layout]);
    if (r.kind !== kind) fail(`${how} ended in ${r.kind}`, { msg: r.msg });
    if (how === 'selfdestruct' ? fromBE(r.data) !== (to & ADDR) : hex(r.data) !== data) fail(`${how} hands out the wrong data`, { got: hex(r.data), want: data });
  }, { runs: h.n(14000) });
}
