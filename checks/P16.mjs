// Logs carry exactly the named memory range and topics, in order.
import { fc, fail } from '../lib/harness.mjs';
import { RT, word, bytes, size, LAYOUTS } from '../lib/rt.mjs';
import { h64, hex } from '../lib/util.mjs';
export default async function (h) {
  h.build('rt');
  h.rule('sequences of 1..6 logs with 0..4 topics over written, partly written and untouched memory, compared with the recorded events; non-trivial: data or a topic is non-zero');
  const log = fc.record({ off: fc.oneof(fc.integer({ min: 0, max: 600 }), fc.integer({ min: 0, max: 15000 }), size(100000)), len: fc.oneof(fc.integer({ min: 0, max: 200 }), size(100000)), topics: fc.array(word, { maxLength: 4 }), w: fc.option(bytes(1, 120)) });
  await h.prop('logs', fc.record({ layout: fc.constantFrom(...LAYOUTS), ls: fc.array(log, { minLength: 1, maxLength: 6 }) }), ({ layout, ls }) => {
    if (layout === 'small') ls = ls.map((l) => ({ ...l, off: Math.min(l.off, 15000), len: Math.min(l.len, 1300) }));
    const rt = new RT(layout), m = new Uint8Array(200200), want = []; let nt = false; const cls = new Set();
    for (const l of ls) {
      rt.reset();
      if (l.w) { rt.fn('evm_make_sure_memory', l.off + l.w.length); rt.put(rt.base() + l.off, l.w); m.set(l.w, l.off); }
      const ps = l.topics.map((t) => rt.be(t));
      rt.fn('wrapper_log' + l.topics.length, l.off, l.len, ...ps);
      want.push({ data: hex(m.slice(l.off, l.off + l.len)), topics: l.topics.map(h64) }); cls.add('log' + l.topics.length);
      if (/[1-9a-f]/.test(JSON.stringify(want.at(-1).topics) + want.at(-1).data)) nt = true;
      l.topics.forEach((t, i) => { if (rt.rbe(ps[i]) !== t) fail('emitting a log changed a topic operand', { i }); });
    }
    h.record(ls, nt, [...cls]);
    if (JSON.stringify(rt.host.logs) !== JSON.stringify(want)) fail('the logs differ', { got: rt.host.logs, want });
    const top = Math.max(...ls.map((l) => (l.len ? l.off + l.len : 0)), ...ls.map((l) => (l.w ? l.off + l.w.length : 0)));
    if (Buffer.compare(rt.get(rt.base(), top), m.slice(0, top))) fail('emitting logs changed memory');
  }, { runs: h.n(9000) });
}
