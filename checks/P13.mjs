// An immutable is set once and then reads as the value set; setting it again fails and changes nothing.
import { fc, fail } from '../lib/harness.mjs';
import { RT, word } from '../lib/rt.mjs';
import { be32, fromBE, h64, keccak256 } from '../lib/util.mjs';
export default async function (h) {
  h.build('rt');
  h.rule('histories of 1..25 sets and reads over 1..6 immutables keyed like the compiler does (hashes) or by arbitrary words whose marker slots do not collide, interleaved with ordinary storage writes and new instances; against a write-once map; non-trivial: an immutable is read after being set or set twice');
  const key = fc.oneof(fc.string({ minLength: 1, maxLength: 12 }).map((s) => fromBE(keccak256(Buffer.from(('immutable_' + s).padEnd(32, '\0'))))), word);
  const op = fc.oneof({ weight: 3, arbitrary: fc.tuple(fc.constant('set'), fc.nat(7), word, fc.integer({ min: 0, max: 200 })) }, { weight: 4, arbitrary: fc.tuple(fc.constant('get'), fc.nat(7)) },
    fc.tuple(fc.constant('store'), fc.integer({ min: 0, max: 5 }), word), fc.tuple(fc.constant('reopen')));
  // The marker of a slot: its first 13 bytes plus the text "setimmutable_".
  const marker = (k) => { const b = be32(k); [...'setimmutable_'].forEach((c, i) => { b[i] = (b[i] + c.charCodeAt(0)) & 255; }); return fromBE(b); };
  await h.prop('history', fc.record({ keys: fc.uniqueArray(key, { minLength: 1, maxLength: 6 }), ops: fc.array(op, { minLength: 1, maxLength: 25 }) }), ({ keys, ops }) => {
    const ks = keys.filter((k) => k > 10n && !keys.includes(marker(k)) && marker(k) > 10n);
    if (ks.length < keys.length) h.exclude('key that collides with a marker or an ordinary slot', keys.length - ks.length);
    if (!ks.length) return;
    let rt = new RT('big'); const storage = rt.host.storage, M = new Map(), O = new Map(); let nt = false; const cls = new Set();
    for (const [k, a, b, c] of ops) {
      rt.reset();
      if (k === 'reopen') { rt = new RT('big', { storage }); continue; }
      if (k === 'store') { rt.fn('wrapper_sstore_bytes32', rt.be(BigInt(a)), rt.be(b)); O.set(BigInt(a), b); continue; }
      const s = ks[a % ks.length];
      if (k === 'get') {
        const g = rt.pure('wrapper_loadimmutable', [['le', s], ['out-le']]).outs[0], w = M.get(s) ?? 0n;
        if (M.has(s)) { nt = true; cls.add('read after set'); }
        if (g !== w) fail('an immutable does not read as the value it was set to', { key: h64(s), got: h64(g), want: h64(w) });
      } else {
        const r = rt.call('wrapper_setimmutable', c, rt.le(s), rt.le(b));
        if (M.has(s)) {
          nt = true; cls.add('set twice'); if (M.get(s) === 0n) cls.add('zero set twice');
          if (r.kind !== 'revert') fail('an immutable could be set twice', { key: h64(s), first: h64(M.get(s)), second: h64(b), ended: r.kind });
          if (Buffer.from(r.data).toString() !== 'immutable slot already set') fail('the failure of a second set carries the wrong message', { got: Buffer.from(r.data).toString('latin1') });
          rt = new RT('big', { storage }); // the transaction is over
        } else { if (r.kind !== 'fallthrough') fail('a first set failed', { key: h64(s), ended: r.kind, msg: r.msg }); M.set(s, b); }
      }
    }
    for (const k of ks) { rt.reset(); const g = rt.pure('wrapper_loadimmutable', [['le', k], ['out-le']]).outs[0]; if (g !== (M.get(k) ?? 0n)) fail('an immutable does not read as the value it was set to at the end', { key: h64(k), got: h64(g) }); }
    for (const [k, v] of O) { rt.reset(); const g = rt.pure('wrapper_sload_u256', [['be', k], ['out-le']]).outs[0]; if (g !== v) fail('setting an immutable changed an ordinary slot', { slot: h64(k), got: h64(g), want: h64(v) }); }
    h.record({ ks, ops }, nt, [...cls]);
  }, { runs: h.n(12000) });
}
