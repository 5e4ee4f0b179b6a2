// The built-in token transfer has the storage, log and revert effects of the Yul function it replaces.
import { fc, fail } from '../lib/harness.mjs';
import { RT, word, LAYOUTS } from '../lib/rt.mjs';
import { ADDR, MASK, be32, fromBE, h64, hex, keccak256, u256 } from '../lib/util.mjs';
const slot = (a) => fromBE(keccak256(Uint8Array.from([...be32(a & ADDR), ...be32(0n)])));
const TOPIC = 0xddf252ad1be2c89b69c2b068fc378daa952ba7f163c4a11628f55a4df523b3efn;
export default async function (h) {
  h.build('rt');
  h.rule('sequences of 1..6 transfers among a few accounts (self transfers, zero addresses, dirty upper bytes, amounts at, around and beyond the balance, wrapping sums) over random initial balances, against an interpretation of the documented Yul function; non-trivial: an amount moves between two accounts');
  const acct = fc.oneof({ weight: 8, arbitrary: fc.integer({ min: 0, max: 3 }) }, { weight: 1, arbitrary: fc.constant(-1) });
  const amt = fc.oneof(fc.tuple(fc.constant('rel'), fc.constantFrom(-1n, 0n, 1n)), fc.tuple(fc.constant('abs'), word), fc.tuple(fc.constant('part'), fc.bigInt({ min: 1n, max: 100n })));
  await h.prop('transfers', fc.record({ layout: fc.constantFrom(...LAYOUTS), accts: fc.array(word.map((a) => a & ADDR), { minLength: 4, maxLength: 4 }), bal: fc.array(word, { minLength: 4, maxLength: 4 }), ops: fc.array(fc.record({ from: acct, to: acct, amt, df: fc.option(word, { freq: 3 }), dt: fc.option(word, { freq: 3 }) }), { minLength: 1, maxLength: 6 }) }), ({ layout, accts, bal, ops }) => {
    let storage = new Map(); accts.forEach((a, i) => { if (bal[i]) storage.set(h64(slot(a)), h64(bal[i])); else storage.delete(h64(slot(a))); });
    const S = new Map(storage), cls = new Set(); let nt = false;
    const get = (k) => BigInt('0x' + (S.get(h64(k)) ?? '0')), put = (k, v) => { if (v) S.set(h64(k), h64(v)); else S.delete(h64(k)); };
    for (const o of ops) {
      const rt = new RT(layout, { storage });
      const f = o.from < 0 ? 0n : accts[o.from], t = o.to < 0 ? 0n : accts[o.to], b = get(slot(f));
      const v = o.amt[0] === 'rel' ? u256(b + o.amt[1]) : o.amt[0] === 'abs' ? o.amt[1] : b / o.amt[1];
      const dirty = (x, d) => (d === null ? x : x | (d & ~ADDR & MASK));
      const args = [rt.be(dirty(f, o.df)), rt.be(dirty(t, o.dt)), rt.be(v)];
      let want;
      if (f === 0n) want = ['revert', '96c6fd1e' + h64(0n)];
      else if (t === 0n) want = ['revert', 'ec442f05' + h64(0n)];
      else if (b < v) want = ['revert', 'e450d38c' + h64(f) + h64(b) + h64(v)];
      else { want = ['fallthrough', '']; put(slot(f), b - v); put(slot(t), u256(get(slot(t)) + v)); if (f !== t && v) nt = true; }
      cls.add(want[0] === 'revert' ? `revert ${want[1].slice(0, 8)}` : f === t ? 'self transfer' : 'transfer'); if (o.df || o.dt) cls.add('dirty address');
      const r = rt.call('wrapper_optimized_erc20_fun_transfer', ...args);
      const d = { from: h64(f), to: h64(t), value: h64(v), balance: h64(b) };
      if (r.kind !== want[0] || hex(r.data) !== want[1]) fail('a transfer ends differently from the function it replaces', { got: [r.kind, hex(r.data), r.msg], want, ...d });
      if (JSON.stringify([...storage].sort()) !== JSON.stringify([...S].sort())) fail('a transfer leaves different balances', { got: [...storage], want: [...S], ...d });
      const wl = want[0] === 'revert' ? [] : [{ data: h64(v), topics: [h64(TOPIC), h64(f), h64(t)] }];
      if (JSON.stringify(rt.host.logs) !== JSON.stringify(wl)) fail('a transfer emits different logs', { got: rt.host.logs, want: wl, ...d });
    }
    h.record({ accts, bal, ops }, nt, [...cls]);
  }, { runs: h.n(9000) });
}
