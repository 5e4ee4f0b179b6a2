// Environment queries give the chain's values exactly, whatever was in the result before and was asked before.
import { fc, fail } from '../lib/harness.mjs';
import { RT, word, blob, bytes, size, LAYOUTS } from '../lib/rt.mjs';
import { ADDR, fromBE, keccak256 } from '../lib/util.mjs';
const a20 = word.map((x) => x & ADDR), u64 = fc.oneof(fc.bigInt({ min: 0n, max: (1n << 64n) - 1n }), fc.constantFrom(0n, 1n, 1n << 63n, (1n << 64n) - 1n, 1n << 32n, (1n << 32n) - 1n));
const GET = { address: ['wrapper_current_contract', 'be'], caller: ['wrapper_caller', 'be'], origin: ['wrapper_origin', 'be'], coinbase: ['wrapper_block_coin_base', 'be'], prevrandao: ['wrapper_block_prevRandao', 'be'],
  callvalue: ['wrapper_callvalue', 'le'], chainid: ['wrapper_current_chainid', 'le'], basefee: ['wrapper_current_base_fee', 'le'], blobbasefee: ['wrapper_current_blob_base_fee', 'le'], gasprice: ['wrapper_gas_price', 'le'],
  gas: ['wrapper_gas'], gaslimit: ['wrapper_gas_limit'], timestamp: ['wrapper_time_stamp'], number: ['wrapper_block_number'] };
const code = fc.oneof({ weight: 4, arbitrary: bytes(0, 120) }, blob(70000)), ai = fc.integer({ min: 0, max: 5 });
const op = fc.oneof({ weight: 6, arbitrary: fc.tuple(fc.constant('get'), fc.constantFrom(...Object.keys(GET))) }, fc.tuple(fc.constantFrom('callvalue0', 'selfbalance')),
  { weight: 3, arbitrary: fc.tuple(fc.constantFrom('balance', 'hash', 'size'), ai, fc.boolean()) },
  { weight: 3, arbitrary: fc.tuple(fc.constant('copy'), ai, fc.boolean(), fc.oneof(fc.integer({ min: 0, max: 400 }), size(8000)), fc.oneof(fc.integer({ min: 0, max: 160 }), size(70000)), fc.oneof(fc.integer({ min: 0, max: 150 }), size(8000))) },
  fc.tuple(fc.constant('blockhash'), fc.integer({ min: 0, max: 3 })),
  // what can change while a contract runs (by its calls, or by time)
  fc.tuple(fc.constant('newbalance'), ai, word), fc.tuple(fc.constant('newgas'), u64), fc.tuple(fc.constant('newcode'), ai, code));
export default async function (h) {
  h.build('rt');
  h.rule('random chain environments; histories of 5..40 queries in any order on garbage-filled results, for known and unknown accounts with clean and dirty upper address bytes, balances, gas and account code changing in between, code copies inside, across and past the end; compared with the environment; non-trivial: a value is asked for again after it changed, or an account query with dirty upper bytes');
  const env = fc.record({ address: a20, caller: a20, origin: a20, coinbase: a20, callvalue: word, prevrandao: word, gaslimit: u64, timestamp: u64, number: u64, gas: u64, gasprice: word, basefee: word, blobbasefee: word, chainid: word });
  await h.prop('queries', fc.record({ layout: fc.constantFrom(...LAYOUTS), env, accts: fc.array(fc.record({ a: a20, bal: word, code }), { minLength: 1, maxLength: 4 }), self: word, bns: fc.array(fc.tuple(u64, word), { minLength: 1, maxLength: 3 }), dirty: word, ops: fc.array(op, { minLength: 5, maxLength: 40 }) }), ({ layout, env, accts, self, bns, dirty, ops }) => {
    const bal = new Map(), codes = new Map(), hashes = new Map(), setCode = (a, c) => { codes.set(a, c); hashes.set(a, fromBE(keccak256(c))); };
    for (const x of accts) { bal.set(x.a, x.bal); setCode(x.a, x.code); }
    bal.set(env.address, self);
    const ids = [env.address, ...accts.map((x) => x.a), 0x99n], bh = new Map(bns);
    const E = { ...env, balances: bal, codes, hashes, blockhashes: bh }, rt = new RT(layout, { env: E }), live = rt.host.env;
    let nt = false; const seen = new Set(), stale = new Set(), cls = new Set();
    const eq = (n, g, w) => { if (stale.has(n)) { nt = true; cls.add('asked again after a change'); } seen.add(n); if (g !== w) fail(`${n} is wrong`, { got: g.toString(16), want: w.toString(16) }); };
    const changed = (n) => { if (seen.has(n)) stale.add(n); };
    for (const [k, a, b, c, d, e] of ops) {
      rt.reset(); const id = typeof a === 'number' ? ids[a % ids.length] : 0n, w = b === true ? id | (dirty & ~ADDR) : id;
      if (b === true && w !== id) { nt = true; cls.add('dirty address'); }
      if (k === 'get') { const [f, t] = GET[a]; eq(a, t ? rt.pure(f, [['out-' + t]]).outs[0] : BigInt.asUintN(64, rt.fn(f)), live[a]); }
      else if (k === 'callvalue0') eq('callvalue is not zero', BigInt(rt.fn('wrapper_callvalue_not_zero')), env.callvalue ? 1n : 0n);
      else if (k === 'selfbalance') eq('balance of ' + env.address, rt.pure('wrapper_self_balance', [['out-le']]).outs[0], bal.get(env.address));
      else if (k === 'balance') eq('balance of ' + id, rt.pure('wrapper_query_balance', [['be', w], ['out-le']]).outs[0], bal.get(id) ?? 0n);
      else if (k === 'hash') eq('code hash of ' + id, rt.pure('wrapper_extcode_hash', [['be', w], ['out-be']]).outs[0], hashes.get(id) ?? 0n);
      else if (k === 'size') eq('code size of ' + id, BigInt(rt.pure('wrapper_extcode_size', [['be', w]]).ret >>> 0), BigInt((codes.get(id) ?? []).length));
      else if (k === 'blockhash') { const n = (bns[a % bns.length][0] + (a === 3 ? 1n : 0n)) & ((1n << 64n) - 1n); eq('blockhash', rt.pure('wrapper_block_hash', [BigInt.asIntN(64, n), ['out-be']]).outs[0], bh.get(n) ?? 0n); }
      else if (k === 'newbalance') { bal.set(id, b); changed('balance of ' + id); }
      else if (k === 'newgas') { live.gas = a; changed('gas'); }
      else if (k === 'newcode') { if (id !== env.address) { setCode(id, b); for (const x of ['size', 'hash', 'copy']) changed(x === 'copy' ? 'copy of ' + id : `code ${x} of ${id}`); } }
      else {
        const [dst, off, len] = [c, d, e], M = Math.max(1024, dst + len + 64), src = codes.get(id) ?? new Uint8Array();
        rt.fn('evm_make_sure_memory', M); rt.put(rt.base(), new Uint8Array(M).fill(0xdd));
        rt.pure('wrapper_extcode_copy', [['be', w], dst, off, len]);
        const m = new Uint8Array(M).fill(0xdd), part = new Uint8Array(len); if (off < src.length) part.set(src.subarray(off, off + len)); m.set(part, dst);
        const g = rt.get(rt.base(), M); cls.add(off >= src.length ? 'copy past the end' : off + len > src.length ? 'copy across the end' : 'copy inside');
        if (Buffer.compare(g, m)) fail('extcodecopy is wrong', { dst, off, len, code: src.length, first: g.findIndex((x, i) => x !== m[i]) });
        eq('copy of ' + id, 0n, 0n);
      }
    }
    h.record({ env, ops }, nt, [...cls]);
  }, { runs: h.n(6000) });
}
