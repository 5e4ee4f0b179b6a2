// The hex converter of the examples: what it writes decodes to the bytes of its input.
import fs from 'node:fs';
import os from 'node:os';
import path from 'node:path';
import { fail, fc } from '../lib/harness.mjs';
import { run, stop, LANES } from '../lib/script.mjs';
const S = 'examples/scripts/bin_to_hex.py';
const bytes = fc.oneof(
  { weight: 4, arbitrary: fc.uint8Array({ maxLength: 80 }) }, { weight: 2, arbitrary: fc.uint8Array({ maxLength: 3000, size: 'max' }) },
  { weight: 3, arbitrary: fc.tuple(fc.constantFrom(0, 1, 15, 16, 31, 32, 33, 255, 256, 1023, 1024, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537, 131072, 200001), fc.nat(255), fc.integer({ min: 0, max: 5 })).map(([n, a, s]) => Uint8Array.from({ length: n }, (_, i) => (a + i * s) & 255)) },
  { weight: 2, arbitrary: fc.tuple(fc.constantFrom([0], [0x0a], [0x0d, 0x0a], [0xff, 0xfe], [0xef, 0xbb, 0xbf], [0x1a], [0, 0x61, 0x73, 0x6d, 1, 0, 0, 0]), fc.uint8Array({ maxLength: 40 }), fc.constantFrom([], [0x0a], [0x0d, 0x0a], [0], [0x20])).map(([a, b, c]) => Uint8Array.from([...a, ...b, ...c])) });
const old = fc.option(fc.string({ maxLength: 400 }), { nil: null });
const fname = fc.constantFrom('in', 'a b.wasm', 'ünï.bin', 'x.cbin', '.hidden', 'very-'.repeat(20));
export default async function (h) {
  h.rule('files of 0..200001 bytes of any content, output paths that are new or hold other text; non-trivial: at least one byte. Failures: input missing, a directory, or an output in no directory');
  const dir = fs.mkdtempSync(path.join(os.tmpdir(), 'p30-')); let k = 0;
  try {
    await h.prop('content', fc.record({ b: bytes, before: old, i: fname, rel: fc.boolean(), same: fc.boolean() }), async ({ b, before, i, rel, same }) => {
      const d = path.join(dir, String(k++)); fs.mkdirSync(d);
      const inp = path.join(d, i), out = path.join(d, same ? i + '.hex' : 'out.txt'); fs.writeFileSync(inp, b); if (before !== null) fs.writeFileSync(out, before);
      const r = await run(S, rel ? [path.basename(inp), path.basename(out)] : [inp, out], d);
      const want = Buffer.from(b).toString('hex'), got = fs.existsSync(out) ? fs.readFileSync(out, 'latin1') : null;
      if (r.code !== 0 || !/success/i.test(r.out)) fail('a readable file is not converted', { size: b.length, r });
      if (got !== want) fail('the text is not the bytes of the file', { size: b.length, got: got?.length, want: want.length, first: got === null ? null : [...want].findIndex((c, j) => c !== got[j]) });
      if (!Buffer.from(b).equals(fs.readFileSync(inp))) fail('the input has changed', { size: b.length });
      fs.rmSync(d, { recursive: true });
      h.record(want.slice(0, 200) + want.length + before, b.length > 0, [b.length > 65536 ? 'over 64 KiB' : b.length > 4096 ? 'over 4 KiB' : 'small', before === null ? 'new output' : 'output replaced']);
    }, { runs: h.n(1500), lanes: LANES });
    await h.prop('failures', fc.record({ kind: fc.constantFrom('missing', 'directory', 'no output directory'), before: old, b: fc.uint8Array({ maxLength: 40 }) }), async ({ kind, before, b }) => {
      const d = path.join(dir, String(k++)); fs.mkdirSync(d);
      const inp = path.join(d, 'in'), out = path.join(d, kind === 'no output directory' ? 'sub/out' : 'out');
      if (kind === 'directory') fs.mkdirSync(inp); if (kind === 'no output directory') { fs.writeFileSync(inp, b); before = null; }
      if (before !== null) fs.writeFileSync(out, before);
      const r = await run(S, [inp, out], d);
      if (r.code === 0 && /success/i.test(r.out)) fail(`success is reported: ${kind}`, { r });
      if ((fs.existsSync(out) ? fs.readFileSync(out, 'utf8') : null) !== before) fail(`a failed conversion changes the output: ${kind}`, { r });
      fs.rmSync(d, { recursive: true });
      h.record(kind + before + Buffer.from(b).toString('hex'), true, [kind]);
    }, { runs: h.n(200), lanes: LANES });
  } finally { fs.rmSync(dir, { recursive: true, force: true }); stop(); }
}
