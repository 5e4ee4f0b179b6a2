// Numbers that occur in the code under test, as hints for the generators (never for an oracle): a
// boundary in the code is likelier to be hit by values taken from its literals than by uniform ones.
import fs from 'node:fs';
import path from 'node:path';
import { fc, REPO } from './harness.mjs';
import { MASK, u256 } from './util.mjs';
function harvest() {
  const out = new Set();
  for (const d of ['stdlib', 'src/yul2ir', 'src']) {
    const dir = path.join(REPO, d); if (!fs.existsSync(dir)) continue;
    for (const f of fs.readdirSync(dir).sort()) {
      if (!/\.(c|h|rs)$/.test(f) || f === 'test.rs') continue;
      const t = fs.readFileSync(path.join(dir, f), 'utf8').replace(/\/\/[^\n]*/g, '');
      for (const m of t.matchAll(/(?<![\w.])(0x[0-9a-fA-F]+|\d+)/g)) { try { const v = BigInt(m[1]); if (v <= MASK) out.add(v); } catch { /* not a number */ } }
      for (const m of t.matchAll(/1\w*\s*<<\s*(\d{1,3})/g)) out.add(u256(1n << BigInt(m[1])));
    }
  }
  return [...out].sort((a, b) => (a < b ? -1 : a > b ? 1 : 0));
}
export const NUMS = harvest();
export const small = (max) => { const r = new Set(); for (const v of NUMS) if (v <= BigInt(max) + 1n) for (const d of [-1, 0, 1]) { const x = Number(v) + d; if (x >= 0 && x <= max) r.add(x); } return [...r]; };
// A length or offset in 0..max: mostly small, sometimes at a power of two or at a number of the code, seldom large.
export const size = (max, { usual = 70, rare = 1 } = {}) => {
  const near = new Set(); for (let k = 1; 2 ** k - 1 <= max; k++) for (const d of [-1, 0, 1]) if (2 ** k + d <= max) near.add(2 ** k + d);
  const hints = small(max), lo = (xs) => xs.filter((x) => x <= 4200), hi = (xs) => xs.filter((x) => x > 4200);
  const arbs = [{ weight: 12, arbitrary: fc.integer({ min: 0, max: Math.min(max, usual) }) }, { weight: 4, arbitrary: fc.integer({ min: 0, max: Math.min(max, 600) }) },
    { weight: 2, arbitrary: fc.constantFrom(...lo([...near])) }, { weight: 3, arbitrary: fc.constantFrom(...lo(hints)) }];
  if (max > 4200) arbs.push({ weight: rare, arbitrary: fc.constantFrom(...hi([...near, ...hints]), max) }, { weight: rare, arbitrary: fc.integer({ min: 0, max }) });
  return fc.oneof(...arbs);
};
export const hintWord = fc.tuple(fc.constantFrom(...NUMS), fc.constantFrom(-1n, 0n, 1n), fc.constantFrom(0n, 0n, 0n, 8n, 96n, 128n, 192n, 224n, 248n), fc.boolean()).map(([v, d, s, n]) => u256((n ? ~(v + d) : v + d) << s));
// Names and short texts in the string literals of the code under test, likewise hints only.
export const TEXTS = (() => {
  const out = new Set();
  for (const d of ['src/yul2ir', 'src']) {
    const dir = path.join(REPO, d); if (!fs.existsSync(dir)) continue;
    for (const f of fs.readdirSync(dir).sort()) {
      if (!/\.(rs|lalrpop)$/.test(f) || f === 'test.rs') continue;
      const t = fs.readFileSync(path.join(dir, f), 'utf8').replace(/^\s*\/\/[^\n]*/gm, '');
      for (const m of t.matchAll(/"([^"\\\n]{1,40})"|'([^'\\\n])'/g)) out.add(m[1] ?? m[2]);
    }
  }
  return [...out].sort();
})();
export const NAMES = TEXTS.filter((x) => /^[a-zA-Z_][a-zA-Z_0-9.$]*$/.test(x));
