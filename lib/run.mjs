// Entry point: run.mjs <property id> [--tier quick|thorough] [--replay FILE] [--only NAME]
import fs from 'node:fs';
import path from 'node:path';
import { start } from './watchdog.mjs';
import { Harness, HarnessError, V, decode } from './harness.mjs';
const a = process.argv.slice(2);
const opt = (k) => { const i = a.indexOf(k); return i < 0 ? undefined : a[i + 1]; };
const id = a[0];
const tier = opt('--tier') || process.env.VERIF_TIER || 'quick';
const seed = Number(process.env.VERIF_SEED || 1) | 0;
const h = new Harness(id, tier, seed);
if (opt('--replay')) h.replayCase = decode(fs.readFileSync(opt('--replay'), 'utf8'));
h.only = opt('--only');
start(id, path.join(V, 'evidence', 'replays'));
let code = 2;
try {
  const m = await import(path.join(V, 'checks', `${id}.mjs`));
  await m.default(h);
  code = h.finish();
} catch (e) {
  console.log(`ERROR ${id}: ${e instanceof HarnessError ? e.message : e?.stack || e}`);
  // A violation already printed stays decided.
  code = h.violations ? 1 : 2;
  if (h.violations) h.finish();
}
process.exit(code);
