// The example scripts of the repository, run as main programs of long-lived Python processes.
import path from 'node:path';
import { V, REPO, HarnessError } from './harness.mjs';
import { Pool } from './proc.mjs';
let pool;
export const LANES = 4;
export async function run(script, args, cwd = V) {
  pool ??= new Pool(LANES, '/opt/vp/venv/bin/python3', ['-B', path.join(V, 'lib/py/server.py')], { PYTHONIOENCODING: 'utf-8', LC_ALL: 'C.UTF-8' });
  const r = await pool.ask([path.join(REPO, script), cwd, ...args]);
  if (String(r[0]) === 'crash') throw new HarnessError(`the Python process ended: ${r[1]}`);
  return { code: +String(r[0]), out: String(r[1]), err: String(r[2]) };
}
export const stop = () => pool?.stop();
