// Client of the front-end driver.
import path from 'node:path';
import { Pool } from './proc.mjs';
import { BUILD } from './harness.mjs';
let pool;
export const frontPool = () => (pool ??= new Pool(4, path.join(BUILD, 'target/release/front')));
export async function front(op, text) { const [st, p] = await frontPool().ask([op, text]); return { status: st.toString(), bytes: p, text: p.toString() }; }
