// Client of the compile server: Yul source to WebAssembly.Module with the repository's compiler.
import fs from 'node:fs';
import path from 'node:path';
import { Pool } from './proc.mjs';
import { BUILD } from './harness.mjs';
import os from 'node:os';
const outDir = () => { const d = path.join(BUILD, 'out'); fs.mkdirSync(d, { recursive: true }); return d; };
let pool;
export const LANES = Math.max(2, Math.min(8, os.cpus().length));
export function yulcPool() { return (pool ??= new Pool(LANES, path.join(BUILD, 'target/release/yulc'), [], { CHAIN_IR_CLANG_RT_LIB_DIR: path.join(BUILD, 'rt'), YULC_OUT: outDir() })); }
const cache = new Map();
// opts: {opt_level, no_inline, debug, minify, disable_all, enable_all, le_storage, ignore_unknown, main, ret, symbols: {path: addr}}
export async function compile(src, opts = {}) {
  const kv = [];
  for (const [k, v] of Object.entries(opts)) {
    if (k === 'symbols') for (const [p, a] of Object.entries(v)) kv.push(`symbol=${p}=${a}`);
    else kv.push(`${k}=${v === true ? 1 : v === false ? 0 : v}`);
  }
  const [st, payload] = await yulcPool().ask(['compile', ...kv, '', src]);
  const status = st.toString();
  if (status === 'ok') return { status, wasm: new Uint8Array(payload) };
  return { status, message: payload.toString() };
}
