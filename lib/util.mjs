// Small shared helpers: 256-bit words, bytes, keccak256.
import { createHash } from 'node:crypto';
export const M256 = 1n << 256n;
export const MASK = M256 - 1n;
export const u256 = (x) => ((x % M256) + M256) % M256;
export const toS = (x) => (x >> 255n ? x - M256 : x);
export const hex = (b) => Buffer.from(b).toString('hex');
export const unhex = (s) => new Uint8Array(Buffer.from(s.replace(/^0x/, ''), 'hex'));
export function be32(x) {
  const s = u256(x).toString(16).padStart(64, '0');
  return new Uint8Array(Buffer.from(s, 'hex'));
}
export const le32 = (x) => be32(x).reverse();
export const fromBE = (b) => (b.length ? BigInt('0x' + hex(b)) : 0n);
export const fromLE = (b) => fromBE(Uint8Array.from(b).reverse());
export const h64 = (x) => u256(x).toString(16).padStart(64, '0');
export const ADDR = (1n << 160n) - 1n;

// keccak-f[1600] on 32-bit halves.
const RC = [], ROT = [];
{
  let r = 1;
  const bit = () => { const b = r & 1; r = (r << 1) ^ (r >> 7 ? 0x171 : 0); return b; };
  for (let i = 0; i < 24; i++) { let c = 0n; for (let j = 0; j < 7; j++) if (bit()) c |= 1n << BigInt((1 << j) - 1); RC.push([Number(c >> 32n), Number(c & 0xffffffffn)]); }
  let x = 1, y = 0;
  for (let i = 0; i < 25; i++) ROT.push(0);
  for (let t = 0; t < 24; t++) { ROT[x + 5 * y] = (((t + 1) * (t + 2)) / 2) % 64; [x, y] = [y, (2 * x + 3 * y) % 5]; }
}
function f1600(h, l) {
  const ch = new Int32Array(5), cl = new Int32Array(5), bh = new Int32Array(25), bl = new Int32Array(25);
  for (let rnd = 0; rnd < 24; rnd++) {
    for (let x = 0; x < 5; x++) { ch[x] = h[x] ^ h[x + 5] ^ h[x + 10] ^ h[x + 15] ^ h[x + 20]; cl[x] = l[x] ^ l[x + 5] ^ l[x + 10] ^ l[x + 15] ^ l[x + 20]; }
    for (let x = 0; x < 5; x++) {
      const a = (x + 4) % 5, b = (x + 1) % 5;
      const dh = ch[a] ^ ((ch[b] << 1) | (cl[b] >>> 31)), dl = cl[a] ^ ((cl[b] << 1) | (ch[b] >>> 31));
      for (let y = 0; y < 25; y += 5) { h[x + y] ^= dh; l[x + y] ^= dl; }
    }
    for (let x = 0; x < 5; x++) for (let y = 0; y < 5; y++) {
      const i = x + 5 * y, j = y + 5 * ((2 * x + 3 * y) % 5); let n = ROT[i], a = h[i], b = l[i];
      if (n >= 32) { [a, b] = [b, a]; n -= 32; }
      bh[j] = n ? (a << n) | (b >>> (32 - n)) : a; bl[j] = n ? (b << n) | (a >>> (32 - n)) : b;
    }
    for (let y = 0; y < 25; y += 5) for (let x = 0; x < 5; x++) {
      const p = y + ((x + 1) % 5), q = y + ((x + 2) % 5);
      h[x + y] = bh[x + y] ^ (~bh[p] & bh[q]); l[x + y] = bl[x + y] ^ (~bl[p] & bl[q]);
    }
    h[0] ^= RC[rnd][0]; l[0] ^= RC[rnd][1];
  }
}
export function keccak256(b) {
  const h = new Int32Array(25), l = new Int32Array(25), rate = 136;
  const n = Math.floor(b.length / rate) * rate + rate, m = new Uint8Array(n);
  m.set(b); m[b.length] ^= 1; m[n - 1] ^= 0x80;
  const dv = new DataView(m.buffer);
  for (let o = 0; o < n; o += rate) { for (let i = 0; i < 17; i++) { l[i] ^= dv.getInt32(o + 8 * i, true); h[i] ^= dv.getInt32(o + 8 * i + 4, true); } f1600(h, l); }
  const out = new DataView(new ArrayBuffer(32));
  for (let i = 0; i < 4; i++) { out.setInt32(8 * i, l[i], true); out.setInt32(8 * i + 4, h[i], true); }
  return new Uint8Array(out.buffer);
}
export const sha256 = (b) => new Uint8Array(createHash('sha256').update(b).digest());
export const selector = (sig) => hex(keccak256(Buffer.from(sig)).slice(0, 4));
