// Random programs that use linker symbols and immutables of similar names.
import { Gen } from './yulprog.mjs';
const NAME = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_./:-$ ';
// names that resemble each other: common beginnings and ends of any length, numbers as solc has them
export const names = (R, n, bad) => {
  const stem = Array.from({ length: R.pick([1, 5, 12, 21, 22, 23, 30, 31, 32, 33, 40, 70]) }, () => NAME[R.int(0, NAME.length - 1)]).join('').replace(/^ | $/g, '_').replace(/\/[/*]|\*\//g, '__'), s = new Set();
  while (s.size < n) { const x = R.weighted([[3, () => String(R.int(0, 400))], [3, () => stem + R.int(0, 20)], [1, () => R.int(0, 20) + stem], [2, () => `contracts/${R.pick(['A', 'B', 'lib/A'])}.sol:${R.pick(['A', 'B', 'Lib', 'Lib2'])}`], [1, () => stem], [1, () => stem.slice(0, R.int(1, stem.length))], [1, () => R.pick(['a', 'A', 'immutable', 'owner', 'Owner'])]])(); if (!bad || !bad.test(x)) s.add(x); }
  return [...s];
};
const str = (name) => ['n', `"${name}"`, 0n, name];
export class NamedGen extends Gen {
  key(c, d) { const k = ['n', String(this.R.int(0, 6))]; return [...k, BigInt(k[1])]; }
  named() { const R = this.R, o = this.o, f = o.deploying || !o.imms.length || (o.syms.length && R.p(0.45)) ? 'linkersymbol' : 'loadimmutable'; const ns = f === 'linkersymbol' ? o.syms : o.imms; return ns.length ? ['c', f, [str(R.pick(ns))]] : super.leaf({ vars: [] }); }
  leaf(c) { return this.R.p(0.6) ? this.named() : super.leaf(c); }
  addr(c, d) { return this.R.p(0.35) ? this.named() : super.addr(c, d); }
  expr(c, d) { return this.R.p(0.08) ? this.named() : super.expr(c, d); }
  stmt(c) {
    const R = this.R, o = this.o;
    if (o.deploying && o.imms.length && R.p(c.loop || this.cur ? 0.05 : 0.3)) { const left = o.imms.filter((x) => !this.done?.has(x)); if (left.length || R.p(0.1)) { const n = R.pick(left.length && R.p(0.97) ? left : o.imms); (this.done ??= new Set()).add(n); return [['do', ['c', 'setimmutable', [R.p(0.7) ? ['n', '0', 0n] : this.moff(c, 0), str(n), this.expr(c, R.int(0, 2))]]]]; } }
    if (!o.deploying && R.p(0.12)) return [['do', ['c', 'sstore', [this.key(c), this.named()]]]];
    return super.stmt(c);
  }
}
