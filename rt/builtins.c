// The compiler-rt builtins for wasm32 that generated code calls (the real archive is not in the
// sandbox). Compiled with -fno-builtin; each works on 64-bit halves so that none calls itself.
typedef unsigned long long u64;
typedef long long s64;
typedef __int128 ti;
typedef unsigned __int128 tu;
typedef union { ti all; tu uall; struct { u64 lo; u64 hi; } s; } T;
ti __ashlti3(ti a, int b) {
  T x, r; x.all = a; b &= 127;
  if (b >= 64) { r.s.lo = 0; r.s.hi = x.s.lo << (b - 64); }
  else if (b == 0) return a;
  else { r.s.lo = x.s.lo << b; r.s.hi = (x.s.hi << b) | (x.s.lo >> (64 - b)); }
  return r.all;
}
ti __lshrti3(ti a, int b) {
  T x, r; x.all = a; b &= 127;
  if (b >= 64) { r.s.hi = 0; r.s.lo = x.s.hi >> (b - 64); }
  else if (b == 0) return a;
  else { r.s.hi = x.s.hi >> b; r.s.lo = (x.s.hi << (64 - b)) | (x.s.lo >> b); }
  return r.all;
}
ti __ashrti3(ti a, int b) {
  T x, r; x.all = a; b &= 127;
  if (b >= 64) { r.s.hi = (u64)((s64)x.s.hi >> 63); r.s.lo = (u64)((s64)x.s.hi >> (b - 64)); }
  else if (b == 0) return a;
  else { r.s.hi = (u64)((s64)x.s.hi >> b); r.s.lo = (x.s.hi << (64 - b)) | (x.s.lo >> b); }
  return r.all;
}
static void mul64(u64 a, u64 b, u64 *lo, u64 *hi) {
  u64 al = (unsigned)a, ah = a >> 32, bl = (unsigned)b, bh = b >> 32;
  u64 ll = al * bl, lh = al * bh, hl = ah * bl, hh = ah * bh;
  u64 mid = (ll >> 32) + (unsigned)lh + (unsigned)hl;
  *lo = (mid << 32) | (unsigned)ll;
  *hi = hh + (lh >> 32) + (hl >> 32) + (mid >> 32);
}
ti __multi3(ti a, ti b) {
  T x, y, r; x.all = a; y.all = b;
  mul64(x.s.lo, y.s.lo, &r.s.lo, &r.s.hi);
  r.s.hi += x.s.hi * y.s.lo + x.s.lo * y.s.hi;
  return r.all;
}
static int ge(T a, T b) { return a.s.hi > b.s.hi || (a.s.hi == b.s.hi && a.s.lo >= b.s.lo); }
static tu udivmod(tu n, tu d, tu *rem) {
  T N, D, q, r; N.uall = n; D.uall = d; q.s.lo = q.s.hi = 0; r.s.lo = r.s.hi = 0;
  for (int i = 127; i >= 0; i--) {
    int top = (int)(r.s.hi >> 63);
    r.s.hi = (r.s.hi << 1) | (r.s.lo >> 63);
    r.s.lo = (r.s.lo << 1) | ((i >= 64 ? N.s.hi >> (i - 64) : N.s.lo >> i) & 1);
    if (top || ge(r, D)) {
      u64 br = r.s.lo < D.s.lo; r.s.lo -= D.s.lo; r.s.hi = r.s.hi - D.s.hi - br;
      if (i >= 64) q.s.hi |= 1ULL << (i - 64); else q.s.lo |= 1ULL << i;
    }
  }
  if (rem) *rem = r.uall;
  return q.uall;
}
tu __udivti3(tu a, tu b) { return udivmod(a, b, 0); }
tu __umodti3(tu a, tu b) { tu r; udivmod(a, b, &r); return r; }
static tu neg(tu v) { T x; x.uall = v; x.s.lo = ~x.s.lo; x.s.hi = ~x.s.hi; x.s.lo++; if (!x.s.lo) x.s.hi++; return x.uall; }
static int isneg(ti v) { T x; x.all = v; return (int)(x.s.hi >> 63); }
ti __divti3(ti a, ti b) {
  int s = isneg(a) ^ isneg(b);
  tu q = udivmod(isneg(a) ? neg((tu)a) : (tu)a, isneg(b) ? neg((tu)b) : (tu)b, 0);
  return (ti)(s ? neg(q) : q);
}
ti __modti3(ti a, ti b) {
  tu r; udivmod(isneg(a) ? neg((tu)a) : (tu)a, isneg(b) ? neg((tu)b) : (tu)b, &r);
  return (ti)(isneg(a) ? neg(r) : r);
}
ti __muloti4(ti a, ti b, int *o) {
  ti r = __multi3(a, b); *o = 0;
  tu ua = isneg(a) ? neg((tu)a) : (tu)a, ub = isneg(b) ? neg((tu)b) : (tu)b;
  T x; x.uall = ub;
  if (x.s.lo | x.s.hi) { T m; m.uall = udivmod((tu)__multi3((ti)ua, (ti)ub), ub, 0); T w; w.uall = ua; if (m.s.lo != w.s.lo || m.s.hi != w.s.hi) *o = 1; }
  if (!*o && (isneg(a) ^ isneg(b)) != isneg(r)) { T z; z.all = r; if (z.s.lo | z.s.hi) *o = 1; }
  return r;
}
