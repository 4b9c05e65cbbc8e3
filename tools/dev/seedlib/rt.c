// The compiler-rt integer helpers wasm-ld is asked to link (-lclang_rt.builtins-wasm32); the real
// archive is not installed here. Straightforward implementations without 128-bit operators.
typedef unsigned long long u64;
typedef long long s64;
typedef unsigned int u32;
typedef __int128 ti;
typedef unsigned __int128 uti;
typedef union { uti v; ti s; struct { u64 lo, hi; } p; } T;

static uti mul64(u64 a, u64 b) {
    u64 al = (u32)a, ah = a >> 32, bl = (u32)b, bh = b >> 32;
    u64 p0 = al * bl, p1 = al * bh, p2 = ah * bl, p3 = ah * bh;
    u64 m = (p0 >> 32) + (u32)p1 + (u32)p2;
    T r;
    r.p.lo = (m << 32) | (u32)p0;
    r.p.hi = p3 + (p1 >> 32) + (p2 >> 32) + (m >> 32);
    return r.v;
}
ti __multi3(ti a, ti b) {
    T x, y, r;
    x.s = a; y.s = b;
    r.v = mul64(x.p.lo, y.p.lo);
    r.p.hi += x.p.hi * y.p.lo + x.p.lo * y.p.hi;
    return r.s;
}
ti __ashlti3(ti a, int n) {
    T x, r;
    x.s = a;
    if (n & 64) { r.p.lo = 0; r.p.hi = x.p.lo << (n & 63); }
    else if (n == 0) return a;
    else { r.p.lo = x.p.lo << n; r.p.hi = (x.p.hi << n) | (x.p.lo >> (64 - n)); }
    return r.s;
}
ti __lshrti3(ti a, int n) {
    T x, r;
    x.s = a;
    if (n & 64) { r.p.hi = 0; r.p.lo = x.p.hi >> (n & 63); }
    else if (n == 0) return a;
    else { r.p.hi = x.p.hi >> n; r.p.lo = (x.p.lo >> n) | (x.p.hi << (64 - n)); }
    return r.s;
}
ti __ashrti3(ti a, int n) {
    T x, r;
    x.s = a;
    if (n & 64) { r.p.hi = (u64)((s64)x.p.hi >> 63); r.p.lo = (u64)((s64)x.p.hi >> (n & 63)); }
    else if (n == 0) return a;
    else { r.p.hi = (u64)((s64)x.p.hi >> n); r.p.lo = (x.p.lo >> n) | (x.p.hi << (64 - n)); }
    return r.s;
}
static void divmod(T n, T d, T *q, T *r) {
    T Q, R;
    Q.p.lo = Q.p.hi = R.p.lo = R.p.hi = 0;
    if (n.p.hi == 0 && d.p.hi == 0) {
        Q.p.lo = n.p.lo / d.p.lo; R.p.lo = n.p.lo % d.p.lo;
    } else {
        for (int i = 127; i >= 0; i--) {
            u64 top = R.p.hi >> 63;
            R.p.hi = (R.p.hi << 1) | (R.p.lo >> 63);
            R.p.lo = (R.p.lo << 1) | (i >= 64 ? (n.p.hi >> (i - 64)) & 1 : (n.p.lo >> i) & 1);
            if (top || R.p.hi > d.p.hi || (R.p.hi == d.p.hi && R.p.lo >= d.p.lo)) {
                u64 b = R.p.lo < d.p.lo;
                R.p.lo -= d.p.lo;
                R.p.hi -= d.p.hi + b;
                if (i >= 64) Q.p.hi |= 1ULL << (i - 64); else Q.p.lo |= 1ULL << i;
            }
        }
    }
    *q = Q; *r = R;
}
static T neg(T x) { T r; r.p.lo = ~x.p.lo + 1; r.p.hi = ~x.p.hi + (r.p.lo == 0); return r; }
uti __udivti3(uti a, uti b) { T n, d, q, r; n.v = a; d.v = b; divmod(n, d, &q, &r); return q.v; }
uti __umodti3(uti a, uti b) { T n, d, q, r; n.v = a; d.v = b; divmod(n, d, &q, &r); return r.v; }
ti __divti3(ti a, ti b) {
    T n, d, q, r; n.s = a; d.s = b;
    int s = ((s64)n.p.hi < 0) ^ ((s64)d.p.hi < 0);
    if ((s64)n.p.hi < 0) n = neg(n);
    if ((s64)d.p.hi < 0) d = neg(d);
    divmod(n, d, &q, &r);
    return s ? neg(q).s : q.s;
}
ti __modti3(ti a, ti b) {
    T n, d, q, r; n.s = a; d.s = b;
    int s = (s64)n.p.hi < 0;
    if (s) n = neg(n);
    if ((s64)d.p.hi < 0) d = neg(d);
    divmod(n, d, &q, &r);
    return s ? neg(r).s : r.s;
}
