// vx runtime: symbolic expressions, shadow memory, path constraints, solver (z3), path explorer.
#define VX_NX
#include "vx.h"
#include <z3.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <pthread.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <errno.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <vector>
#include <string>
#include <algorithm>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>

typedef unsigned __int128 u128; typedef __int128 s128; typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8;

enum Kind : u8 { CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, SHL, LSHR, ASHR, AND, OR, XOR,
    NOT, EQ, ULT, ULE, SLT, SLE, ITE, EXTRACT, CONCAT, ZEXT, SEXT,
    FBIN, FCMP, I2F, F2I, F2F, FUN, TUPLE=255 };
enum Cast { cTRUNC, cZEXT, cSEXT, cSI2FP, cUI2FP, cFP2SI, cFP2UI, cFPEXT, cFPTRUNC };
enum Intr { iUMAX, iUMIN, iSMAX, iSMIN, iABS, iCTPOP, iCTLZ, iCTTZ, iBSWAP, iFSHL, iFSHR, iUADDSAT, iUSUBSAT,
            iBITREV, iFABS, iFLOOR, iCEIL, iFTRUNC, iFNEG, iSADDSAT, iSSUBSAT };
enum Ovf { vUADD, vUSUB, vUMUL, vSADD, vSSUB, vSMUL };

struct Expr {
    Kind k; u8 fl, ex; uint16_t w; u32 x;  // ex: the operation is known not to wrap; x: extract low bit / var index / fp sub-op
    u128 cv;                               // value under this path's concrete inputs
    u128 vm;                               // variables (bit 127: any index >= 127)
    u64 h1, h2;                            // structural hash, identical across processes
    u64 lo, hi;                            // unsigned range (w<=64)
    Expr *a, *b, *c, *next; Z3_ast z, zf;
};
struct Tuple { Kind k; Expr* f[8]; };

// ------------------------------------------------------------------------------------------------
static const int MAXV = 320, QCAP = 1 << 16, NLAB = 1024, NVIOL = 24, CACHE = 1 << 20, NADDR = 8192;
struct Item { u32 nv; u32 bound; u64 expect; u64 v[MAXV]; };
struct Label { char name[120]; u64 n, sym, queries; int kind; };   // kind 1 assert, 2 reach, 3 ext-pinned
struct Viol { char label[120]; char why[40]; u32 nv; u64 v[MAXV]; u8 w[MAXV]; char names[MAXV][24]; };
struct CEnt { u64 k1, k2; u32 res; u32 nm; struct { uint16_t i; u64 v; } m[14]; };
struct Shared {
    pthread_mutex_t m;
    int qn, active, stop, overflow, incomplete;
    u64 paths, cut, items, events, q_sat, q_unsat, q_unknown, cache_hit, asserts, assert_sym, assert_q, pins, pincap, diverge, stale,
        crashes, timeouts, viol_paths, maxdepth, maxq, solver_us, slow, exprs, known_paths;
    int nviol, nlab, naddr;
    Label lab[NLAB]; Viol viol[NVIOL]; u64 addr[NADDR];
    char sample[8][512]; int nsample;
    struct { u32 nv; u64 v[MAXV]; u8 w[MAXV]; char names[MAXV][24]; } cur[64];   // inputs of the path each worker is running
    CEnt cache[CACHE];
    Item q[QCAP];
};
static Shared* G = nullptr;
static int g_wid = 0; static bool g_on = false;          // symbolic mode (inside a path)
static bool g_replay = false;
static u32 g_bound; static u64 g_expect, g_hash;
static u32 g_ev;                   // events so far on this path
static u64 g_in[MAXV]; static u32 g_nin; static u32 g_nv;
static u8 g_vw[MAXV]; static char g_vn[MAXV][24]; static Expr* g_vars[MAXV]; static u128 g_pinned;
static std::vector<Expr*>* g_pc;
static int g_tier = 0; static double g_deadline; static std::string g_known;
static const char* g_curlabel = "";

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static inline u64 mix(u64 a, u64 b) { a ^= b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2); a ^= a >> 31; a *= 0xbf58476d1ce4e5b9ull; a ^= a >> 29; return a; }
static inline u128 msk(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline s128 sx(u128 v, unsigned w) { if (w >= 128) return (s128)v; u128 s = (u128)1 << (w - 1); return (s128)((v ^ s) - s); }

// arena
static char* ar_p = nullptr; static char* ar_e = nullptr;
static void* ar(size_t n) { n = (n + 15) & ~15ull; if (ar_p + n > ar_e) { size_t s = 1 << 20; ar_p = (char*)mmap(nullptr, s, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); ar_e = ar_p + s; } void* r = ar_p; ar_p += n; return r; }
static const u32 HT = 1 << 14; static Expr* g_ht[HT]; static u64 g_nexpr;

static double bits2d(u64 v) { double d; memcpy(&d, &v, 8); return d; }
static u64 d2bits(double d) { u64 v; memcpy(&v, &d, 8); return v; }
static float bits2f(u32 v) { float d; memcpy(&d, &v, 4); return d; }
static u32 f2bits(float d) { u32 v; memcpy(&v, &d, 4); return v; }
static double getf(u128 v, unsigned w) { return w == 64 ? bits2d((u64)v) : (double)bits2f((u32)v); }

static u128 evalNode(Kind k, unsigned w, u32 x, Expr* a, Expr* b, Expr* c) {
    u128 A = a ? a->cv : 0, B = b ? b->cv : 0; unsigned aw = a ? a->w : 0; u128 m = msk(w);
    switch (k) {
    case ADD: return (A + B) & m; case SUB: return (A - B) & m; case MUL: return (A * B) & m;
    case UDIV: return B ? A / B : m; case UREM: return B ? A % B : A;
    case SDIV: { if (!B) return m; s128 p = sx(A, w), q = sx(B, w); if (q == -1) return (u128)(-p) & m; return (u128)(p / q) & m; }
    case SREM: { if (!B) return A; s128 p = sx(A, w), q = sx(B, w); if (q == -1) return 0; return (u128)(p % q) & m; }
    case SHL: return B >= w ? 0 : (A << (unsigned)B) & m; case LSHR: return B >= w ? 0 : A >> (unsigned)B;
    case ASHR: { s128 p = sx(A, w); return (u128)(p >> (unsigned)(B >= w ? w - 1 : (unsigned)B)) & m; }
    case AND: return A & B; case OR: return A | B; case XOR: return A ^ B; case NOT: return ~A & m;
    case EQ: return A == B; case ULT: return A < B; case ULE: return A <= B;
    case SLT: return sx(A, aw) < sx(B, aw); case SLE: return sx(A, aw) <= sx(B, aw);
    case ITE: return A ? B : c->cv;
    case EXTRACT: return (A >> x) & m; case CONCAT: return ((A << b->w) | B) & m;
    case ZEXT: return A; case SEXT: return (u128)sx(A, aw) & m;
    case FBIN: { if (w == 64) { double p = bits2d((u64)A), q = bits2d((u64)B), r = x == 0 ? p + q : x == 1 ? p - q : x == 2 ? p * q : p / q; return d2bits(r); }
                 float p = bits2f((u32)A), q = bits2f((u32)B), r = x == 0 ? p + q : x == 1 ? p - q : x == 2 ? p * q : p / q; return f2bits(r); }
    case FCMP: { double p = getf(A, aw), q = getf(B, aw); bool un = std::isnan(p) || std::isnan(q);
        // LLVM predicate encoding: bit0 eq, bit1 gt, bit2 lt, bit3 unordered
        bool r = false; if ((x & 1) && p == q) r = true; if ((x & 2) && p > q) r = true; if ((x & 4) && p < q) r = true; if ((x & 8) && un) r = true; return r; }
    case I2F: { bool sg = x & 1; if (w == 64) return d2bits(sg ? (double)(int64_t)sx(A, aw) : (double)(u64)A); return f2bits(sg ? (float)(int64_t)sx(A, aw) : (float)(u64)A); }
    case F2I: { bool sg = x & 1; double d = getf(A, aw); if (sg) return (u128)(s128)(int64_t)d & m; return (u128)(u64)d & m; }
    case F2F: return w == 64 ? (u128)d2bits((double)bits2f((u32)A)) : (u128)f2bits((float)bits2d((u64)A));
    case FUN: { double d = getf(A, aw), r = d; if (x == iFABS) r = std::fabs(d); else if (x == iFLOOR) r = std::floor(d); else if (x == iCEIL) r = std::ceil(d); else if (x == iFTRUNC) r = std::trunc(d); else if (x == iFNEG) r = -d;
        return w == 64 ? (u128)d2bits(r) : (u128)f2bits((float)r); }
    default: return 0; }
}
static void rangeNode(Expr* e) {
    e->lo = 0; e->hi = e->w >= 64 ? ~0ull : (u64)msk(e->w);
    if (e->w > 64) return;
    Expr *a = e->a, *b = e->b; u64 m = e->hi;
    auto ok = [](Expr* q) { return q && q->w <= 64; };
    switch (e->k) {
    case CONST: e->lo = e->hi = (u64)e->cv; break;
    case ADD: { u64 h, l; if (b->k == CONST && ((u64)b->cv >> (e->w - 1)) && a->lo >= ((0 - (u64)b->cv) & m)) { u64 d = (0 - (u64)b->cv) & m; e->lo = a->lo - d; e->hi = a->hi - d; break; } if (!__builtin_add_overflow(a->hi, b->hi, &h) && h <= m) { l = a->lo + b->lo; e->lo = l; e->hi = h; } break; }
    case SUB: if (a->lo >= b->hi) { e->lo = a->lo - b->hi; e->hi = a->hi - b->lo; } break;
    case MUL: { u64 h; if (!__builtin_mul_overflow(a->hi, b->hi, &h) && h <= m) { e->hi = h; e->lo = a->lo * b->lo; } break; }
    case UDIV: if (b->lo > 0) { e->lo = a->lo / b->hi; e->hi = a->hi / b->lo; } break;
    case UREM: if (b->lo > 0) { e->hi = std::min(a->hi, b->hi - 1); } break;
    case AND: e->hi = std::min(a->hi, b->hi); break;
    case OR: case XOR: { u64 v = a->hi | b->hi; unsigned n = v ? 64 - __builtin_clzll(v) : 0; u64 t = n >= 64 ? ~0ull : ((1ull << n) - 1); e->hi = std::min(m, t); if (e->k == OR) e->lo = std::max(a->lo, b->lo); break; }
    case ZEXT: e->lo = a->lo; e->hi = a->hi; break;
    case LSHR: e->hi = a->hi; break;
    case EXTRACT: if (ok(a)) { if (a->hi <= m && e->x == 0) { e->lo = a->lo; e->hi = a->hi; } else if ((a->hi >> e->x) <= m) { e->lo = a->lo >> e->x; e->hi = a->hi >> e->x; } } break;
    case CONCAT: if (ok(a) && ok(b)) { e->lo = (a->lo << b->w) | b->lo; e->hi = (a->hi << b->w) | b->hi; } break;
    case ITE: e->lo = std::min(b->lo, e->c->lo); e->hi = std::max(b->hi, e->c->hi); break;
    default: break; }
}
static Expr* node(Kind k, unsigned w, u32 x, Expr* a, Expr* b, Expr* c, u128 cv = 0) {
    u64 h1 = mix(mix(mix(k * 1315423911ull + w, x), a ? a->h1 : 7), mix(b ? b->h1 : 11, c ? c->h1 : 13));
    u64 h2 = mix(mix(mix(k * 2654435761ull + 77 * w, x + 5), a ? a->h2 : 17), mix(b ? b->h2 : 19, c ? c->h2 : 23));
    if (k == CONST) { h1 = mix(mix(h1, (u64)cv), (u64)(cv >> 64)); h2 = mix(mix(h2, (u64)(cv >> 64) + 3), (u64)cv); }
    u32 hb = (h1 ^ h2 >> 17) & (HT - 1);
    for (Expr* e = g_ht[hb]; e; e = e->next)
        if (e->h1 == h1 && e->h2 == h2 && e->k == k && e->w == w && e->x == x && e->a == a && e->b == b && e->c == c && (k != CONST || e->cv == cv)) return e;
    Expr* e = (Expr*)ar(sizeof(Expr)); memset(e, 0, sizeof *e); g_nexpr++;
    e->k = k; e->w = w; e->x = x; e->a = a; e->b = b; e->c = c; e->h1 = h1; e->h2 = h2;
    e->cv = k == CONST ? cv : evalNode(k, w, x, a, b, c);
    e->vm = (a ? a->vm : 0) | (b ? b->vm : 0) | (c ? c->vm : 0);
    e->fl = (k >= FBIN && k <= FUN) || (a && a->fl) || (b && b->fl) || (c && c->fl);
    rangeNode(e);
    e->next = g_ht[hb]; g_ht[hb] = e; return e;
}
static Expr* K(u128 v, unsigned w) { return node(CONST, w, 0, nullptr, nullptr, nullptr, v & msk(w)); }
static inline bool isC(Expr* e) { return e->k == CONST; }
static inline bool isC(Expr* e, u128 v) { return e->k == CONST && e->cv == v; }
static inline Expr* T() { return K(1, 1); } static inline Expr* Fa() { return K(0, 1); }

static Expr* mkBin(Kind k, Expr* a, Expr* b); static Expr* mkExt(Expr* e, unsigned lo, unsigned w); static Expr* mkCat(Expr* h, Expr* l);
static Expr* mkZ(Expr* e, unsigned w); static Expr* mkS(Expr* e, unsigned w); static Expr* mkEq(Expr* a, Expr* b); static Expr* mkNot(Expr* a);
static Expr* mkUlt(Expr* a, Expr* b); static Expr* mkUle(Expr* a, Expr* b); static Expr* mkSlt(Expr* a, Expr* b); static Expr* mkSle(Expr* a, Expr* b); static Expr* mkIte(Expr* c, Expr* a, Expr* b);

static Expr* mkZ(Expr* e, unsigned w) { if (e->w == w) return e; if (isC(e)) return K(e->cv, w); if (e->k == ZEXT) return node(ZEXT, w, 0, e->a, nullptr, nullptr); return node(ZEXT, w, 0, e, nullptr, nullptr); }
static Expr* mkS(Expr* e, unsigned w) { if (e->w == w) return e; if (isC(e)) return K((u128)sx(e->cv, e->w), w); if (e->k == ZEXT) return mkZ(e->a, w); if (e->k == SEXT) return node(SEXT, w, 0, e->a, nullptr, nullptr);
    if (e->w > 1 && e->w <= 64 && e->hi < (1ull << (e->w - 1))) return mkZ(e, w);
    return node(SEXT, w, 0, e, nullptr, nullptr); }
static Expr* mkExt(Expr* e, unsigned lo, unsigned w) {
    if (lo == 0 && w == e->w) return e;
    switch (e->k) {
    case CONST: return K(e->cv >> lo, w);
    case EXTRACT: return mkExt(e->a, e->x + lo, w);
    case CONCAT: { unsigned bw = e->b->w; if (lo + w <= bw) return mkExt(e->b, lo, w); if (lo >= bw) return mkExt(e->a, lo - bw, w); return mkCat(mkExt(e->a, 0, lo + w - bw), mkExt(e->b, lo, bw - lo)); }
    case ZEXT: { unsigned aw = e->a->w; if (lo >= aw) return K(0, w); if (lo + w <= aw) return mkExt(e->a, lo, w); return mkZ(mkExt(e->a, lo, aw - lo), w); }
    case SEXT: { unsigned aw = e->a->w; if (lo + w <= aw) return mkExt(e->a, lo, w); if (lo == 0) return mkS(e->a, w); break; }
    case AND: case OR: case XOR: return mkBin(e->k, mkExt(e->a, lo, w), mkExt(e->b, lo, w));
    case NOT: return mkNot(mkExt(e->a, lo, w));
    case ADD: case SUB: case MUL: if (lo == 0) return mkBin(e->k, mkExt(e->a, 0, w), mkExt(e->b, 0, w)); break;
    case ITE: if (isC(e->b) || isC(e->c) || e->w <= 64) return mkIte(e->a, mkExt(e->b, lo, w), mkExt(e->c, lo, w)); break;
    default: break; }
    if (e->w <= 64 && lo < 64 && (e->hi >> lo) == 0) return K(0, w);
    return node(EXTRACT, w, lo, e, nullptr, nullptr);
}
// adjacent parts of one bitwise expression as a part of it
static Expr* mergeCat(Expr* h, Expr* l, int depth) {
    if (h->k == EXTRACT && l->k == EXTRACT && h->a == l->a && h->x == l->x + l->w) return mkExt(h->a, l->x, h->w + l->w);
    if (h->k == EXTRACT && h->a == l) return nullptr;
    if (h->k != l->k || depth > 8) return nullptr;
    if (h->k == NOT) { Expr* m = mergeCat(h->a, l->a, depth + 1); return m ? mkNot(m) : nullptr; }
    if (h->k != AND && h->k != OR && h->k != XOR) return nullptr;
    if (isC(h->a) || isC(h->b) || isC(l->a) || isC(l->b)) return nullptr;
    Expr* x = mergeCat(h->a, l->a, depth + 1); Expr* y = x ? mergeCat(h->b, l->b, depth + 1) : nullptr;
    if (!y) { x = mergeCat(h->a, l->b, depth + 1); y = x ? mergeCat(h->b, l->a, depth + 1) : nullptr; }
    return y ? mkBin(h->k, x, y) : nullptr;
}
static Expr* mkCat(Expr* h, Expr* l) {
    if (isC(h) && isC(l)) return K((h->cv << l->w) | l->cv, h->w + l->w);
    if (isC(h, 0)) return mkZ(l, h->w + l->w);
    if (h->k == EXTRACT && l->k == EXTRACT && h->a == l->a && h->x == l->x + l->w) return mkExt(h->a, l->x, h->w + l->w);
    if (h->k == ZEXT) return mkZ(mkCat(h->a, l), h->w + l->w);
    // the high part of e with its (simplified) low part
    if (h->k == EXTRACT && h->x == l->w && mkExt(h->a, 0, l->w) == l) return mkExt(h->a, 0, h->w + l->w);
    if (h->k == CONCAT) return mkCat(h->a, mkCat(h->b, l));
    { Expr* t = l->k == CONCAT ? l->a : l; if (h->k == t->k && (h->k == NOT || h->k == AND || h->k == OR || h->k == XOR)) if (Expr* m = mergeCat(h, t, 0)) return l->k == CONCAT ? mkCat(m, l->b) : m; }
    if (l->k == CONCAT && h->k == EXTRACT && l->a->k == EXTRACT && h->a == l->a->a && h->x == l->a->x + l->a->w) return mkCat(mkExt(h->a, l->a->x, h->w + l->a->w), l->b);
    return node(CONCAT, h->w + l->w, 0, h, l, nullptr);
}
// ---- linear forms: e == cst + sum of coef*atom over the integers (operations known not to wrap are looked through)
struct Lin { static const int CAP = 14; Expr* a[CAP]; s128 c[CAP]; int n = 0; s128 k = 0; int seen = 0;
    bool add(Expr* e, s128 q) { seen++; for (int i = 0; i < n; i++) if (a[i] == e) { c[i] += q; if (!c[i]) { n--; a[i] = a[n]; c[i] = c[n]; } return true; }
        if (n == CAP || q > ((s128)1 << 44) || -q > ((s128)1 << 44)) return false; a[n] = e; c[n++] = q; return true; }
    void range(s128& mn, s128& mx) const { mn = mx = k; for (int i = 0; i < n; i++) { s128 p = c[i] * (s128)a[i]->lo, q = c[i] * (s128)a[i]->hi; mn += std::min(p, q); mx += std::max(p, q); } }
};
static bool lin(Expr* e, s128 q, Lin& L) {
    u64 m = (u64)msk(e->w), h; unsigned w = e->w;
    switch (e->k) {
    case CONST: L.k += q * (s128)e->cv; if (q > ((s128)1 << 44) || -q > ((s128)1 << 44)) return false; return true;
    case ZEXT: return e->a->w <= 64 ? lin(e->a, q, L) : false;
    case EXTRACT: if (e->x == 0 && e->a->w <= 64 && e->a->hi <= m) return lin(e->a, q, L); break;
    case ADD: { if (isC(e->b) && ((u64)e->b->cv >> (w - 1))) { u64 d = (0 - (u64)e->b->cv) & m; if (e->a->lo >= d) { L.k -= q * (s128)d; return lin(e->a, q, L); } }
        if (!__builtin_add_overflow(e->a->hi, e->b->hi, &h) && h <= m) return lin(e->a, q, L) && lin(e->b, q, L); break; }
    case SUB: if (e->ex || e->a->lo >= e->b->hi) return lin(e->a, q, L) && lin(e->b, -q, L); break;
    case MUL: if (isC(e->b) && !__builtin_mul_overflow(e->a->hi, (u64)e->b->cv, &h) && h <= m) return lin(e->a, q * (s128)e->b->cv, L); break;
    case CONCAT: if (isC(e->b, 0) && e->b->w < 32) return lin(e->a, q * ((s128)1 << e->b->w), L); break;
    default: break; }
    return e->w <= 64 ? L.add(e, q) : false;
}
// sum of the terms of one sign, n bits wide (known not to wrap)
static Expr* linsum(Lin& L, bool neg, unsigned n) {
    int ix[Lin::CAP], c = 0; for (int i = 0; i < L.n; i++) if ((L.c[i] < 0) == neg) ix[c++] = i;
    std::sort(ix, ix + c, [&](int i, int j) { return L.a[i]->h1 < L.a[j]->h1; });
    Expr* r = nullptr;
    for (int i = 0; i < c; i++) { Expr* t = L.a[ix[i]]; t = t->w > n ? mkExt(t, 0, n) : mkZ(t, n); s128 q = L.c[ix[i]]; if (q < 0) q = -q; if (q != 1) t = mkBin(MUL, t, K((u128)q, n));
        if (!r) r = t; else { Expr *x = r, *y = t; if (x->h1 > y->h1) std::swap(x, y); r = node(ADD, n, 0, x, y, nullptr); } }
    s128 k = neg ? -L.k : L.k; if (k > 0) { if (!r) r = K((u128)k, n); else r = node(ADD, n, 0, r, K((u128)k, n), nullptr); }
    return r ? r : K(0, n);
}
static unsigned linbits(Lin& L, bool neg) { s128 h = neg ? -L.k : L.k; if (h < 0) h = 0; for (int i = 0; i < L.n; i++) if ((L.c[i] < 0) == neg) h += (L.c[i] < 0 ? -L.c[i] : L.c[i]) * (s128)L.a[i]->hi; unsigned n = 0; while (h) { n++; h >>= 1; } return n ? n : 1; }
// a + b or a - b when the exact result lies in 0..2^w-1
static Expr* linAdd(Expr* a, Expr* b, bool sub, unsigned w, u128 want) {
    Lin L; if (!lin(a, 1, L) || !lin(b, sub ? -1 : 1, L)) return nullptr;
    s128 mn, mx; L.range(mn, mx); if (mn < 0 || mx > (s128)msk(w)) return nullptr;
    if (!L.n) return K((u128)L.k, w);
    bool hasneg = L.k < 0; for (int i = 0; i < L.n; i++) hasneg |= L.c[i] < 0;
    unsigned n = std::max(linbits(L, false), linbits(L, true)); if (n > w) return nullptr;
    Expr* p = linsum(L, false, n); Expr* r = p;
    if (hasneg) { Expr* q = linsum(L, true, n); if (isC(q)) r = isC(q, 0) ? p : node(ADD, n, 0, p, K(-q->cv, n), nullptr);
        else { r = node(SUB, n, 0, p, q, nullptr); r->ex = 1; if ((u64)mn > r->lo) r->lo = (u64)mn; if ((u64)mx < r->hi) r->hi = (u64)mx; } }
    r = mkZ(r, w); if (r->cv != (want & msk(w))) { fprintf(stderr, "vx: linear form mismatch\n"); _exit(98); }
    return r;
}
// decide or simplify a comparison: 0 eq, 1 ult, 2 ule; returns nullptr to keep it as it is
static Expr* linCmp(int op, Expr* a, Expr* b) {
    Lin L, X, Y; if (!lin(b, 1, L)) return nullptr; if (!lin(a, -1, L)) return nullptr;
    s128 mn, mx; L.range(mn, mx);
    if (op == 0) { if (mn > 0 || mx < 0) return Fa(); if (!L.n && !L.k) return T(); }
    else if (op == 1) { if (mn > 0) return T(); if (mx <= 0) return Fa(); }
    else { if (mn >= 0) return T(); if (mx < 0) return Fa(); }
    X.n = 0; lin(a, 1, X); int tx = X.n; lin(b, 1, Y); int ty = Y.n; bool kk = X.k != 0 && Y.k != 0;
    if (L.n >= tx + ty && !kk) return nullptr;
    unsigned n = std::max(linbits(L, false), linbits(L, true)); if (n < 2) n = 2; if (n > 64) return nullptr;
    Expr *p = linsum(L, false, n), *q = linsum(L, true, n);   // b - a == p - q
    Expr* r = op == 0 ? mkEq(q, p) : op == 1 ? mkUlt(q, p) : mkUle(q, p);
    bool want = op == 0 ? a->cv == b->cv : op == 1 ? a->cv < b->cv : a->cv <= b->cv; if ((bool)r->cv != want) { fprintf(stderr, "vx: linear comparison mismatch\n"); _exit(98); }
    return r;
}
// pieces of an expression, least significant first
struct Pc { Expr* e; unsigned w; };
static bool pieces(Expr* e, Pc* p, int& n, int cap) {
    if (e->k == CONCAT) return pieces(e->b, p, n, cap) && pieces(e->a, p, n, cap);
    if (e->k == ZEXT) { if (!pieces(e->a, p, n, cap)) return false; if (n >= cap) return false; p[n++] = {nullptr, (unsigned)(e->w - e->a->w)}; return true; }
    if (n >= cap) return false;
    p[n++] = {isC(e, 0) ? nullptr : e, e->w}; return true;
}
static Expr* disjointOr(Expr* a, Expr* b) {
    bool ca = a->k == CONCAT || a->k == ZEXT, cb = b->k == CONCAT || b->k == ZEXT;
    if (!(ca && cb)) { if (!((ca || cb) && (isC(a) || isC(b)))) return nullptr; if (isC(a) || isC(b)) return nullptr; }
    Pc p[24], q[24]; int n = 0, m = 0; if (!pieces(a, p, n, 20) || !pieces(b, q, m, 20)) return nullptr;
    Expr* r = nullptr; int i = 0, j = 0; unsigned oi = 0, oj = 0;
    while (i < n && j < m) {
        unsigned w = std::min(p[i].w - oi, q[j].w - oj); Expr* x = p[i].e; Expr* y = q[j].e;
        if (x && y) return nullptr;
        Expr* s = x ? mkExt(x, oi, w) : y ? mkExt(y, oj, w) : K(0, w);
        r = r ? mkCat(s, r) : s;
        oi += w; oj += w; if (oi == p[i].w) { i++; oi = 0; } if (oj == q[j].w) { j++; oj = 0; }
    }
    return r;
}
static Expr* mkBin(Kind k, Expr* a, Expr* b) {
    unsigned w = a->w; if (isC(a) && isC(b)) return K(evalNode(k, w, 0, a, b, nullptr), w);
    bool comm = k == ADD || k == MUL || k == AND || k == OR || k == XOR;
    if (comm && isC(a)) std::swap(a, b);
    else if (comm && !isC(b) && a->h1 > b->h1) std::swap(a, b);
    u128 m = msk(w);
    switch (k) {
    case ADD: if (isC(b, 0)) return a; if (isC(b) && a->k == ADD && isC(a->b)) return mkBin(ADD, a->a, K(a->b->cv + b->cv, w));
        if (isC(b) && a->k == SUB && isC(a->a)) return mkBin(SUB, K(a->a->cv + b->cv, w), a->b);
        if (!isC(b) && a->k == ADD && isC(a->b)) return mkBin(ADD, mkBin(ADD, a->a, b), a->b);
        if (!isC(b) && b->k == ADD && isC(b->b)) return mkBin(ADD, mkBin(ADD, a, b->a), b->b);
        if (a->k == SUB && a->b == b) return a->a; if (b->k == SUB && b->b == a) return b->a;
        if (w == 1) return mkBin(XOR, a, b); if (Expr* r = disjointOr(a, b)) return r; break;
    case SUB: if (a == b) return K(0, w); if (isC(b)) return mkBin(ADD, a, K(-b->cv, w)); if (a->k == ADD && a->a == b) return a->b; if (a->k == ADD && a->b == b) return a->a;
        if (a->k == ADD && isC(a->b)) return mkBin(ADD, mkBin(SUB, a->a, b), a->b);
        if (b->k == ADD && isC(b->b)) return mkBin(ADD, mkBin(SUB, a, b->a), K(-b->b->cv, w)); if (w == 1) return mkBin(XOR, a, b); break;
    case MUL: if (isC(b, 0)) return b; if (isC(b, 1)) return a; if (isC(b) && (b->cv & (b->cv - 1)) == 0) { unsigned s = 0; while (((b->cv >> s) & 1) == 0) s++; return mkBin(SHL, a, K(s, w)); }
        if (isC(b) && a->k == MUL && isC(a->b)) return mkBin(MUL, a->a, K(a->b->cv * b->cv, w)); if (w == 1) return mkBin(AND, a, b); break;
    case UDIV: if (isC(b, 1)) return a; if (isC(b) && b->cv && (b->cv & (b->cv - 1)) == 0) { unsigned s = 0; while (((b->cv >> s) & 1) == 0) s++; return mkBin(LSHR, a, K(s, w)); }
        if (isC(b) && w <= 64 && a->hi < (u64)b->cv) return K(0, w);
        if (a->k == ZEXT && b->k == CONST && b->cv && b->cv <= msk(a->a->w)) return mkZ(mkBin(UDIV, a->a, K(b->cv, a->a->w)), w); break;
    case UREM: if (isC(b, 1)) return K(0, w); if (isC(b) && b->cv && (b->cv & (b->cv - 1)) == 0) return mkBin(AND, a, K(b->cv - 1, w));
        if (isC(b) && w <= 64 && a->hi < (u64)b->cv) return a;
        if (a->k == ZEXT && b->k == CONST && b->cv && b->cv <= msk(a->a->w)) return mkZ(mkBin(UREM, a->a, K(b->cv, a->a->w)), w); break;
    case SDIV: if (isC(b, 1)) return a; if (w <= 64 && w > 1 && a->hi < (1ull << (w - 1)) && b->hi < (1ull << (w - 1))) return mkBin(UDIV, a, b); break;
    case SREM: if (w <= 64 && w > 1 && a->hi < (1ull << (w - 1)) && b->hi < (1ull << (w - 1))) return mkBin(UREM, a, b); break;
    case AND: if (isC(b, 0)) return b; if (isC(b, m)) return a; if (a == b) return a;
        if (a->k == NOT && a->a == b) return K(0, w); if (b->k == NOT && b->a == a) return K(0, w);
        if (isC(b)) { u128 c = b->cv; if (a->k == AND && isC(a->b)) return mkBin(AND, a->a, K(a->b->cv & c, w));
            if ((c & (c + 1)) == 0) { unsigned n = 0; while ((c >> n) & 1) n++; return mkZ(mkExt(a, 0, n), w); }
            // contiguous mask with low zeros
            unsigned s = 0; while (((c >> s) & 1) == 0) s++; u128 d = c >> s; if ((d & (d + 1)) == 0) { unsigned n = 0; while ((d >> n) & 1) n++; Expr* t = mkCat(mkExt(a, s, n), K(0, s)); return mkZ(t, w); }
            if (a->k == ZEXT) return mkZ(mkBin(AND, a->a, K(c, a->a->w)), w);
        }
        if (a->k == ZEXT && b->k == ZEXT && a->a->w == b->a->w) return mkZ(mkBin(AND, a->a, b->a), w); break;
    case OR: if (isC(b, 0)) return a; if (isC(b, m)) return b; if (a == b) return a; if (a->k == NOT && a->a == b) return K(m, w); if (b->k == NOT && b->a == a) return K(m, w);
        if (isC(b) && a->k == OR && isC(a->b)) return mkBin(OR, a->a, K(a->b->cv | b->cv, w));
        if (a->k == ZEXT && b->k == ZEXT && a->a->w == b->a->w) return mkZ(mkBin(OR, a->a, b->a), w);
        if (Expr* r = disjointOr(a, b)) return r; break;
    case XOR: if (isC(b, 0)) return a; if (a == b) return K(0, w); if (isC(b, m)) return mkNot(a); if (isC(b) && a->k == XOR && isC(a->b)) return mkBin(XOR, a->a, K(a->b->cv ^ b->cv, w));
        if (a->k == ZEXT && b->k == ZEXT && a->a->w == b->a->w) return mkZ(mkBin(XOR, a->a, b->a), w);
        if (Expr* r = disjointOr(a, b)) return r; break;
    case SHL: if (isC(b)) { if (b->cv >= w) return K(0, w); unsigned s = (unsigned)b->cv; if (!s) return a; return mkCat(mkExt(a, 0, w - s), K(0, s)); } break;
    case LSHR: if (isC(b)) { if (b->cv >= w) return K(0, w); unsigned s = (unsigned)b->cv; if (!s) return a; return mkZ(mkExt(a, s, w - s), w); } break;
    case ASHR: if (isC(b)) { unsigned s = b->cv >= w ? w - 1 : (unsigned)b->cv; if (!s) return a; return mkS(mkExt(a, s, w - s), w); } break;
    default: break; }
    if (w >= 8 && w <= 64 && (k == ADD || k == SUB)) if (Expr* r = linAdd(a, b, k == SUB, w, k == SUB ? a->cv - b->cv : a->cv + b->cv)) return r;
    if (w >= 8 && w <= 64 && (k == ADD || k == SUB || k == MUL || k == UDIV || k == UREM)) {   // the value ranges need fewer bits: compute in those
        Expr* e = node(k, w, 0, a, b, nullptr); bool neg = k == ADD && isC(b) && (b->cv >> (w - 1)) && a->lo >= (u64)(-b->cv & m);
        u64 h = std::max(std::max(a->hi, e->hi), neg ? (u64)(-b->cv & m) : b->hi); unsigned n = h ? 64 - __builtin_clzll(h) : 1;
        bool exact = e->hi < (w >= 64 ? ~0ull : (u64)m) && (k != UDIV && k != UREM ? true : b->lo > 0);
        if (exact && n < w) return mkZ(mkBin(k, mkExt(a, 0, n), mkExt(b, 0, n)), w);
        return e;
    }
    return node(k, w, 0, a, b, nullptr);
}
static Expr* mkNot(Expr* a) {
    if (isC(a)) return K(~a->cv, a->w); if (a->k == NOT) return a->a;
    if (a->w == 1) switch (a->k) { case ULT: return mkUle(a->b, a->a); case ULE: return mkUlt(a->b, a->a); case SLT: return mkSle(a->b, a->a); case SLE: return mkSlt(a->b, a->a); default: break; }
    return node(NOT, a->w, 0, a, nullptr, nullptr);
}
// floating point: normal forms that hold for every value (NaNs are not told apart)
static u128 fsgn(unsigned w) { return (u128)1 << (w - 1); }
static bool fnneg0(Expr* e, int d = 0) { if (isC(e)) return e->cv != fsgn(e->w); if (e->k == I2F) return true; return d < 6 && e->k == FBIN && e->x == 0 && (fnneg0(e->a, d + 1) || fnneg0(e->b, d + 1)); }
// an exponent that bounds the magnitude, or a large value when the expression may be infinite or NaN
static int fmag(Expr* e, int d = 0) {
    if (isC(e)) { double v = getf(e->cv, e->w); if (!std::isfinite(v)) return 1 << 20; int x = 0; std::frexp(v, &x); return x < 0 ? 0 : x; }
    if (e->k == I2F) return 65; if (d > 8) return 1 << 20;
    if (e->k == FUN) return (e->x == iFNEG || e->x == iFABS || e->x == iFTRUNC) ? fmag(e->a, d + 1) : (e->x == iFLOOR || e->x == iCEIL) ? fmag(e->a, d + 1) + 1 : 1 << 20;
    if (e->k == F2F && e->w == 64) return fmag(e->a, d + 1);
    if (e->k == FBIN && e->x == 0) return std::max(fmag(e->a, d + 1), fmag(e->b, d + 1)) + 1;
    if (e->k == FBIN && e->x == 2) return fmag(e->a, d + 1) + fmag(e->b, d + 1);
    return 1 << 20;
}
static bool ffinite(Expr* e) { return fmag(e) < (e->w == 64 ? 1000 : 120); }
static Expr* mkFneg(Expr* a) { if (isC(a)) return K(a->cv ^ fsgn(a->w), a->w); if (a->k == FUN && a->x == iFNEG) return a->a; return node(FUN, a->w, iFNEG, a, nullptr, nullptr); }
static Expr* mkFbin(unsigned op, Expr* a, Expr* b) {
    unsigned w = a->w; if (isC(a) && isC(b)) return K(evalNode(FBIN, w, op, a, b, nullptr), w);
    if (op == 1) return mkFbin(0, a, mkFneg(b));
    if (op >= 2) { bool n = false; if (a->k == FUN && a->x == iFNEG) { a = a->a; n = !n; } if (b->k == FUN && b->x == iFNEG) { b = b->a; n = !n; } if (isC(b) && (b->cv & fsgn(w))) { b = mkFneg(b); n = !n; } if (isC(a) && (a->cv & fsgn(w))) { a = mkFneg(a); n = !n; } if (n) return mkFneg(mkFbin(op, a, b)); }
    if (op != 3) { if (isC(a)) std::swap(a, b); else if (!isC(b) && a->h1 > b->h1) std::swap(a, b); }
    if ((isC(a) && std::isnan(getf(a->cv, w))) || (isC(b) && std::isnan(getf(b->cv, w)))) return K(w == 64 ? 0x7ff8000000000000ull : 0x7fc00000u, w);
    if (isC(b)) { double v = getf(b->cv, w); if (op == 0 && b->cv == fsgn(w)) return a; if (op == 0 && b->cv == 0 && fnneg0(a)) return a; if (op >= 2 && v == 1.0) return a; }
    return node(FBIN, w, op, a, b, nullptr);
}
static Expr* mkNot(Expr* a);
static Expr* mkFcmp(unsigned p, Expr* a, Expr* b) {
    p &= 15; if (p == 0) return K(0, 1); if (p == 15) return K(1, 1); if (isC(a) && isC(b)) return K(evalNode(FCMP, 1, p, a, b, nullptr), 1);
    if (p & 8) return mkNot(mkFcmp(15 - p, a, b));
    if (p == 2 || p == 3) { std::swap(a, b); p += 2; }                 // gt, ge as lt, le
    bool cm = p == 1 || p == 6 || p == 7; if (cm) { if (isC(a)) std::swap(a, b); else if (!isC(b) && a->h1 > b->h1) std::swap(a, b); }
    if (p == 7) { if (isC(b)) { if (std::isnan(getf(b->cv, b->w))) return K(0, 1); b = a; } if (ffinite(a)) a = b; if (ffinite(b)) b = a; if (a == b) { if (a->k == FUN && a->x == iFNEG) a = b = a->a; return ffinite(a) ? K(1, 1) : node(FCMP, 1, 7, a, a, nullptr); } }
    else if (a == b) return p == 4 || p == 6 ? K(0, 1) : mkFcmp(7, a, a);
    return node(FCMP, 1, p, a, b, nullptr);
}
static Expr* mkEq(Expr* a, Expr* b) {
    if (a == b) return T(); if (isC(a) && isC(b)) return K(a->cv == b->cv, 1);
    if (isC(a)) std::swap(a, b); else if (!isC(b) && a->h1 > b->h1) std::swap(a, b);
    unsigned w = a->w;
    if (w <= 64 && (a->hi < b->lo || b->hi < a->lo)) return Fa();
    if (w == 1 && isC(b)) return b->cv ? a : mkNot(a);
    if (isC(b)) { u128 c = b->cv;
        switch (a->k) {
        case ZEXT: if (c > msk(a->a->w)) return Fa(); return mkEq(a->a, K(c, a->a->w));
        case SEXT: { Expr* t = K(c, a->a->w); if (((u128)sx(t->cv, t->w) & msk(w)) != c) return Fa(); return mkEq(a->a, t); }
        case CONCAT: return mkBin(AND, mkEq(a->a, K(c >> a->b->w, a->a->w)), mkEq(a->b, K(c, a->b->w)));
        case ADD: if (isC(a->b)) return mkEq(a->a, K(c - a->b->cv, w)); break;
        case SUB: if (c == 0) return mkEq(a->a, a->b); if (isC(a->a)) return mkEq(a->b, K(a->a->cv - c, w)); break;
        case XOR: if (isC(a->b)) return mkEq(a->a, K(c ^ a->b->cv, w)); if (c == 0) return mkEq(a->a, a->b); break;
        case NOT: return mkEq(a->a, K(~c, w));
        case ITE: if (isC(a->b) || isC(a->c)) return mkIte(a->a, mkEq(a->b, b), mkEq(a->c, b)); break;
        case OR: if (c == 0) return mkBin(AND, mkEq(a->a, b), mkEq(a->b, b)); break;
        default: break; }
    } else {
        if (a->k == ZEXT && b->k == ZEXT) { unsigned m = std::max(a->a->w, b->a->w); return mkEq(mkZ(a->a, m), mkZ(b->a, m)); }
        if (a->k == SEXT && b->k == SEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
        if (a->k == CONCAT && b->k == CONCAT && a->b->w == b->b->w) return mkBin(AND, mkEq(a->a, b->a), mkEq(a->b, b->b));
        if (a->k == ADD && isC(a->b) && b->k == ADD && isC(b->b)) return mkEq(a->a, mkBin(ADD, b->a, K(b->b->cv - a->b->cv, w)));
        if (a->k == ADD && a->a == b) return mkEq(a->b, K(0, w)); if (b->k == ADD && b->a == a) return mkEq(b->b, K(0, w));
    }
    if (w > 1 && w <= 64) if (Expr* r = linCmp(0, a, b)) return r;
    return node(EQ, 1, 0, a, b, nullptr);
}
static Expr* mkUlt(Expr* a, Expr* b) {
    if (a == b) return Fa(); if (isC(a) && isC(b)) return K(a->cv < b->cv, 1); unsigned w = a->w;
    if (w <= 64) { if (a->hi < b->lo) return T(); if (a->lo >= b->hi) return Fa(); }
    if (isC(b, 0)) return Fa(); if (isC(b, 1)) return mkEq(a, K(0, w)); if (isC(a, msk(w))) return Fa(); if (isC(a, 0)) return mkNot(mkEq(b, K(0, w)));
    if (a->k == ZEXT && b->k == ZEXT) { unsigned m = std::max(a->a->w, b->a->w); return mkUlt(mkZ(a->a, m), mkZ(b->a, m)); }
    if (a->k == ZEXT && isC(b)) { if (b->cv > msk(a->a->w)) return T(); return mkUlt(a->a, K(b->cv, a->a->w)); }
    if (b->k == ZEXT && isC(a)) { if (a->cv >= msk(b->a->w)) return Fa(); return mkUlt(K(a->cv, b->a->w), b->a); }
    if (w == 1) return mkBin(AND, mkNot(a), b);
    if (w <= 64) if (Expr* r = linCmp(1, a, b)) return r;
    return node(ULT, 1, 0, a, b, nullptr);
}
static Expr* mkUle(Expr* a, Expr* b) {
    if (a == b) return T(); if (isC(a) && isC(b)) return K(a->cv <= b->cv, 1); unsigned w = a->w;
    if (w <= 64) { if (a->hi <= b->lo) return T(); if (a->lo > b->hi) return Fa(); }
    if (isC(a, 0) || isC(b, msk(w))) return T(); if (isC(b, 0)) return mkEq(a, b);
    if (isC(b)) return mkUlt(a, K(b->cv + 1, w)); if (isC(a)) return mkUlt(K(a->cv - 1, w), b);
    if (a->k == ZEXT && b->k == ZEXT) { unsigned m = std::max(a->a->w, b->a->w); return mkUle(mkZ(a->a, m), mkZ(b->a, m)); }
    if (w == 1) return mkBin(OR, mkNot(a), b);
    if (w <= 64) if (Expr* r = linCmp(2, a, b)) return r;
    return node(ULE, 1, 0, a, b, nullptr);
}
static bool nonneg(Expr* e) { return e->w > 1 && e->w <= 64 && e->hi < (1ull << (e->w - 1)); }
static Expr* mkSlt(Expr* a, Expr* b) {
    if (a == b) return Fa(); if (isC(a) && isC(b)) return K(sx(a->cv, a->w) < sx(b->cv, b->w), 1);
    if (nonneg(a) && nonneg(b)) return mkUlt(a, b);
    if (isC(b) && nonneg(a) && sx(b->cv, b->w) < 0) return Fa(); if (isC(a) && nonneg(b) && sx(a->cv, a->w) < 0) return T();
    if (a->k == SEXT && b->k == SEXT && a->a->w == b->a->w) return mkSlt(a->a, b->a);
    if (isC(b, 0)) return mkEq(mkExt(a, a->w - 1, 1), K(1, 1));
    return node(SLT, 1, 0, a, b, nullptr);
}
static Expr* mkSle(Expr* a, Expr* b) {
    if (a == b) return T(); if (isC(a) && isC(b)) return K(sx(a->cv, a->w) <= sx(b->cv, b->w), 1);
    if (nonneg(a) && nonneg(b)) return mkUle(a, b);
    if (isC(b) && nonneg(a) && sx(b->cv, b->w) < 0) return Fa(); if (isC(a) && nonneg(b) && sx(a->cv, a->w) < 0) return T();
    if (a->k == SEXT && b->k == SEXT && a->a->w == b->a->w) return mkSle(a->a, b->a);
    if (isC(a, 0)) return mkEq(mkExt(b, b->w - 1, 1), K(0, 1));
    return node(SLE, 1, 0, a, b, nullptr);
}
static Expr* mkIte(Expr* c, Expr* a, Expr* b) {
    if (isC(c)) return c->cv ? a : b; if (a == b) return a; if (c->k == NOT) return mkIte(c->a, b, a);
    if (a->w == 1) { if (isC(a, 1)) return mkBin(OR, c, b); if (isC(a, 0)) return mkBin(AND, mkNot(c), b); if (isC(b, 0)) return mkBin(AND, c, a); if (isC(b, 1)) return mkBin(OR, mkNot(c), a); }
    if (a->k == ITE && a->a == c) return mkIte(c, a->b, b); if (b->k == ITE && b->a == c) return mkIte(c, a, b->c);
    if (a->w > 1 && isC(a, 1) && isC(b, 0)) return mkZ(c, a->w); if (a->w > 1 && isC(a, 0) && isC(b, 1)) return mkZ(mkNot(c), a->w);
    return node(ITE, a->w, 0, c, a, b);
}

// ------------------------------------------------------------------------------------------------ solver
static Z3_context zc = nullptr; 
static void zerr(Z3_context c, Z3_error_code e) { fprintf(stderr, "vx: z3 error %s\n", Z3_get_error_msg(c, e)); _exit(97); }
static void zinit() {
    Z3_config cfg = Z3_mk_config(); zc = Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(zc, zerr);
}
static Z3_sort fsort(unsigned w) { return w == 64 ? Z3_mk_fpa_sort_64(zc) : Z3_mk_fpa_sort_32(zc); }
static Z3_ast b2bv(Z3_ast b) { return Z3_mk_ite(zc, b, Z3_mk_unsigned_int64(zc, 1, Z3_mk_bv_sort(zc, 1)), Z3_mk_unsigned_int64(zc, 0, Z3_mk_bv_sort(zc, 1))); }
static Z3_ast zb(Expr* e);          // boolean form of a 1-bit expression
static Z3_ast zv(Expr* e);
static Z3_ast zf(Expr* e) {         // floating-point form
    if (e->zf) return e->zf; Z3_ast rm = Z3_mk_fpa_rne(zc), r; Z3_sort s = fsort(e->w);
    switch (e->k) {
    case FBIN: { Z3_ast p = zf(e->a), q = zf(e->b); r = e->x == 0 ? Z3_mk_fpa_add(zc, rm, p, q) : e->x == 1 ? Z3_mk_fpa_sub(zc, rm, p, q) : e->x == 2 ? Z3_mk_fpa_mul(zc, rm, p, q) : Z3_mk_fpa_div(zc, rm, p, q); break; }
    case I2F: r = (e->x & 1) ? Z3_mk_fpa_to_fp_signed(zc, rm, zv(e->a), s) : Z3_mk_fpa_to_fp_unsigned(zc, rm, zv(e->a), s); break;
    case F2F: r = Z3_mk_fpa_to_fp_float(zc, rm, zf(e->a), s); break;
    case FUN: { Z3_ast p = zf(e->a); if (e->x == iFABS) r = Z3_mk_fpa_abs(zc, p); else if (e->x == iFNEG) r = Z3_mk_fpa_neg(zc, p);
        else r = Z3_mk_fpa_round_to_integral(zc, e->x == iFLOOR ? Z3_mk_fpa_rtn(zc) : e->x == iCEIL ? Z3_mk_fpa_rtp(zc) : Z3_mk_fpa_rtz(zc), p); break; }
    case ITE: r = Z3_mk_ite(zc, zb(e->a), zf(e->b), zf(e->c)); break;
    default: r = Z3_mk_fpa_to_fp_bv(zc, zv(e), s); }
    return e->zf = r;
}
static Z3_ast zv(Expr* e) {         // bit-vector form
    if (e->z) return e->z;
    Z3_ast r = nullptr;
    auto A = [&] { return zv(e->a); }; auto B = [&] { return zv(e->b); };
    switch (e->k) {
    case CONST: { if (e->w <= 64) r = Z3_mk_unsigned_int64(zc, (u64)e->cv, Z3_mk_bv_sort(zc, e->w));
        else r = Z3_mk_concat(zc, Z3_mk_unsigned_int64(zc, (u64)(e->cv >> 64), Z3_mk_bv_sort(zc, e->w - 64)), Z3_mk_unsigned_int64(zc, (u64)e->cv, Z3_mk_bv_sort(zc, 64))); break; }
    case VAR: { char nm[24]; snprintf(nm, sizeof nm, "v%u", e->x); r = Z3_mk_const(zc, Z3_mk_string_symbol(zc, nm), Z3_mk_bv_sort(zc, e->w)); break; }
    case ADD: r = Z3_mk_bvadd(zc, A(), B()); break; case SUB: r = Z3_mk_bvsub(zc, A(), B()); break; case MUL: r = Z3_mk_bvmul(zc, A(), B()); break;
    case UDIV: r = Z3_mk_bvudiv(zc, A(), B()); break; case SDIV: r = Z3_mk_bvsdiv(zc, A(), B()); break; case UREM: r = Z3_mk_bvurem(zc, A(), B()); break; case SREM: r = Z3_mk_bvsrem(zc, A(), B()); break;
    case SHL: r = Z3_mk_bvshl(zc, A(), B()); break; case LSHR: r = Z3_mk_bvlshr(zc, A(), B()); break; case ASHR: r = Z3_mk_bvashr(zc, A(), B()); break;
    case AND: r = e->w == 1 ? b2bv(zb(e)) : Z3_mk_bvand(zc, A(), B()); break; case OR: r = e->w == 1 ? b2bv(zb(e)) : Z3_mk_bvor(zc, A(), B()); break;
    case XOR: r = Z3_mk_bvxor(zc, A(), B()); break; case NOT: r = e->w == 1 ? b2bv(zb(e)) : Z3_mk_bvnot(zc, A()); break;
    case EQ: case ULT: case ULE: case SLT: case SLE: case FCMP: r = b2bv(zb(e)); break;
    case ITE: r = Z3_mk_ite(zc, zb(e->a), zv(e->b), zv(e->c)); break;
    case EXTRACT: r = Z3_mk_extract(zc, e->x + e->w - 1, e->x, A()); break; case CONCAT: r = Z3_mk_concat(zc, A(), B()); break;
    case ZEXT: r = Z3_mk_zero_ext(zc, e->w - e->a->w, A()); break; case SEXT: r = Z3_mk_sign_ext(zc, e->w - e->a->w, A()); break;
    case FBIN: case I2F: case F2F: case FUN: r = Z3_mk_fpa_to_ieee_bv(zc, zf(e)); break;
    case F2I: { Z3_ast rm = Z3_mk_fpa_rtz(zc), p = zf(e->a); r = (e->x & 1) ? Z3_mk_fpa_to_sbv(zc, rm, p, e->w) : Z3_mk_fpa_to_ubv(zc, rm, p, e->w); break; }
    default: abort(); }
    return e->z = r;
}
static Z3_ast zb(Expr* e) {
    Z3_ast ab[2];
    switch (e->k) {
    case CONST: return e->cv ? Z3_mk_true(zc) : Z3_mk_false(zc);
    case EQ: if (e->a->w == 1) return Z3_mk_eq(zc, zb(e->a), zb(e->b)); return Z3_mk_eq(zc, zv(e->a), zv(e->b));
    case ULT: return Z3_mk_bvult(zc, zv(e->a), zv(e->b)); case ULE: return Z3_mk_bvule(zc, zv(e->a), zv(e->b));
    case SLT: return Z3_mk_bvslt(zc, zv(e->a), zv(e->b)); case SLE: return Z3_mk_bvsle(zc, zv(e->a), zv(e->b));
    case NOT: return Z3_mk_not(zc, zb(e->a));
    case AND: ab[0] = zb(e->a); ab[1] = zb(e->b); return Z3_mk_and(zc, 2, ab);
    case OR: ab[0] = zb(e->a); ab[1] = zb(e->b); return Z3_mk_or(zc, 2, ab);
    case XOR: return Z3_mk_xor(zc, zb(e->a), zb(e->b));
    case FCMP: { Z3_ast p = zf(e->a), q = zf(e->b);
        Z3_ast l[4]; unsigned n = 0; if (e->x & 1) l[n++] = Z3_mk_fpa_eq(zc, p, q); if (e->x & 2) l[n++] = Z3_mk_fpa_gt(zc, p, q); if (e->x & 4) l[n++] = Z3_mk_fpa_lt(zc, p, q);
        if (e->x & 8) { Z3_ast t[2] = {Z3_mk_fpa_is_nan(zc, p), Z3_mk_fpa_is_nan(zc, q)}; l[n++] = Z3_mk_or(zc, 2, t); } return n ? Z3_mk_or(zc, n, l) : Z3_mk_false(zc); }
    default: return Z3_mk_eq(zc, zv(e), Z3_mk_unsigned_int64(zc, 1, Z3_mk_bv_sort(zc, 1))); }
}
static void stat(u64& f, u64 d = 1) { __atomic_add_fetch(&f, d, __ATOMIC_RELAXED); }
static void amax(u64& f, u64 v) { u64 o = f; while (v > o && !__atomic_compare_exchange_n(&f, &o, v, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {} }
static void lock() { int r = pthread_mutex_lock(&G->m); if (r == EOWNERDEAD) pthread_mutex_consistent(&G->m); }
static void unlock() { pthread_mutex_unlock(&G->m); }

struct Model { std::vector<std::pair<u32, u64>> m; };
// solver time does not count against a path's own CPU time
struct TimerOff { struct itimerval o; TimerOff() { struct itimerval z = {}; setitimer(ITIMER_PROF, &z, &o); } ~TimerOff() { if (o.it_value.tv_sec || o.it_value.tv_usec) setitimer(ITIMER_PROF, &o, nullptr); } };
static FILE* g_dump = nullptr;
// 1 sat, 0 unsat, -1 unknown
static int query(Expr* q, Model& M) {
    if (isC(q)) { if (!q->cv) return 0; return 1; }
    // constraints that share variables with q, transitively
    u128 vm = q->vm; std::vector<Expr*> sl; { auto& pc = *g_pc; std::vector<char> in(pc.size(), 0); bool ch = true;
        while (ch) { ch = false; for (size_t i = 0; i < pc.size(); i++) if (!in[i] && (pc[i]->vm & vm)) { in[i] = 1; vm |= pc[i]->vm; ch = true; } }
        for (size_t i = 0; i < pc.size(); i++) if (in[i]) sl.push_back(pc[i]); }
    std::vector<std::pair<u64, u64>> hs; for (auto* e : sl) hs.push_back({e->h1, e->h2}); std::sort(hs.begin(), hs.end()); hs.erase(std::unique(hs.begin(), hs.end()), hs.end());
    u64 k1 = q->h1 * 3 + 1, k2 = q->h2 * 5 + 1; for (auto& p : hs) { k1 = mix(k1, p.first); k2 = mix(k2, p.second); } if (!k1) k1 = 1;
    u32 pos = (k1 ^ (k2 << 7)) & (CACHE - 1);
    for (int i = 0; i < 8; i++) { CEnt& c = G->cache[(pos + i) & (CACHE - 1)]; if (__atomic_load_n(&c.k1, __ATOMIC_ACQUIRE) == k1 && c.k2 == k2) { u32 r = __atomic_load_n(&c.res, __ATOMIC_ACQUIRE); if (!r) break; stat(G->cache_hit);
            if (r == 2) return 0; for (u32 j = 0; j < c.nm; j++) M.m.push_back({c.m[j].i, c.m[j].v}); return 1; } }
    bool z_fp = q->fl; for (auto* e : sl) if (e->fl) z_fp = true;
    TimerOff toff; double t0 = now();
    std::vector<Z3_ast> as; for (auto* e : sl) as.push_back(zb(e)); as.push_back(zb(q));
    Z3_lbool r = Z3_L_UNDEF; Z3_model mdl = nullptr; 
    for (int att = z_fp ? 1 : 0; att < 2 && r == Z3_L_UNDEF; att++) {
        Z3_solver s = att == 0 ? Z3_mk_simple_solver(zc) : Z3_mk_solver_for_logic(zc, Z3_mk_string_symbol(zc, z_fp ? "QF_FPBV" : "QF_BV")); Z3_solver_inc_ref(zc, s);
        Z3_update_param_value(zc, "rlimit", att == 0 ? "600000" : g_tier ? "2000000000" : "400000000");
        for (auto a : as) Z3_solver_assert(zc, s, a);
        if (g_dump && att == (z_fp ? 1 : 0)) { fprintf(g_dump, "(reset)\n%s(check-sat)\n", Z3_solver_to_string(zc, s)); fflush(g_dump); }
        r = Z3_solver_check(zc, s);
        if (r == Z3_L_TRUE) { mdl = Z3_solver_get_model(zc, s); Z3_model_inc_ref(zc, mdl);
            for (u32 i = 0; i < g_nv; i++) { u128 bit = (u128)1 << (i < 127 ? i : 127); if (!(vm & bit) || !g_vars[i] || !g_vars[i]->z) continue;
                Z3_ast v; if (Z3_model_eval(zc, mdl, g_vars[i]->z, true, &v)) { uint64_t x; if (Z3_get_numeral_uint64(zc, v, &x)) M.m.push_back({i, x}); } }
            Z3_model_dec_ref(zc, mdl); }
        Z3_solver_dec_ref(zc, s);
    }
    double dt = now() - t0; stat(G->solver_us, (u64)(dt * 1e6)); if (dt > 2) stat(G->slow);
    if (r == Z3_L_UNDEF) { stat(G->q_unknown); return -1; }
    stat(r == Z3_L_TRUE ? G->q_sat : G->q_unsat);
    if (g_dump) fprintf(g_dump, "; expect %s\n", r == Z3_L_TRUE ? "sat" : "unsat");
    if (r == Z3_L_FALSE || M.m.size() <= 14) for (int i = 0; i < 8; i++) { CEnt& c = G->cache[(pos + i) & (CACHE - 1)]; u64 z = 0;
            if (__atomic_compare_exchange_n(&c.k1, &z, k1, false, __ATOMIC_ACQ_REL, __ATOMIC_RELAXED)) { c.k2 = k2; c.nm = r == Z3_L_TRUE ? M.m.size() : 0; for (u32 j = 0; j < c.nm; j++) { c.m[j].i = M.m[j].first; c.m[j].v = M.m[j].second; }
                __atomic_store_n(&c.res, r == Z3_L_TRUE ? 1u : 2u, __ATOMIC_RELEASE); break; } }
    return r == Z3_L_TRUE ? 1 : 0;
}
static void push(const Model& M, u32 bound, u64 expect) {
    lock();
    if (G->qn >= QCAP) { G->overflow = 1; unlock(); return; }
    Item& it = G->q[G->qn++]; if ((u64)G->qn > G->maxq) G->maxq = G->qn; it.nv = g_nv; it.bound = bound; it.expect = expect; memcpy(it.v, g_in, sizeof(u64) * g_nv); for (auto& p : M.m) it.v[p.first] = p.second; G->items++;
    unlock();
}
static u64 hnext(Expr* e) { return mix(g_hash, e->h1); }
static void addpc(Expr* e) {
    if (isC(e)) return;
    if (e->k == AND && e->w == 1) { addpc(e->a); addpc(e->b); return; }
    if (e->k == NOT && e->w == 1 && e->a->k == OR) { addpc(mkNot(e->a->a)); addpc(mkNot(e->a->b)); return; }
    for (auto* p : *g_pc) if (p == e) return;
    g_pc->push_back(e);
    if (e->k == EQ && isC(e->b) && e->a->k == VAR && e->a->x < 127) { g_pinned |= e->a->vm; }
    else if (e->k == VAR && e->x < 127) g_pinned |= e->vm; else if (e->k == NOT && e->a->k == VAR && e->a->x < 127) g_pinned |= e->vm;
}
static bool inpc(Expr* e) { for (auto* p : *g_pc) if (p == e) return true; return false; }
static void note_addr(u64 a) {
    u32 h = (a * 0x9e3779b97f4a7c15ull) >> 51; h &= NADDR - 1; for (int i = 0; i < 16; i++) { u64& s = G->addr[(h + i) & (NADDR - 1)]; if (s == a) return; u64 z = 0; if (s == 0 && __atomic_compare_exchange_n(&s, &z, a, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) { stat(*(u64*)&G->exprs, 0); return; } }
}
[[noreturn]] static void path_end(int code);
// an event: constraint e (true on this path). alternatives are pushed by the caller.
static void pr(Expr* e, int d = 0) { if (!e) return; static const char* n[] = {"const","v","add","sub","mul","udiv","sdiv","urem","srem","shl","lshr","ashr","and","or","xor","not","eq","ult","ule","slt","sle","ite","ext","cat","zext","sext","fbin","fcmp","i2f","f2i","f2f","fun"}; if (e->k == CONST) { fprintf(stderr, "%llu", (unsigned long long)e->cv); return; } if (e->k == VAR) { fprintf(stderr, "v%u", e->x); return; } if (d > 6) { fprintf(stderr, "..."); return; } fprintf(stderr, "(%s%u", n[e->k], e->w); if (e->k == EXTRACT) fprintf(stderr, "@%u", e->x); for (Expr* x : {e->a, e->b, e->c}) if (x) { fprintf(stderr, " "); pr(x, d + 1); } fprintf(stderr, ")"); }
static void commit(Expr* e) { static int tr = getenv("VX_TRACE") ? 1 : 0; if (tr) { fprintf(stderr, "[%d] ev %u%s: ", getpid(), g_ev, g_ev < g_bound ? " (prefix)" : ""); pr(e); fprintf(stderr, "\n"); } g_hash = hnext(e); g_ev++; if (g_ev == g_bound && g_expect && g_hash != g_expect) { stat(G->diverge); if (getenv("VX_DEBUG")) fprintf(stderr, "vx: diverge at event %u\n", g_ev); } addpc(e); stat(G->events); if (g_ev > 20000) { stat(G->timeouts); path_end(3); } }
static void branch(Expr* c) {   // c: 1-bit, symbolic
    Expr* e = c->cv ? c : mkNot(c);
    if (isC(e) || inpc(e)) return;
    if (g_ev >= g_bound) { Model M; Expr* n = mkNot(e); int r = query(n, M); if (r == 1) push(M, g_ev + 1, hnext(n)); else if (r < 0) G->incomplete = 1; }
    commit(e);
}
static void pin(Expr* s) {
    if (isC(s) || !(s->vm & ~g_pinned)) return;
    Expr* k = K(s->cv, s->w); Expr* e = mkEq(s, k); if (isC(e) || inpc(e)) return; stat(G->pins);
    if (g_ev >= g_bound) {
        Expr* ne = mkNot(e); int n = 0;
        for (;;) { Model M; int r = query(ne, M); if (r == 0) break; if (r < 0) { G->incomplete = 1; break; }
            // value of s under the model: re-evaluate
            // (evaluate by temporarily substituting inputs)
            std::vector<std::pair<u32, u64>> sv; for (auto& p : M.m) {}
            struct Ev { const Model& M; std::vector<std::pair<Expr*, u128>> memo; u128 go(Expr* e) { if (e->k == CONST) return e->cv; if (e->k == VAR) { for (auto& p : M.m) if (p.first == e->x) return p.second & msk(e->w); return e->cv; }
                for (auto& p : memo) if (p.first == e) return p.second;
                Expr A, B, C; Expr *pa = nullptr, *pb = nullptr, *pc = nullptr; if (e->a) { A = *e->a; A.cv = go(e->a); pa = &A; } if (e->b) { B = *e->b; B.cv = go(e->b); pb = &B; } if (e->c) { C = *e->c; C.cv = go(e->c); pc = &C; }
                u128 r = evalNode(e->k, e->w, e->x, pa, pb, pc); memo.push_back({e, r}); return r; } } ev{M, {}};
            u128 nv = ev.go(s); Expr* ke = mkEq(s, K(nv, s->w));
            push(M, g_ev + 1, hnext(ke));
            if (++n >= 4096) { stat(G->pincap); G->incomplete = 1; break; }
            ne = mkBin(AND, ne, mkNot(ke)); if (isC(ne, 0)) break; }
    }
    commit(e);
}
static inline Expr* fin(Expr* e) { if (!e || isC(e) || !(e->vm & ~g_pinned)) return nullptr; return e; }
static inline Expr* opd(Expr* s, u64 v, unsigned w) { if (s && (s->vm & ~g_pinned)) { return s; } return s ? K(s->cv, w) : K(v, w); }
static inline Expr* live(Expr* s) { return s && s->k != TUPLE && (s->vm & ~g_pinned) ? s : nullptr; }

// ------------------------------------------------------------------------------------------------ labels / violations
static int labelIdx(const char* n, int kind) {
    for (int i = 0; i < G->nlab; i++) if (G->lab[i].kind == kind && !strncmp(G->lab[i].name, n, 119)) return i;
    lock(); for (int i = 0; i < G->nlab; i++) if (G->lab[i].kind == kind && !strncmp(G->lab[i].name, n, 119)) { unlock(); return i; }
    int i = G->nlab; if (i < NLAB - 1) { strncpy(G->lab[i].name, n, 119); G->lab[i].kind = kind; __atomic_store_n(&G->nlab, i + 1, __ATOMIC_RELEASE); } else i = NLAB - 1; unlock(); return i;
}
static bool isKnown(const char* l) { return !g_known.empty() && g_known.find(std::string(";") + l + ";") != std::string::npos; }
static bool g_isolated = false;   // running a forked path
static void record(const char* label, const char* why) {
    lock(); bool kn = isKnown(label); if (kn) G->known_paths++; else G->viol_paths++;
    bool dup = false; for (int i = 0; i < G->nviol; i++) if (!strncmp(G->viol[i].label, label, 119)) dup = true;
    if (!dup && G->nviol < NVIOL) { Viol& v = G->viol[G->nviol++]; strncpy(v.label, label, 119); strncpy(v.why, why, 39); v.nv = g_nv; memcpy(v.v, g_in, sizeof v.v); memcpy(v.w, g_vw, sizeof v.w); memcpy(v.names, g_vn, sizeof v.names); }
    if (!kn && !getenv("VX_ALL")) G->stop = 1; unlock();
}
[[noreturn]] static void path_end(int code) {
    if (g_replay) { exit(code); }
    stat(G->exprs, g_nexpr); amax(G->maxdepth, g_ev);
    if (code == 0) { stat(G->paths);
        if (G->nsample < 8 && (G->paths & (G->paths - 1)) == 0) { lock(); if (G->nsample < 8) { char* p = G->sample[G->nsample++]; int n = 0; for (u32 i = 0; i < g_nv && n < 440; i++) n += snprintf(p + n, 512 - n, "%s%s=%llu", i ? " " : "", g_vn[i], (unsigned long long)g_in[i]); if (n < 480) snprintf(p + n, 512 - n, " | constraints=%zu decisions=%u", g_pc->size(), g_ev); } unlock(); } }
    else if (code == 2) stat(G->cut);
    _exit(0);
}
[[noreturn]] static void violation(const char* label, const char* why) {
    if (g_replay) { printf("REPLAY-VIOLATION label=%s why=%s\n", label, why); fflush(stdout); _exit(1); }
    record(label, why); stat(G->exprs, g_nexpr); amax(G->maxdepth, g_ev); _exit(0);
}

// ------------------------------------------------------------------------------------------------ shadow memory
struct Page { u64 no; Expr* b[4096]; };
static const u32 PH = 1 << 12; static Page* g_pg[PH]; static u8 g_bloom[1 << 15];
static inline u32 bl(u64 no) { return (no * 0x9e3779b97f4a7c15ull) >> 46; } // 18 bits
static Page* page(u64 no, bool mk) {
    u32 b = bl(no); if (!(g_bloom[b >> 3] & (1 << (b & 7)))) { if (!mk) return nullptr; }
    u32 h = (no * 0x9e3779b97f4a7c15ull) >> 52; for (u32 i = 0; i < PH; i++) { Page*& p = g_pg[(h + i) & (PH - 1)]; if (!p) { if (!mk) return nullptr; p = (Page*)mmap(nullptr, sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); p->no = no; g_bloom[b >> 3] |= 1 << (b & 7); return p; } if (p->no == no) return p; }
    fprintf(stderr, "vx: shadow pages exhausted\n"); _exit(98);
}
static inline Expr* ldb(u64 a) { Page* p = page(a >> 12, false); if (!p) return nullptr; Expr*& e = p->b[a & 4095]; if (!e) return nullptr; if ((u8)e->cv != *(u8*)a) { e = nullptr; stat(G->stale); return nullptr; } return e; }
// lowest stack address holding a symbolic byte: what lies below the current frame belongs to frames already left
static u64 g_low = ~0ull, g_stop_, g_sbot;
static inline void stb(u64 a, Expr* e) { Page* p = page(a >> 12, e != nullptr); if (p) { p->b[a & 4095] = e; if (e && a < g_low && a >= g_sbot && a < g_stop_) g_low = a; } }

typedef void* V;
#define X(p) ((Expr*)(p))
extern "C" {
V vxr_callee; V vxr_args[32]; static V g_zero[32]; static V g_argcopy[64][32]; static u32 g_acd;
static V g_retf, g_retv;
V vxr_entry(V f) {
    if (!g_on || vxr_callee != f) return g_zero;
    vxr_callee = nullptr; return vxr_args;   // the callee reads all slots at once, before any call
}
void vxr_ret(V f, V s) { if (!g_on) return; g_retf = s ? f : nullptr; g_retv = s; }
V vxr_getret(V f) { if (!g_on) return nullptr; if (g_retf != f) { g_retf = nullptr; return nullptr; } g_retf = nullptr; return g_retv; }
void vxr_byval(V src, V dst, u64 n) { if (!g_on) return; for (u64 i = 0; i < n; i++) stb((u64)dst + i, src ? ldb((u64)src + i) : nullptr); }
void vxr_clear(V p, u64 n) { if (!g_on) return; u64 a = (u64)p; u64 e = a + n; while (a < e) { u64 pe = std::min(e, (a | 4095) + 1); if (Page* pg = page(a >> 12, false)) memset(&pg->b[a & 4095], 0, (pe - a) * sizeof(Expr*)); a = pe; } }
// before a call that may leave instrumented code: it reuses the stack below this frame without telling us
void vxr_leave() { u64 f = (u64)__builtin_frame_address(0); if (g_low >= f) return; vxr_clear((V)g_low, f - g_low); g_low = ~0ull; }
static Kind opk(u32 op) { return (Kind)op; }
static Expr* arith(u32 op, Expr* a, Expr* b) {
    if ((op == UDIV || op == SDIV || op == UREM || op == SREM) && !isC(b)) { Expr* z = mkEq(b, K(0, b->w)); if (!isC(z)) branch(z); }
    return fin(mkBin(opk(op), a, b));
}
V vxr_bin(u32 op, u32 w, V sa, u64 va, V sb, u64 vb) { if (!live(X(sa)) && !live(X(sb))) return nullptr; return arith(op, opd(X(sa), va, w), opd(X(sb), vb, w)); }
V vxr_binw(u32 op, u32 w, V sa, u64 al, u64 ah, V sb, u64 bl_, u64 bh) { if (!live(X(sa)) && !live(X(sb))) return nullptr;
    Expr* a = live(X(sa)) ? X(sa) : K(((u128)ah << 64) | al, w); Expr* b = live(X(sb)) ? X(sb) : K(((u128)bh << 64) | bl_, w); return arith(op, a, b); }
static Expr* cmp(u32 p, Expr* a, Expr* b) {
    switch (p) { case 32: return mkEq(a, b); case 33: return mkNot(mkEq(a, b)); case 34: return mkUlt(b, a); case 35: return mkUle(b, a); case 36: return mkUlt(a, b); case 37: return mkUle(a, b);
    case 38: return mkSlt(b, a); case 39: return mkSle(b, a); case 40: return mkSlt(a, b); case 41: return mkSle(a, b); } abort(); }
V vxr_cmp(u32 p, u32 w, V sa, u64 va, V sb, u64 vb) { if (!live(X(sa)) && !live(X(sb))) return nullptr; return fin(cmp(p, opd(X(sa), va, w), opd(X(sb), vb, w))); }
V vxr_cmpw(u32 p, u32 w, V sa, u64 al, u64 ah, V sb, u64 bl_, u64 bh) { if (!live(X(sa)) && !live(X(sb))) return nullptr;
    Expr* a = live(X(sa)) ? X(sa) : K(((u128)ah << 64) | al, w); Expr* b = live(X(sb)) ? X(sb) : K(((u128)bh << 64) | bl_, w); return fin(cmp(p, a, b)); }
V vxr_fbin(u32 op, u32 w, V sa, u64 va, V sb, u64 vb) { if (!live(X(sa)) && !live(X(sb))) return nullptr; return fin(mkFbin(op, opd(X(sa), va, w), opd(X(sb), vb, w))); }
V vxr_fcmp(u32 p, u32 w, V sa, u64 va, V sb, u64 vb) { if (!live(X(sa)) && !live(X(sb))) return nullptr; return fin(mkFcmp(p, opd(X(sa), va, w), opd(X(sb), vb, w))); }
V vxr_cast(u32 c, u32 f, u32 t, V s) { Expr* e = live(X(s)); if (!e) return nullptr;
    switch (c) { case cTRUNC: return fin(mkExt(e, 0, t)); case cZEXT: return fin(mkZ(e, t)); case cSEXT: return fin(mkS(e, t));
    case cSI2FP: return fin(node(I2F, t, 1, e, nullptr, nullptr)); case cUI2FP: return fin(node(I2F, t, 0, e, nullptr, nullptr));
    case cFP2SI: return fin(node(F2I, t, 1, e, nullptr, nullptr)); case cFP2UI: return fin(node(F2I, t, 0, e, nullptr, nullptr));
    default: return fin(node(F2F, t, 0, e, nullptr, nullptr)); } }
V vxr_select(V c, u8 cv_, u32 w, V sa, u64 va, V sb, u64 vb) { bool cv = cv_ & 1; Expr* e = live(X(c)); if (!e) return cv ? live(X(sa)) : live(X(sb)); return fin(mkIte(e, opd(X(sa), va, w), opd(X(sb), vb, w))); }
// what was last stored whole at an address (checked against the bytes before use)
static struct { u64 a; Expr* e; } g_whole[8192];
V vxr_load(V p, u64 n, u32 w) {
    if (!g_on) return nullptr; u64 a = (u64)p;
    Page* p0 = page(a >> 12, false); Page* p1 = ((a + n - 1) >> 12) == (a >> 12) ? p0 : page((a + n - 1) >> 12, false); if (!p0 && !p1) return nullptr;
    Expr* b[16]; bool any = false; for (u64 i = 0; i < n && i < 16; i++) { b[i] = ldb(a + i); if (b[i]) any = true; } if (!any) return nullptr;
    { auto& t = g_whole[(a >> 2 ^ n) & 8191]; if (t.e && t.a == a && t.e->w == 8 * n) { bool same = true; for (u64 i = 0; i < n && same; i++) { Expr* x = mkExt(t.e, 8 * i, 8); same = b[i] ? b[i] == x : isC(x, *(u8*)(a + i)); } if (same) return fin(t.e->w > w ? mkExt(t.e, 0, w) : t.e); } }
    Expr* r = nullptr; for (u64 i = 0; i < n && i < 16; i++) { Expr* x = b[i] ? b[i] : K(*(u8*)(a + i), 8); r = r ? mkCat(x, r) : x; }
    if (r->w > w) r = mkExt(r, 0, w); return fin(r);
}
void vxr_store(V p, u64 n, V s) {
    if (!g_on) return; u64 a = (u64)p; Expr* e = live(X(s));
    if (!e) { vxr_clear(p, n); return; }
    if (e->w < 8 * n) e = mkZ(e, 8 * n);
    g_whole[(a >> 2 ^ n) & 8191] = {a, e};
    for (u64 i = 0; i < n; i++) { Expr* x = mkExt(e, 8 * i, 8); stb(a + i, isC(x) ? nullptr : x); }
}
void vxr_branch(V s, u8 v_) { bool v = v_ & 1; Expr* e = live(X(s)); if (!e) return; if ((bool)e->cv != v) { stat(G->diverge); if (getenv("VX_DEBUG")) { fprintf(stderr, "vx: value mismatch at %p\n", __builtin_return_address(0)); } return; } note_addr((u64)__builtin_return_address(0)); branch(e); }
void vxr_switch(V s, u64 v, u64 n, V cases) {
    Expr* e = live(X(s)); if (!e) return; note_addr((u64)__builtin_return_address(0)); u64* cs = (u64*)cases; bool def = true; for (u64 i = 0; i < n; i++) if (cs[i] == v) def = false;
    Expr* alln = T(); for (u64 i = 0; i < n; i++) alln = mkBin(AND, alln, mkNot(mkEq(e, K(cs[i], e->w))));
    Expr* t = def ? alln : mkEq(e, K(v, e->w)); if (isC(t) || inpc(t)) return;
    if (g_ev >= g_bound) {
        for (u64 i = 0; i < n; i++) if (cs[i] != v) { Expr* q = mkEq(e, K(cs[i], e->w)); if (isC(q)) continue; Model M; int r = query(q, M); if (r == 1) push(M, g_ev + 1, hnext(q)); else if (r < 0) G->incomplete = 1; }
        if (!def && !isC(alln)) { Model M; int r = query(alln, M); if (r == 1) push(M, g_ev + 1, hnext(alln)); else if (r < 0) G->incomplete = 1; }
    }
    commit(t);
}
void vxr_pin(V s) { if (!s) return; if (X(s)->k == TUPLE) { for (auto* f : ((Tuple*)s)->f) if (f && live(f)) pin(f); return; } if (live(X(s))) { note_addr((u64)__builtin_return_address(0)); pin(X(s)); } }
void vxr_pinmem(V p, u64 n) { if (!g_on) return; for (u64 i = 0; i < n; i++) if (Expr* e = ldb((u64)p + i)) if (live(e)) pin(e); }
V vxr_tget(V s, u32 i) { if (!s || X(s)->k != TUPLE || i >= 8) return nullptr; return live(((Tuple*)s)->f[i]); }
V vxr_tset(V s, u32 i, V v) { if (i >= 8 || (!s && !v)) return s; Tuple* t = (Tuple*)ar(sizeof(Tuple)); if (s) *t = *(Tuple*)s; else memset(t, 0, sizeof *t); t->k = TUPLE; t->f[i] = X(v); bool any = false; for (auto* f : t->f) if (f) any = true; return any ? t : nullptr; }
void vxr_memcpy(V d, V s, u64 n) {
    if (!g_on || d == s) return; u64 D = (u64)d, S = (u64)s; bool anys = false; for (u64 a = S >> 12; a <= (S + (n ? n - 1 : 0)) >> 12; a++) if (page(a, false)) anys = true;
    if (!anys) { vxr_clear(d, n); return; }
    std::vector<Expr*> t(n); for (u64 i = 0; i < n; i++) t[i] = ldb(S + i); for (u64 i = 0; i < n; i++) stb(D + i, t[i]); }
void vxr_memset(V d, V s, u64 n) { if (!g_on) return; Expr* e = live(X(s)); if (!e) { vxr_clear(d, n); return; } if (e->w > 8) e = mkExt(e, 0, 8); for (u64 i = 0; i < n; i++) stb((u64)d + i, e); }
int vxr_anysym(const void* p, size_t n) { if (!g_on) return 0; for (size_t i = 0; i < n; i++) if (live(ldb((u64)p + i))) return 1; return 0; }
V vxr_intr(u32 id, u32 w, V sa, u64 va, V sb, u64 vb, V sc, u64 vc) {
    if (!live(X(sa)) && !live(X(sb)) && !live(X(sc))) return nullptr; unsigned aw = w; if (live(X(sa))) aw = X(sa)->w;
    Expr* a = opd(X(sa), va, aw); Expr* b = nullptr; auto Bx = [&] { return b ? b : b = opd(X(sb), vb, w); };
    switch (id) {
    case iUMAX: return fin(mkIte(mkUlt(a, Bx()), Bx(), a)); case iUMIN: return fin(mkIte(mkUlt(a, Bx()), a, Bx()));
    case iSMAX: return fin(mkIte(mkSlt(a, Bx()), Bx(), a)); case iSMIN: return fin(mkIte(mkSlt(a, Bx()), a, Bx()));
    case iABS: return fin(mkIte(mkSlt(a, K(0, w)), mkBin(SUB, K(0, w), a), a));
    case iCTPOP: { Expr* r = K(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(ADD, r, mkZ(mkExt(a, i, 1), w)); return fin(r); }
    case iCTLZ: { Expr* r = K(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExt(a, i, 1), K(w - 1 - i, w), r); return fin(r); }
    case iCTTZ: { Expr* r = K(w, w); for (int i = w - 1; i >= 0; i--) r = mkIte(mkExt(a, i, 1), K(i, w), r); return fin(r); }
    case iBSWAP: { Expr* r = mkExt(a, 0, 8); for (unsigned i = 8; i < w; i += 8) r = mkCat(r, mkExt(a, i, 8)); return fin(r); }
    case iBITREV: { Expr* r = mkExt(a, 0, 1); for (unsigned i = 1; i < w; i++) r = mkCat(r, mkExt(a, i, 1)); return fin(r); }
    case iFSHL: case iFSHR: { Expr* c = opd(X(sc), vc, w); Expr* cat = nullptr; if (w <= 64) cat = mkCat(a, Bx()); Expr* sh = mkBin(UREM, c, K(w, w)); Expr* s2 = mkZ(sh, 2 * w);
        if (id == iFSHR) return fin(mkExt(mkBin(LSHR, cat, s2), 0, w)); return fin(mkExt(mkBin(SHL, cat, s2), w, w)); }
    case iUADDSAT: { Expr* s = mkBin(ADD, a, Bx()); return fin(mkIte(mkUlt(s, a), K(msk(w), w), s)); }
    case iUSUBSAT: return fin(mkIte(mkUlt(a, Bx()), K(0, w), mkBin(SUB, a, Bx())));
    case iSADDSAT: case iSSUBSAT: { Expr* p = mkS(a, w + 1); Expr* q = mkS(Bx(), w + 1); Expr* s = mkBin(id == iSADDSAT ? ADD : SUB, p, q); Expr* mx = K(msk(w - 1), w + 1); Expr* mn = mkS(K((u128)1 << (w - 1), w), w + 1);
        return fin(mkExt(mkIte(mkSlt(mx, s), mx, mkIte(mkSlt(s, mn), mn, s)), 0, w)); }
    case iFNEG: return fin(mkFneg(a));
    default: return fin(node(FUN, w, id, a, nullptr, nullptr)); }
}
V vxr_ovf(u32 o, u32 w, V sa, u64 va, V sb, u64 vb) {
    if (!live(X(sa)) && !live(X(sb))) return nullptr; Expr *a = opd(X(sa), va, w), *b = opd(X(sb), vb, w), *r, *f; unsigned W = (o == vUMUL || o == vSMUL) ? 2 * w : w + 1; 
    bool sg = o >= vSADD; Kind k = (o == vUADD || o == vSADD) ? ADD : (o == vUSUB || o == vSSUB) ? SUB : MUL; r = mkBin(k, a, b);
    if (o == vUADD) f = mkUlt(r, a); else if (o == vUSUB) f = mkUlt(a, b);
    else { Expr* p = sg ? mkS(a, W) : mkZ(a, W); Expr* q = sg ? mkS(b, W) : mkZ(b, W); Expr* t = mkBin(k, p, q); f = mkNot(mkEq(t, sg ? mkS(mkExt(t, 0, w), W) : mkZ(mkExt(t, 0, w), W))); }
    V t = vxr_tset(nullptr, 0, fin(r)); return vxr_tset(t, 1, fin(f));
}
void vxr_ext(V s, V n) { vxr_pin(s); }
static std::vector<u64>* g_fns; static std::vector<u64>* g_fset; static u64 g_nfn;
void vxr_register(V t, u64 n) { if (!g_fns) g_fns = new std::vector<u64>; u64* p = (u64*)t; for (u64 i = 0; i < n; i++) if (p[i]) g_fns->push_back(p[i]); }
void vxr_extcall(V f, V name, u64 n) {
    if (!g_on) return; if (!g_fset) { g_fset = g_fns ? g_fns : new std::vector<u64>; std::sort(g_fset->begin(), g_fset->end()); }
    if (std::binary_search(g_fset->begin(), g_fset->end(), (u64)f)) return;
    for (u64 i = 0; i < n && i < 32; i++) if (vxr_args[i] && X(vxr_args[i])->k != TUPLE && live(X(vxr_args[i]))) { int l = labelIdx((const char*)name, 3); stat(G->lab[l].n); pin(X(vxr_args[i])); }
}
void vxr_assert(V s, u8 c_, V label) { bool c = c_ & 1;
    const char* l = (const char*)label;
    if (!g_on) { if (!c) { if (g_replay) violation(l, "assert"); fprintf(stderr, "vx: assertion %s fails in set-up\n", l); if (G) { record(l, "setup"); return; } exit(1); } return; }
    int li = labelIdx(l, 1); stat(G->lab[li].n); stat(G->asserts); Expr* e = live(X(s));
    if (!c) violation(l, "assert");
    if (!e) return;
    if (!e->cv) { stat(G->diverge); return; }
    stat(G->lab[li].sym); stat(G->assert_sym); if (isC(e) || inpc(e)) return;
    if (g_ev >= g_bound) { note_addr((u64)__builtin_return_address(0)); Model M; Expr* n = mkNot(e); int r = query(n, M); stat(G->lab[li].queries); stat(G->assert_q); if (r == 1) push(M, g_ev + 1, hnext(n)); else if (r < 0) G->incomplete = 1; }
    commit(e);
}
void vxr_assume(V s, u8 c_) { bool c = c_ & 1;
    if (!g_on) { if (!c && g_replay) { printf("REPLAY-ASSUME-FALSE\n"); exit(3); } return; }
    Expr* e = live(X(s)); if (!e) { if (!c) path_end(2); return; }
    if (isC(e) || inpc(e)) return;
    if (c) { commit(e); return; }
    if (g_ev >= g_bound) { Model M; int r = query(e, M); if (r == 1) push(M, g_ev + 1, hnext(e)); else if (r < 0) G->incomplete = 1; }
    path_end(2);
}
// ---- harness API (uninstrumented)
static Expr* mkvar(const char* name, unsigned w, u64 lo, u64 hi) {
    u32 i = g_nv; if (i >= (u32)MAXV) { fprintf(stderr, "vx: too many symbolic variables\n"); _exit(96); } g_nv++; g_vw[i] = w; strncpy(g_vn[i], name, 23);
    u64 m = w >= 64 ? ~0ull : ((1ull << w) - 1);
    if (i >= g_nin) { g_in[i] = lo; g_nin = i + 1; }
    if (!g_on) return nullptr;
    { auto& c = G->cur[g_wid]; c.v[i] = g_in[i]; c.w[i] = w; memcpy(c.names[i], g_vn[i], 24); c.nv = i + 1; }
    if (lo == hi) { g_vars[i] = nullptr; return nullptr; }
    Expr* e = (Expr*)ar(sizeof(Expr)); memset(e, 0, sizeof *e); e->k = VAR; e->w = w; e->x = i; e->cv = g_in[i] & m; e->vm = (u128)1 << (i < 127 ? i : 127); e->h1 = mix(mix(0x51, i), mix(w, lo)); e->h2 = mix(mix(0x97, i), mix(w, hi)); e->lo = lo; e->hi = hi;
    g_vars[i] = e; zv(e);
    if (lo > 0) { Expr* c = node(ULE, 1, 0, K(lo, w), e, nullptr); g_pc->push_back(c); } if (hi < m) { Expr* c = node(ULE, 1, 0, e, K(hi, w), nullptr); g_pc->push_back(c); }
    return e;
}
uint64_t vx_u64(const char* n) { Expr* e = mkvar(n, 64, 0, ~0ull); g_retf = (V)&vx_u64; g_retv = e; return g_in[g_nv - 1]; }
uint32_t vx_u32(const char* n) { Expr* e = mkvar(n, 32, 0, ~0u); g_retf = (V)&vx_u32; g_retv = e; return (u32)g_in[g_nv - 1]; }
uint16_t vx_u16(const char* n) { Expr* e = mkvar(n, 16, 0, 65535); g_retf = (V)&vx_u16; g_retv = e; return (uint16_t)g_in[g_nv - 1]; }
uint8_t vx_u8(const char* n) { Expr* e = mkvar(n, 8, 0, 255); g_retf = (V)&vx_u8; g_retv = e; return (u8)g_in[g_nv - 1]; }
bool vx_bool(const char* n) { Expr* e = mkvar(n, 1, 0, 1); g_retf = (V)&vx_bool; g_retv = e; return g_in[g_nv - 1] & 1; }
uint64_t vx_range(const char* n, u64 lo, u64 hi) { unsigned w = hi < 2 ? 1 : hi < 256 ? 8 : hi < 65536 ? 16 : hi < (1ull << 32) ? 32 : 64; Expr* e = mkvar(n, w, lo, hi); g_retf = (V)&vx_range; g_retv = e ? mkZ(e, 64) : nullptr; return g_in[g_nv - 1]; }
void vx_bytes(void* p, size_t n, const char* name) { for (size_t i = 0; i < n; i++) { Expr* e = mkvar(name, 8, 0, 255); ((u8*)p)[i] = (u8)g_in[g_nv - 1]; if (g_on) stb((u64)p + i, e); } }
uint64_t vx_pick(uint64_t v) { if (g_on && vxr_callee == (V)&vx_pick && vxr_args[0]) { Expr* e = live(X(vxr_args[0])); if (e) pin(e); } return v; }
void vx_reach(const char* l) { if (!g_on) return; int i = labelIdx(l, 2); stat(G->lab[i].n); }
void vx_fail(const char* l) { if (g_on) { int li = labelIdx(l, 1); stat(G->lab[li].n); } if (g_on || g_replay) violation(l, "fail"); fprintf(stderr, "vx: %s in set-up\n", l); exit(1); }
void vx_assert(bool c, const char* l) { vxr_assert(nullptr, c, (V)l); }
void vx_assume(bool c) { vxr_assume(nullptr, c); }
int vx_replaying(void) { return g_replay; }
int vx_thorough(void) { return g_tier; }
void vx_note(const char* f, ...) { if (!g_replay) return; va_list ap; va_start(ap, f); vprintf(f, ap); va_end(ap); fflush(stdout); }
} // extern C

// ------------------------------------------------------------------------------------------------ driver
struct Ent { const char* n; vx_entry_fn s, r; };
static std::vector<Ent>* g_ents;
vx_entry_reg::vx_entry_reg(const char* n, vx_entry_fn s, vx_entry_fn r) { if (!g_ents) g_ents = new std::vector<Ent>; g_ents->push_back({n, s, r}); }

static void on_terminate() {
    const char* t = "terminate"; static char buf[110];
    if (auto* ti = abi::__cxa_current_exception_type()) { int st; char* d = abi::__cxa_demangle(ti->name(), nullptr, nullptr, &st); snprintf(buf, sizeof buf, "uncaught exception %s", d ? d : ti->name()); t = buf; }
    if (g_on || g_replay) violation(t, "uncaught"); abort();
}
static void run_path(Ent& E) {
    try { E.r(); }
    catch (std::exception& e) { g_on = g_on; static char b[110]; snprintf(b, sizeof b, "uncaught exception: %.80s", e.what()); for (char* c = b; *c; c++) if (*c < 32 || *c == 34 || *c == 92) *c = 32; if (g_replay) printf("exception: %s\n", e.what()); violation(b, "uncaught"); }
    path_end(0);
}
static void loadcur() { auto& c = G->cur[g_wid]; g_nv = c.nv; memcpy(g_in, c.v, sizeof g_in); memcpy(g_vw, c.w, sizeof g_vw); memcpy(g_vn, c.names, sizeof g_vn); }
static void worker(Ent& E, int path_timeout) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    for (;;) {
        lock();
        if (G->stop) { unlock(); return; }
        if (now() > g_deadline) { if (G->qn > 0 || G->active > 0) G->incomplete = 2; unlock(); return; }
        if (G->qn == 0) { int a = G->active; unlock(); if (a == 0) return; usleep(150); continue; }
        Item* it = &G->q[--G->qn]; g_nin = it->nv; memcpy(g_in, it->v, sizeof(u64) * it->nv); g_bound = it->bound; g_expect = it->expect; G->active++;
        unlock();
        G->cur[g_wid].nv = 0;
        pid_t p = fork();
        if (p == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            signal(SIGALRM, SIG_DFL); signal(SIGPROF, SIG_DFL); struct itimerval tv = {}; tv.it_value.tv_sec = path_timeout; setitimer(ITIMER_PROF, &tv, nullptr); { double left = g_deadline - now(); tv.it_value.tv_sec = (left > 0 ? (long)left : 0) + (g_tier ? 240 : 45); } setitimer(ITIMER_REAL, &tv, nullptr);
            g_on = true; g_ev = 0; g_nv = 0; g_hash = 1; g_pinned = 0; g_pc = new std::vector<Expr*>; vxr_callee = nullptr;
            if (const char* d = getenv("VX_DUMP")) { char f[256]; snprintf(f, sizeof f, "%s/q%d.smt2", d, getpid()); g_dump = fopen(f, "w"); }
            run_path(E);
        }
        int st = 0; if (p > 0) waitpid(p, &st, 0);
        lock();
        if (p < 0) G->incomplete = 3;
        else if (WIFSIGNALED(st)) { int sg = WTERMSIG(st); if (sg == SIGALRM || sg == SIGKILL) { G->incomplete = 4; } else if (sg == SIGPROF) { G->timeouts++;
                unlock(); loadcur(); record("path does not terminate", "timeout"); lock(); }
            else { G->crashes++; unlock(); char b[64]; snprintf(b, sizeof b, "crash: signal %d", sg); loadcur(); record(b, "signal"); lock(); } }
        else if (WEXITSTATUS(st) != 0) { G->incomplete = 5; fprintf(stderr, "vx: path process exit %d\n", WEXITSTATUS(st)); }
        G->active--; unlock();
    }
}
static void jstr(FILE* f, const char* s) { fputc('"', f); for (; *s; s++) { if (*s == '"' || *s == '\\') fputc('\\', f); if ((u8)*s >= 32) fputc(*s, f); } fputc('"', f); }
int main(int argc, char** argv) { g_stop_ = (u64)__builtin_frame_address(0); g_sbot = g_stop_ - (64ull << 20);
    std::string entry, out, replay; double budget = 60; int jobs = 8, pto = 20;
    for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
        if (a == "--entry") entry = nx(); else if (a == "--out") out = nx(); else if (a == "--budget") budget = atof(nx().c_str()); else if (a == "--jobs") jobs = atoi(nx().c_str());
        else if (a == "--replay") replay = nx(); else if (a == "--known") g_known = ";" + nx() + ";"; else if (a == "--thorough") g_tier = 1; else if (a == "--path-timeout") pto = atoi(nx().c_str());
        else if (a == "--list") { for (auto& e : *g_ents) printf("%s\n", e.n); return 0; } }
    Ent* E = nullptr; for (auto& e : *g_ents) if (entry == e.n) E = &e;
    if (!E) { fprintf(stderr, "vx: no entry %s\n", entry.c_str()); return 2; }
    std::set_terminate(on_terminate);
    signal(SIGPIPE, SIG_IGN);
    if (!replay.empty()) {
        g_replay = true; FILE* f = fopen(replay.c_str(), "r"); if (!f) return 2; unsigned long long v; while (fscanf(f, "%llu", &v) == 1 && g_nin < (u32)MAXV) g_in[g_nin++] = v; fclose(f);
        if (E->s) E->s(); run_path(*E); return 0;
    }
    G = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (G == MAP_FAILED) { perror("mmap"); return 2; }
    pthread_mutexattr_t ma; pthread_mutexattr_init(&ma); pthread_mutexattr_setpshared(&ma, PTHREAD_PROCESS_SHARED); pthread_mutexattr_setrobust(&ma, PTHREAD_MUTEX_ROBUST); pthread_mutex_init(&G->m, &ma);
    double t0 = now(); g_deadline = t0 + budget;
    G->qn = 1; memset(&G->q[0], 0, 64); G->q[0].nv = 0; G->q[0].bound = 0;
    zinit(); mkBin(ADD, K(1, 8), K(2, 8));
    if (E->s) E->s();
    std::vector<pid_t> ws; for (int i = 0; i < jobs; i++) { pid_t p = fork(); if (p == 0) { g_wid = i; worker(*E, pto); _exit(0); } ws.push_back(p); }
    for (auto p : ws) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { G->incomplete = 6; fprintf(stderr, "vx: worker failed\n"); } }
    double t1 = now();
    FILE* f = out.empty() ? stdout : fopen(out.c_str(), "w");
    fprintf(f, "{\"entry\":\"%s\",\"wall\":%.3f,\"complete\":%s,\"incomplete\":%d,\"overflow\":%d,\"stopped\":%d,\n", entry.c_str(), t1 - t0, (!G->incomplete && !G->overflow && !G->stop) ? "true" : "false", G->incomplete, G->overflow, G->stop);
#define P(n) fprintf(f, "\"%s\":%llu,", #n, (unsigned long long)G->n)
    P(paths); P(cut); P(items); P(events); P(q_sat); P(q_unsat); P(q_unknown); P(cache_hit); P(asserts); P(assert_sym); P(assert_q); P(pins); P(pincap); P(diverge); P(stale); P(crashes); P(timeouts); P(viol_paths); P(known_paths); P(maxdepth); P(maxq); P(slow); P(exprs);
    fprintf(f, "\n\"solver_s\":%.3f,\"instrumented_functions\":%zu,\n\"labels\":[", G->solver_us * 1e-6, g_fns ? g_fns->size() : 0);
    for (int i = 0; i < G->nlab; i++) { fprintf(f, "%s\n{\"kind\":%d,\"name\":", i ? "," : "", G->lab[i].kind); jstr(f, G->lab[i].name); fprintf(f, ",\"n\":%llu,\"sym\":%llu,\"queries\":%llu}", (unsigned long long)G->lab[i].n, (unsigned long long)G->lab[i].sym, (unsigned long long)G->lab[i].queries); }
    fprintf(f, "],\n\"samples\":["); for (int i = 0; i < G->nsample; i++) { if (i) fputc(',', f); jstr(f, G->sample[i]); }
    fprintf(f, "],\n\"violations\":[");
    for (int i = 0; i < G->nviol; i++) { Viol& v = G->viol[i]; fprintf(f, "%s\n{\"label\":", i ? "," : ""); jstr(f, v.label); fprintf(f, ",\"why\":\"%s\",\"vars\":[", v.why); for (u32 j = 0; j < v.nv; j++) { fprintf(f, "%s[", j ? "," : ""); jstr(f, v.names[j]); fprintf(f, ",%d,%llu]", v.w[j], (unsigned long long)v.v[j]); } fprintf(f, "]}"); }
    fprintf(f, "],\n\"addrs\":["); bool first = true; for (int i = 0; i < NADDR; i++) if (G->addr[i]) { fprintf(f, "%s%llu", first ? "" : ",", (unsigned long long)G->addr[i]); first = false; }
    fprintf(f, "]}\n"); if (f != stdout) fclose(f);
    return G->viol_paths ? 1 : 0;
}

// exceptions carry no symbolised backtrace in the check builds (costly, and not observable behaviour of the properties)
extern "C" __attribute__((visibility("default"))) int backtrace(void**, int) { return 0; }
