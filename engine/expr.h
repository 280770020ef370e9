// Hash-consed bit-vector expressions (width 1..64), with known-bits and interval analysis, and the Z3 back end.
#pragma once
#include <cstdint>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <vector>
#include <string>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <functional>
#include <z3.h>
typedef unsigned long long u64; typedef long long i64; typedef uint32_t u32; typedef uint8_t u8; typedef uint16_t u16;
typedef __int128 i128; typedef unsigned __int128 u128;

enum Op : u8 { CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR, CONCAT, EXTRACT, ZEXT, SEXT,
  ITE, EQ, ULT, ULE, SLT, SLE, SMULOV, FADD, FSUB, FMUL, FDIV, FSQRT, FRND, FLT, FLE, FEQ, SI2F, UI2F, F2SI, F80I, F80D, F80LT, F80EQ };

struct VS { u64 w[4]; };   // set of variables (up to 256)
struct Expr { u8 op, w; u32 id; const Expr *a, *b, *c; u64 v; u64 kz, ko, umin, umax; i64 smin, smax; VS vs;
  mutable u64 mval; mutable u64 mgen; mutable Z3_ast z; };
typedef const Expr *E;

static inline u64 mask(int w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sx(u64 v, int w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }
static inline double asd(u64 v) { double d; memcpy(&d, &v, 8); return d; }
static inline u64 dbits(double d) { u64 v; memcpy(&v, &d, 8); return v; }

struct VarInfo { std::string name; int w; u64 lo, hi; bool sgn; E e; };
extern std::vector<VarInfo> g_vars;
std::vector<VarInfo> g_vars;
static std::vector<Expr *> g_exprs;
struct EH { size_t operator()(const Expr *e) const { u64 h = e->op * 0x9E3779B97F4A7C15ull + e->w * 1315423911u;
  h ^= (e->a ? e->a->id : 0) * 0xC2B2AE3D27D4EB4Full; h = (h << 13) | (h >> 51); h ^= (e->b ? e->b->id : 0) * 0x165667B19E3779F9ull; h = (h << 17) | (h >> 47);
  h ^= (e->c ? e->c->id : 0) * 0x27D4EB2F165667C5ull; h ^= e->v * 0x9FB21C651E98DF25ull; return h ^ (h >> 29); } };
struct EQe { bool operator()(const Expr *x, const Expr *y) const { return x->op == y->op && x->w == y->w && x->a == y->a && x->b == y->b && x->c == y->c && x->v == y->v; } };
static std::unordered_set<Expr *, EH, EQe> g_tab;

static u64 foldop(int op, int w, u64 a, u64 b, u64 c, u64 v, int aw, int bw);

static void analyse(Expr *e) {
  int w = e->w; u64 M = mask(w);
  e->kz = e->ko = 0; e->umin = 0; e->umax = M; e->smin = sx(1ull << (w - 1), w); e->smax = (i64)(M >> 1);
  E a = e->a, b = e->b, c = e->c;
  auto urange = [&](u64 lo, u64 hi) { if (lo > e->umin) e->umin = lo; if (hi < e->umax) e->umax = hi; };
  auto srange = [&](i64 lo, i64 hi) { if (lo > e->smin) e->smin = lo; if (hi < e->smax) e->smax = hi; };
  switch (e->op) {
  case CONST: e->ko = e->v; e->kz = ~e->v & M; break;
  case VAR: { VarInfo &vi = g_vars[e->v]; if (vi.sgn) srange((i64)vi.lo, (i64)vi.hi); else urange(vi.lo, vi.hi); break; }
  case AND: e->ko = a->ko & b->ko; e->kz = a->kz | b->kz; urange(0, std::min(a->umax, b->umax)); break;
  case OR: e->ko = a->ko | b->ko; e->kz = a->kz & b->kz; urange(std::max(a->umin, b->umin), M); break;
  case XOR: e->ko = (a->ko & b->kz) | (a->kz & b->ko); e->kz = (a->ko & b->ko) | (a->kz & b->kz); break;
  case SHL: if (b->op == CONST && b->v < (u64)w) { int k = b->v; e->ko = (a->ko << k) & M; e->kz = ((a->kz << k) | mask(k)) & M;
      if (a->umax <= (M >> k)) urange(a->umin << k, a->umax << k);
      if (a->smin >= (e->smin >> k) && a->smax <= (e->smax >> k)) srange((i64)((u64)a->smin << k), (i64)((u64)a->smax << k)); } break;
  case LSHR: if (b->op == CONST && b->v < (u64)w) { int k = b->v; e->ko = a->ko >> k; e->kz = (a->kz >> k) | (M & ~(M >> k)); urange(a->umin >> k, a->umax >> k); } else urange(0, a->umax); break;
  case ASHR: if (b->op == CONST && b->v < (u64)w) { int k = b->v; e->ko = (u64)(sx(a->ko, w) >> k) & M; e->kz = (u64)(sx(a->kz, w) >> k) & M; srange(a->smin >> k, a->smax >> k); } break;
  case ADD: { u64 lo, hi; lo = a->umin + b->umin; hi = a->umax + b->umax;
      if (w == 64 ? !(__builtin_add_overflow(a->umax, b->umax, &hi)) : hi <= M) urange(lo, hi);
      i64 sl, sh; if (!__builtin_add_overflow(a->smin, b->smin, &sl) && !__builtin_add_overflow(a->smax, b->smax, &sh) && sl >= e->smin && sh <= e->smax) srange(sl, sh);
      // low known bits
      int tz = 0; while (tz < w && ((a->kz | a->ko) >> tz & 1) && ((b->kz | b->ko) >> tz & 1)) tz++;
      if (tz) { u64 s = (a->ko + b->ko) & mask(tz); e->ko |= s; e->kz |= ~s & mask(tz); } break; }
  case SUB: { if (a->umin >= b->umax) urange(a->umin - b->umax, a->umax - b->umin);
      i64 sl, sh; if (!__builtin_sub_overflow(a->smin, b->smax, &sl) && !__builtin_sub_overflow(a->smax, b->smin, &sh) && sl >= e->smin && sh <= e->smax) srange(sl, sh);
      int tz = 0; while (tz < w && ((a->kz | a->ko) >> tz & 1) && ((b->kz | b->ko) >> tz & 1)) tz++;
      if (tz) { u64 s = (a->ko - b->ko) & mask(tz); e->ko |= s; e->kz |= ~s & mask(tz); } break; }
  case MUL: { u128 h = (u128)a->umax * b->umax; if (h <= M) urange(a->umin * b->umin, (u64)h);
      i128 p[4] = { (i128)a->smin * b->smin, (i128)a->smin * b->smax, (i128)a->smax * b->smin, (i128)a->smax * b->smax };
      i128 lo = *std::min_element(p, p + 4), hi = *std::max_element(p, p + 4); if (lo >= e->smin && hi <= e->smax) srange((i64)lo, (i64)hi);
      int ta = 0, tb = 0; while (ta < w && (a->kz >> ta & 1)) ta++; while (tb < w && (b->kz >> tb & 1)) tb++; int t = std::min(w, ta + tb); e->kz |= mask(t); break; }
  case UDIV: if (b->umin > 0) urange(a->umin / b->umax, a->umax / b->umin); break;
  case UREM: if (b->umin > 0) urange(0, std::min(a->umax, b->umax - 1)); break;
  case SDIV: if (b->op == CONST && sx(b->v, w) > 0) srange(a->smin / sx(b->v, w), a->smax / sx(b->v, w)); break;
  case SREM: if (b->op == CONST && sx(b->v, w) > 0) { i64 d = sx(b->v, w) - 1; srange(a->smin >= 0 ? 0 : -d, a->smax <= 0 ? 0 : d); } break;
  case CONCAT: e->ko = a->ko << b->w | b->ko; e->kz = a->kz << b->w | b->kz; urange(a->umin << b->w | b->umin, a->umax << b->w | b->umax); break;
  case EXTRACT: e->ko = (a->ko >> e->v) & M; e->kz = (a->kz >> e->v) & M;
      if (e->v == 0) { if (a->umax <= M) urange(a->umin, a->umax); if (a->smin >= e->smin && a->smax <= e->smax) srange(a->smin, a->smax); }
      else if (e->v + w == a->w) urange(a->umin >> e->v, a->umax >> e->v); break;
  case ZEXT: e->ko = a->ko; e->kz = a->kz | (M & ~mask(a->w)); urange(a->umin, a->umax); break;
  case SEXT: e->ko = (u64)sx(a->ko, a->w) & M; e->kz = (u64)sx(a->kz, a->w) & M; srange(a->smin, a->smax); break;
  case ITE: e->ko = b->ko & c->ko; e->kz = b->kz & c->kz; urange(std::min(b->umin, c->umin), std::max(b->umax, c->umax)); srange(std::min(b->smin, c->smin), std::max(b->smax, c->smax)); break;
  default: break;
  }
  // combine: ranges <-> bits
  for (int it = 0; it < 2; it++) {
    if (e->ko > e->umin) e->umin = e->ko;
    u64 mx = M & ~e->kz; if (mx < e->umax) e->umax = mx;
    if (e->umin <= e->umax) { u64 d = e->umin ^ e->umax; int k = d ? 64 - __builtin_clzll(d) : 0; u64 hm = M & ~mask(k); e->ko |= e->umin & hm; e->kz |= ~e->umin & hm; }
    u64 sb = 1ull << (w - 1);
    if ((e->umin & sb) == (e->umax & sb)) { i64 l = sx(e->umin, w), h = sx(e->umax, w); if (l > e->smin) e->smin = l; if (h < e->smax) e->smax = h; }
    if (e->smin >= 0 || e->smax < 0) { u64 l = (u64)e->smin & M, h = (u64)e->smax & M; if (l > e->umin) e->umin = l; if (h < e->umax) e->umax = h; }
  }
}
static E intern(Expr &t) {
  auto it = g_tab.find(&t); if (it != g_tab.end()) return *it;
  Expr *e = new Expr(t); e->id = g_exprs.size() + 1; e->mgen = 0; e->z = 0;
  if (e->op == VAR) { memset(&e->vs, 0, sizeof(VS)); if (e->v >= 256) { fprintf(stderr, "gsym: too many variables\n"); exit(3); } e->vs.w[e->v / 64] |= 1ull << (e->v % 64); }
  else for (int i = 0; i < 4; i++) e->vs.w[i] = (e->a ? e->a->vs.w[i] : 0) | (e->b ? e->b->vs.w[i] : 0) | (e->c ? e->c->vs.w[i] : 0);
  analyse(e); g_exprs.push_back(e); g_tab.insert(e); return e;
}
static E mk0(int op, int w, E a, E b = 0, E c = 0, u64 v = 0) { Expr t; memset(&t, 0, sizeof t); t.op = op; t.w = w; t.a = a; t.b = b; t.c = c; t.v = v; return intern(t); }
static E K(u64 v, int w) { return mk0(CONST, w, 0, 0, 0, v & mask(w)); }
static inline bool isK(E e) { return e->op == CONST; }
static inline bool isK(E e, u64 v) { return e->op == CONST && e->v == (v & mask(e->w)); }

static u64 popc(u64 v) { return __builtin_popcountll(v); }
static u64 foldop(int op, int w, u64 a, u64 b, u64 c, u64 v, int aw, int bw) {
  u64 M = mask(w);
  switch (op) {
  case ADD: return (a + b) & M; case SUB: return (a - b) & M; case MUL: return (a * b) & M;
  case UDIV: return b ? a / b : M; case UREM: return b ? a % b : a;
  case SDIV: { i64 x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : M; if (y == -1) return (u64)(-(u64)x) & M; return (u64)(x / y) & M; }
  case SREM: { i64 x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u64)(x % y) & M; }
  case AND: return a & b; case OR: return a | b; case XOR: return a ^ b;
  case SHL: return b >= (u64)w ? 0 : (a << b) & M; case LSHR: return b >= (u64)w ? 0 : a >> b; case ASHR: return (u64)(sx(a, w) >> (b >= (u64)w ? w - 1 : b)) & M;
  case CONCAT: return (a << bw | b) & M; case EXTRACT: return (a >> v) & M; case ZEXT: return a; case SEXT: return (u64)sx(a, aw) & M;
  case ITE: return a ? b : c;
  case EQ: return a == b; case ULT: return a < b; case ULE: return a <= b; case SLT: return sx(a, aw) < sx(b, aw); case SLE: return sx(a, aw) <= sx(b, aw);
  case SMULOV: { i128 p = (i128)sx(a, aw) * sx(b, aw); return p != (i128)sx((u64)p & mask(aw), aw); }
  case FADD: return dbits(asd(a) + asd(b)); case FSUB: return dbits(asd(a) - asd(b)); case FMUL: return dbits(asd(a) * asd(b)); case FDIV: return dbits(asd(a) / asd(b));
  case FSQRT: return dbits(sqrt(asd(a)));
  case FRND: { double d = asd(a); return dbits(v == 0 ? floor(d) : v == 1 ? ceil(d) : v == 2 ? trunc(d) : v == 3 ? rint(d) : round(d)); }
  case FLT: return asd(a) < asd(b); case FLE: return asd(a) <= asd(b); case FEQ: return asd(a) == asd(b);
  case SI2F: return dbits((double)sx(a, aw)); case UI2F: return dbits((double)a);
  case F2SI: { double d = asd(a); double lim = ldexp(1.0, w - 1); if (!(d > -lim - 1 && d < lim)) return 1ull << (w - 1); if (w == 64 && !(d >= -lim)) return 1ull << 63; return (u64)(i64)d & M; }
  }
  fprintf(stderr, "foldop %d\n", op); abort();
}
static long double f80val(E x, u64 v) { return x->op == F80I ? (long double)(i64)v : (long double)asd(v); }

static E mk(int op, int w, E a, E b = 0, E c = 0, u64 v = 0);
static E Not(E a) { if (a->w == 1 && a->op == XOR && isK(a->b, 1)) return a->a; return mk(XOR, a->w, a, K(~0ull, a->w)); }
static E Extract(E a, int lo, int w) { return mk(EXTRACT, w, a, 0, 0, lo); }
static E ZExt(E a, int w) { return w == a->w ? a : mk(ZEXT, w, a); }
static E SExt(E a, int w) { return w == a->w ? a : mk(SEXT, w, a); }
static E Eq(E a, E b) { return mk(EQ, 1, a, b); }
static E And1(E a, E b) { return mk(AND, 1, a, b); }
static E Or1(E a, E b) { return mk(OR, 1, a, b); }
static E Ite(E c, E a, E b) { return mk(ITE, a->w, c, a, b); }

static bool tree_const(E e, int d) { return e->op == CONST || (e->op == ITE && d > 0 && tree_const(e->b, d - 1) && tree_const(e->c, d - 1)); }

static E mk(int op, int w, E a, E b, E c, u64 v) {
  u64 M = mask(w);
  // constant folding
  if (op != F80I && op != F80D && op != F80LT && op != F80EQ && isK(a) && (!b || isK(b)) && (!c || isK(c)))
    return K(foldop(op, w, a->v, b ? b->v : 0, c ? c->v : 0, v, a->w, b ? b->w : 0), w);
  if (op == F80LT || op == F80EQ) { if (isK(a->a) && isK(b->a)) { long double x = f80val(a, a->a->v), y = f80val(b, b->a->v); return K(op == F80LT ? x < y : x == y, 1); } return mk0(op, 1, a, b); }
  switch (op) {
  case ADD: case MUL: case AND: case OR: case XOR: case EQ: case FADD: case FMUL: case FEQ: case SMULOV:
    if (isK(a) || (!isK(b) && a->id > b->id)) std::swap(a, b); break;
  }
  E r = 0;
  switch (op) {
  case ADD:
    if (isK(b, 0)) return a;
    if (w == 1) return mk(XOR, 1, a, b);
    if (isK(b)) { if (a->op == ADD && isK(a->b)) return mk(ADD, w, a->a, K(a->b->v + b->v, w));
      if (a->op == SUB && isK(a->a)) return mk(SUB, w, K(a->a->v + b->v, w), a->b);
      if ((b->v & ~a->kz) == 0) return mk(OR, w, a, b);
      if (a->op == OR && isK(a->b) && (a->a->kz & a->b->v) == a->b->v) return mk(ADD, w, a->a, K(a->b->v + b->v, w)); }
    if (a->op == ADD && isK(a->b)) return mk(ADD, w, mk(ADD, w, a->a, b), a->b);
    if (b->op == ADD && isK(b->b)) return mk(ADD, w, mk(ADD, w, a, b->a), b->b);
    if (a->op == SUB && a->b == b) return a->a; if (b->op == SUB && b->b == a) return b->a;
    break;
  case SUB:
    if (isK(b, 0)) return a; if (a == b) return K(0, w);
    if (w == 1) return mk(XOR, 1, a, b);
    if (isK(b)) return mk(ADD, w, a, K(-b->v, w));
    if (a->op == ADD) { if (a->a == b) return a->b; if (a->b == b) return a->a; if (isK(a->b)) return mk(ADD, w, mk(SUB, w, a->a, b), a->b); }
    if (b->op == ADD && isK(b->b)) return mk(ADD, w, mk(SUB, w, a, b->a), K(-b->b->v, w));
    break;
  case MUL:
    if (isK(b, 0)) return b; if (isK(b, 1)) return a; if (w == 1) return mk(AND, 1, a, b);
    if (isK(b) && popc(b->v) == 1) return mk(SHL, w, a, K(__builtin_ctzll(b->v), w));
    break;
  case UDIV: if (isK(b, 1)) return a; if (isK(b) && popc(b->v) == 1) return mk(LSHR, w, a, K(__builtin_ctzll(b->v), w)); break;
  case SDIV: if (isK(b, 1)) return a; if (isK(b) && a->smin >= 0 && sx(b->v, w) > 0) return mk(UDIV, w, a, b);
    if (isK(b) && w > 1 && sx(b->v, w) < 0 && b->v != 1ull << (w - 1)) return mk(SUB, w, K(0, w), mk(SDIV, w, a, K(-b->v, w)));
    if (isK(b) && w > 1 && sx(b->v, w) > 1 && popc(b->v) == 1) { int k = __builtin_ctzll(b->v); return mk(ASHR, w, mk(ADD, w, a, mk(LSHR, w, mk(ASHR, w, a, K(w - 1, w)), K(w - k, w))), K(k, w)); }
    break;
  case UREM: if (isK(b) && popc(b->v) == 1) return mk(AND, w, a, K(b->v - 1, w)); if (isK(b) && a->umax < b->v) return a; break;
  case SREM: if (isK(b, 1)) return K(0, w); if (isK(b) && w > 1 && sx(b->v, w) < 0 && b->v != 1ull << (w - 1)) return mk(SREM, w, a, K(-b->v, w));
    if (isK(b) && w > 1 && sx(b->v, w) > 1 && popc(b->v) == 1 && a->smin < 0) { int k = __builtin_ctzll(b->v); return mk(SUB, w, a, mk(SHL, w, mk(SDIV, w, a, b), K(k, w))); }
    if (isK(b) && a->smin >= 0 && sx(b->v, w) > 0) return mk(UREM, w, a, b); break;
  case AND:
    if (a == b) return a; if (isK(b, 0)) return b; if (isK(b, M)) return a;
    if (isK(b)) { u64 m = b->v;
      if ((~(a->kz) & M & ~m) == 0) return a;                      // mask keeps every possibly-set bit
      if (((a->kz | a->ko) & m) == m) return K(a->ko & m, w);
      if (a->op == AND && isK(a->b)) return mk(AND, w, a->a, K(a->b->v & m, w));
      if (a->op == OR && isK(a->b)) { if (!(a->b->v & m)) return mk(AND, w, a->a, b); }
      if (a->op == ITE && (isK(a->b) || isK(a->c))) return Ite(a->a, mk(AND, w, a->b, b), mk(AND, w, a->c, b));
      if (m == mask(popc(m))) { int k = popc(m); return ZExt(Extract(a, 0, k), w); } }
    if (w == 1) { if (a->op == XOR && isK(a->b, 1) && a->a == b) return K(0, 1); if (b->op == XOR && isK(b->b, 1) && b->a == a) return K(0, 1);
      if (a->op == AND && (a->a == b || a->b == b)) return a; if (b->op == AND && (b->a == a || b->b == a)) return b; }
    break;
  case OR:
    if (a == b) return a; if (isK(b, 0)) return a; if (isK(b, M)) return b;
    if (isK(b)) { if ((b->v & ~a->ko) == 0) return a; if (a->op == OR && isK(a->b)) return mk(OR, w, a->a, K(a->b->v | b->v, w)); }
    else { if (a->op == OR && isK(a->b)) return mk(OR, w, mk(OR, w, a->a, b), a->b); if (b->op == OR && isK(b->b)) return mk(OR, w, mk(OR, w, a, b->a), b->b);
      // zext(x) | (y << k) with disjoint halves: concat
      E lo = a, hi = b; if (lo->op == SHL) std::swap(lo, hi);
      if (hi->op == SHL && isK(hi->b) && w > 8) { int k = hi->b->v; if (k > 0 && lo->umax <= mask(k)) { E h = Extract(hi->a, 0, w - k); return mk(CONCAT, w, h, Extract(lo, 0, k)); } } }
    if (w == 1) { if (a->op == XOR && isK(a->b, 1) && a->a == b) return K(1, 1); if (b->op == XOR && isK(b->b, 1) && b->a == a) return K(1, 1);
      if (a->op == OR && (a->a == b || a->b == b)) return a; if (b->op == OR && (b->a == a || b->b == a)) return b; }
    break;
  case XOR:
    if (a == b) return K(0, w); if (isK(b, 0)) return a;
    if (isK(b) && a->op == XOR && isK(a->b)) return mk(XOR, w, a->a, K(a->b->v ^ b->v, w));
    if (w == 1 && isK(b, 1)) { // negate comparisons
      if (a->op == ULT) return mk(ULE, 1, a->b, a->a); if (a->op == ULE) return mk(ULT, 1, a->b, a->a);
      if (a->op == SLT) return mk(SLE, 1, a->b, a->a); if (a->op == SLE) return mk(SLT, 1, a->b, a->a);
      if (a->op == AND) return mk(OR, 1, Not(a->a), Not(a->b)); if (a->op == OR) return mk(AND, 1, Not(a->a), Not(a->b));
      if (a->op == EQ && a->a->w == 1 && isK(a->b)) return mk(XOR, 1, a->a, a->b); }
    break;
  case SHL:
    if (isK(b, 0)) return a; if (isK(b) && b->v >= (u64)w) return K(0, w);
    if (isK(b)) { if (a->op == SHL && isK(a->b)) return mk(SHL, w, a->a, K(a->b->v + b->v, w)); 
      if (a->op == OR && isK(a->b)) return mk(OR, w, mk(SHL, w, a->a, b), K(a->b->v << b->v, w));
      if (a->op == ADD && isK(a->b)) return mk(ADD, w, mk(SHL, w, a->a, b), K(a->b->v << b->v, w));
      if (a->op == ASHR && isK(a->b, b->v)) return mk(AND, w, a->a, K(~mask(b->v), w));
      if (a->op == LSHR && isK(a->b, b->v)) return mk(AND, w, a->a, K(~mask(b->v), w)); }
    break;
  case LSHR: case ASHR:
    if (isK(b, 0)) return a; if (op == LSHR && isK(b) && b->v >= (u64)w) return K(0, w); if (op == ASHR && isK(b) && b->v >= (u64)w) return mk(ASHR, w, a, K(w - 1, w));
    if (isK(b)) { int k = b->v;
      if (op == ASHR && a->smin >= 0) return mk(LSHR, w, a, b);
      if (a->op == OR && isK(a->b)) return mk(OR, w, mk(op, w, a->a, b), K(foldop(op, w, a->b->v, k, 0, 0, w, w), w));
      if (a->op == ADD && isK(a->b) && k < 16) { // (x<<k + c) >> k with no wrap
        E s = a->a; u64 cc = a->b->v; int tz = 0; while (tz < w && (s->kz >> tz & 1)) tz++;
        if (op == ASHR && tz >= k) { i128 lo = (i128)s->smin + sx(cc, w), hi = (i128)s->smax + sx(cc, w); if (lo >= sx(1ull << (w - 1), w) && hi <= (i64)(M >> 1)) return mk(ADD, w, mk(ASHR, w, s, b), K((u64)(sx(cc, w) >> k), w)); } }
      if (a->op == SHL && isK(a->b)) { int j = a->b->v;
        if (op == ASHR && a->a->smin >= (sx(1ull << (w - 1), w) >> j) && a->a->smax <= ((i64)(M >> 1) >> j)) return j == k ? a->a : j > k ? mk(SHL, w, a->a, K(j - k, w)) : mk(ASHR, w, a->a, K(k - j, w));
        if (op == LSHR && a->a->umax <= (M >> j)) return j == k ? a->a : j > k ? mk(SHL, w, a->a, K(j - k, w)) : mk(LSHR, w, a->a, K(k - j, w));
        if (j == k) return op == ASHR ? SExt(Extract(a->a, 0, w - k), w) : ZExt(Extract(a->a, 0, w - k), w); }
      if (a->op == ASHR && op == ASHR && isK(a->b)) return mk(ASHR, w, a->a, K(std::min<u64>(w - 1, a->b->v + k), w));
      if (a->op == LSHR && op == LSHR && isK(a->b)) return mk(LSHR, w, a->a, K(a->b->v + k, w));
      if (op == LSHR && a->op == CONCAT && k >= a->b->w) return ZExt(k == a->b->w ? a->a : mk(LSHR, a->a->w, a->a, K(k - a->b->w, a->a->w)), w);
      if (op == LSHR && (a->op == ZEXT) && k < a->a->w) return ZExt(mk(LSHR, a->a->w, a->a, K(k, a->a->w)), w);
      if (a->op == ITE && tree_const(a, 6)) return Ite(a->a, mk(op, w, a->b, b), mk(op, w, a->c, b)); }
    break;
  case CONCAT:
    if (isK(a, 0)) return ZExt(b, w);
    if (a->op == EXTRACT && b->op == EXTRACT && a->a == b->a && a->v == b->v + b->w) return Extract(a->a, b->v, w);
    if (b->op == CONCAT && a->op == EXTRACT && b->a->op == EXTRACT && a->a == b->a->a && a->v == b->a->v + b->a->w) return mk(CONCAT, w, Extract(a->a, b->a->v, a->w + b->a->w), b->b);
    if (a->op == CONCAT && a->b->op == EXTRACT && b->op == EXTRACT && a->b->a == b->a && a->b->v == b->v + b->w) return mk(CONCAT, w, a->a, Extract(b->a, b->v, b->w + a->b->w));
    break;
  case EXTRACT:
    if (v == 0 && w == a->w) return a;
    { u64 kn = (a->kz | a->ko) >> v & M; if (kn == M) return K(a->ko >> v, w); }
    switch (a->op) {
    case EXTRACT: return Extract(a->a, a->v + v, w);
    case CONCAT: if (v >= a->b->w) return Extract(a->a, v - a->b->w, w); if (v + w <= a->b->w) return Extract(a->b, v, w);
      return mk(CONCAT, w, Extract(a->a, 0, v + w - a->b->w), Extract(a->b, v, a->b->w - v));
    case ZEXT: if (v + w <= a->a->w) return Extract(a->a, v, w); if (v >= a->a->w) return K(0, w); return ZExt(Extract(a->a, v, a->a->w - v), w);
    case SEXT: if (v + w <= a->a->w) return Extract(a->a, v, w); if (v == 0) return SExt(a->a, w); if (v < a->a->w) return SExt(Extract(a->a, v, a->a->w - v), w); break;
    case AND: case OR: case XOR: if (isK(a->b) || a->w <= 8) return mk(a->op, w, Extract(a->a, v, w), Extract(a->b, v, w)); break;
    case SHL: if (isK(a->b)) { u64 k = a->b->v; if (v >= k) return Extract(a->a, v - k, w); if (v + w <= k) return K(0, w); if (v == 0) return mk(SHL, w, Extract(a->a, 0, w), K(k, w)); } break;
    case LSHR: if (isK(a->b)) { u64 k = a->b->v; if (v + k + w <= a->w) return Extract(a->a, v + k, w); } break;
    case ASHR: if (isK(a->b)) { u64 k = a->b->v; if (v + k + w <= a->w) return Extract(a->a, v + k, w); } break;
    case ADD: case SUB: case MUL: if (v == 0) return mk(a->op, w, Extract(a->a, 0, w), Extract(a->b, 0, w)); break;
    case ITE: if (tree_const(a, 8) || isK(a->b) || isK(a->c) || v == 0) return Ite(a->a, Extract(a->b, v, w), Extract(a->c, v, w)); break;
    }
    break;
  case ZEXT: if (a->op == ZEXT) return ZExt(a->a, w); if (isK(a)) return K(a->v, w);
    if (a->op == EXTRACT && a->v == 0 && a->a->w == w && a->a->umax <= mask(a->w)) return a->a;
    if (a->op == ITE && tree_const(a, 8)) return Ite(a->a, ZExt(a->b, w), ZExt(a->c, w));
    break;
  case SEXT: if (a->op == SEXT) return SExt(a->a, w); if (a->op == ZEXT) return ZExt(a->a, w); if (a->smin >= 0 && a->w > 1) return ZExt(a, w);
    if (a->op == EXTRACT && a->v == 0 && a->a->w == w && a->a->smin >= sx(1ull << (a->w - 1), a->w) && a->a->smax <= (i64)(mask(a->w) >> 1)) return a->a;
    if (a->op == ITE && tree_const(a, 8)) return Ite(a->a, SExt(a->b, w), SExt(a->c, w));
    break;
  case ITE:
    if (isK(a)) return a->v ? b : c; if (b == c) return b;
    if (a->op == XOR && isK(a->b, 1)) return Ite(a->a, c, b);
    if (w == 1) { if (isK(b, 1) && isK(c, 0)) return a; if (isK(b, 0) && isK(c, 1)) return Not(a); if (isK(b, 1)) return Or1(a, c); if (isK(c, 0)) return And1(a, b); if (isK(b, 0)) return And1(Not(a), c); if (isK(c, 1)) return Or1(Not(a), b); }
    if (c->op == ITE && c->b == b) return Ite(Or1(a, c->a), b, c->c);
    if (c->op == ITE && c->a == a) return Ite(a, b, c->c); if (b->op == ITE && b->a == a) return Ite(a, b->b, c);
    break;
  case EQ:
    if (a == b) return K(1, 1);
    if ((a->ko & b->kz) || (a->kz & b->ko) || a->umin > b->umax || b->umin > a->umax || a->smin > b->smax || b->smin > a->smax) return K(0, 1);
    if (a->w == 1 && isK(b)) return b->v ? a : Not(a);
    if (isK(b)) { u64 k = b->v; int aw = a->w;
      switch (a->op) {
      case OR: if (isK(a->b) && (a->a->kz & a->b->v) == a->b->v) return Eq(a->a, K(k & ~a->b->v, aw)); break;
      case ADD: if (isK(a->b)) return Eq(a->a, K(k - a->b->v, aw)); break;
      case SUB: if (isK(a->a)) return Eq(a->b, K(a->a->v - k, aw)); if (k == 0) return Eq(a->a, a->b); break;
      case XOR: if (isK(a->b)) return Eq(a->a, K(k ^ a->b->v, aw)); if (k == 0) return Eq(a->a, a->b); break;
      case SHL: if (isK(a->b)) { int s = a->b->v; if (k & mask(s)) return K(0, 1); return Eq(Extract(a->a, 0, aw - s), K(k >> s, aw - s)); } break;
      case ZEXT: return (k >> a->a->w) ? K(0, 1) : Eq(a->a, K(k, a->a->w));
      case SEXT: return (u64)(sx(k & mask(a->a->w), a->a->w)) == (u64)sx(k, aw) ? Eq(a->a, K(k, a->a->w)) : K(0, 1);
      case CONCAT: return And1(Eq(a->a, K(k >> a->b->w, a->a->w)), Eq(a->b, K(k, a->b->w)));
      case EXTRACT: if (a->v == 0 && (a->a->umax <= mask(aw))) return Eq(a->a, K(k, a->a->w)); break;
      case LSHR: if (isK(a->b)) { int s = a->b->v; return (k >> (aw - s)) ? K(0, 1) : Eq(Extract(a->a, s, aw - s), K(k, aw - s)); } break;
      case ITE: if (isK(a->b) || isK(a->c)) return Ite(a->a, Eq(a->b, b), Eq(a->c, b)); break;
      } }
    else {
      if (a->op == OR && b->op == OR && isK(a->b) && a->b == b->b && (a->a->kz & a->b->v) == a->b->v && (b->a->kz & b->b->v) == b->b->v) return Eq(a->a, b->a);
      if (a->op == ADD && b->op == ADD && a->b == b->b) return Eq(a->a, b->a);
      if (a->op == SHL && b->op == SHL && isK(a->b) && a->b == b->b) { int s = a->b->v; return Eq(Extract(a->a, 0, a->w - s), Extract(b->a, 0, a->w - s)); }
      if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return Eq(a->a, b->a); if (a->op == SEXT && b->op == SEXT && a->a->w == b->a->w) return Eq(a->a, b->a);
      if (a->op == EXTRACT && b->op == EXTRACT && a->v == 0 && b->v == 0 && a->a->w == b->a->w) { E x = a->a, y = b->a; i64 lo = sx(1ull << (a->w - 1), a->w), hi = mask(a->w) >> 1;
        if ((x->umax <= mask(a->w) && y->umax <= mask(a->w)) || (x->smin >= lo && x->smax <= hi && y->smin >= lo && y->smax <= hi)) return Eq(x, y); }
    }
    break;
  case ULT: if (a == b) return K(0, 1); if (a->umax < b->umin) return K(1, 1); if (a->umin >= b->umax) return K(0, 1);
    if (isK(b, 1)) return Eq(a, K(0, a->w));
    if (a->op == ZEXT && isK(b) && b->v <= mask(a->a->w)) return mk(ULT, 1, a->a, K(b->v, a->a->w)); if (b->op == ZEXT && isK(a) && a->v <= mask(b->a->w)) return mk(ULT, 1, K(a->v, b->a->w), b->a);
    if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return mk(ULT, 1, a->a, b->a); break;
  case ULE: if (a == b) return K(1, 1); if (a->umax <= b->umin) return K(1, 1); if (a->umin > b->umax) return K(0, 1);
    if (isK(b, 0)) return Eq(a, b);
    if (isK(b) && b->v < mask(b->w)) return mk(ULT, 1, a, K(b->v + 1, b->w));
    if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return mk(ULE, 1, a->a, b->a); break;
  case SLT: case SLE: { bool lt = op == SLT; if (a == b) return K(!lt, 1);
    if (lt ? a->smax < b->smin : a->smax <= b->smin) return K(1, 1); if (lt ? a->smin >= b->smax : a->smin > b->smax) return K(0, 1);
    if (a->smin >= 0 && b->smin >= 0) return mk(lt ? ULT : ULE, 1, a, b);
    if (!lt && isK(b) && sx(b->v, b->w) < (i64)(mask(b->w) >> 1)) return mk(SLT, 1, a, K(b->v + 1, b->w));
    // tagged integers: (x<<k | c) vs (y<<k | c)
    auto untag = [&](E x, E &in, int &k) { E s = x; if (s->op == OR && isK(s->b)) s = s->a; if (s->op == SHL && isK(s->b) && s->a->smin >= (sx(1ull << (x->w - 1), x->w) >> s->b->v) && s->a->smax <= ((i64)(mask(x->w) >> 1) >> s->b->v)) { in = s->a; k = s->b->v; return true; } return false; };
    E ia, ib; int ka, kb;
    if (untag(a, ia, ka)) { if (untag(b, ib, kb) && ka == kb && ((a->op == OR) == (b->op == OR)) && (a->op != OR || a->b == b->b)) return mk(op, 1, ia, ib);
      if (isK(b) && a->op != OR && !(b->v & mask(ka))) return mk(op, 1, ia, K((u64)(sx(b->v, b->w) >> ka), a->w));
      if (isK(b) && lt && a->op != OR) return mk(SLE, 1, ia, K((u64)((sx(b->v, b->w) - 1) >> ka), a->w));
      if (isK(b) && a->op == OR && a->b->v <= mask(ka)) { i64 bb = sx(b->v, b->w), cc = a->b->v; if (lt) bb--; /* x<<k + c <= bb */ if (bb >= sx(1ull << (b->w - 1), b->w) + cc) return mk(SLE, 1, ia, K((u64)((bb - cc) >> ka), a->w)); } }
    else if (isK(a) && untag(b, ib, kb)) { i64 aa = sx(a->v, a->w), cc = b->op == OR ? (i64)b->b->v : 0; if (cc <= (i64)mask(kb) && (b->op != OR || cc >= 0)) { if (lt) aa++; /* aa <= y<<k + c */ i128 t = (i128)aa - cc; i128 q = -((-t) >> kb); if (q >= sx(1ull << (a->w - 1), a->w) && q <= (i64)(mask(a->w) >> 1)) return mk(SLE, 1, K((u64)(i64)q, a->w), ib); } }
    if (a->op == SEXT && b->op == SEXT && a->a->w == b->a->w) return mk(op, 1, a->a, b->a);
    if (a->op == SEXT && isK(b) && sx(b->v & mask(a->a->w), a->a->w) == sx(b->v, b->w)) return mk(op, 1, a->a, K(b->v, a->a->w));
    if (b->op == SEXT && isK(a) && sx(a->v & mask(b->a->w), b->a->w) == sx(a->v, a->w)) return mk(op, 1, K(a->v, b->a->w), b->a);
    break; }
  case SMULOV: { i128 p[4] = { (i128)a->smin * b->smin, (i128)a->smin * b->smax, (i128)a->smax * b->smin, (i128)a->smax * b->smax };
    i128 lo = *std::min_element(p, p + 4), hi = *std::max_element(p, p + 4); if (lo >= sx(1ull << (a->w - 1), a->w) && hi <= (i64)(mask(a->w) >> 1)) return K(0, 1);
    if (isK(b)) { i64 k = sx(b->v, b->w); if (k != 0 && k != -1) { i64 mn = sx(1ull << (a->w - 1), a->w), mx = mask(a->w) >> 1; i64 lo2 = k > 0 ? mn / k : mx / k, hi2 = k > 0 ? mx / k : mn / k; return Or1(mk(SLT, 1, a, K(lo2, a->w)), mk(SLT, 1, K(hi2, a->w), a)); } }
    break; }
  }
  // arithmetic on operands of small range is done at a smaller width (division circuits are quadratic)
  if (w > 12 && (op == SDIV || op == SREM || op == UDIV || op == UREM || op == MUL)) {
    auto sb = [](i64 lo, i64 hi) { u64 m = std::max<u64>(lo < 0 ? ~(u64)lo : lo, hi < 0 ? ~(u64)hi : hi); return m ? 65 - __builtin_clzll(m) : 1; };  // bits of a signed range
    if (op == SDIV || op == SREM) { int n = std::max(sb(a->smin, a->smax), sb(b->smin, b->smax)) + 1; if (n < 8) n = 8; if (n <= w - 4 && (b->smin > 0 || b->smax < 0)) return SExt(mk(op, n, Extract(a, 0, n), Extract(b, 0, n)), w); }
    else if (op == UDIV || op == UREM) { u64 m = std::max(a->umax, b->umax); int n = m ? 64 - __builtin_clzll(m) : 1; if (n < 8) n = 8; if (n <= w - 4 && b->umin > 0) return ZExt(mk(op, n, Extract(a, 0, n), Extract(b, 0, n)), w); }
    else { i128 p[4] = { (i128)a->smin * b->smin, (i128)a->smin * b->smax, (i128)a->smax * b->smin, (i128)a->smax * b->smax }; i128 lo = *std::min_element(p, p + 4), hi = *std::max_element(p, p + 4);
      if (lo >= sx(1ull << (w - 1), w) && hi <= (i64)(M >> 1)) { int n = std::max(sb((i64)lo, (i64)hi), std::max(sb(a->smin, a->smax), sb(b->smin, b->smax))); if (n < 8) n = 8; if (n <= w - 4) return SExt(mk(MUL, n, Extract(a, 0, n), Extract(b, 0, n)), w); } }
  }
  r = mk0(op, w, a, b, c, v);
  if (r->umin == r->umax) return K(r->umin, w);
  return r;
}
static E mkvar(const std::string &name, bool sgn, i64 lo, i64 hi) {
  static std::unordered_map<std::string, int> idx;
  std::string key = name + "|" + std::to_string(lo) + "|" + std::to_string(hi);
  auto it = idx.find(key); int id;
  if (it == idx.end()) {
    id = g_vars.size(); idx[key] = id; int w;
    if (sgn) { w = 1; while (w < 64 && !(lo >= sx(1ull << (w - 1), w) && hi <= (i64)(mask(w) >> 1))) w++; if (w < 2) w = 2; }
    else { w = 1; while (w < 64 && (u64)hi > mask(w)) w++; if (w < 2) w = 2; }
    g_vars.push_back({ name, w, (u64)lo, (u64)hi, sgn, 0 });
    g_vars[id].e = mk0(VAR, w, 0, 0, 0, id);
  } else id = it->second;
  E e = g_vars[id].e; return sgn ? SExt(e, 64) : ZExt(e, 64);
}
// evaluation under a model (values of variables, by index)
typedef std::vector<u64> Model;
static u64 g_gen = 0;
static const Model *g_model;
static u64 defval(int i) { return g_vars[i].lo & mask(g_vars[i].w); }
static u64 ev(E e) {
  if (e->op == CONST) return e->v;
  if (e->mgen == g_gen) return e->mval;
  u64 r;
  if (e->op == VAR) r = e->v < g_model->size() ? (*g_model)[e->v] : defval(e->v);
  else if (e->op == ITE) r = ev(e->a) ? ev(e->b) : ev(e->c);
  else if (e->op == F80LT || e->op == F80EQ) { long double x = f80val(e->a, ev(e->a->a)), y = f80val(e->b, ev(e->b->a)); r = e->op == F80LT ? x < y : x == y; }
  else r = foldop(e->op, e->w, ev(e->a), e->b ? ev(e->b) : 0, e->c ? ev(e->c) : 0, e->v, e->a->w, e->b ? e->b->w : 0);
  e->mval = r; e->mgen = g_gen; return r;
}
static u64 eval_in(E e, const Model &m) { static const Model *last; static u64 lastgen; (void)lastgen; if (e->op == CONST) return e->v; g_gen++; g_model = &m; (void)last; return ev(e); }

static std::string show(E e, int d = 6) {
  static const char *n[] = { "const", "var", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "concat", "extract", "zext", "sext", "ite", "eq", "ult", "ule", "slt", "sle", "smulov", "fadd", "fsub", "fmul", "fdiv", "fsqrt", "frnd", "flt", "fle", "feq", "si2f", "ui2f", "f2si", "f80i", "f80d", "f80lt", "f80eq" };
  char buf[64];
  if (e->op == CONST) { snprintf(buf, 64, "%lld:%d", (long long)sx(e->v, e->w), e->w); return buf; }
  if (e->op == VAR) return g_vars[e->v].name;
  if (!d) return "...";
  std::string s = std::string("(") + n[e->op]; if (e->op == EXTRACT) { snprintf(buf, 64, "[%d+%d]", (int)e->v, e->w); s += buf; }
  for (E x : { e->a, e->b, e->c }) if (x) s += " " + show(x, d - 1);
  return s + ")";
}
// ---------------------------------------------------------------- Z3
static Z3_context zc; static Z3_solver zs_quick, zs_full;
static Z3_sort zbv(int w) { static Z3_sort s[65]; if (!s[w]) { s[w] = Z3_mk_bv_sort(zc, w); Z3_inc_ref(zc, (Z3_ast)s[w]); } return s[w]; }
static void zerr(Z3_context c, Z3_error_code e) { fprintf(stderr, "gsym: z3 error: %s\n", Z3_get_error_msg(c, e)); exit(3); }
static u64 g_zmem;
static void zinit() { Z3_config cfg = Z3_mk_config(); zc = Z3_mk_context(cfg); /* not _rc: every AST stays alive */  Z3_set_error_handler(zc, zerr); }
static Z3_ast zx(E e);
static Z3_ast zf(E e) { Z3_ast s = zx(e); return Z3_mk_fpa_to_fp_bv(zc, s, Z3_mk_fpa_sort_double(zc)); }
static Z3_ast zf80(E e) { Z3_sort s = Z3_mk_fpa_sort(zc, 15, 64); Z3_ast rm = Z3_mk_fpa_rne(zc);
  if (e->op == F80I) return Z3_mk_fpa_to_fp_signed(zc, rm, zx(e->a), s); return Z3_mk_fpa_to_fp_float(zc, rm, zf(e->a), s); }
static Z3_ast b2v(Z3_ast b) { Z3_ast one = Z3_mk_unsigned_int64(zc, 1, zbv(1)), zero = Z3_mk_unsigned_int64(zc, 0, zbv(1)); return Z3_mk_ite(zc, b, one, zero); }
static Z3_ast zbvx(E e) { Z3_ast r = zx(e); return e->w == 1 ? b2v(r) : r; }     // always a bit-vector
// low n bits of e, for the translation of comparisons whose operands have a small range
static E narrow(E e, int n) {
  if (e->w == n) return e;
  static std::unordered_map<u64, E> memo; u64 key = (u64)e->id << 7 | n; auto it = memo.find(key); if (it != memo.end()) return it->second;
  E r; switch (e->op) {
  case ADD: case SUB: case MUL: case AND: case OR: case XOR: r = mk(e->op, n, narrow(e->a, n), narrow(e->b, n)); break;
  case ITE: r = Ite(e->a, narrow(e->b, n), narrow(e->c, n)); break;
  case SHL: if (isK(e->b)) { r = e->b->v >= (u64)n ? K(0, n) : mk(SHL, n, narrow(e->a, n), K(e->b->v, n)); break; }
  default: r = Extract(e, 0, n); }
  return memo[key] = r;
}
static E narrowcmp(E e) {   // an equivalent comparison on fewer bits, or e
  E a = e->a, b = e->b; int n = 65; if (a->w <= 5) return e;
  auto sb = [](i64 lo, i64 hi) { u64 m = std::max<u64>(lo < 0 ? ~(u64)lo : lo, hi < 0 ? ~(u64)hi : hi); return m ? 65 - __builtin_clzll(m) : 1; };
  if (e->op != ULT && e->op != ULE) n = std::min(n, std::max(sb(a->smin, a->smax), sb(b->smin, b->smax)));
  if (e->op != SLT && e->op != SLE) { u64 m = std::max(a->umax, b->umax); n = std::min(n, m ? 64 - __builtin_clzll(m) : 1); }
  n = std::max(n, 2); if (n > a->w - 2) return e;
  return mk(e->op, 1, narrow(a, n), narrow(b, n));
}
static Z3_ast zx0(E e) {   // width 1 is Bool
  if ((e->op >= EQ && e->op <= SLE) && e->a->w > 1) { E f = narrowcmp(e); if (f != e) return zx(f); }
  E a = e->a, b = e->b, c = e->c; int w = e->w;
  switch (e->op) {
  case CONST: return w == 1 ? (e->v ? Z3_mk_true(zc) : Z3_mk_false(zc)) : Z3_mk_unsigned_int64(zc, e->v, zbv(w));
  case VAR: return Z3_mk_const(zc, Z3_mk_int_symbol(zc, e->v), zbv(w));
  case ADD: return Z3_mk_bvadd(zc, zx(a), zx(b)); case SUB: return Z3_mk_bvsub(zc, zx(a), zx(b)); case MUL: return Z3_mk_bvmul(zc, zx(a), zx(b));
  case UDIV: return Z3_mk_bvudiv(zc, zx(a), zx(b)); case SDIV: return Z3_mk_bvsdiv(zc, zx(a), zx(b)); case UREM: return Z3_mk_bvurem(zc, zx(a), zx(b)); case SREM: return Z3_mk_bvsrem(zc, zx(a), zx(b));
  case AND: if (w == 1) { Z3_ast x[2] = { zx(a), zx(b) }; return Z3_mk_and(zc, 2, x); } return Z3_mk_bvand(zc, zx(a), zx(b));
  case OR: if (w == 1) { Z3_ast x[2] = { zx(a), zx(b) }; return Z3_mk_or(zc, 2, x); } return Z3_mk_bvor(zc, zx(a), zx(b));
  case XOR: if (w == 1) return isK(b, 1) ? Z3_mk_not(zc, zx(a)) : Z3_mk_xor(zc, zx(a), zx(b)); return Z3_mk_bvxor(zc, zx(a), zx(b));
  case SHL: return Z3_mk_bvshl(zc, zx(a), zx(b)); case LSHR: return Z3_mk_bvlshr(zc, zx(a), zx(b)); case ASHR: return Z3_mk_bvashr(zc, zx(a), zx(b));
  case CONCAT: return Z3_mk_concat(zc, zbvx(a), zbvx(b));
  case EXTRACT: { Z3_ast r = Z3_mk_extract(zc, e->v + w - 1, e->v, zx(a)); return w == 1 ? Z3_mk_eq(zc, r, Z3_mk_unsigned_int64(zc, 1, zbv(1))) : r; }
  case ZEXT: return a->w == 1 ? Z3_mk_ite(zc, zx(a), Z3_mk_unsigned_int64(zc, 1, zbv(w)), Z3_mk_unsigned_int64(zc, 0, zbv(w))) : Z3_mk_zero_ext(zc, w - a->w, zx(a));
  case SEXT: return a->w == 1 ? Z3_mk_ite(zc, zx(a), Z3_mk_unsigned_int64(zc, mask(w), zbv(w)), Z3_mk_unsigned_int64(zc, 0, zbv(w))) : Z3_mk_sign_ext(zc, w - a->w, zx(a));
  case ITE: return Z3_mk_ite(zc, zx(a), zx(b), zx(c));
  case EQ: return a->w == 1 ? Z3_mk_iff(zc, zx(a), zx(b)) : Z3_mk_eq(zc, zx(a), zx(b));
  case ULT: return Z3_mk_bvult(zc, zbvx(a), zbvx(b)); case ULE: return Z3_mk_bvule(zc, zbvx(a), zbvx(b)); case SLT: return Z3_mk_bvslt(zc, zbvx(a), zbvx(b)); case SLE: return Z3_mk_bvsle(zc, zbvx(a), zbvx(b));
  case SMULOV: { // not z3's bvsmul_noovfl/noudfl, which 4.8.12 gets wrong for x * -1
      int n = a->w; Z3_ast x = zx(a), y = zx(b); auto bit = [](Z3_ast v, int k) { return Z3_mk_eq(zc, Z3_mk_extract(zc, k, k, v), Z3_mk_unsigned_int64(zc, 1, zbv(1))); };
      auto mag = [&](Z3_ast v) { return Z3_mk_ite(zc, bit(v, n - 1), Z3_mk_bvnot(zc, v), v); }; Z3_ast mx = mag(x), my = mag(y);
      std::vector<Z3_ast> ge(n + 1), big; ge[n] = Z3_mk_false(zc); for (int j = n - 1; j >= 0; j--) { Z3_ast o[2] = { bit(my, j), ge[j + 1] }; ge[j] = Z3_mk_or(zc, 2, o); }
      for (int j = 1; j < n; j++) { Z3_ast o[2] = { bit(mx, j), ge[n - j] }; big.push_back(Z3_mk_and(zc, 2, o)); }       // 2^j * 2^(n-j) and more: overflow
      Z3_ast p = Z3_mk_bvmul(zc, Z3_mk_sign_ext(zc, 3, x), Z3_mk_sign_ext(zc, 3, y));                                    // otherwise exact on n + 3 bits
      big.push_back(Z3_mk_not(zc, Z3_mk_eq(zc, p, Z3_mk_sign_ext(zc, 3, Z3_mk_extract(zc, n - 1, 0, p))))); return Z3_mk_or(zc, big.size(), big.data()); }
  case FADD: return Z3_mk_fpa_to_ieee_bv(zc, Z3_mk_fpa_add(zc, Z3_mk_fpa_rne(zc), zf(a), zf(b))); case FSUB: return Z3_mk_fpa_to_ieee_bv(zc, Z3_mk_fpa_sub(zc, Z3_mk_fpa_rne(zc), zf(a), zf(b)));
  case FMUL: return Z3_mk_fpa_to_ieee_bv(zc, Z3_mk_fpa_mul(zc, Z3_mk_fpa_rne(zc), zf(a), zf(b))); case FDIV: return Z3_mk_fpa_to_ieee_bv(zc, Z3_mk_fpa_div(zc, Z3_mk_fpa_rne(zc), zf(a), zf(b)));
  case FSQRT: return Z3_mk_fpa_to_ieee_bv(zc, Z3_mk_fpa_sqrt(zc, Z3_mk_fpa_rne(zc), zf(a)));
  case FRND: { Z3_ast rm = e->v == 0 ? Z3_mk_fpa_rtn(zc) : e->v == 1 ? Z3_mk_fpa_rtp(zc) : e->v == 2 ? Z3_mk_fpa_rtz(zc) : e->v == 3 ? Z3_mk_fpa_rne(zc) : Z3_mk_fpa_rna(zc); return Z3_mk_fpa_to_ieee_bv(zc, Z3_mk_fpa_round_to_integral(zc, rm, zf(a))); }
  case FLT: return Z3_mk_fpa_lt(zc, zf(a), zf(b)); case FLE: return Z3_mk_fpa_leq(zc, zf(a), zf(b)); case FEQ: return Z3_mk_fpa_eq(zc, zf(a), zf(b));
  case SI2F: return Z3_mk_fpa_to_ieee_bv(zc, Z3_mk_fpa_to_fp_signed(zc, Z3_mk_fpa_rne(zc), zbvx(a), Z3_mk_fpa_sort_double(zc)));
  case UI2F: return Z3_mk_fpa_to_ieee_bv(zc, Z3_mk_fpa_to_fp_unsigned(zc, Z3_mk_fpa_rne(zc), zbvx(a), Z3_mk_fpa_sort_double(zc)));
  case F2SI: { Z3_ast f = zf(a); double lim = ldexp(1.0, w - 1); Z3_ast lo = Z3_mk_fpa_numeral_double(zc, w == 64 ? -lim : -lim - 1, Z3_mk_fpa_sort_double(zc)), hi = Z3_mk_fpa_numeral_double(zc, lim, Z3_mk_fpa_sort_double(zc));
      Z3_ast in[2] = { w == 64 ? Z3_mk_fpa_leq(zc, lo, f) : Z3_mk_fpa_lt(zc, lo, f), Z3_mk_fpa_lt(zc, f, hi) }; return Z3_mk_ite(zc, Z3_mk_and(zc, 2, in), Z3_mk_fpa_to_sbv(zc, Z3_mk_fpa_rtz(zc), f, w), Z3_mk_unsigned_int64(zc, 1ull << (w - 1), zbv(w))); }
  case F80LT: return Z3_mk_fpa_lt(zc, zf80(a), zf80(b)); case F80EQ: return Z3_mk_fpa_eq(zc, zf80(a), zf80(b));
  }
  fprintf(stderr, "gsym: no z3 translation of op %d\n", e->op); exit(3);
}
static Z3_ast zx(E e) { if (e->z) return e->z; Z3_ast r = zx0(e); Z3_inc_ref(zc, r); e->z = r; return r; }
static void zvarrange(E v, std::vector<Z3_ast> &out) { VarInfo &vi = g_vars[v->v]; int w = vi.w; Z3_ast x = zx(v);
  if (vi.sgn) { if ((i64)vi.lo > sx(1ull << (w - 1), w)) out.push_back(Z3_mk_bvsle(zc, Z3_mk_unsigned_int64(zc, vi.lo & mask(w), zbv(w)), x)); if ((i64)vi.hi < (i64)(mask(w) >> 1)) out.push_back(Z3_mk_bvsle(zc, x, Z3_mk_unsigned_int64(zc, vi.hi & mask(w), zbv(w)))); }
  else { if (vi.lo > 0) out.push_back(Z3_mk_bvule(zc, Z3_mk_unsigned_int64(zc, vi.lo, zbv(w)), x)); if (vi.hi < mask(w)) out.push_back(Z3_mk_bvule(zc, x, Z3_mk_unsigned_int64(zc, vi.hi, zbv(w)))); } }
