// self-test of the expression layer: simplifier, known bits/ranges and Z3 translation against direct evaluation
#include "expr.h"
#include <random>
struct N { int op, w, a, b, c; u64 v; };
int main(int argc, char **argv) {
  zinit(); unsigned seed = argc > 1 ? atoi(argv[1]) : 1; int rounds = argc > 2 ? atoi(argv[2]) : 20000; std::mt19937_64 rg(seed); long bad = 0, z3n = 0;
  std::vector<E> vars = { mkvar("a", true, -(1LL << 60), (1LL << 60) - 1), mkvar("b", true, -(1LL << 60), (1LL << 60) - 1), mkvar("c", false, 0, 255), mkvar("d", false, 97, 122), mkvar("e", true, -10, 10), mkvar("f", true, (i64)(1ull << 63), (i64)~(1ull << 63)) };
  int nv = vars.size(); int ws[] = { 1, 8, 16, 32, 64 };
  for (int r = 0; r < rounds; r++) {
    std::vector<N> n; std::vector<E> e;
    for (int i = 0; i < nv; i++) { n.push_back({ VAR, 64, i, 0, 0, 0 }); e.push_back(vars[i]); }
    auto pick = [&](int w) { std::vector<int> c; for (size_t i = 0; i < n.size(); i++) if (n[i].w == w) c.push_back(i); if (c.empty() || rg() % 6 == 0) { u64 k = rg() % 4 == 0 ? rg() : rg() % 3 == 0 ? (1ull << (rg() % 64)) - (rg() % 2) : (u64)(i64)((int)(rg() % 20) - 8); n.push_back({ CONST, w, 0, 0, 0, k & mask(w) }); e.push_back(K(k, w)); return (int)n.size() - 1; } return c[rg() % 3 ? c.size() - 1 - rg() % std::min<size_t>(c.size(), 4) : rg() % c.size()]; };
    int len = 3 + rg() % 14;
    for (int i = 0; i < len; i++) {
      static int ops[] = { ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR, CONCAT, EXTRACT, ZEXT, SEXT, ITE, EQ, ULT, ULE, SLT, SLE, SMULOV, SHL, LSHR, ASHR, OR, AND, ADD };
      int op = ops[rg() % (sizeof ops / sizeof *ops)]; int w = ws[rg() % 9 < 5 ? 4 : rg() % 5]; if (w == 1 && ((op >= UDIV && op <= SREM) || (op >= SHL && op <= ASHR))) w = 32; N x = { op, w, -1, -1, -1, 0 };
      switch (op) {
      case CONCAT: { int lo = ws[rg() % 4]; if (w < 16) w = 16; if (lo >= w) lo = 8; x.b = pick(lo); int hw = w - lo; bool okw = false; for (int q : ws) okw |= q == hw; if (!okw) continue; x.a = pick(hw); x.w = w; break; }
      case EXTRACT: { int sw = ws[1 + rg() % 4]; x.a = pick(sw); int nw = ws[rg() % 5]; if (nw > sw) nw = sw; x.w = nw; x.v = rg() % (sw - nw + 1); break; }
      case ZEXT: case SEXT: { int sw = ws[rg() % 4]; x.a = pick(sw); x.w = ws[1 + rg() % 4]; if (x.w <= sw) x.w = 64; break; }
      case ITE: x.a = pick(1); x.b = pick(w); x.c = pick(w); break;
      case EQ: case ULT: case ULE: case SLT: case SLE: x.w = 1; x.a = pick(w); x.b = pick(w); break;
      case SMULOV: x.w = 1; if (w == 1) w = 8; x.a = pick(w); x.b = pick(w); break;
      case SHL: case LSHR: case ASHR: x.a = pick(w); if (rg() % 3) { n.push_back({ CONST, w, 0, 0, 0, (rg() % w) & mask(w) }); e.push_back(K(n.back().v, w)); x.b = n.size() - 1; } else x.b = pick(w); break;
      default: x.a = pick(w); x.b = pick(w); }
      n.push_back(x); e.push_back(mk(op, x.w, e[x.a], x.b >= 0 ? e[x.b] : 0, x.c >= 0 ? e[x.c] : 0, x.v));
    }
    Model m(nv); std::vector<u64> val(n.size());
    for (int t = 0; t < 6; t++) {
      for (int i = 0; i < nv; i++) { VarInfo &vi = g_vars[i]; u64 lo = vi.lo, hi = vi.hi; u64 span = hi - lo + 1; u64 k = span ? rg() % span : rg(); if (rg() % 3 == 0) k = rg() % 2 ? 0 : span - 1; m[i] = (lo + k) & mask(vi.w); }
      for (size_t i = 0; i < n.size(); i++) { N &x = n[i]; if (x.op == VAR) val[i] = eval_in(vars[x.a], m); else if (x.op == CONST) val[i] = x.v; else val[i] = foldop(x.op, x.w, val[x.a], x.b >= 0 ? val[x.b] : 0, x.c >= 0 ? val[x.c] : 0, x.v, n[x.a].w, x.b >= 0 ? n[x.b].w : 0);
        u64 g = eval_in(e[i], m); E q = e[i];
        bool okb = (g & q->kz) == 0 && (~g & q->ko & mask(q->w)) == 0 && g >= q->umin && g <= q->umax && sx(g, q->w) >= q->smin && sx(g, q->w) <= q->smax;
        if (g != val[i] || !okb || q->w != x.w) { printf("BAD op %d w %d got %llx want %llx ok %d: %s\n", x.op, x.w, g, val[i], okb, show(q, 8).c_str()); if (++bad > 10) return 1; } }
    }
    if (r % 20 == 0) { // Z3 agrees with evaluation
      E q = e.back(); if (!isK(q)) { Z3_solver s = Z3_mk_simple_solver(zc); Z3_solver_inc_ref(zc, s); for (int i = 0; i < nv; i++) Z3_solver_assert(zc, s, Z3_mk_eq(zc, zx(g_vars[i].e), Z3_mk_unsigned_int64(zc, m[i], zbv(g_vars[i].w)))); Z3_solver_assert(zc, s, Z3_mk_not(zc, zx(Eq(q, K(eval_in(q, m), q->w))))); Z3_lbool zr = Z3_solver_check(zc, s); if (zr != Z3_L_FALSE) { printf("Z3 DISAGREES (%d): %s\n", zr, show(q, 8).c_str()); for (int i = 0; i < nv; i++) printf(" %lld", (long long)eval_in(vars[i], m)); printf(" -> %llu\n", eval_in(q, m)); if (++bad > 10) return 1; } z3n++; Z3_solver_dec_ref(zc, s); } }
  }
  printf("exprtest: %d rounds, %ld z3 comparisons, %ld bad, %zu exprs\n", rounds, z3n, bad, g_exprs.size()); return bad != 0;
}
