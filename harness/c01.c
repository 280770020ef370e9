/* an independent evaluator of control constructs (success continuations), and an event log */
#include <string.h>
#include "gprolog.h"
#include "gs.h"
enum { G_TRUE, G_FAIL, G_CUT, G_EQ, G_ID, G_EV, G_M, G_THROW, G_NV, G_CONJ, G_DISJ, G_ITE, G_IT, G_SOFT, G_NOT, G_CALL, G_ONCE, G_CATCH, G_FORALL, G_FINDALL, G_P, G_REP, G_CALLN };
/* an argument: -1 X, -2 Y, >= 0 a constant */
static struct { int op, a, b, c; } A[200]; static int na; static PlTerm VX, VY;
static int arg(PlTerm t) { if (Pl_Builtin_Term_Eq(t, VX)) return -1; if (Pl_Builtin_Term_Eq(t, VY)) return -2; return (int) Pl_Rd_Integer(t); }
static int is(const char *s, int f, const char *n, int a, int b) { return a == b && strcmp(s, n) == 0; }
static int build(PlTerm t)
{
  int f, n, me = na++; PlTerm *x = 0; const char *s; int ty = Pl_Type_Of_Term(t);
  if (ty == PL_ATM) { f = Pl_Rd_Atom(t); n = 0; } else x = Pl_Rd_Compound(t, &f, &n);
  s = Pl_Atom_Name(f);
#define O(k) A[me].op = k
#define S(i) build(x[i])
  if (is(s, f, "true", n, 0)) O(G_TRUE); else if (is(s, f, "fail", n, 0)) O(G_FAIL); else if (is(s, f, "!", n, 0)) O(G_CUT);
  else if (is(s, f, "=", n, 2)) { O(G_EQ); A[me].a = arg(x[0]); A[me].b = arg(x[1]); }
  else if (is(s, f, "==", n, 2)) { O(G_ID); A[me].a = arg(x[0]); A[me].b = arg(x[1]); }
  else if (is(s, f, "e", n, 1)) { O(G_EV); A[me].a = arg(x[0]); }
  else if (is(s, f, "m", n, 1)) { O(G_M); A[me].a = arg(x[0]); }
  else if (is(s, f, "p", n, 1)) { O(G_P); A[me].a = arg(x[0]); }
  else if (is(s, f, "nonvar", n, 1)) { O(G_NV); A[me].a = arg(x[0]); }
  else if (is(s, f, "throw", n, 1)) { O(G_THROW); A[me].a = arg(x[0]); }
  else if (is(s, f, ",", n, 2)) { O(G_CONJ); A[me].a = S(0); A[me].b = S(1); }
  else if (is(s, f, ";", n, 2))
    {
      int g, m; PlTerm *y = 0; const char *q = ""; if (Pl_Type_Of_Term(x[0]) == PL_STC) { y = Pl_Rd_Compound(x[0], &g, &m); q = Pl_Atom_Name(g); if (m != 2) q = ""; }
      if (!strcmp(q, "->")) { O(G_ITE); A[me].a = build(y[0]); A[me].b = build(y[1]); A[me].c = S(1); }
      else if (!strcmp(q, "*->")) { O(G_SOFT); A[me].a = build(y[0]); A[me].b = build(y[1]); A[me].c = S(1); }
      else { O(G_DISJ); A[me].a = S(0); A[me].b = S(1); }
    }
  else if (is(s, f, "->", n, 2)) { O(G_IT); A[me].a = S(0); A[me].b = S(1); }
  else if (is(s, f, "*->", n, 2)) { O(G_CONJ); A[me].a = na; A[na].op = G_CALL; { int k = na++; int r = build(x[0]); A[k].a = r; } A[me].b = S(1); }
  else if (is(s, f, "\\+", n, 1)) { O(G_NOT); A[me].a = S(0); }
  else if (is(s, f, "call", n, 1)) { O(G_CALL); A[me].a = S(0); }
  else if (is(s, f, "once", n, 1)) { O(G_ONCE); A[me].a = S(0); }
  else if (is(s, f, "catch", n, 3)) { O(G_CATCH); A[me].a = S(0); A[me].b = arg(x[1]); A[me].c = S(2); }
  else if (is(s, f, "forall", n, 2)) { O(G_FORALL); A[me].a = S(0); A[me].b = S(1); }
  else if (is(s, f, "ev2", n, 2)) { O(G_CONJ); A[me].a = na; A[na].op = G_EV; A[na++].a = arg(x[0]); A[me].b = na; A[na].op = G_EV; A[na++].a = arg(x[1]); }
  else gsym_incomplete("unknown goal");
  return me;
}
#define LOG 400
static int olog[LOG], on, rlog[LOG], rn;
static void ev(int k) { if (on < LOG) olog[on++] = k; }
typedef struct { int x, y; } St;      /* 0 unbound, 1.. constants; 9 an error term; y == -1: Y is X (alias) */
typedef struct K { int (*f)(struct K *, St); struct K *up; int g, lev, *flag; St *save; } K;
static int ball, lev0;
#define THROW 1000000
static int val(int a, St s) { return a == -1 ? s.x : a == -2 ? (s.y == -1 ? s.x : s.y) : a; }
static int bind(int a, int v, St *s) { if (a == -1 || (a == -2 && s->y == -1)) s->x = v; else s->y = v; return 1; }
static int unify(int a, int b, St *s)
{
  int u = val(a, *s), v = val(b, *s);
  if (a == b || (s->y == -1 && a < 0 && b < 0)) return 1;
  if (u == 0 && v == 0) { if (a == b || s->y == -1) return 1; s->y = -1; return 1; }
  if (u == 0) return bind(a, v, s);
  if (v == 0) return bind(b, u, s);
  return u == v && u != 9;
}
static int solve(int g, St s, int lev, K *k);
static int k_conj(K *k, St s) { return solve(k->g, s, k->lev, k->up); }
static int k_stop(K *k, St s) { *k->flag = 1; *k->save = s; return -1; }
static int k_flag(K *k, St s) { *k->flag = 1; return solve(k->g, s, k->lev, k->up); }
static int k_out(K *k, St s) { int r = k->up->f(k->up, s); if (r == THROW) *k->flag = 1; return r; }
static int kk(K *k, St s) { return k->f(k, s); }
static int once(int g, St s, St *o, int *r0)    /* first solution of g (opaque to cut); r0 = THROW when it throws */
{ int fl = 0, l = ++lev0; K k = { k_stop, 0, 0, 0, &fl, o }; int r = solve(g, s, l, &k); *r0 = r == THROW ? THROW : 0; return fl; }
static int k_all(K *k, St s) { St o; int r; if (!once(k->g, s, &o, &r)) { if (r == THROW) return THROW; *k->flag = 1; return -1; } return 0; }
/* returns 0 (exhausted), -1 (stop requested by a continuation), THROW, or the level of a cut */
static int solve(int g, St s, int lev, K *k)
{
  int r, fl = 0, l; St o; K n;
  switch (A[g].op)
    {
    case G_TRUE: return kk(k, s);
    case G_FAIL: return 0;
    case G_CUT: r = kk(k, s); return r ? r : lev;
    case G_EQ: return unify(A[g].a, A[g].b, &s) ? kk(k, s) : 0;
    case G_ID: { int u = val(A[g].a, s), v = val(A[g].b, s); if (u == 0 && v == 0) return A[g].a == A[g].b || s.y == -1 ? kk(k, s) : 0; return u == v ? kk(k, s) : 0; }
    case G_EV: ev(val(A[g].a, s)); return kk(k, s);
    case G_NV: return val(A[g].a, s) ? kk(k, s) : 0;
    case G_M: for (l = 1; l <= 3; l++) { o = s; if (val(A[g].a, s) == 0) bind(A[g].a, l, &o); else if (val(A[g].a, s) != l) continue; if ((r = kk(k, o))) return r; } return 0;
    case G_P: /* p(1). p(X) :- e(7), !, X = 2. p(3). */
      o = s; if (unify(A[g].a, 1, &o) && (r = kk(k, o))) return r; ev(7); o = s; return unify(A[g].a, 2, &o) ? kk(k, o) : 0;
    case G_THROW: ball = val(A[g].a, s); if (ball == 0) ball = 9; return THROW;
    case G_CONJ: n = (K) { k_conj, k, A[g].b, lev }; return solve(A[g].a, s, lev, &n);
    case G_DISJ: if ((r = solve(A[g].a, s, lev, k))) return r; return solve(A[g].b, s, lev, k);
    case G_IT: case G_ITE: if (once(A[g].a, s, &o, &r)) return solve(A[g].b, o, lev, k); if (r) return r; return A[g].op == G_ITE ? solve(A[g].c, s, lev, k) : 0;
    case G_SOFT: l = ++lev0; n = (K) { k_flag, k, A[g].b, lev, &fl }; r = solve(A[g].a, s, l, &n); if (r == l) r = 0; if (r) return r; return fl ? 0 : solve(A[g].c, s, lev, k);
    case G_NOT: if (once(A[g].a, s, &o, &r)) return 0; return r ? r : kk(k, s);
    case G_CALL: l = ++lev0; r = solve(A[g].a, s, l, k); return r == l ? 0 : r;
    case G_ONCE: if (once(A[g].a, s, &o, &r)) return kk(k, o); return r;
    case G_FORALL: l = ++lev0; n = (K) { k_all, 0, A[g].b, 0, &fl }; r = solve(A[g].a, s, l, &n); if (r == THROW) return r; return fl ? 0 : kk(k, s);
    case G_CATCH: l = ++lev0; n = (K) { k_out, k, 0, 0, &fl }; r = solve(A[g].a, s, l, &n); if (r == l) r = 0;
      if (r != THROW || fl) return r;
      o = s; { int v = val(A[g].b, o); if (v == 0) bind(A[g].b, ball, &o); else if (v != ball || ball == 9) return THROW; } l = ++lev0; r = solve(A[g].c, o, l, k); return r == l ? 0 : r;
    }
  return 0;
}
static int k_sol(K *k, St s) { ev(100 + 10 * val(-1, s) + val(-2, s) + (s.y == -1 && s.x == 0 ? 1000 : 0)); return 0; }
/* c01_oracle(Goal, X, Y, X0, Y0): evaluates Goal from X = X0, Y = Y0 (0: unbound), keeps the log */
PlBool c01_oracle(PlTerm g, PlTerm x, PlTerm y, PlLong x0, PlLong y0)
{
  int r, a; K k = { k_sol }; na = 0; on = 0; lev0 = 1; VX = x; VY = y; a = build(g); r = solve(a, (St) { (int) x0, (int) y0 }, 1, &k);
  if (r == THROW) ev(200 + ball);
  gsym_out("len", on); for (a = 0; a < on; a++) gsym_out("ev", olog[a]);
  return PL_TRUE;
}
PlBool c01_start(void) { rn = 0; return PL_TRUE; }
static int c01_val(PlTerm t) { switch (Pl_Type_Of_Term(t)) { case PL_PLV: return 0; case PL_INT: return (int) Pl_Rd_Integer(t); default: return 9; } }
PlBool c01_ev(PlTerm t) { if (rn < LOG) rlog[rn++] = c01_val(t); return PL_TRUE; }
PlBool c01_sol(PlTerm x, PlTerm y) { int u = c01_val(x), v = c01_val(y); if (rn < LOG) rlog[rn++] = 100 + 10 * u + v + (u == 0 && v == 0 && Pl_Builtin_Term_Eq(x, y) ? 1000 : 0); return PL_TRUE; }
PlBool c01_exc(PlTerm b) { if (rn < LOG) rlog[rn++] = 200 + c01_val(b); return PL_TRUE; }
PlBool c01_cmp(void) { int i; if (on != rn) goto bad; for (i = 0; i < on; i++) if (olog[i] != rlog[i]) goto bad; return PL_TRUE; bad: gsym_out("rlen", rn); for (i = 0; i < rn; i++) gsym_out("rev", rlog[i]); return PL_FALSE; }
