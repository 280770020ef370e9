/* an independent unification (union-find over copied nodes, with and without occurs check) */
#include <string.h>
#include "gprolog.h"
#include "gs.h"
#define NN 400
enum { K_VAR, K_INT, K_ATM, K_FLT, K_CMP };
static struct { int k, f, n, a[4], up; long v; } N[NN];
static int nn; static PlTerm vt[64]; static int vn[64], nv;
static int enc(PlTerm t)
{
  int f, n, i, me; PlTerm *x;
  switch (Pl_Type_Of_Term(t))
    {
    case PL_INT: N[nn].k = K_INT; N[nn].v = Pl_Rd_Integer(t); N[nn].up = nn; return nn++;
    case PL_ATM: N[nn].k = K_ATM; N[nn].v = Pl_Rd_Atom(t); N[nn].up = nn; return nn++;
    case PL_FLT: { double d = Pl_Rd_Float(t) + 0.0; N[nn].k = K_FLT; memcpy(&N[nn].v, &d, 8); N[nn].up = nn; return nn++; }
    case PL_LST: case PL_STC: x = Pl_Rd_Compound(t, &f, &n); me = nn++; N[me].k = K_CMP; N[me].f = f; N[me].n = n; N[me].up = me; for (i = 0; i < n; i++) N[me].a[i] = enc(x[i]); return me;
    default: for (i = 0; i < nv; i++) if (Pl_Builtin_Term_Eq(vt[i], t)) return vn[i];
      vt[nv] = t; vn[nv] = nn; nv++; N[nn].k = K_VAR; N[nn].up = nn; return nn++;
    }
}
static int rep(int i) { while (N[i].up != i) i = N[i].up; return i; }
static int uni(int a, int b)
{
  int i; a = rep(a); b = rep(b);
  if (a == b) return 1;
  if (N[a].k == K_VAR) { N[a].up = b; return 1; }
  if (N[b].k == K_VAR) { N[b].up = a; return 1; }
  if (N[a].k != N[b].k) return 0;
  if (N[a].k != K_CMP) { if (N[a].v != N[b].v) return 0; N[a].up = b; return 1; }
  if (N[a].f != N[b].f || N[a].n != N[b].n) return 0;
  N[a].up = b;
  for (i = 0; i < N[a].n; i++) if (!uni(N[a].a[i], N[b].a[i])) return 0;
  return 1;
}
static char col[NN];
static int acyclic(int a) { int i; a = rep(a); if (N[a].k != K_CMP || col[a] == 2) return 1; if (col[a] == 1) return 0; col[a] = 1; for (i = 0; i < N[a].n; i++) if (!acyclic(N[a].a[i])) return 0; col[a] = 2; return 1; }
static int root_t, nv0; static int isu, isac;
/* t01_enc(V, X, Y, R): V the tuple of all variables; R = 1 unifiable, 0 not, 2 only by a cyclic substitution */
PlBool t01_enc(PlTerm v, PlTerm x, PlTerm y, PlLong *r)
{
  int a, b, i; nn = nv = 0; root_t = enc(v); a = enc(x); b = enc(y); nv0 = nv;
  isu = uni(a, b); memset(col, 0, sizeof col); isac = isu; for (i = 0; i < nn && isac; i++) isac = acyclic(i);
  *r = !isu ? 0 : isac ? 1 : 2; return PL_TRUE;
}
/* is the term t the node n, up to a renaming of variables? */
static int mv[64]; static PlTerm mt[64]; static int nm;
static int same(int n, PlTerm t)
{
  int f, k, i; PlTerm *x; n = rep(n);
  switch (Pl_Type_Of_Term(t))
    {
    case PL_INT: return N[n].k == K_INT && N[n].v == Pl_Rd_Integer(t);
    case PL_ATM: return N[n].k == K_ATM && N[n].v == Pl_Rd_Atom(t);
    case PL_FLT: { double d = Pl_Rd_Float(t) + 0.0; long v; memcpy(&v, &d, 8); return N[n].k == K_FLT && N[n].v == v; }
    case PL_LST: case PL_STC: x = Pl_Rd_Compound(t, &f, &k); if (N[n].k != K_CMP || N[n].f != f || N[n].n != k) return 0; for (i = 0; i < k; i++) if (!same(N[n].a[i], x[i])) return 0; return 1;
    default: if (N[n].k != K_VAR) return 0;
      for (i = 0; i < nm; i++) { int e = Pl_Builtin_Term_Eq(mt[i], t) != 0; if (e != (mv[i] == n)) return 0; if (e) return 1; }
      mv[nm] = n; mt[nm] = t; nm++; return 1;
    }
}
PlBool t01_same(PlTerm v) { nm = 0; return same(root_t, v); }
/* after t01_enc: are all the variables of V still distinct variables? */
PlBool t01_inj(PlTerm v)
{
  int i, j; if (Pl_Type_Of_Term(v) == PL_ATM) return PL_TRUE;
  for (i = 0; i < N[root_t].n; i++) { int a = rep(N[root_t].a[i]); if (N[a].k != K_VAR) return PL_FALSE; for (j = 0; j < i; j++) if (rep(N[root_t].a[j]) == a) return PL_FALSE; }
  return PL_TRUE;
}
