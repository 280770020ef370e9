/* oracles for term construction and inspection */
#include "gprolog.h"
#include "gs.h"
static int kind(PlTerm t) { switch (Pl_Type_Of_Term(t)) { case PL_INT: return 2; case PL_FLT: return 1; case PL_ATM: return 3; case PL_LST: case PL_STC: return 4; default: return 0; } }
static PlTerm vs[300]; static int nv;
static void vars(PlTerm t) { int f, n, i; PlTerm *x; switch (kind(t)) { case 0: for (i = 0; i < nv; i++) if (Pl_Builtin_Term_Eq(vs[i], t)) return; vs[nv++] = t; return; case 4: x = Pl_Rd_Compound(t, &f, &n); for (i = 0; i < n; i++) vars(x[i]); } }
/* L = the variables of T in order, then Tail */
PlBool t02_vars(PlTerm t, PlTerm l, PlTerm tail)
{
  int i; PlTerm *x; nv = 0; vars(t);
  for (i = 0; i < nv; i++) { if (Pl_Type_Of_Term(l) != PL_LST) return PL_FALSE; x = Pl_Rd_List(l); if (!Pl_Builtin_Term_Eq(x[0], vs[i])) return PL_FALSE; l = x[1]; }
  return Pl_Builtin_Term_Eq(l, tail);
}
PlBool t02_nvars(PlTerm t, PlLong *n) { nv = 0; vars(t); *n = nv; return PL_TRUE; }
/* C a renaming of T with variables not in T */
static PlTerm p[300], q[300]; static int np;
static int var1(PlTerm t, PlTerm c)
{
  int f, n, g, m, i; PlTerm *x, *y; if (kind(t) != kind(c)) return 0;
  switch (kind(t))
    {
    case 0: for (i = 0; i < np; i++) if ((Pl_Builtin_Term_Eq(p[i], t) != 0) != (Pl_Builtin_Term_Eq(q[i], c) != 0)) return 0; p[np] = t; q[np++] = c; return 1;
    case 1: return Pl_Rd_Float(t) == Pl_Rd_Float(c);
    case 2: return Pl_Rd_Integer(t) == Pl_Rd_Integer(c);
    case 3: return Pl_Rd_Atom(t) == Pl_Rd_Atom(c);
    default: x = Pl_Rd_Compound(t, &f, &n); y = Pl_Rd_Compound(c, &g, &m); if (f != g || n != m) return 0; for (i = 0; i < n; i++) if (!var1(x[i], y[i])) return 0; return 1;
    }
}
PlBool t02_variant(PlTerm t, PlTerm c) { np = 0; return var1(t, c); }
PlBool t02_renamed(PlTerm t, PlTerm c)
{ int i, j; np = 0; if (!var1(t, c)) return PL_FALSE; for (i = 0; i < np; i++) for (j = 0; j < np; j++) if (Pl_Builtin_Term_Eq(p[i], q[j])) return PL_FALSE; return PL_TRUE; }
/* name, arity and argument I of T */
PlBool t02_name(PlTerm t, PlTerm *f, PlLong *n) { int g, m; if (kind(t) == 4) { Pl_Rd_Compound(t, &g, &m); *f = Pl_Mk_Atom(g); *n = m; } else { *f = t; *n = 0; } return PL_TRUE; }
PlBool t02_arg(PlLong i, PlTerm t, PlTerm *a) { int g, m; PlTerm *x = Pl_Rd_Compound(t, &g, &m); *a = x[i - 1]; return PL_TRUE; }
PlBool t02_kind(PlTerm t, PlLong *k) { *k = kind(t); return PL_TRUE; }
/* does the list of PlTerm hold exactly F followed by the arguments of T */
PlBool t02_univ(PlTerm t, PlTerm l)
{
  int f, n, i; PlTerm *x, *c; if (Pl_Type_Of_Term(l) != PL_LST) return PL_FALSE; c = Pl_Rd_List(l);
  if (kind(t) != 4) { if (!Pl_Builtin_Term_Eq(c[0], t)) return PL_FALSE; n = 0; } else { x = Pl_Rd_Compound(t, &f, &n); if (kind(c[0]) != 3 || Pl_Rd_Atom(c[0]) != f) return PL_FALSE; }
  l = c[1];
  for (i = 0; i < n; i++) { if (Pl_Type_Of_Term(l) != PL_LST) return PL_FALSE; c = Pl_Rd_List(l); if (!Pl_Builtin_Term_Eq(c[0], x[i])) return PL_FALSE; l = c[1]; }
  return kind(l) == 3 && Pl_Rd_Atom(l) == Pl_Atom_Nil();
}
/* a list skeleton: 0 proper list, 1 partial list, 2 neither */
PlBool t02_list(PlTerm l, PlLong *r)
{ for (;;) { int k = Pl_Type_Of_Term(l); if (k == PL_LST) { l = Pl_Rd_List(l)[1]; continue; } *r = kind(l) == 0 ? 1 : k == PL_ATM && Pl_Rd_Atom(l) == Pl_Atom_Nil() ? 0 : 2; return PL_TRUE; } }
