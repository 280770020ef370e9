/* harness library: symbolic inputs, outputs and assertions for harnesses written in Prolog */
#include <string.h>
#include "gprolog.h"
#include "gs.h"
PlBool gs_int(PlLong n, PlLong lo, PlLong hi, PlLong *x) { *x = gsym_int(Pl_Atom_Name(n), lo, hi); return PL_TRUE; }
PlBool gs_choice(PlLong n, PlLong *x) { *x = gsym_concretize(gsym_int("choice", 0, n - 1)); return PL_TRUE; }
PlBool gs_conc(PlLong n, PlLong *x) { *x = gsym_concretize(n); return PL_TRUE; }
PlBool gs_assume(PlLong c) { gsym_assume(c != 0); return PL_TRUE; }
PlBool gs_fail(PlLong a) { gsym_fail(Pl_Atom_Name(a)); return PL_FALSE; }
PlBool gs_assert(PlLong c, PlLong a) { gsym_assert(c != 0, Pl_Atom_Name(a)); return PL_TRUE; }
PlBool gs_reach(PlLong k) { gsym_reach(k); return PL_TRUE; }
PlBool gs_begin0(void) { gsym_begin(); return PL_TRUE; }
PlBool gs_end(void) { gsym_end(); return PL_TRUE; }
PlBool gs_native(void) { return gsym_native() != 0; }
/* a term as a sequence of outputs; variables are numbered in order of first visit */
static PlTerm vars[4096]; static int nv;
static long outh(const char *s) { unsigned long h = 5381; while (*s) h = h * 33 + (unsigned char)*s++; return (long)(h >> 4); }
static void out(PlTerm t, int d)
{
  PlLong tag; int i, a, f; PlTerm *arg;
  if (d > 200) { gsym_out("deep", 0); return; }
  switch (Pl_Type_Of_Term(t))
    {
    case PL_INT: gsym_out("i", Pl_Rd_Integer(t)); break;
    case PL_ATM: gsym_out("a", outh(Pl_Atom_Name(Pl_Rd_Atom(t)))); break;
    case PL_FLT: { double x = Pl_Rd_Float(t); PlLong b; memcpy(&b, &x, 8); gsym_out("f", b); break; }
    case PL_LST: arg = Pl_Rd_List(t); gsym_out("l", 2); out(arg[0], d + 1); out(arg[1], d + 1); break;
    case PL_STC: arg = Pl_Rd_Compound(t, &f, &a); gsym_out("s", outh(Pl_Atom_Name(f))); gsym_out("n", a); for (i = 0; i < a; i++) out(arg[i], d + 1); break;
    default: for (i = 0; i < nv; i++) if (Pl_Builtin_Term_Eq(vars[i], t)) break; if (i == nv && nv < 4096) vars[nv++] = t; gsym_out("v", i);
    }
}
void Pl_Writeln(PlTerm);
PlBool gs_out(PlTerm t) { if (gsym_native() == 2) Pl_Writeln(t); nv = 0; out(t, 0); return PL_TRUE; }
/* a double from a small symbolic integer: k < 16 picks a boundary value, otherwise (k - 40) / 4 */
PlBool gs_flt(PlLong k, double *x)
{
  static const double t[16] = { 0.0, -0.0, 1.0, -1.0, 0.5, 1e300, -1e300, 5e-324, 9007199254740992.0, 9007199254740994.0, -9007199254740992.0, 1152921504606846976.0, -1152921504606846976.0, 1e19, 0.1, 1e-7 };
  k = gsym_concretize(k); *x = k < 16 ? t[k] : (k - 40) / 4.0; return PL_TRUE;
}
/* the standard order of terms, independently of the implementation; variables: order unknown, 9 when it decides */
static int sgn(long x) { return x < 0 ? -1 : x > 0; }
static int rank(PlTerm t) { switch (Pl_Type_Of_Term(t)) { case PL_INT: return 2; case PL_FLT: return 1; case PL_ATM: return 3; case PL_LST: case PL_STC: return 4; default: return 0; } }
static int ccmp(const char *a, const char *b) { for (;; a++, b++) { if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1; if (!*a) return 0; } }
static int cmp(PlTerm a, PlTerm b)
{
  int ra = rank(a), rb = rank(b), fa, fb, na, nb, i, r; PlTerm *x, *y;
  if (ra != rb) return ra < rb ? -1 : 1;
  switch (ra)
    {
    case 0: return Pl_Builtin_Term_Eq(a, b) ? 0 : 9;
    case 1: { double p = Pl_Rd_Float(a), q = Pl_Rd_Float(b); return p < q ? -1 : p > q; }
    case 2: { PlLong p = Pl_Rd_Integer(a), q = Pl_Rd_Integer(b); return p < q ? -1 : p > q; }
    case 3: return ccmp(Pl_Atom_Name(Pl_Rd_Atom(a)), Pl_Atom_Name(Pl_Rd_Atom(b)));
    }
  x = Pl_Rd_Compound(a, &fa, &na); y = Pl_Rd_Compound(b, &fb, &nb);
  if (na != nb) return na < nb ? -1 : 1;
  if ((r = ccmp(Pl_Atom_Name(fa), Pl_Atom_Name(fb)))) return r;
  for (i = 0; i < na; i++) if ((r = cmp(x[i], y[i]))) return r;
  return 0;
}
PlBool gs_cmp(PlTerm a, PlTerm b, PlLong *r) { *r = cmp(a, b); return PL_TRUE; }
/* structural identity (same variables, same constants: floats bit by bit) */
static int ident(PlTerm a, PlTerm b)
{
  int ra = rank(a), rb = rank(b), fa, fb, na, nb, i; PlTerm *x, *y;
  if (ra != rb) return 0;
  switch (ra)
    {
    case 0: return Pl_Builtin_Term_Eq(a, b);
    case 1: { double p = Pl_Rd_Float(a), q = Pl_Rd_Float(b); long u, v; memcpy(&u, &p, 8); memcpy(&v, &q, 8); return u == v; }
    case 2: return Pl_Rd_Integer(a) == Pl_Rd_Integer(b);
    case 3: return Pl_Rd_Atom(a) == Pl_Rd_Atom(b);
    }
  x = Pl_Rd_Compound(a, &fa, &na); y = Pl_Rd_Compound(b, &fb, &nb);
  if (na != nb || fa != fb) return 0;
  for (i = 0; i < na; i++) if (!ident(x[i], y[i])) return 0;
  return 1;
}
PlBool gs_ident(PlTerm a, PlTerm b, PlLong *r) { *r = ident(a, b); return PL_TRUE; }
/* snapshots: gs_snap(Slot, T) records T; gs_same(Slot, T, R): R = 1 when T is still the very same term (same variables, all distinct ones still distinct) */
static struct snap { int n; struct { int k; PlLong v; PlTerm t; } e[600]; } sn[4]; static int snr;
static void snap1(struct snap *s, PlTerm t)
{
  int f, n, i, k = s->n++; PlTerm *x; if (k >= 600) { gsym_incomplete("snapshot too large"); return; }
  s->e[k].k = rank(t); s->e[k].t = t; s->e[k].v = 0;
  switch (s->e[k].k)
    {
    case 0: s->e[k].v = k; for (i = 0; i < k; i++) if (s->e[i].k == 0 && Pl_Builtin_Term_Eq(s->e[i].t, t)) { s->e[k].v = i; break; } break;
    case 1: { double d = Pl_Rd_Float(t); memcpy(&s->e[k].v, &d, 8); break; }
    case 2: s->e[k].v = Pl_Rd_Integer(t); break;
    case 3: s->e[k].v = Pl_Rd_Atom(t); break;
    default: x = Pl_Rd_Compound(t, &f, &n); s->e[k].v = ((PlLong) f << 16) + n; for (i = 0; i < n; i++) snap1(s, x[i]);
    }
}
PlBool gs_snap(PlLong slot, PlTerm t) { sn[slot].n = 0; snap1(&sn[slot], t); return PL_TRUE; }
static int snsame(struct snap *s, PlTerm t)
{
  int f, n, i, k = snr++; PlTerm *x; if (k >= s->n || s->e[k].k != rank(t)) return 0;
  switch (s->e[k].k)
    {
    case 0: if (!Pl_Builtin_Term_Eq(s->e[k].t, t)) return 0; for (i = 0; i < k; i++) if (s->e[i].k == 0 && (s->e[i].v == s->e[k].v) != (Pl_Builtin_Term_Eq(s->e[i].t, t) != 0)) return 0; return 1;
    case 1: { double d = Pl_Rd_Float(t); PlLong v; memcpy(&v, &d, 8); return v == s->e[k].v; }
    case 2: return s->e[k].v == Pl_Rd_Integer(t);
    case 3: return s->e[k].v == Pl_Rd_Atom(t);
    default: x = Pl_Rd_Compound(t, &f, &n); if (s->e[k].v != ((PlLong) f << 16) + n) return 0; for (i = 0; i < n; i++) if (!snsame(s, x[i])) return 0; return 1;
    }
}
PlBool gs_same(PlLong slot, PlTerm t, PlLong *r) { snr = 0; *r = snsame(&sn[slot], t) && snr == sn[slot].n; return PL_TRUE; }
