/* logs of terms: two sequences compared word by word */
#include <string.h>
#include "gprolog.h"
#include "gs.h"
#define N 6000
static PlLong lg[2][N]; static int n[2], cur; static PlTerm vs[200]; static int nv;
static void put(PlLong x) { if (n[cur] >= N) { gsym_incomplete("log too large"); return; } lg[cur][n[cur]++] = x; }
static void ser(PlTerm t)
{
  int f, k, i; PlTerm *x;
  switch (Pl_Type_Of_Term(t))
    {
    case PL_INT: put(1); put(Pl_Rd_Integer(t)); break;
    case PL_ATM: put(2); put(Pl_Rd_Atom(t)); break;
    case PL_FLT: { double d = Pl_Rd_Float(t); PlLong v; memcpy(&v, &d, 8); put(3); put(v); break; }
    case PL_LST: case PL_STC: x = Pl_Rd_Compound(t, &f, &k); put(4); put(f); put(k); for (i = 0; i < k; i++) ser(x[i]); break;
    default: for (i = 0; i < nv; i++) if (Pl_Builtin_Term_Eq(vs[i], t)) break; if (i == nv) vs[nv++] = t; put(5); put(i);
    }
}
PlBool c02_start(PlLong i) { cur = (int) i; n[cur] = 0; return PL_TRUE; }
PlBool c02_log(PlTerm t) { nv = 0; put(7); ser(t); return PL_TRUE; }
PlBool c02_same(void) { int i; gsym_out("n", n[1]); if (n[0] != n[1]) return PL_FALSE; for (i = 0; i < n[0]; i++) if (lg[0][i] != lg[1][i]) return PL_FALSE; return PL_TRUE; }
