/* oracles for atoms: built and read outside the built-in predicates under test */
#include <string.h>
#include "gprolog.h"
#include "gs.h"
PlBool k01_atom(PlTerm l, PlTerm *a)
{ char b[40]; int n = 0; PlTerm *c; while (Pl_Type_Of_Term(l) == PL_LST && n < 39) { c = Pl_Rd_List(l); b[n++] = (char) Pl_Rd_Integer(c[0]); l = c[1]; } b[n] = 0; *a = Pl_Mk_Atom(Pl_Create_Allocate_Atom(b)); return PL_TRUE; }
/* N times the character C */
PlBool k01_rep(PlLong n, PlLong c, PlTerm *a)
{ static char b[300000]; memset(b, c, n); b[n] = 0; *a = Pl_Mk_Atom(Pl_Create_Allocate_Atom(b)); return PL_TRUE; }
PlBool k01_strlen(PlTerm a, PlLong *n) { *n = strlen(Pl_Atom_Name(Pl_Rd_Atom(a))); return PL_TRUE; }
PlBool k01_char(PlLong c, PlTerm *a) { char b[2]; b[0] = (char) c; b[1] = 0; *a = Pl_Mk_Atom(Pl_Create_Allocate_Atom(b)); return PL_TRUE; }
/* is A the atom named by the list of codes */
PlBool k01_is(PlTerm a, PlTerm l)
{ const unsigned char *s; PlTerm *c; if (Pl_Type_Of_Term(a) != PL_ATM) return PL_FALSE; s = (const unsigned char *) Pl_Atom_Name(Pl_Rd_Atom(a)); while (Pl_Type_Of_Term(l) == PL_LST) { c = Pl_Rd_List(l); if (*s == 0 || *s != Pl_Rd_Integer(c[0])) return PL_FALSE; s++; l = c[1]; } return *s == 0; }
