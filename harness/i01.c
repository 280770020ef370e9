/* files written and read outside the streams under test */
#include <stdio.h>
#include <string.h>
#include "gprolog.h"
#include "gs.h"
static char *nm[4] = { "gs_i01.dat", "gs_i01.out", "gs_i01.mir", "gs_i01.ap" };
PlBool i01_mk(PlLong k, PlTerm l)   /* the K-th file contains the bytes of the list */
{ FILE *f = fopen(nm[k], "wb"); PlTerm *c; if (!f) return PL_FALSE; while (Pl_Type_Of_Term(l) == PL_LST) { c = Pl_Rd_List(l); fputc((int) Pl_Rd_Integer(c[0]), f); l = c[1]; } fclose(f); return PL_TRUE; }
PlBool i01_rd(PlLong k, PlTerm *l)  /* the bytes of the K-th file */
{ PlTerm t[300]; int n = 0, c; FILE *f = fopen(nm[k], "rb"); if (!f) return PL_FALSE; while (n < 300 && (c = fgetc(f)) != EOF) t[n++] = Pl_Mk_Integer(c & 255); fclose(f); *l = Pl_Mk_Proper_List(n, t); return PL_TRUE; }
PlBool i01_char(PlLong c, PlTerm *a)
{ static char *e = "end_of_file"; if (c == -1) *a = Pl_Mk_Atom(Pl_Create_Atom(e)); else *a = Pl_Mk_Char((int) c); return PL_TRUE; }
