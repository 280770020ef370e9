/* the documented syntax of numbers, on a list of character codes (which may be symbolic) */
#include <string.h>
#include <stdlib.h>
#include "gprolog.h"
#include "gs.h"
static long s[64]; static int n, p; static long val; static double fval; static int isf;
static int dig(long c) { return c >= '0' && c <= '9'; }
static int quoted(void)   /* after 0' : one character; 1 ok */
{
  long c = s[p], x; int k;
  if (c == -1 || c == 10 || c == 9) return 0;
  if (c == 39) { if (s[p + 1] != 39) return 0; p += 2; val = 39; return 1; }
  if (c != 92) { p++; val = c; return 1; }
  c = s[p + 1];
  if (c == 92 || c == 39 || c == 34 || c == 96) { p += 2; val = c; return 1; }
  switch (c) { case 'a': val = 7; break; case 'b': val = 8; break; case 'f': val = 12; break; case 'n': val = 10; break; case 'r': val = 13; break; case 't': val = 9; break; case 'v': val = 11; break; default: val = -1; }
  if (val >= 0) { p += 2; return 1; }
  x = 0; k = 0;
  if (c == 'x') { p += 2; for (;; p++) { c = s[p]; if (dig(c)) c -= '0'; else if (c >= 'a' && c <= 'f') c -= 'a' - 10; else if (c >= 'A' && c <= 'F') c -= 'A' - 10; else break; x = x * 16 + c; k++; if (x > 100000) x = 100000; } if (k == 0) return 0; }
  else { if (!(c >= '0' && c <= '7')) return 0; p++; for (;; p++) { c = s[p]; if (!(c >= '0' && c <= '7')) break; x = x * 8 + c - '0'; if (x > 100000) x = 100000; } }
  if (s[p] != 92 || x < 1 || x > 255) return 0;
  p++; val = x; return 1;
}
static int radix(int b)
{
  int k = 0; long c; val = 0; p += 2;
  for (;; p++) { c = s[p]; if (dig(c)) c -= '0'; else if (b == 16 && c >= 'a' && c <= 'f') c -= 'a' - 10; else if (b == 16 && c >= 'A' && c <= 'F') c -= 'A' - 10; else break; if (c >= b) break; if (val > (1L << 58)) val = 1L << 61; else val = val * b + c; k++; }
  return k > 0;
}
static int number(void)
{
  int q;
  if (!dig(s[p])) return 0;
  if (s[p] == '0' && s[p + 1] == 39) { p += 2; return quoted(); }
  if (s[p] == '0' && (s[p + 1] == 'b' || s[p + 1] == 'o' || s[p + 1] == 'x')) { return radix(s[p + 1] == 'b' ? 2 : s[p + 1] == 'o' ? 8 : 16); }
  val = 0; q = p;
  while (dig(s[p])) { if (val > 400000000000000000L) val = 1L << 61; else val = val * 10 + s[p] - '0'; p++; }
  if (s[p] == '.' && dig(s[p + 1]))
    {
      char b[64]; int k = 0; isf = 1;
      while (q < p) b[k++] = (char) s[q++];
      b[k++] = '.'; for (p++; dig(s[p]); p++) b[k++] = (char) s[p];
      if (s[p] == 'e' || s[p] == 'E') { q = p + 1; if (s[q] == '+' || s[q] == '-') q++; if (dig(s[q])) { b[k++] = 'e'; for (p++; p < q; p++) b[k++] = (char) s[p]; while (dig(s[p])) b[k++] = (char) s[p++]; } }
      b[k] = 0; fval = strtod(b, 0);
    }
  return 1;
}
static int layout(int comments)
{
  for (;;)
    {
      if (s[p] >= 0 && s[p] <= 32) { p++; continue; } if (s[p] == 127) { p++; continue; }
      if (s[p] == '%') { while (s[p] != 10 && s[p] != -1) p++; continue; }
      if (s[p] == '/' && s[p + 1] == '*') { p += 2; while (s[p] != -1 && !(s[p] == '*' && s[p + 1] == '/')) p++; if (s[p] == -1) return 0; p += 2; continue; }
      return 1;
    }
}
/* K = 0: not a number, 1: an integer X, 2: a float X, 3: an integer out of range */
PlBool r01_parse(PlTerm l, PlLong *k, PlTerm *x)
{
  PlTerm *c; int neg = 0; n = p = 0; isf = 0;
  while (Pl_Type_Of_Term(l) == PL_LST && n < 60) { c = Pl_Rd_List(l); s[n++] = Pl_Rd_Integer(c[0]); l = c[1]; }
  s[n] = s[n + 1] = s[n + 2] = -1; *k = 0; *x = Pl_Mk_Integer(0);
  if (!layout(1)) return PL_TRUE;
  if (s[p] == '-' || (s[p] == 39 && s[p + 1] == '-' && s[p + 2] == 39)) { p += s[p] == 39 ? 3 : 1; neg = 1; if (!layout(1)) return PL_TRUE; }
  if (!number() || s[p] != -1) return PL_TRUE;
  if (isf) { *k = 2; *x = Pl_Mk_Float(neg ? -fval : fval); return PL_TRUE; }
  if (neg) val = -val;
  if (val > (1L << 60) - 1 || val < -(1L << 60)) { *k = 3; return PL_TRUE; }
  *k = 1; *x = Pl_Mk_Integer(val); return PL_TRUE;
}
