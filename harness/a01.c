#include "gprolog.h"
#include "gs.h"
typedef __INT64_TYPE__ L;
#define MAXI ((1L << 60) - 1)
#define MINI (-(1L << 60))
static int fits(L v) { return v >= MINI && v <= MAXI; }
#define FULL(n) gsym_int(n, MINI, MAXI)
static L pick(const char *n, const L *d, int k) { return d[gsym_concretize(gsym_int(n, 0, k - 1))]; }
#define PICK(n, d) pick(n, d, sizeof d / sizeof *d)
/* the operands of each operation: both over the full 61-bit range, narrowed where the query would be out of reach */
PlBool a01_spec(PlLong op, PlLong *px, PlLong *py)
{
  L x = 0, y = 0, c;
  switch (op)
    {
    case 3: case 4: case 5: case 6:
      switch (gsym_concretize(gsym_int("dk", 0, 3)))
	{
	case 0: { static const L d[] = { 0, 1, -1, 2, -2, 4, -8, 1L << 30, -(1L << 30) }; x = FULL("x"); y = PICK("dv", d); break; }
	case 1: x = gsym_int("x", -128, 127); y = gsym_int("y", -128, 127); break;
	case 2: { static const L d[] = { MINI, MINI + 1, MAXI - 1, MAXI }; x = FULL("x"); y = PICK("dv", d); break; }
	case 3: x = gsym_int("x", -65536, 65535); y = gsym_concretize(gsym_int("y", -10, 10)); break;
	}
      break;
    case 10: case 11: x = FULL("x"); switch (gsym_concretize(gsym_int("sk", 0, 2))) { case 0: y = gsym_int("y", 71, MAXI); break; case 1: y = gsym_int("y", MINI, -71); break; case 2: y = gsym_concretize(gsym_int("y", -70, 70)); } break;
    case 14: if (gsym_concretize(gsym_int("gk", 0, 1))) { x = gsym_concretize(gsym_int("x", -12, 12)); y = gsym_concretize(gsym_int("y", -12, 12)); }
      else { static const L d[] = { MINI, MINI + 1, MAXI - 1, MAXI, 0, 1, -2, 12, 1L << 40, -(1L << 59) }; x = PICK("gx", d); y = PICK("gy", d); } break;
    case 15: switch (gsym_concretize(gsym_int("pk", 0, 3)))
	{
	case 0: x = gsym_concretize(gsym_int("x", -1, 1)); y = FULL("y"); break;
	case 1: { static const L d[] = { 2, -2, 3, 10, -7, 1L << 30, -(1L << 15), MAXI, MINI }; x = PICK("pv", d); y = gsym_concretize(gsym_int("y", -2, 130)); break; }
	case 2: x = FULL("x"); y = gsym_concretize(gsym_int("y", -3, 1)); break;
	case 3: y = gsym_concretize(gsym_int("y", 2, 6)); x = y == 2 ? gsym_int("x", -(1L << 31), 1L << 31) : gsym_int("x", -40, 40); break;
	}
      break;
    case 26: case 27: x = gsym_int("x", -(1L << 40), 1L << 40); y = gsym_int("y", -(1L << 40), 1L << 40); break;
    default: x = FULL("x"); y = FULL("y");
    }
  *px = x; *py = y; return PL_TRUE;
}
PlBool a01_chk(PlLong op, PlLong x, PlLong y, PlLong c, PlLong v, PlLong route)
{
  L e = 0; int ec = 0, k; L q, r;
  switch (op)
    {
    case 0: e = x + y; break;
    case 1: e = x - y; break;
    case 2: if (__builtin_mul_overflow(x, y, &e)) ec = 1; break;
    case 3: if (y == 0) ec = 2; else e = x / y; break;
    case 4: case 6: if (y == 0) { ec = 2; break; } q = x / y; r = x % y; if (r != 0 && ((r < 0) != (y < 0))) { q--; r += y; } e = op == 4 ? q : r; break;
    case 5: if (y == 0) ec = 2; else e = x % y; break;
    case 7: e = x & y; break;
    case 8: e = x | y; break;
    case 9: e = x ^ y; break;
    case 10: case 11: if (op == 11) y = -y;
      if (y >= 0) { if (x == 0) e = 0; else if (y > 60) ec = (x == -1 && y == 60) ? 0 : 1; else { e = (L)((unsigned long)x << y); if ((e >> y) != x) ec = 1; } }
      else e = -y > 63 ? (x < 0 ? -1 : 0) : x >> -y; break;
    case 12: e = x < y ? x : y; break;
    case 13: e = x > y ? x : y; break;
    case 14: { L a = x < 0 ? -x : x, b = y < 0 ? -y : y; while (b) { L t = a % b; a = b; b = t; } e = a; break; }
    case 15: if (y < 0) { if (x == 1) e = 1; else if (x == -1) e = (y % 2) ? -1 : 1; else if (x == 0) ec = 3; else ec = 4; }
      else if (x == 0 || x == 1) e = (y == 0) ? 1 : x; else if (x == -1) e = (y % 2) ? -1 : 1;
      else { e = 1; for (k = 0; k < y; k++) if (__builtin_mul_overflow(e, x, &e)) { ec = 1; break; } } break;
    case 16: e = -x; break;
    case 17: case 28: e = x + 1; break;
    case 18: case 29: e = x - 1; break;
    case 19: e = ~x; break;
    case 20: e = x < 0 ? -x : x; break;
    case 21: e = x < 0 ? -1 : x > 0; break;
    case 22: if (x < 0) ec = 5; else { for (e = -1, k = 59; k >= 0; k--) e = (x >> k & 1) ? k : e; } break;
    case 23: if (x < 0) ec = 5; else { for (e = -1, k = 0; k < 60; k++) e = (x >> k & 1) ? k : e; } break;
    case 24: if (x < 0) ec = 5; else for (k = 0; k < 61; k++) e += x >> k & 1; break;
    case 25: case 35: e = x; break;
    case 33: e = -x; if (fits(e)) e = x; break;
    case 34: e = (x & 255) + (x >> 8); break;
    case 26: e = (x + y) * 3 - (x - y) / 2; break;
    case 27: e = x - (y - (x + 1)) - (-y); break;
    case 30: e = 7 - x; break;
    case 31: if (__builtin_mul_overflow(x, (L)5, &e)) ec = 1; break;
    case 32: e = x - 3; break;
    }
  if (!ec && !fits(e)) ec = 1;
  if (c != ec) { gsym_out("c", c); gsym_out("ec", ec); gsym_fail(ec == 0 ? "error raised for a representable result" : c == 0 ? "no error for a result that is not representable or undefined" : "wrong error"); }
  if (!ec) gsym_assert(v == e, "wrong value");
  return PL_TRUE;
}

PlBool a01_succ(PlLong m, PlLong x, PlLong y, PlLong c, PlLong v)
{
  int e;
  if (m == 0) e = x < 0 || y < 0 ? 2 : x + 1 == y ? 0 : 1;
  else if (m == 2) e = x < 0 ? 2 : x == MAXI ? 3 : 0;
  else e = y < 0 ? 2 : y == 0 ? 1 : 0;
  if (c != e) gsym_fail("succ/2: wrong outcome");
  if (e == 0 && m == 2) gsym_assert(v == x + 1, "succ/2: wrong successor");
  if (e == 0 && m == 3) gsym_assert(v == y - 1, "succ/2: wrong predecessor");
  return PL_TRUE;
}
