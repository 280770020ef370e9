/* native counterpart of the engine intrinsics: inputs come from the vector file GSYM_VEC ("name value" lines) */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "gs.h"
static char nm[512][40]; static long val[512]; static int n = -1; static int cnt[512]; static char base[512][40]; static int nb;
static void load(void) { char *f = getenv("GSYM_VEC"); FILE *fp = f ? fopen(f, "r") : 0; n = 0; if (!fp) return; while (n < 512 && fscanf(fp, "%39s %ld", nm[n], &val[n]) == 2) n++; fclose(fp); }
long gsym_int(const char *name, long lo, long hi)
{
  char b[80]; int i, k; if (n < 0) load();
  for (i = 0; i < nb; i++) if (strcmp(base[i], name) == 0) break;
  if (i == nb && nb < 512) { strncpy(base[nb++], name, 39); }
  k = cnt[i]++;
  if (k) snprintf(b, sizeof b, "%s#%d", name, k); else snprintf(b, sizeof b, "%s", name);
  for (i = 0; i < n; i++) if (strcmp(nm[i], b) == 0) { if (val[i] < lo || val[i] > hi) { fflush(stdout); dprintf(2, "GSYM-RANGE %s\n", b); _exit(44); } return val[i]; }
  return lo <= 0 && hi >= 0 ? 0 : lo;
}
long gsym_concretize(long x) { return x; }
static FILE *o(void) { static FILE *f; if (!f) { char *p = getenv("GSYM_OUT"); f = p ? fopen(p, "w") : stderr; if (!f) _exit(45); } return f; }
void gsym_assume(int c) { if (!c) { fprintf(o(), "GSYM-ASSUME\n"); fflush(o()); _exit(43); } }
void gsym_fail(const char *m) { fprintf(o(), "GSYM-FAIL %s\n", m); fflush(o()); _exit(42); }
void gsym_assert(int c, const char *m) { if (!c) gsym_fail(m); }
void gsym_out(const char *t, long v) { fprintf(o(), "O %s %ld\n", t, v); fflush(o()); }
void gsym_reach(int k) { }
void gsym_begin(void) { }
void gsym_end(void) { fprintf(o(), "GSYM-END\n"); fflush(o()); _exit(0); }
int gsym_native(void) { return getenv("GSYM_SHOW") ? 2 : 1; }
int gsym_is_symbolic(long x) { return 0; }
void gsym_incomplete(const char *m) { fprintf(o(), "GSYM-INCOMPLETE %s\n", m); fflush(o()); _exit(46); }
void gsym_file(const char *name, const void *data, long n) { FILE *f = fopen(name, "wb"); if (!f) _exit(47); fwrite(data, 1, n, f); fclose(f); }
