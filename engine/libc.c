/* libc model: the part of the C library the GNU Prolog runtime calls, over an in-memory file system.
   Compiled to bitcode and executed by gsym; memcpy/strlen/strcmp/malloc... are engine intrinsics. */
#include <stdarg.h>
#include <stddef.h>
typedef unsigned long ul; typedef unsigned char uc;
void *malloc(ul); void *realloc(void *, ul); void free(void *); ul strlen(const char *); void *memcpy(void *, const void *, ul); void *memmove(void *, const void *, ul); void *memset(void *, int, ul); int strcmp(const char *, const char *);
long __gsym_write(int, const void *, long); int __gsym_fmtd(char *, int, const char *, double); double strtod(const char *, char **); void gsym_incomplete(const char *);
static int err_no; int *__errno_location(void) { return &err_no; }
char **environ = 0;
/* ---- strings */
char *strcpy(char *d, const char *s) { memcpy(d, s, strlen(s) + 1); return d; }
char *strncpy(char *d, const char *s, ul n) { ul i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *stpcpy(char *d, const char *s) { ul n = strlen(s); memcpy(d, s, n + 1); return d + n; }
char *strdup(const char *s) { ul n = strlen(s) + 1; char *p = malloc(n); memcpy(p, s, n); return p; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
void *memchr(const void *p, int c, ul n) { const uc *s = p; for (; n--; s++) if (*s == (uc)c) return (void *)s; return 0; }
int strncmp(const char *, const char *, ul);
char *strstr(const char *h, const char *n) { ul k = strlen(n); if (!k) return (char *)h; for (; *h; h++) if (strncmp(h, n, k) == 0) return (char *)h; return 0; }
ul strspn(const char *s, const char *a) { ul n = 0; while (s[n] && strchr(a, s[n])) n++; return n; }
ul strcspn(const char *s, const char *a) { ul n = 0; while (s[n] && !strchr(a, s[n])) n++; return n; }
char *strtok(char *s, const char *d) { static char *sv; if (!s) s = sv; if (!s) return 0; s += strspn(s, d); if (!*s) { sv = 0; return 0; } char *r = s; s += strcspn(s, d); if (*s) { *s = 0; sv = s + 1; } else sv = 0; return r; }
char *strpbrk(const char *s, const char *a) { s += strcspn(s, a); return *s ? (char *)s : 0; }
static int low(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int strcasecmp(const char *a, const char *b) { for (;; a++, b++) { int x = low((uc)*a), y = low((uc)*b); if (x != y) return x - y; if (!x) return 0; } }
int strncasecmp(const char *a, const char *b, ul n) { for (; n--; a++, b++) { int x = low((uc)*a), y = low((uc)*b); if (x != y) return x - y; if (!x) return 0; } return 0; }
char *strerror(int e) { return "error"; }
/* ---- ctype (C locale) */
static unsigned short ctb[384]; static int tlo[384], tup[384]; static const unsigned short *pctb; static const int *ptlo, *ptup; static int ctinit;
static void ct(void) { int c; if (ctinit) return; ctinit = 1;
  for (c = -128; c < 256; c++) { unsigned m = 0; int up = c >= 'A' && c <= 'Z', lo = c >= 'a' && c <= 'z', dg = c >= '0' && c <= '9';
    if (up) m |= 1 << 8; if (lo) m |= 1 << 9; if (up || lo) m |= 1 << 10; if (dg) m |= 1 << 11; if (dg || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')) m |= 1 << 12; if (c == ' ' || (c >= 9 && c <= 13)) m |= 1 << 13; if (c >= 32 && c < 127) m |= 1 << 14; if (c > 32 && c < 127) m |= 1 << 15; if (c == ' ' || c == 9) m |= 1; if ((c >= 0 && c < 32) || c == 127) m |= 2; if (c > 32 && c < 127 && !up && !lo && !dg) m |= 4; if (up || lo || dg) m |= 8;
    ctb[c + 128] = m; tlo[c + 128] = up ? c + 32 : c; tup[c + 128] = lo ? c - 32 : c; }
  pctb = ctb + 128; ptlo = tlo + 128; ptup = tup + 128; }
const unsigned short **__ctype_b_loc(void) { ct(); return &pctb; }
const int **__ctype_tolower_loc(void) { ct(); return &ptlo; }
const int **__ctype_toupper_loc(void) { ct(); return &ptup; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int tolower(int c) { return low(c); }
/* ---- numbers */
long strtol(const char *s, char **e, int base) { const char *p = s; int neg = 0, any = 0, ov = 0; unsigned long v = 0; while (*p == ' ' || (*p >= 9 && *p <= 13)) p++; if (*p == '-') { neg = 1; p++; } else if (*p == '+') p++;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) { int d = low((uc)p[2]); if ((d >= '0' && d <= '9') || (d >= 'a' && d <= 'f')) { p += 2; base = 16; } } if (base == 0) base = *p == '0' ? 8 : 10;
  for (;; p++) { int c = (uc)*p, d; if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'z') d = c - 'a' + 10; else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10; else break; if (d >= base) break; any = 1;
    if (!ov) { long nv; if (neg) { if (__builtin_smull_overflow((long)v, base, &nv) || __builtin_ssubl_overflow(nv, d, &nv)) ov = 1; } else if (__builtin_smull_overflow((long)v, base, &nv) || __builtin_saddl_overflow(nv, d, &nv)) ov = 1; if (!ov) v = nv; } }
  if (e) *e = (char *)(any ? p : s); if (ov) { err_no = 34; return neg ? (long)0x8000000000000000UL : 0x7fffffffffffffffL; } return (long)v; }
long long strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
int atoi(const char *s) { return strtol(s, 0, 10); }
long atol(const char *s) { return strtol(s, 0, 10); }
double atof(const char *s) { return strtod(s, 0); }
int __isoc99_sscanf(const char *s, const char *f, ...) { va_list a; va_start(a, f); int n = 0; if (strcmp(f, "%lf") == 0) { char *e; double d = strtod(s, &e); if (e != s) { *va_arg(a, double *) = d; n = 1; } } else if (strcmp(f, "%d") == 0) { char *e; long d = strtol(s, &e, 10); if (e != s) { *va_arg(a, int *) = d; n = 1; } } else gsym_incomplete("sscanf format"); va_end(a); return n; }
double frexp(double x, int *e) { union { double d; unsigned long u; } v; v.d = x; int ex = v.u >> 52 & 2047; if (ex == 2047 || x == 0) { *e = 0; return x; } if (ex == 0) { v.d = x * 18014398509481984.0; ex = (int)(v.u >> 52 & 2047) - 54; } *e = ex - 1022; v.u = (v.u & 0x800fffffffffffffUL) | 0x3fe0000000000000UL; return v.d; }
double ldexp(double x, int e) { while (e > 0) { x *= 2; e--; } while (e < 0) { x /= 2; e++; } return x; }
static unsigned long seed = 1; void srand(unsigned s) { seed = s; } int rand(void) { seed = seed * 6364136223846793005UL + 1442695040888963407UL; return seed >> 33; }
void srandom(unsigned s) { seed = s; } long random(void) { return rand(); }
/* any order of equal elements is allowed: elements equal under cmp come out in reverse order, unlike most implementations */
void qsort(void *b, ul n, ul sz, int (*cmp)(const void *, const void *)) { char t[256]; char *p = b; ul i; long j; if (sz > sizeof t) { gsym_incomplete("qsort size"); return; }
  for (i = 1; i < n; i++) { memcpy(t, p + i * sz, sz); for (j = (long)i - 1; j >= 0 && cmp(p + j * sz, t) >= 0; j--) memcpy(p + (j + 1) * sz, p + j * sz, sz); memcpy(p + (j + 1) * sz, t, sz); } }
/* ---- files in memory */
typedef struct { char name[120]; char *d; long n, cap; int used; } MF; typedef struct { MF *f; long pos; int rd, wr, app, eof, used, fd; } FD_;
typedef struct { int fd; int eof, err, used; int unget; } FILE_;
static MF mf[16]; static FD_ fdt[32]; static FILE_ ft[32]; static FILE_ f0 = { 0, 0, 0, 1, -1 }, f1 = { 1, 0, 0, 1, -1 }, f2 = { 2, 0, 0, 1, -1 };
FILE_ *stdin = &f0, *stdout = &f1, *stderr = &f2;
static const char *nrm(const char *n) { return strncmp(n, "/work/", 6) == 0 ? n + 6 : n; }
static MF *mfind(const char *n) { int i; n = nrm(n); for (i = 0; i < 16; i++) if (mf[i].used && strcmp(mf[i].name, n) == 0) return mf + i; return 0; }
static MF *mnew(const char *n) { int i; n = nrm(n); if (strlen(n) > 110) return 0; for (i = 0; i < 16; i++) if (!mf[i].used) { mf[i].used = 1; strcpy(mf[i].name, n); mf[i].d = 0; mf[i].n = mf[i].cap = 0; return mf + i; } gsym_incomplete("too many files"); return 0; }
void gsym_file(const char *name, const char *data, long n) { MF *m = mfind(name); if (!m) m = mnew(name); m->d = malloc(n + 1); m->cap = n + 1; m->n = n; memcpy(m->d, data, n); }
static int fdopen_(MF *m, int rd, int wr, int app) { int i; for (i = 3; i < 32; i++) if (!fdt[i].used) { FD_ *f = fdt + i; f->used = 1; f->f = m; f->pos = 0; f->rd = rd; f->wr = wr; f->app = app; return i; } err_no = 24; return -1; }
int open(const char *n, int fl, ...) { MF *m = mfind(n); int acc = fl & 3; if (!m) { if (!(fl & 0100)) { err_no = 2; return -1; } m = mnew(n); if (!m) { err_no = 13; return -1; } } if (fl & 01000) m->n = 0; return fdopen_(m, acc != 1, acc != 0, (fl & 02000) != 0); }
int close(int fd) { if (fd >= 3 && fd < 32 && fdt[fd].used) { fdt[fd].used = 0; return 0; } err_no = 9; return fd < 3 ? 0 : -1; }
long read(int fd, void *b, ul n) { if (fd < 3 || fd >= 32 || !fdt[fd].used) return 0; FD_ *f = fdt + fd; long k = f->f->n - f->pos; if (k < 0) k = 0; if (k > (long)n) k = n; memcpy(b, f->f->d + f->pos, k); f->pos += k; return k; }
long write(int fd, const void *b, ul n) { if (fd < 3) return __gsym_write(fd, b, n); if (fd >= 32 || !fdt[fd].used) { err_no = 9; return -1; } FD_ *f = fdt + fd; MF *m = f->f; if (f->app) f->pos = m->n; long e = f->pos + n; if (e > m->cap) { m->cap = e * 2 + 64; m->d = realloc(m->d, m->cap); } if (f->pos > m->n) memset(m->d + m->n, 0, f->pos - m->n); memcpy(m->d + f->pos, b, n); f->pos = e; if (e > m->n) m->n = e; return n; }
long lseek(int fd, long o, int w) { if (fd < 3 || fd >= 32 || !fdt[fd].used) { err_no = 29; return -1; } FD_ *f = fdt + fd; long p = w == 0 ? o : w == 1 ? f->pos + o : f->f->n + o; if (p < 0) { err_no = 22; return -1; } return f->pos = p; }
static FILE_ *mkfile(int fd) { int i; if (fd < 0) return 0; for (i = 0; i < 32; i++) if (!ft[i].used) { ft[i].used = 1; ft[i].fd = fd; ft[i].eof = ft[i].err = 0; ft[i].unget = -1; return ft + i; } return 0; }
FILE_ *fopen(const char *n, const char *m) { int pl = strchr(m, '+') != 0; int fl = m[0] == 'r' ? (pl ? 2 : 0) : m[0] == 'w' ? (pl ? 2 : 1) | 01100 : (pl ? 2 : 1) | 02100; return mkfile(open(n, fl, 0666)); }
FILE_ *fdopen(int fd, const char *m) { return mkfile(fd); }
int fclose(FILE_ *f) { int fd = f->fd; f->used = 0; return close(fd); }
int fileno(FILE_ *f) { return f->fd; }
int fflush(FILE_ *f) { return 0; }
int setvbuf(FILE_ *f, char *b, int m, ul n) { return 0; } void setlinebuf(FILE_ *f) {} void setbuf(FILE_ *f, char *b) {}
int fgetc(FILE_ *f) { uc c; if (f->unget >= 0) { int r = f->unget; f->unget = -1; return r; } if (read(f->fd, &c, 1) == 1) return c; f->eof = 1; return -1; }
int getc(FILE_ *f) { return fgetc(f); } int ungetc(int c, FILE_ *f) { f->unget = c; return c; }
int fputc(int c, FILE_ *f) { char b = c; return write(f->fd, &b, 1) == 1 ? (uc)c : -1; } int putc(int c, FILE_ *f) { return fputc(c, f); } int putchar(int c) { return fputc(c, stdout); }
int fputs(const char *s, FILE_ *f) { return write(f->fd, s, strlen(s)) < 0 ? -1 : 1; } int puts(const char *s) { fputs(s, stdout); return fputc('\n', stdout); }
char *fgets(char *b, int n, FILE_ *f) { int i = 0, c = -1; while (i < n - 1 && (c = fgetc(f)) != -1) { b[i++] = c; if (c == '\n') break; } if (!i) return 0; b[i] = 0; return b; }
ul fread(void *b, ul s, ul n, FILE_ *f) { if (!s || !n) return 0; long k = read(f->fd, b, s * n); if (k < (long)(s * n)) f->eof = 1; return k / s; }
ul fwrite(const void *b, ul s, ul n, FILE_ *f) { if (!s || !n) return 0; return write(f->fd, b, s * n) / s; }
int fseek(FILE_ *f, long o, int w) { f->unget = -1; f->eof = 0; return lseek(f->fd, o, w) < 0 ? -1 : 0; } long ftell(FILE_ *f) { return lseek(f->fd, 0, 1); } void rewind(FILE_ *f) { fseek(f, 0, 0); }
int feof(FILE_ *f) { return f->eof; } int ferror(FILE_ *f) { return f->err; } void clearerr(FILE_ *f) { f->eof = f->err = 0; }
int access(const char *n, int m) { if (mfind(n)) return 0; err_no = 2; return -1; } int unlink(const char *n) { MF *m = mfind(n); if (!m) { err_no = 2; return -1; } m->used = 0; return 0; }
int rename(const char *a, const char *b) { MF *m = mfind(a), *k = mfind(b); if (!m) { err_no = 2; return -1; } if (k) k->used = 0; strcpy(m->name, nrm(b)); return 0; }
#include <sys/stat.h>
static int st_(MF *m, struct stat *s) { memset(s, 0, sizeof *s); s->st_mode = 0100644; if (m) { s->st_size = m->n; s->st_ino = m - mf + 1; } s->st_nlink = 1; return 0; }
int stat(const char *n, struct stat *s) { MF *m = mfind(n); if (!m) { err_no = 2; return -1; } return st_(m, s); } int lstat(const char *n, struct stat *s) { return stat(n, s); }
int fstat(int fd, struct stat *s) { if (fd < 3) { st_(0, s); s->st_mode = 020620; return 0; } if (fd >= 32 || !fdt[fd].used) { err_no = 9; return -1; } return st_(fdt[fd].f, s); }
/* ---- printf */
typedef struct { char *b; long n, cap; int fd; } O_;
static void oc(O_ *o, char c) { if (o->fd >= 0) write(o->fd, &c, 1); else if (o->n < o->cap) o->b[o->n] = c; o->n++; }
static void os(O_ *o, const char *s, long n) { if (o->fd >= 0) write(o->fd, s, n); else { long k = o->cap - o->n; if (k > n) k = n; if (k > 0) memcpy(o->b + o->n, s, k); } o->n += n; }
static void vf(O_ *o, const char *f, va_list a) {
  for (; *f; f++) { if (*f != '%') { oc(o, *f); continue; } const char *st = f; f++; int left = 0, zero = 0, plus = 0, sp = 0, alt = 0, w = 0, pr = -1, l = 0;
    for (;; f++) { if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else if (*f == ' ') sp = 1; else if (*f == '#') alt = 1; else break; }
    if (*f == '*') { w = va_arg(a, int); if (w < 0) { left = 1; w = -w; } f++; } else while (*f >= '0' && *f <= '9') w = w * 10 + *f++ - '0';
    if (*f == '.') { f++; pr = 0; if (*f == '*') { pr = va_arg(a, int); f++; } else while (*f >= '0' && *f <= '9') pr = pr * 10 + *f++ - '0'; }
    while (*f == 'l' || *f == 'h' || *f == 'z' || *f == 'j') { if (*f != 'h') l++; f++; }
    char tmp[80]; const char *s = tmp; long n = 0; char sgn = 0; const char *pre = "";
    switch (*f) {
    case 'd': case 'i': { long v = l ? va_arg(a, long) : va_arg(a, int); unsigned long u = v; if (v < 0) { sgn = '-'; u = -u; } else if (plus) sgn = '+'; else if (sp) sgn = ' '; char *e = tmp + 80; do { *--e = '0' + u % 10; u /= 10; n++; } while (u); s = e; break; }
    case 'u': case 'x': case 'X': case 'o': case 'p': { unsigned long u = l || *f == 'p' ? va_arg(a, unsigned long) : va_arg(a, unsigned); unsigned bs = *f == 'u' ? 10 : *f == 'o' ? 8 : 16; const char *dg = *f == 'X' ? "0123456789ABCDEF" : "0123456789abcdef"; if (*f == 'p' || (alt && bs == 16 && u)) pre = "0x"; char *e = tmp + 80; do { *--e = dg[u % bs]; u /= bs; n++; } while (u); s = e; break; }
    case 'c': tmp[0] = va_arg(a, int); n = 1; zero = 0; break;
    case 's': s = va_arg(a, const char *); if (!s) s = "(null)"; if (pr >= 0) { while (n < pr && s[n]) n++; } else n = strlen(s); pr = -1; zero = 0; break;
    case 'e': case 'f': case 'g': case 'E': case 'G': case 'F': { char fm[32]; char big[1200]; double d = va_arg(a, double); char *q = fm; *q++ = '%'; if (left) *q++ = '-'; if (zero) *q++ = '0'; if (plus) *q++ = '+'; if (sp) *q++ = ' '; if (alt) *q++ = '#'; int k, t[2] = { w, pr }; for (k = 0; k < 2; k++) { if (k && pr >= 0) *q++ = '.'; if (k ? pr >= 0 : w > 0) { int v = t[k]; char r[12]; int m = 0; do { r[m++] = '0' + v % 10; v /= 10; } while (v); while (m) *q++ = r[--m]; } } *q++ = *f; *q = 0; long nn = __gsym_fmtd(big, sizeof big, fm, d); os(o, big, nn); continue; }
    case '%': oc(o, '%'); continue;
    default: gsym_incomplete("printf conversion"); (void)st; return; }
    long z = pr > n ? pr - n : 0; long tot = n + z + (sgn != 0) + strlen(pre); long pad = w > tot ? w - tot : 0;
    if (!left && !(zero && pr < 0)) while (pad > 0) { oc(o, ' '); pad--; } if (sgn) oc(o, sgn); os(o, pre, strlen(pre)); if (!left) while (pad > 0) { oc(o, '0'); pad--; } while (z-- > 0) oc(o, '0'); os(o, s, n); while (pad-- > 0) oc(o, ' ');
  }
}
int vsnprintf(char *b, ul n, const char *f, va_list a) { O_ o = { b, 0, n ? (long)n - 1 : 0, -1 }; va_list c; va_copy(c, a); vf(&o, f, c); va_end(c); if (n) b[o.n < o.cap ? o.n : o.cap] = 0; return o.n; }
int vsprintf(char *b, const char *f, va_list a) { return vsnprintf(b, 1 << 28, f, a); }
int sprintf(char *b, const char *f, ...) { va_list a; va_start(a, f); int r = vsprintf(b, f, a); va_end(a); return r; }
int snprintf(char *b, ul n, const char *f, ...) { va_list a; va_start(a, f); int r = vsnprintf(b, n, f, a); va_end(a); return r; }
int vfprintf(FILE_ *p, const char *f, va_list a) { O_ o = { 0, 0, 0, p->fd }; va_list c; va_copy(c, a); vf(&o, f, c); va_end(c); return o.n; }
int fprintf(FILE_ *p, const char *f, ...) { va_list a; va_start(a, f); int r = vfprintf(p, f, a); va_end(a); return r; }
int printf(const char *f, ...) { va_list a; va_start(a, f); int r = vfprintf(stdout, f, a); va_end(a); return r; }
/* ---- system: fixed answers */
char *getenv(const char *n) { return 0; } char *setlocale(int c, const char *l) { return "C"; } void tzset(void) {}
int getpid(void) { return 1234; } int getpagesize(void) { return 4096; } int isatty(int fd) { return 0; } int mallopt(int a, int b) { return 1; }
long time(long *t) { if (t) *t = 1700000000; return 1700000000; } int gettimeofday(long *t, void *z) { t[0] = 1700000000; t[1] = 0; return 0; } int getrusage(int w, void *p) { memset(p, 0, 144); return 0; }
char *getcwd(char *b, ul n) { if (!b) b = malloc(64); strcpy(b, "/work"); return b; } int chdir(const char *p) { return 0; }
static int tmv[14]; void *localtime(const long *t) { tmv[5] = 120; return tmv; }
char *realpath(const char *p, char *r) { if (!r) r = malloc(4096); strcpy(r, p); return r; }
int gethostname(char *b, ul n) { strcpy(b, "host"); return 0; } int uname(char *b) { memset(b, 0, 390); return 0; } void *getpwnam(const char *n) { return 0; } char *ttyname(int fd) { return 0; }
int sigaction(int s, const void *a, void *o) { return 0; } int sigemptyset(void *s) { return 0; } int sigaddset(void *s, int n) { return 0; } int sigprocmask(int h, void *a, void *b) { return 0; } void *signal(int s, void *h) { return 0; } int kill(int p, int s) { return 0; }
int tcgetattr(int fd, void *p) { return -1; } int tcsetattr(int fd, int a, void *p) { return -1; } int fcntl(int fd, int c, ...) { return 0; } int ioctl(int fd, ul r, ...) { return -1; }
int usleep(unsigned u) { return 0; } int select(int n, void *a, void *b, void *c, void *d) { return 0; } int system(const char *s) { return -1; }
#define NO(n) long n() { err_no = 38; return -1; }
NO(fork) NO(execvp) NO(waitpid) NO(pipe) NO(dup) NO(dup2) NO(setsid) NO(socket) NO(bind) NO(listen) NO(accept) NO(connect) NO(setsockopt) NO(getsockname) NO(rmdir) NO(pclose) NO(closedir)
#define NULLF(n) void *n() { err_no = 38; return 0; }
int mkdir(const char *p, mode_t m) { err_no = 38; return -1; }
NULLF(popen) NULLF(opendir) NULLF(readdir) NULLF(gethostbyname) NULLF(gethostbyaddr) NULLF(inet_ntoa) 
int inet_aton(const char *s, void *p) { return 0; }
