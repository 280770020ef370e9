#ifndef GS_H
#define GS_H
/* engine intrinsics (gsym) / native runtime (gs_native.c) */
long gsym_int(const char *name, long lo, long hi);   /* a symbolic integer in lo..hi */
long gsym_concretize(long x);                        /* forks: one path per value */
void gsym_assume(int c); void gsym_assert(int c, const char *msg); void gsym_fail(const char *msg);
void gsym_out(const char *tag, long v);              /* an observable, compared with a native run */
void gsym_reach(int k); void gsym_begin(void); void gsym_end(void); int gsym_native(void); void gsym_incomplete(const char *msg);
int gsym_is_symbolic(long x); void gsym_file(const char *name, const void *data, long n);
#endif
