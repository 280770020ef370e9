// ---------------------------------------------------------------- intrinsics
#define IN(name) static int name(State &s, Ins &i, std::vector<Val> &a, Val &res)
static bool errpath(State &s, const std::string &m) { finish(s, "memerr", m); return false; }
static bool cstr(State &s, u64 p, std::string &out, bool conc = true) { out.clear(); for (;;) { Val v; if (!mread(s.mem, p, 1, v)) return errpath(s, "invalid string read"); u8 c = conc ? concretize(s, v) : v.e ? '?' : v.c; if (!c) return true; out += c; p++; } }
IN(in_int) { std::string n; u64 p = concretize(s, a[0]); if (!cstr(s, p, n)) return 2; i64 lo = concretize(s, a[1]), hi = concretize(s, a[2]);
  int k = s.symcnt[n]++; if (k) n += "#" + std::to_string(k); if (lo == hi) { res = C(lo); s.syms.push_back({ n, K(lo, 64) }); return 0; } E e = mkvar(n, lo < 0, lo, hi);
  u32 id = ~0u; for (u32 j = 0; j < g_vars.size(); j++) if (e->vs.w[j / 64] >> (j % 64) & 1) id = j; while (s.model.size() <= id) s.model.push_back(defval(s.model.size()));
  s.syms.push_back({ n, e }); res = V(e); return 0; }
IN(in_concretize) { res = C(concretize(s, a[0])); return 0; }
IN(in_assume) { E c = a[0].e ? Not(Eq(a[0].e, K(0, a[0].e->w))) : K(a[0].c != 0, 1); c = simp(s, c);
  if (isK(c)) { if (c->v) return 0; INC(assume_dead, 1); return 2; }
  if (!ev1(s, c)) { Model m = s.model; int r = solve(s.cons, c, m); if (r != 1) { if (r < 0) INC(unexplored, 1); INC(assume_dead, 1); return 2; } s.model = m; } addcons(s, c); return 0; }
IN(in_assert) { std::string m; if (!cstr(s, concretize(s, a[1]), m, false)) return 2; E c = a[0].e ? Not(Eq(a[0].e, K(0, a[0].e->w))) : K(a[0].c != 0, 1); c = simp(s, c); INC(assertq, 1);
  if (isK(c)) { if (c->v) return 0; finish(s, "viol", m); return 2; }
  Model mo = s.model; int r = ev1(s, c) ? solve(s.cons, Not(c), mo) : 1;
  if (r < 0) { INC(unexplored, 1); emit("{\"ev\":\"unknown\",\"msg\":" + js("assert " + m + ": " + show(c, 4)) + "}"); }
  if (r == 1) { Model keep = s.model; s.model = mo; finish(s, "viol", m); s.model = keep; mo = keep; if (!ev1(s, c)) { r = solve(s.cons, c, mo); if (r != 1) return 2; s.model = mo; } }
  addcons(s, c); return 0; }
IN(in_fail) { std::string m; if (!cstr(s, concretize(s, a[0]), m, false)) return 2; INC(assertq, 1); finish(s, "viol", m); return 2; }
IN(in_out) { s.out.push_back({ concretize(s, a[0]), a[1] }); return 0; }
IN(in_reach) { u64 k = concretize(s, a[0]); __sync_fetch_and_add(&sh->reach[k & 63], 1); return 0; }
IN(in_end) { finish(s, "ok", ""); return 2; }
IN(in_incomplete) { std::string m; if (!cstr(s, a[0].c, m, false)) return 2; finish(s, "incomplete", m); return 2; }
IN(in_begin) { s.phase = 1; s.icount = 0; return 0; }
IN(in_issym) { res = C(a[0].e != 0); return 0; }
IN(in_native) { res = C(0); return 0; }
IN(in_write) { u64 p = a[1].c, n = concretize(s, a[2]); std::string t; for (u64 k = 0; k < n; k++) { Val v; if (!mread(s.mem, p + k, 1, v)) { errpath(s, "write"); return 2; } t += v.e ? '?' : (char)v.c; } if (verbose || !s.phase) fprintf(stderr, "%s", t.c_str()); res = C(n); return 0; }
IN(in_abort) { finish(s, "memerr", "abort"); return 2; }
IN(in_exit) { finish(s, s.phase ? "incomplete" : "incomplete", "exit(" + std::to_string((i64)(int)a[0].c) + ")"); return 2; }
// control
IN(in_callcomp) { u64 t = concretize(s, a[0]); int dst = i.dst; s.fr.back().pc++; if (t >= XC_BASE && t < XC_BASE + 8 * xcode.size()) { Val rb; static u64 rba = lookup("pl_reg_bank"); mread(s.mem, rba, 8, rb); pushx86(s, t, dst); s.regs[s.fr.back().base + 12] = rb; return 1; }
  if (t >= FN_BASE && t < FN_BASE + 16 * fns.size() && fns[(t - FN_BASE) / 16]->F) { std::vector<Val> no; pushx86(s, XC_BASE, dst); pushfn(s, fns[(t - FN_BASE) / 16], no, 0, -1); return 1; } errpath(s, "Pl_Call_Compiled of a bad address"); return 2; }
IN(in_setjmp) { u64 b = concretize(s, a[0]); Frame &f = s.fr.back(); u64 w[5] = { s.fr.size(), f.uid, f.pc + 1, (u64)(i64)i.dst, s.sp }; for (int k = 0; k < 5; k++) if (!mwrite(s.mem, b + 8 * k, 8, C(w[k]))) { errpath(s, "setjmp buffer"); return 2; } res = C(0); return 0; }
IN(in_longjmp) { u64 b = concretize(s, a[0]); u64 w[5]; for (int k = 0; k < 5; k++) { Val v; if (!mread(s.mem, b + 8 * k, 8, v) || v.e) { errpath(s, "longjmp buffer"); return 2; } w[k] = v.c; }
  if (w[0] == 0 || w[0] > s.fr.size() || s.fr[w[0] - 1].uid != w[1]) { errpath(s, "longjmp to a dead frame"); return 2; }
  Val v = a[1]; if (!v.e && v.c == 0) v = C(1); while (s.fr.size() > w[0]) popframe(s); Frame &f = s.fr.back(); f.pc = w[2]; s.sp = w[4]; s.regs[f.base + (int)(i64)w[3]] = v; return 1; }
// memory
static u64 heapalloc(State &s, u64 n) { u64 p = (s.heap + 16 + 15) & ~15ull; if (p + n > 0xFFFF0000ull) return 0; s.heap = p + n + 16; u64 from = (p - 16) & ~4095ull; (void)from; s.mem.setacc(p, n, true); if (!s.mem.rd(p - 8)) s.mem.setacc(p - 16, 1, false); mwrite_raw(s.mem, p - 16, 8, C(n)); mwrite_raw(s.mem, p - 8, 8, C(0x4D414C4C)); return p; }
static u64 big_ok(State &s, u64 n) { return n < 0x8000000; }
IN(in_malloc) { u64 n = concretize(s, a[0]); res = C(big_ok(s, n) ? heapalloc(s, n) : 0); return 0; }
IN(in_calloc) { u64 n = concretize(s, a[0]) * concretize(s, a[1]); res = C(big_ok(s, n) ? heapalloc(s, n) : 0); return 0; }
static bool blk(State &s, u64 p, u64 &n) { if (p < HEAP_BASE || (p & 15) || !s.mem.rd(p - 16)) return false; u64 m; Page *q = s.mem.rd(p - 8); m = ld(q->d + ((p - 8) & 4095), 8); if (m != 0x4D414C4C) return false; q = s.mem.rd(p - 16); n = ld(q->d + ((p - 16) & 4095), 8); return true; }
IN(in_free) { u64 p = concretize(s, a[0]); if (!p) return 0; u64 n; if (!blk(s, p, n)) { errpath(s, "free of a bad block"); return 2; } s.mem.setacc(p, n, false); mwrite_raw(s.mem, p - 8, 8, C(0)); return 0; }
static bool copybytes(State &s, u64 d, u64 f, u64 n) { if (!s.mem.ok(f, n)) return errpath(s, "invalid read in block copy"); if (!s.mem.ok(d, n)) return errpath(s, "invalid write in block copy"); std::vector<Val> t; u64 k = 0; for (; k + 8 <= n; k += 8) { Val v; mread(s.mem, f + k, 8, v); t.push_back(v); } for (u64 j = k; j < n; j++) { Val v; mread(s.mem, f + j, 1, v); t.push_back(v); } u64 x = 0; for (k = 0; k + 8 <= n; k += 8) mwrite_raw(s.mem, d + k, 8, t[x++]); for (; k < n; k++) mwrite_raw(s.mem, d + k, 1, t[x++]); return true; }
IN(in_realloc) { u64 p = concretize(s, a[0]), n = concretize(s, a[1]), o = 0; if (!big_ok(s, n)) { res = C(0); return 0; } if (p && !blk(s, p, o)) { errpath(s, "realloc of a bad block"); return 2; } u64 q = heapalloc(s, n); if (p) { if (!copybytes(s, q, p, std::min(n, o))) return 2; s.mem.setacc(p, o, false); mwrite_raw(s.mem, p - 8, 8, C(0)); } res = C(q); return 0; }
IN(in_mmap) { u64 n = (concretize(s, a[1]) + 4095) & ~4095ull; u64 p = concretize(s, a[0]); if (!(p >= MMAP_BASE && p < HEAP_BASE)) { p = s.mmapTop; s.mmapTop += n + 0x10000; } if (p + n > HEAP_BASE) die("mmap space"); s.mem.map(p, n); res = C(p); return 0; }
IN(in_munmap) { u64 p = concretize(s, a[0]); s.mem.unmap(p, concretize(s, a[1])); res = C(0); return 0; }
IN(in_mprotect) { if (a[2].c == 0) s.mem.unmap(concretize(s, a[0]), concretize(s, a[1])); res = C(0); return 0; }
IN(in_memcpy) { u64 n = concretize(s, a[2]), d = concretize(s, a[0]), f = concretize(s, a[1]); res = a[0]; if (n && !copybytes(s, d, f, n)) return 2; return 0; }
IN(in_memset) { u64 n = concretize(s, a[2]), d = concretize(s, a[0]); res = a[0]; if (!n) return 0; if (!s.mem.ok(d, n)) { errpath(s, "invalid write in memset"); return 2; } Val v = a[1]; if (v.e) v = V(Extract(v.e, 0, 8)); u64 k = 0; if (!v.e) { u64 w = (v.c & 255) * 0x0101010101010101ull; while (k < n && ((d + k) & 7)) mwrite_raw(s.mem, d + k++, 1, C(v.c & 255)); for (; k + 8 <= n; k += 8) mwrite_raw(s.mem, d + k, 8, C(w)); for (; k < n; k++) mwrite_raw(s.mem, d + k, 1, C(v.c & 255)); } else for (; k < n; k++) mwrite_raw(s.mem, d + k, 1, v); return 0; }
IN(in_strlen) { u64 p = concretize(s, a[0]), n = 0; for (;; n++) { Val v; if (!mread(s.mem, p + n, 1, v)) { errpath(s, "invalid read in strlen"); return 2; } if (!v.e ? v.c == 0 : branch(s, V(Eq(v.e, K(0, 8))), [](State &, int) {})) break; } res = C(n); return 0; }
static int cmpmem(State &s, u64 p, u64 q, u64 n, bool str, Val &res) {
  for (u64 k = 0; k < n; k++) { Val x, y; if (!mread(s.mem, p + k, 1, x) || !mread(s.mem, q + k, 1, y)) { errpath(s, "invalid read in compare"); return 2; }
    if (!x.e && !y.e) { if (x.c != y.c) { res = C((x.c < y.c ? (u64)-1 : 1) & mask(32)); return 0; } if (str && !x.c) break; continue; }
    E ex = X(x, 8), ey = X(y, 8); if (!branch(s, V(Eq(ex, ey)), [](State &, int) {})) { res = V(Ite(mk(ULT, 1, ex, ey), K(mask(32), 32), K(1, 32))); return 0; }
    if (str) { Val z = V(Eq(x.e ? (y.e ? ex : ey) : ex, K(0, 8))); if (branch(s, z, [](State &, int) {})) break; } }
  res = C(0); return 0; }
IN(in_strcmp) { return cmpmem(s, concretize(s, a[0]), concretize(s, a[1]), ~0ull, true, res); }
IN(in_strncmp) { return cmpmem(s, concretize(s, a[0]), concretize(s, a[1]), concretize(s, a[2]), true, res); }
IN(in_memcmp) { return cmpmem(s, concretize(s, a[0]), concretize(s, a[1]), concretize(s, a[2]), false, res); }
// LLVM intrinsics
static int iw(Ins &i, std::vector<Val> &a) { return i.w; }
IN(in_smax) { int w = i.w; E x = X(a[0], w), y = X(a[1], w); res = V(Ite(mk(SLT, 1, x, y), y, x)); return 0; }
IN(in_smin) { int w = i.w; E x = X(a[0], w), y = X(a[1], w); res = V(Ite(mk(SLT, 1, x, y), x, y)); return 0; }
IN(in_umax) { int w = i.w; E x = X(a[0], w), y = X(a[1], w); res = V(Ite(mk(ULT, 1, x, y), y, x)); return 0; }
IN(in_umin) { int w = i.w; E x = X(a[0], w), y = X(a[1], w); res = V(Ite(mk(ULT, 1, x, y), x, y)); return 0; }
IN(in_abs) { int w = i.w; E x = X(a[0], w); res = V(Ite(mk(SLT, 1, x, K(0, w)), mk(SUB, w, K(0, w), x), x)); return 0; }
IN(in_usubsat) { int w = i.w; E x = X(a[0], w), y = X(a[1], w); res = V(Ite(mk(ULT, 1, x, y), K(0, w), mk(SUB, w, x, y))); return 0; }
IN(in_ctpop) { int w = i.w; if (!a[0].e) { res = C(popc(a[0].c)); return 0; } E r = K(0, w); for (int k = 0; k < w; k++) r = mk(ADD, w, r, ZExt(Extract(a[0].e, k, 1), w)); res = V(r); return 0; }
IN(in_ctlz) { int w = i.w; E x = X(a[0], w); E r = K(w, w); for (int k = 0; k < w; k++) r = Ite(Extract(x, k, 1), K(w - 1 - k, w), r); res = V(r); return 0; }
IN(in_cttz) { int w = i.w; E x = X(a[0], w); E r = K(w, w); for (int k = w - 1; k >= 0; k--) r = Ite(Extract(x, k, 1), K(k, w), r); res = V(r); return 0; }
IN(in_bswap) { int w = i.w; E x = X(a[0], w); E r = 0; for (int k = 0; k < w; k += 8) { E b = Extract(x, k, 8); r = r ? mk(CONCAT, r->w + 8, r, b) : b; } res = V(r); return 0; }
IN(in_fshl) { int w = i.w; u64 k = concretize(s, a[2]) % w; E x = X(a[0], w), y = X(a[1], w); res = k ? V(mk(OR, w, mk(SHL, w, x, K(k, w)), mk(LSHR, w, y, K(w - k, w)))) : V(x); return 0; }
IN(in_fshr) { int w = i.w; u64 k = concretize(s, a[2]) % w; E x = X(a[0], w), y = X(a[1], w); res = k ? V(mk(OR, w, mk(SHL, w, x, K(w - k, w)), mk(LSHR, w, y, K(k, w)))) : V(y); return 0; }
static int ovw(Ins &i) { CallX *x = (CallX *)i.x; return x->aw[0] & 127; }
IN(in_smulov) { int w = ovw(i); E x = X(a[0], w), y = X(a[1], w); res = V(mk(MUL, w, x, y)); g_res2 = V(mk(SMULOV, 1, x, y)); return 0; }
IN(in_saddov) { int w = ovw(i); E x = X(a[0], w), y = X(a[1], w); E r = mk(ADD, w, x, y); res = V(r); E z = K(0, w); E sxn = mk(SLT, 1, x, z), sy = mk(SLT, 1, y, z), sr = mk(SLT, 1, r, z); g_res2 = V(And1(Eq(sxn, sy), Not(Eq(sxn, sr)))); return 0; }
IN(in_ssubov) { int w = ovw(i); E x = X(a[0], w), y = X(a[1], w); E r = mk(SUB, w, x, y); res = V(r); E z = K(0, w); E sxn = mk(SLT, 1, x, z), sy = mk(SLT, 1, y, z), sr = mk(SLT, 1, r, z); g_res2 = V(And1(Not(Eq(sxn, sy)), Not(Eq(sxn, sr)))); return 0; }
IN(in_uaddov) { int w = ovw(i); E x = X(a[0], w), y = X(a[1], w); E r = mk(ADD, w, x, y); res = V(r); g_res2 = V(mk(ULT, 1, r, x)); return 0; }
IN(in_usubov) { int w = ovw(i); E x = X(a[0], w), y = X(a[1], w); res = V(mk(SUB, w, x, y)); g_res2 = V(mk(ULT, 1, x, y)); return 0; }
IN(in_vastart) { u64 p = concretize(s, a[0]); Frame &f = s.fr.back(); mwrite(s.mem, p, 4, C(48)); mwrite(s.mem, p + 4, 4, C(176)); mwrite(s.mem, p + 8, 8, C(f.va)); mwrite(s.mem, p + 16, 8, C(0)); return 0; }
IN(in_vacopy) { if (!copybytes(s, concretize(s, a[0]), concretize(s, a[1]), 24)) return 2; return 0; }
IN(in_nop) { return 0; }
IN(in_arg0) { res = a[0]; return 0; }
IN(in_objsize) { res = C(~0ull & mask(i.w)); return 0; }
IN(in_zero) { res = C(0); return 0; }
// floating point
#define FRND_(nm, k) IN(nm) { res = V(mk(FRND, 64, X(a[0], 64), 0, 0, k)); return 0; }
FRND_(in_floor, 0) FRND_(in_ceil, 1) FRND_(in_trunc, 2) FRND_(in_rint, 3) FRND_(in_round, 4)
IN(in_fabs) { res = binval(AND, 64, a[0], C(~(1ull << 63))); return 0; }
IN(in_fmuladd) { res = V(mk(FADD, 64, mk(FMUL, 64, X(a[0], 64), X(a[1], 64)), X(a[2], 64))); return 0; }   // x86-64 without FMA: two roundings
IN(in_sqrt) { res = V(mk(FSQRT, 64, X(a[0], 64))); return 0; }
static void symfp(State &s) { emit("{\"ev\":\"note\",\"msg\":\"symbolic argument of a libm function concretised\"}"); }
#define M1(nm) IN(in_##nm) { if (a[0].e) symfp(s); res = C(dbits(nm(asd(concretize(s, a[0]))))); return 0; }
#define M2(nm) IN(in_##nm) { if (a[0].e || a[1].e) symfp(s); res = C(dbits(nm(asd(concretize(s, a[0])), asd(concretize(s, a[1]))))); return 0; }
M1(log) M1(log10) M1(log2) M1(exp) M1(sin) M1(cos) M1(tan) M1(asin) M1(acos) M1(atan) M1(sinh) M1(cosh) M1(tanh) M1(asinh) M1(acosh) M1(atanh) M2(pow) M2(fmod) M2(atan2)
IN(in_strtod) { std::string t; if (!cstr(s, concretize(s, a[0]), t)) return 2; char *e; double d = strtod(t.c_str(), &e); res = C(dbits(d)); if (!a[1].e && a[1].c) mwrite(s.mem, a[1].c, 8, C(a[0].c + (e - t.c_str()))); return 0; }
IN(in_fmtd) { // __gsym_fmtd(buf, size, fmt, double): one conversion of a double by the host printf
  std::string f; if (!cstr(s, concretize(s, a[2]), f)) return 2; if (a[3].e) symfp(s); double d = asd(concretize(s, a[3])); char buf[2048]; int n = snprintf(buf, sizeof buf, f.c_str(), d); u64 p = concretize(s, a[0]); for (int k = 0; k <= n && k < 2047; k++) if (!mwrite(s.mem, p + k, 1, C((u8)buf[k]))) { errpath(s, "sprintf"); return 2; } res = C(n); return 0; }
static void initIntrins() {
  auto R = [&](const char *n, Intrin f) { intrins[n] = f; };
  R("gsym_int", in_int); R("gsym_concretize", in_concretize); R("gsym_assume", in_assume); R("gsym_assert", in_assert); R("gsym_fail", in_fail); R("gsym_out", in_out); R("gsym_reach", in_reach); R("gsym_end", in_end); R("gsym_begin", in_begin); R("gsym_is_symbolic", in_issym); R("gsym_native", in_native); R("gsym_incomplete", in_incomplete);
  R("__gsym_write", in_write); R("abort", in_abort); R("_exit", in_exit); R("exit", in_exit); R("__gsym_fmtd", in_fmtd); R("strtod", in_strtod);
  R("Pl_Call_Compiled", in_callcomp); R("__sigsetjmp", in_setjmp); R("_setjmp", in_setjmp); R("setjmp", in_setjmp); R("sigsetjmp", in_setjmp); R("siglongjmp", in_longjmp); R("longjmp", in_longjmp); R("_longjmp", in_longjmp);
  R("malloc", in_malloc); R("calloc", in_calloc); R("realloc", in_realloc); R("free", in_free); R("mmap", in_mmap); R("munmap", in_munmap); R("mprotect", in_mprotect);
  R("memcpy", in_memcpy); R("memmove", in_memcpy); R("memset", in_memset); R("strlen", in_strlen); R("strcmp", in_strcmp); R("strncmp", in_strncmp); R("memcmp", in_memcmp); R("bcmp", in_memcmp);
  R("floor", in_floor); R("ceil", in_ceil); R("trunc", in_trunc); R("rint", in_rint); R("round", in_round); R("fabs", in_fabs); R("sqrt", in_sqrt);
  R("log", in_log); R("log10", in_log10); R("log2", in_log2); R("exp", in_exp); R("sin", in_sin); R("cos", in_cos); R("tan", in_tan); R("asin", in_asin); R("acos", in_acos); R("atan", in_atan); R("sinh", in_sinh); R("cosh", in_cosh); R("tanh", in_tanh); R("asinh", in_asinh); R("acosh", in_acosh); R("atanh", in_atanh); R("pow", in_pow); R("fmod", in_fmod); R("atan2", in_atan2);
}
static Intrin llvmIntrin(const std::string &n) {
  struct { const char *p; Intrin f; } t[] = { { "llvm.memcpy.", in_memcpy }, { "llvm.memmove.", in_memcpy }, { "llvm.memset.", in_memset }, { "llvm.smax.", in_smax }, { "llvm.smin.", in_smin }, { "llvm.umax.", in_umax }, { "llvm.umin.", in_umin }, { "llvm.abs.", in_abs }, { "llvm.ctpop.", in_ctpop }, { "llvm.ctlz.", in_ctlz }, { "llvm.cttz.", in_cttz }, { "llvm.bswap.", in_bswap }, { "llvm.fshl.", in_fshl }, { "llvm.fshr.", in_fshr },
    { "llvm.usub.sat.", in_usubsat }, { "llvm.smul.with.overflow.", in_smulov }, { "llvm.sadd.with.overflow.", in_saddov }, { "llvm.ssub.with.overflow.", in_ssubov }, { "llvm.uadd.with.overflow.", in_uaddov }, { "llvm.usub.with.overflow.", in_usubov }, { "llvm.va_start", in_vastart }, { "llvm.va_end", in_nop }, { "llvm.va_copy", in_vacopy }, { "llvm.floor.", in_floor }, { "llvm.ceil.", in_ceil }, { "llvm.trunc.", in_trunc }, { "llvm.rint.", in_rint }, { "llvm.nearbyint.", in_rint }, { "llvm.round.", in_round }, { "llvm.fabs.", in_fabs }, { "llvm.sqrt.", in_sqrt }, { "llvm.fmuladd.", in_fmuladd }, { "llvm.expect.", in_arg0 }, { "llvm.is.constant.", in_zero }, { "llvm.objectsize.", in_objsize }, { "llvm.stacksave", in_zero }, { "llvm.stackrestore", in_nop }, { "llvm.trap", in_abort } };
  for (auto &x : t) if (n.compare(0, strlen(x.p), x.p) == 0) return x.f; return 0;
}
