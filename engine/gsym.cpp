// gsym: symbolic executor for GNU Prolog. Executes LLVM bitcode (the C runtime) and the mapper assembly emitted by
// ma2asm (the Prolog library and harness) over one byte-addressed memory; Z3 decides every branch and assertion.
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/Support/MemoryBuffer.h>
#include <llvm/Support/raw_ostream.h>
#include <fstream>
#include <sstream>
#include <deque>
#include <set>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/file.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <unistd.h>
#include <time.h>
#include <signal.h>
using namespace llvm;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void die(const std::string &m) { fprintf(stderr, "gsym: %s\n", m.c_str()); exit(3); }

struct Val { u64 c; E e; };
static inline Val C(u64 v) { return { v, 0 }; }
static inline E X(const Val &v, int w) { return v.e ? v.e : K(v.c, w); }
static inline Val V(E e) { return e->op == CONST ? Val{ e->v, 0 } : Val{ 0, e }; }

// ---------------------------------------------------------------- memory
struct Page { u32 ref; u8 d[4096]; u64 acc[64]; E *sym; };
struct L2 { u32 ref; Page *p[1024]; };
static Page zero_page;
struct Mem {
  L2 *l1[1024];
  Mem() { memset(l1, 0, sizeof l1); }
  Mem(const Mem &o) { memcpy(l1, o.l1, sizeof l1); for (auto x : l1) if (x) x->ref++; }
  ~Mem() { for (auto x : l1) if (x) drop(x); }
  Mem &operator=(const Mem &) = delete;
  static void drop(L2 *x) { if (--x->ref) return; for (auto p : x->p) if (p) dropp(p); delete x; }
  static void dropp(Page *p) { if (p == &zero_page || --p->ref) return; delete[] p->sym; delete p; }
  inline Page *rd(u64 a) const { if (a >> 32) return 0; L2 *t = l1[a >> 22]; return t ? t->p[a >> 12 & 1023] : 0; }
  L2 *wl2(u64 a) { L2 *&t = l1[a >> 22]; if (!t) { t = new L2; memset(t, 0, sizeof *t); t->ref = 1; }
    else if (t->ref > 1) { L2 *n = new L2(*t); n->ref = 1; for (auto p : n->p) if (p && p != &zero_page) p->ref++; t->ref--; t = n; } return t; }
  inline Page *wr(u64 a) { L2 *t = l1[a >> 22]; if (t->ref > 1) t = wl2(a); Page *&p = t->p[a >> 12 & 1023];
    if (p->ref > 1) { Page *n = new Page(*p); n->ref = 1; if (p->sym) { n->sym = new E[512]; memcpy(n->sym, p->sym, 512 * sizeof(E)); } if (p != &zero_page) p->ref--; p = n; } return p; }
  void map(u64 a, u64 n) { for (u64 x = a & ~4095ull; x < a + n; x += 4096) { L2 *t = wl2(x); if (!t->p[x >> 12 & 1023]) t->p[x >> 12 & 1023] = &zero_page; } }
  void unmap(u64 a, u64 n) { for (u64 x = a & ~4095ull; x < a + n; x += 4096) { L2 *t = wl2(x); Page *&p = t->p[x >> 12 & 1023]; if (p) dropp(p); p = 0; } }
  void setacc(u64 a, u64 n, bool on) { u64 e = a + n; while (a < e) { if (!(a & 4095) && e - a >= 4096) { L2 *t = wl2(a); Page *&p = t->p[a >> 12 & 1023]; if (on ? !p : !!p && p == &zero_page) { p = on ? &zero_page : 0; a += 4096; continue; } if (!on && !p) { a += 4096; continue; } } if (!rd(a)) { L2 *t = wl2(a); Page *p = new Page; memset(p, 0, sizeof *p); p->ref = 1; t->p[a >> 12 & 1023] = p; }
      Page *p = wr(a); u64 lim = std::min(e, (a & ~4095ull) + 4096);
      for (; a < lim; ) { u64 o = a & 4095; if ((o & 63) == 0 && lim - a >= 64) { p->acc[o >> 6] = on ? ~0ull : 0; a += 64; } else { if (on) p->acc[o >> 6] |= 1ull << (o & 63); else p->acc[o >> 6] &= ~(1ull << (o & 63)); a++; } } } }
  static inline bool okp(const Page *p, u32 o, u32 n) { u64 m = mask(n) ; u32 s = o & 63; u64 lo = p->acc[o >> 6] >> s; if (s + n > 64) lo |= p->acc[(o >> 6) + 1] << (64 - s); return (lo & m) == m; }
  bool ok(u64 a, u64 n) const { while (n) { Page *p = rd(a); if (!p) return false; u32 o = a & 4095; u32 k = std::min<u64>({ n, 4096 - o, 8 }); if (!okp(p, o, k)) return false; a += k; n -= k; } return true; }
  u8 byte(u64 a) const { Page *p = rd(a); return p ? p->d[a & 4095] : 0; }
  E symslot(u64 a) const { Page *p = rd(a); return p && p->sym ? p->sym[(a & 4095) >> 3] : 0; }
};
static u64 ld(const u8 *p, int n) { u64 v = 0; memcpy(&v, p, n); return v; }
// value of n bytes at a, inside one page, a having a symbolic slot
static Val rdsym(const Page *p, u32 o, int n) {
  E r = 0; int got = 0;
  while (got < n) { u32 oo = o + got; u32 s = oo >> 3; int k = std::min<int>(n - got, 8 - (oo & 7)); E part;
    if (p->sym[s]) part = Extract(p->sym[s], (oo & 7) * 8, k * 8); else part = K(ld(p->d + oo, k), k * 8);
    r = r ? mk(CONCAT, r->w + part->w, part, r) : part; got += k; }
  return V(r);
}
static bool anysym(const Page *p, u32 o, int n) { if (!p->sym) return false; return p->sym[o >> 3] || p->sym[(o + n - 1) >> 3]; }
static bool mread(const Mem &m, u64 a, int n, Val &out) {
  Page *p = m.rd(a); if (!p) return false; u32 o = a & 4095;
  if (o + n <= 4096) { if (!Mem::okp(p, o, n)) return false; if (!anysym(p, o, n)) { out = C(ld(p->d + o, n)); return true; } out = rdsym(p, o, n); return true; }
  int k = 4096 - o; Val x, y; if (!mread(m, a, k, x) || !mread(m, a + k, n - k, y)) return false;
  if (!x.e && !y.e) out = C(x.c | y.c << (8 * k)); else out = V(mk(CONCAT, 8 * n, X(y, 8 * (n - k)), X(x, 8 * k))); return true;
}
static void mwrite_raw(Mem &m, u64 a, int n, const Val &v) {
  u32 o = a & 4095;
  if (o + n > 4096) { int k = 4096 - o; if (!v.e) { mwrite_raw(m, a, k, C(v.c & mask(8 * k))); mwrite_raw(m, a + k, n - k, C(v.c >> (8 * k))); } else { mwrite_raw(m, a, k, V(Extract(v.e, 0, 8 * k))); mwrite_raw(m, a + k, n - k, V(Extract(v.e, 8 * k, 8 * (n - k)))); } return; }
  Page *p = m.wr(a);
  if (!v.e && !anysym(p, o, n)) { memcpy(p->d + o, &v.c, n); return; }
  if (!p->sym) { p->sym = new E[512]; memset(p->sym, 0, 512 * sizeof(E)); }
  int put = 0;
  while (put < n) { u32 oo = o + put; u32 s = oo >> 3; int in = oo & 7; int k = std::min<int>(n - put, 8 - in);
    Val part = v.e ? V(Extract(v.e, put * 8, k * 8)) : C(v.c >> (8 * put) & mask(8 * k));
    E cur = p->sym[s] ? p->sym[s] : K(ld(p->d + s * 8, 8), 64);
    E r = X(part, k * 8);
    if (in) r = mk(CONCAT, (in + k) * 8, r, Extract(cur, 0, in * 8));
    if (in + k < 8) r = mk(CONCAT, 64, Extract(cur, (in + k) * 8, (8 - in - k) * 8), r);
    if (isK(r)) { p->sym[s] = 0; memcpy(p->d + s * 8, &r->v, 8); } else p->sym[s] = r;
    put += k; }
}
static bool mwrite(Mem &m, u64 a, int n, const Val &v) { if (!m.ok(a, n)) return false; mwrite_raw(m, a, n, v); return true; }

// ---------------------------------------------------------------- code
enum IOp : u8 { I_BIN, I_DIV, I_CMP, I_FCMP, I_FBIN, I_FNEG, I_F80, I_CAST, I_SELECT, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_BR, I_CBR, I_SWITCH, I_CALL, I_RET, I_COPY, I_UNREACH, I_BAD };
struct Edge { u32 pc; std::vector<std::pair<int, int>> mv; };
struct Fn;
struct SwitchX { Edge def; std::vector<std::pair<u64, int>> cases; std::vector<Edge> tg; };
struct CallX { int callee; Fn *fn; std::vector<int> args; std::vector<u8> aw; u8 rleaf; bool vararg; };
struct GepX { u64 off; std::vector<std::tuple<int, u64, int>> idx; };
struct Ins { IOp op; u8 sub, w, w2; int dst, a, b, c; u64 imm; void *x; };
struct State;
typedef int (*Intrin)(State &, Ins &, std::vector<Val> &, Val &);   // 0 continue with result, 1 control taken, 2 path ended
struct Fn { std::string name; u64 addr; int nargs, nslots; std::vector<u8> argfp; u8 rleaf; bool retfp; u8 retw; std::vector<int> argslot; std::vector<Ins> code; std::vector<Val> consts; Intrin in; bool vararg; Function *F; int id; bool decoded; };
enum XOpk : u8 { O_NONE, O_REG, O_IMM, O_MEM, O_XMM };
struct XO { u8 k, r; i64 d; };
enum XOp : u8 { X_MOV, X_LEA, X_ADD, X_SUB, X_CMP, X_TEST, X_JMP, X_JMPI, X_JE, X_JNE, X_JG, X_JGE, X_JL, X_JLE, X_CALL, X_PUSH, X_POP, X_RET, X_MOVSD, X_XOR };
struct XI { u8 op; XO a, b; u64 t; Fn *fn; };
static const u64 FN_BASE = 0x01000000, XC_BASE = 0x04000000, GLOB_BASE = 0x10000000, STACK_TOP = 0x3fff0000, STACK_SIZE = 0x800000, MMAP_BASE = 0x40000000, HEAP_BASE = 0xC0000000;
static std::vector<Fn *> fns; static std::map<std::string, Fn *> fnByName; static std::unordered_map<const Function *, Fn *> fnOf;
static std::vector<XI> xcode; static std::vector<std::string> xsymAt; static std::vector<u32> xowner;
static std::map<std::string, u64> symtab;      // global symbols
static std::unordered_map<const GlobalValue *, u64> gaddr;
static std::map<u64, std::string> datasym;
static LLVMContext ctx; static std::vector<std::unique_ptr<Module>> mods; static std::vector<std::string> modname;
static u64 globTop = GLOB_BASE; static Mem *M0;
static const DataLayout *DL;

struct Frame { Fn *fn; u32 pc; u32 base; int dst; u64 sp; u64 uid; u64 alo; u8 cc; u64 va; };
struct TraceItem { u64 tag; Val v; };
struct JmpBuf { u32 depth; u64 uid; u32 pc; int dst; };
struct State {
  Mem mem; std::vector<Frame> fr; std::vector<Val> regs; std::vector<E> cons; std::unordered_map<u32, bool> known; std::unordered_map<u32, u64> eqs; VS eqvars;
  Model model; std::vector<TraceItem> out; std::map<std::string, int> symcnt; std::vector<std::pair<std::string, E>> syms; u64 sp, uid, heap, mmapTop, icount; std::vector<JmpBuf> jb; u32 forks, depth; std::string sout; int phase;
  State() : sp(STACK_TOP), uid(1), heap(HEAP_BASE), mmapTop(MMAP_BASE), icount(0), forks(0), depth(0), phase(0) { memset(&eqvars, 0, sizeof eqvars); }
};
// shared statistics
struct Shared { volatile long active; u64 paths, ok, viol, memerr, incomplete, queries, qsat, qunsat, qunk, qcache, qcore, solver_ns, instrs, forks, unexplored, symbranch, mergedloads, assertq, assume_dead; volatile int stop; volatile u64 reach[64]; u8 fnhit[65536]; u8 xhit[1 << 20]; };
static Shared *sh; static int outfd; static double deadline, t0; static int maxWorkers = 8; static u64 pathBudget = 200000000; static int maxSamples = 40; static int verbose = 0; static unsigned qtimeout = 20000; static int maxviol = 20;
#define INC(f, n) __sync_fetch_and_add(&sh->f, (n))
static std::deque<State *> work;
static void emit(const std::string &s) { std::string l = s + "\n"; flock(outfd, LOCK_EX); if (write(outfd, l.data(), l.size()) < 0) {} flock(outfd, LOCK_UN); }
static std::string js(const std::string &s) { std::string r = "\""; for (unsigned char c : s) { char b[8]; if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }

// ---------------------------------------------------------------- solver
static bool inter(const VS &a, const VS &b) { return (a.w[0] & b.w[0]) | (a.w[1] & b.w[1]) | (a.w[2] & b.w[2]) | (a.w[3] & b.w[3]); }
struct QK { size_t operator()(const std::vector<u32> &v) const { u64 h = 1469598103934665603ull; for (u32 x : v) { h ^= x; h *= 1099511628211ull; h ^= h >> 31; } return h; } };
struct QR { int r; std::vector<std::pair<u32, u64>> m; };
static std::unordered_map<std::vector<u32>, QR, QK> qcache;
static Z3_solver mksolver(bool full, unsigned to) {
  Z3_solver s = full ? Z3_mk_solver_for_logic(zc, Z3_mk_string_symbol(zc, "QF_FPBV")) : Z3_mk_simple_solver(zc); Z3_solver_inc_ref(zc, s);
  Z3_params p = Z3_mk_params(zc); Z3_params_inc_ref(zc, p); Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "timeout"), to); Z3_solver_set_params(zc, s, p); Z3_params_dec_ref(zc, p); return s;
}
static Z3_solver qs; static int qsn; static std::unordered_map<u32, Z3_ast> gmap; static std::unordered_map<Z3_ast, u32> gid; static std::unordered_map<u32, std::deque<std::vector<u32>>> cores; static std::vector<u32> cmark; static u32 cgen; static std::vector<std::pair<u32, VS>> qstack;
// is cons /\ q satisfiable?  1 sat (model updated), 0 unsat, -1 unknown
static int solve(const std::vector<E> &cons, E q, Model &model) {
  if (isK(q)) return q->v;
  std::vector<E> sl; VS vs = q->vs; std::vector<char> in(cons.size(), 0); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < cons.size(); i++) if (!in[i] && inter(cons[i]->vs, vs)) { in[i] = 1; ch = true; for (int k = 0; k < 4; k++) vs.w[k] |= cons[i]->vs.w[k]; } }
  for (size_t i = 0; i < cons.size(); i++) if (in[i]) sl.push_back(cons[i]);
  std::vector<u32> key; for (E e : sl) key.push_back(e->id); std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end()); key.push_back(q->id);
  INC(queries, 1);
  auto it = qcache.find(key);
  if (it != qcache.end()) { INC(qcache, 1); if (it->second.r == 1) for (auto &p : it->second.m) { if (model.size() <= p.first) { for (size_t i = model.size(); i <= p.first; i++) model.push_back(defval(i)); } model[p.first] = p.second; } return it->second.r; }
  auto ci = cores.find(q->id);   // an unsatisfiable core found before
  if (ci != cores.end()) { cgen++; if (cmark.size() <= g_exprs.size()) cmark.resize(g_exprs.size() * 2 + 1000); for (E e : sl) cmark[e->id] = cgen;
    for (auto &c : ci->second) { bool all = true; for (u32 id : c) if (cmark[id] != cgen) { all = false; break; } if (all) { INC(qcore, 1); return 0; } } }
  timespec a, b; clock_gettime(CLOCK_MONOTONIC, &a);
  QR res; res.r = -1;
  std::vector<u32> vars; for (int i = 0; i < 256; i++) if (vs.w[i / 64] >> (i % 64) & 1) vars.push_back(i);
  for (int round = 0; round < 3 && res.r == -1; round++) {
    Z3_solver s;
    if (round == 0) {   // the solver keeps the constraints of the previous query that are a prefix of this one's
      if (qs && qsn > 4000) { Z3_solver_dec_ref(zc, qs); qs = 0; }
      if (!qs) { qs = mksolver(false, 250); qsn = 0; qstack.clear(); }
      s = qs; qsn++; size_t k = 0; while (k < qstack.size() && k < sl.size() && qstack[k].first == sl[k]->id) k++;
      if (k < qstack.size()) { Z3_solver_pop(zc, s, qstack.size() - k); qstack.resize(k); }
      VS rv; if (k) rv = qstack[k - 1].second; else memset(&rv, 0, sizeof rv);
      auto guard = [&](E e) { auto it = gmap.find(e->id); if (it != gmap.end()) return it->second; Z3_ast l = Z3_mk_const(zc, Z3_mk_int_symbol(zc, 1000 + e->id), Z3_mk_bool_sort(zc)); Z3_inc_ref(zc, l); gmap[e->id] = l; gid[l] = e->id; return l; };
      auto add = [&](E e) { Z3_solver_push(zc, s); for (int i = 0; i < 4; i++) { u64 nw = e->vs.w[i] & ~rv.w[i]; rv.w[i] |= nw; while (nw) { int v = 64 * i + __builtin_ctzll(nw); nw &= nw - 1; std::vector<Z3_ast> rg; zvarrange(g_vars[v].e, rg); for (auto x : rg) Z3_solver_assert(zc, s, x); } } Z3_ast g = guard(e); Z3_solver_assert(zc, s, Z3_mk_implies(zc, g, zx(e))); };
      for (; k < sl.size(); k++) { add(sl[k]); qstack.push_back({ sl[k]->id, rv }); }
      add(q);
    } else { s = round == 1 ? mksolver(false, 2000) : mksolver(true, qtimeout);
      for (E e : sl) Z3_solver_assert(zc, s, zx(e)); Z3_solver_assert(zc, s, zx(q));
      std::vector<Z3_ast> rg; for (u32 v : vars) zvarrange(g_vars[v].e, rg); for (auto x : rg) Z3_solver_assert(zc, s, x); }
    Z3_lbool r; if (round) r = Z3_solver_check(zc, s); else { std::vector<Z3_ast> as; for (E e : sl) as.push_back(gmap[e->id]); as.push_back(gmap[q->id]); r = Z3_solver_check_assumptions(zc, s, as.size(), as.data());
      if (r == Z3_L_FALSE) { Z3_ast_vector cv = Z3_solver_get_unsat_core(zc, s); Z3_ast_vector_inc_ref(zc, cv); std::vector<u32> core; for (unsigned i = 0; i < Z3_ast_vector_size(zc, cv); i++) { u32 id = gid[Z3_ast_vector_get(zc, cv, i)]; if (id != q->id) core.push_back(id); } Z3_ast_vector_dec_ref(zc, cv); auto &cs = cores[q->id]; cs.push_front(core); if (cs.size() > 12) cs.pop_back(); } }
    if (r == Z3_L_TRUE) { res.r = 1; Z3_model m = Z3_solver_get_model(zc, s); Z3_model_inc_ref(zc, m);
      for (u32 v : vars) { Z3_ast o; u64 val = 0; if (Z3_model_eval(zc, m, zx(g_vars[v].e), true, &o)) Z3_get_numeral_uint64(zc, o, (uint64_t *)&val); res.m.push_back({ v, val }); }
      Z3_model_dec_ref(zc, m); }
    else if (r == Z3_L_FALSE) res.r = 0;
    if (!round) Z3_solver_pop(zc, s, 1); else Z3_solver_dec_ref(zc, s);
  }
  clock_gettime(CLOCK_MONOTONIC, &b); { double dt = (b.tv_sec - a.tv_sec) + (b.tv_nsec - a.tv_nsec) * 1e-9; if (verbose && dt > 1.5) fprintf(stderr, "[slow query %.1fs -> %d: %s]\n", dt, res.r, show(q, 5).c_str()); } INC(solver_ns, (u64)((b.tv_sec - a.tv_sec) * 1000000000ll + b.tv_nsec - a.tv_nsec));
  if (res.r == 1) INC(qsat, 1); else if (res.r == 0) INC(qunsat, 1); else INC(qunk, 1);
  if (res.r == 1) { for (auto &p : res.m) { if (model.size() <= p.first) for (size_t i = model.size(); i <= p.first; i++) model.push_back(defval(i)); model[p.first] = p.second; }
    // the model must satisfy what was asked (guards the translation)
    g_gen++; g_model = &model; bool okm = ev(q); for (E e : sl) okm = okm && ev(e);
    if (!okm) { fprintf(stderr, "gsym: solver model does not satisfy the query: %s\n", show(q, 10).c_str()); INC(qunk, 1); res.r = -1; } }
  qcache[key] = res; return res.r;
}
static E subst(State &s, E e, std::unordered_map<u32, E> &memo) {
  if (e->op == CONST || !inter(e->vs, s.eqvars)) return e;
  auto q = s.eqs.find(e->id); if (q != s.eqs.end()) return K(q->second, e->w);
  if (e->op == VAR) return e;
  auto it = memo.find(e->id); if (it != memo.end()) return it->second;
  E a = e->a ? subst(s, e->a, memo) : 0, b = e->b ? subst(s, e->b, memo) : 0, c = e->c ? subst(s, e->c, memo) : 0;
  E r = (a == e->a && b == e->b && c == e->c) ? e : mk(e->op, e->w, a, b, c, e->v);
  memo[e->id] = r; return r;
}
static E simp(State &s, E e) { if (!inter(e->vs, s.eqvars)) return e; std::unordered_map<u32, E> memo; return subst(s, e, memo); }
static void addcons(State &s, E c) {
  if (isK(c)) return;
  if (c->op == AND && c->w == 1) { addcons(s, c->a); addcons(s, c->b); return; }
  if (s.known.count(c->id)) return;
  s.known[c->id] = true; s.known[Not(c)->id] = false; s.cons.push_back(c);
  if (c->op == EQ && isK(c->b)) { s.eqs[c->a->id] = c->b->v; for (int i = 0; i < 4; i++) s.eqvars.w[i] |= c->a->vs.w[i]; }
}
static bool ev1(State &s, E c) { return eval_in(c, s.model); }

// ---------------------------------------------------------------- path ends
static std::string where(State &s) {
  std::string r; int n = 0;
  for (int i = (int)s.fr.size() - 1; i >= 0 && n < 12; i--, n++) { Frame &f = s.fr[i]; if (n) r += " < "; if (f.fn) r += f.fn->name; else r += f.pc < xsymAt.size() ? xsymAt[f.pc] : "?"; }
  return r;
}
static std::string vector_json(State &s) {
  std::string r = "["; g_gen++; g_model = &s.model;
  for (size_t i = 0; i < s.syms.size(); i++) { if (i) r += ","; r += "[" + js(s.syms[i].first) + "," + std::to_string((i64)ev(s.syms[i].second)) + "]"; }
  return r + "]";
}
static std::string outs_json(State &s) {
  std::string r = "["; g_gen++; g_model = &s.model;
  for (size_t i = 0; i < s.out.size(); i++) { if (i) r += ","; r += "[" + std::to_string(s.out[i].tag) + "," + std::to_string((i64)(s.out[i].v.e ? ev(s.out[i].v.e) : s.out[i].v.c)) + "]"; }
  return r + "]";
}
static void finish(State &s, const char *kind, const std::string &msg) {
  INC(paths, 1); std::string k = kind; u64 idx;
  bool rec = false;
  if (k == "ok") { idx = INC(ok, 1); rec = idx < (u64)maxSamples || (idx & (idx - 1)) == 0; }
  else if (k == "viol") { idx = INC(viol, 1); rec = idx < 200; if ((int)idx + 1 >= maxviol) sh->stop = 1; }
  else if (k == "memerr") { idx = INC(memerr, 1); rec = idx < 50; if ((int)idx + 1 >= maxviol) sh->stop = 1; }
  else { idx = INC(incomplete, 1); rec = idx < 50; }
  if (rec) emit("{\"ev\":" + js(kind) + ",\"msg\":" + js(msg) + ",\"where\":" + js(k == "ok" ? "" : where(s)) + ",\"vec\":" + vector_json(s) + ",\"out\":" + outs_json(s) + ",\"icount\":" + std::to_string(s.icount) + ",\"ncons\":" + std::to_string(s.cons.size()) + "}");
  if (verbose > 1) fprintf(stderr, "[path %s %s]\n", kind, msg.c_str());
}
// ---------------------------------------------------------------- forking
static State *clone(State &s) { State *o = new State(s); INC(forks, 1); s.depth++; o->depth = s.depth; return o; }
// decide a condition: returns 0/1; may push the other side, whose state is prepared by `prep` (applied to the clone with the other truth value)
template <class P> static int branch(State &s, Val cv, P prep) {
  if (!cv.e) return cv.c & 1;
  E c = simp(s, cv.e); if (isK(c)) return c->v;
  auto k = s.known.find(c->id); if (k != s.known.end()) return k->second;
  INC(symbranch, 1);
  bool side = ev1(s, c); E oc = side ? Not(c) : c;
  Model m = s.model; int r = solve(s.cons, oc, m);
  if (r == -1) { INC(unexplored, 1); emit("{\"ev\":\"unknown\",\"msg\":" + js(show(oc, 5)) + ",\"where\":" + js(where(s)) + "}"); }
  if (r == 1) { State *o = clone(s); o->model = m; addcons(*o, oc); prep(*o, !side); work.push_back(o); addcons(s, side ? c : Not(c)); }
  else if (r == 0) { s.known[c->id] = side; s.known[Not(c)->id] = !side; }
  else addcons(s, side ? c : Not(c));
  return side;
}
// pick a concrete value; siblings re-execute the current instruction with that value excluded
static std::string where(State &s); static bool traceConc = getenv("GSYM_CONC") != 0;
static u64 concretize(State &s, Val v) {
  if (!v.e) return v.c;
  E e = simp(s, v.e); if (isK(e)) return e->v;
  u64 val = eval_in(e, s.model); E c = Eq(e, K(val, e->w));
  auto k = s.known.find(c->id); if (k != s.known.end() && k->second) return val;
  INC(symbranch, 1);
  Model m = s.model; int r = solve(s.cons, Not(c), m);
  if (r == -1) INC(unexplored, 1);
  if (r == 1 && traceConc) fprintf(stderr, "CONC %s\n", where(s).c_str());
  if (r == 1) { State *o = clone(s); o->model = m; addcons(*o, Not(c)); work.push_back(o); }
  addcons(s, c); s.eqs[e->id] = val; for (int i = 0; i < 4; i++) s.eqvars.w[i] |= e->vs.w[i];
  return val;
}
// ---------------------------------------------------------------- memory access with symbolic addresses
static bool load(State &s, Val addr, int n, Val &out, std::string &err) {
  if (!addr.e) { if (mread(s.mem, addr.c, n, out)) return true; char b[64]; snprintf(b, 64, "invalid read of %d at 0x%llx", n, (unsigned long long)addr.c); err = b; return false; }
  E e = simp(s, addr.e);
  if (!isK(e)) {
    u64 lo = e->umin, hi = e->umax; 
    if (hi - lo <= 8192) { // table
      int tz = 0; while (tz < 12 && ((e->kz | e->ko) >> tz & 1)) tz++; u64 st = 1ull << tz; std::vector<u64> ad; std::vector<Val> vv; bool allok = true; u64 low = lo & (st - 1); u64 want = e->ko & (st - 1); u64 a0 = lo - low + want; if (a0 < lo) a0 += st;
      for (u64 a = a0; a <= hi; a += st) { if ((a & e->kz) || (~a & e->ko & mask(e->w))) continue; Val t; if (!mread(s.mem, a, n, t)) { allok = false; break; } ad.push_back(a); vv.push_back(t); }
      if (allok && ad.size() <= 2048) { INC(mergedloads, 1);
        // runs of equal values
        std::vector<size_t> st0; for (size_t i = 0; i < ad.size(); i++) if (!i || vv[i].e != vv[i - 1].e || vv[i].c != vv[i - 1].c) st0.push_back(i);
        std::function<E(size_t, size_t)> tree = [&](size_t l, size_t r) -> E { if (r - l == 1) return X(vv[st0[l]], n * 8); size_t m = (l + r) / 2; return Ite(mk(ULT, 1, e, K(ad[st0[m]], e->w)), tree(l, m), tree(m, r)); };
        if (st0.size() <= 300) { out = V(tree(0, st0.size())); return true; } } }
  }
  u64 a = concretize(s, V(e)); if (mread(s.mem, a, n, out)) return true; char b[64]; snprintf(b, 64, "invalid read of %d at 0x%llx", n, (unsigned long long)a); err = b; return false;
}
static bool store(State &s, Val addr, int n, Val v, std::string &err) {
  u64 a = concretize(s, addr); if (mwrite(s.mem, a, n, v)) return true; char b[64]; snprintf(b, 64, "invalid write of %d at 0x%llx", n, (unsigned long long)a); err = b; return false;
}
// ---------------------------------------------------------------- decoding LLVM
static u64 galloc(u64 sz, u64 al, bool acc = true) { globTop = (globTop + 31 + al) & ~(u64)(std::max<u64>(al, 16) - 1); u64 a = globTop; globTop += (sz + 7) & ~7ull; if (!sz) globTop += 8; M0->setacc(a & ~7ull, ((sz + 7) & ~7ull) + 64, false); if (acc) M0->setacc(a, sz, true); return a; }
static u64 constAddr(const Constant *c);
static int leaves(Type *t) { if (auto *st = dyn_cast<StructType>(t)) { int n = 0; for (auto *x : st->elements()) n += leaves(x); return n; } if (auto *at = dyn_cast<ArrayType>(t)) return at->getNumElements() * leaves(at->getElementType()); if (t->isVoidTy()) return 0; return 1; }
static int width(Type *t) { if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isPointerTy() || t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; if (t->isX86_FP80Ty()) return 80; return 0; }
static Val constVal(const Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) die("wide constant"); return C(ci->getZExtValue()); }
  if (auto *cf = dyn_cast<ConstantFP>(c)) { if (cf->getType()->isDoubleTy()) return C(cf->getValueAPF().bitcastToAPInt().getZExtValue()); if (cf->getType()->isX86_FP80Ty()) { bool li; APFloat f = cf->getValueAPF(); f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); return Val{ 0, mk(F80D, 64, K(f.bitcastToAPInt().getZExtValue(), 64)) }; } return C(cf->getValueAPF().bitcastToAPInt().getZExtValue()); }
  if (isa<UndefValue>(c) || isa<ConstantPointerNull>(c) || isa<ConstantAggregateZero>(c)) return C(0);
  return C(constAddr(c) & mask(width(c->getType())));
}
static u64 lookup(const std::string &n) { auto it = symtab.find(n); return it == symtab.end() ? 0 : it->second; }
static Fn *getFn(const std::string &name); static Fn *fnFor(const Function *F);
static u64 constAddr(const Constant *c) {
  if (auto *gv = dyn_cast<GlobalValue>(c)) {
    auto it = gaddr.find(gv); if (it != gaddr.end()) return it->second;
    u64 a = gv->hasLocalLinkage() ? 0 : lookup(gv->getName().str());
    if (!a) { if (auto *F = dyn_cast<Function>(gv)) a = fnFor(F)->addr; else if (auto *al = dyn_cast<GlobalAlias>(gv)) a = constAddr(al->getAliasee()); else { // undefined data
        a = getFn(gv->getName().str())->addr; } }
    gaddr[gv] = a; return a; }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: { APInt off(64, 0); cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off); return constAddr(ce->getOperand(0)) + off.getSExtValue(); }
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Trunc: return constVal(ce->getOperand(0)).c;
    case Instruction::ICmp: { u64 x = constVal(ce->getOperand(0)).c, y = constVal(ce->getOperand(1)).c; switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: return x == y; case CmpInst::ICMP_NE: return x != y; case CmpInst::ICMP_ULT: return x < y; case CmpInst::ICMP_ULE: return x <= y; case CmpInst::ICMP_UGT: return x > y; case CmpInst::ICMP_UGE: return x >= y; case CmpInst::ICMP_SLT: return (i64)x < (i64)y; case CmpInst::ICMP_SLE: return (i64)x <= (i64)y; case CmpInst::ICMP_SGT: return (i64)x > (i64)y; case CmpInst::ICMP_SGE: return (i64)x >= (i64)y; default: break; } break; }
    case Instruction::Sub: return constVal(ce->getOperand(0)).c - constVal(ce->getOperand(1)).c;
    case Instruction::Add: return constVal(ce->getOperand(0)).c + constVal(ce->getOperand(1)).c;
    } std::string t; raw_string_ostream os(t); ce->print(os); die("constant expression " + t); }
  return constVal(c).c;
}
static void initMem(u64 a, const Constant *c) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto *ds = dyn_cast<ConstantDataSequential>(c)) { StringRef r = ds->getRawDataValues(); for (size_t i = 0; i < r.size(); i++) mwrite_raw(*M0, a + i, 1, C((u8)r[i])); return; }
  if (isa<ConstantStruct>(c)) { auto *sl = DL->getStructLayout(cast<StructType>(t)); for (unsigned i = 0; i < c->getNumOperands(); i++) initMem(a + sl->getElementOffset(i), cast<Constant>(c->getOperand(i))); return; }
  if (isa<ConstantArray>(c)) { u64 es = DL->getTypeAllocSize(t->getArrayElementType()); for (unsigned i = 0; i < c->getNumOperands(); i++) initMem(a + i * es, cast<Constant>(c->getOperand(i))); return; }
  Val v = constVal(c); mwrite_raw(*M0, a, (width(t) + 7) / 8, v);
}
static Fn *newFn(const std::string &name) { Fn *f = new Fn(); f->name = name; f->id = fns.size(); f->addr = FN_BASE + 16 * fns.size(); f->in = 0; f->F = 0; f->decoded = false; f->vararg = false; f->nargs = 0; f->rleaf = 1; f->retfp = false; f->retw = 64; fns.push_back(f); return f; }
static std::map<std::string, Intrin> intrins;
static Fn *getFn(const std::string &name) { auto it = fnByName.find(name); if (it != fnByName.end()) return it->second; Fn *f = newFn(name); fnByName[name] = f; auto i = intrins.find(name); if (i != intrins.end()) f->in = i->second; return f; }
static void sigFn(Fn *f, FunctionType *ft) { f->nargs = ft->getNumParams(); f->vararg = ft->isVarArg(); f->argfp.clear(); for (auto *t : ft->params()) f->argfp.push_back(t->isDoubleTy()); f->rleaf = leaves(ft->getReturnType()); f->retfp = ft->getReturnType()->isDoubleTy(); f->retw = width(ft->getReturnType()); }
static Fn *fnFor(const Function *F) {
  auto it = fnOf.find(F); if (it != fnOf.end()) return it->second;
  Fn *f; if (F->hasLocalLinkage()) { f = newFn(F->getName().str()); auto i = intrins.find(f->name); if (i != intrins.end()) f->in = i->second; f->F = const_cast<Function *>(F); sigFn(f, F->getFunctionType()); } else { f = getFn(F->getName().str()); if (f->F == 0 && !f->nargs) sigFn(f, F->getFunctionType()); }
  fnOf[F] = f; return f;
}
static int binop(unsigned o) { switch (o) { case Instruction::Add: return ADD; case Instruction::Sub: return SUB; case Instruction::Mul: return MUL; case Instruction::UDiv: return UDIV; case Instruction::SDiv: return SDIV; case Instruction::URem: return UREM; case Instruction::SRem: return SREM;
  case Instruction::And: return AND; case Instruction::Or: return OR; case Instruction::Xor: return XOR; case Instruction::Shl: return SHL; case Instruction::LShr: return LSHR; case Instruction::AShr: return ASHR;
  case Instruction::FAdd: return FADD; case Instruction::FSub: return FSUB; case Instruction::FMul: return FMUL; case Instruction::FDiv: return FDIV; } return -1; }
static void decode(Fn *f) {
  f->decoded = true; Function *F = f->F; std::unordered_map<const Value *, int> slot; int n = 0; std::map<std::pair<u64, E>, int> cidx;
  for (auto &a : F->args()) { f->argslot.push_back(n); slot[&a] = n; n += std::max(1, leaves(a.getType())); }
  for (auto &I : instructions(*F)) if (!I.getType()->isVoidTy()) { slot[&I] = n; n += std::max(1, leaves(I.getType())); }
  int tmp0 = n; f->nslots = n;
  auto op = [&](const Value *v) -> int {
    auto it = slot.find(v); if (it != slot.end()) return it->second;
    const Constant *c = dyn_cast<Constant>(v); if (!c) return -1 - 0;
    Val k = constVal(c); auto p = std::make_pair(k.c, k.e); auto i = cidx.find(p); int x; if (i == cidx.end()) { x = f->consts.size(); f->consts.push_back(k); cidx[p] = x; } else x = i->second; return ~x; };
  f->consts.push_back(C(0)); cidx[{ 0, (E)0 }] = 0;
  std::unordered_map<const BasicBlock *, u32> bpc; struct Fix { Edge *e; const BasicBlock *from, *to; }; std::vector<Fix> fix;
  for (auto &B : *F) {
    bpc[&B] = f->code.size();
    for (auto &I : B) {
      if (isa<PHINode>(I)) continue;
      Ins i; memset(&i, 0, sizeof i); i.dst = slot.count(&I) ? slot[&I] : -1; i.w = width(I.getType());
      auto bad = [&](const char *why) { std::string t; raw_string_ostream os(t); I.print(os); i.op = I_BAD; i.x = new std::string(std::string(why) + ": " + t); };
      switch (I.getOpcode()) {
      case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: i.op = I_DIV; i.sub = binop(I.getOpcode()); i.a = op(I.getOperand(0)); i.b = op(I.getOperand(1)); break;
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
        if (!I.getType()->isIntegerTy() || i.w > 64) { bad("type"); break; } i.op = I_BIN; i.sub = binop(I.getOpcode()); i.a = op(I.getOperand(0)); i.b = op(I.getOperand(1)); break;
      case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: if (!I.getType()->isDoubleTy()) { bad("fp type"); break; } i.op = I_FBIN; i.sub = binop(I.getOpcode()); i.a = op(I.getOperand(0)); i.b = op(I.getOperand(1)); break;
      case Instruction::FNeg: i.op = I_FNEG; i.a = op(I.getOperand(0)); break;
      case Instruction::ICmp: i.op = I_CMP; i.sub = cast<CmpInst>(I).getPredicate(); i.w2 = width(I.getOperand(0)->getType()); i.a = op(I.getOperand(0)); i.b = op(I.getOperand(1)); break;
      case Instruction::FCmp: i.op = I.getOperand(0)->getType()->isX86_FP80Ty() ? I_F80 : I_FCMP; i.sub = cast<CmpInst>(I).getPredicate(); i.a = op(I.getOperand(0)); i.b = op(I.getOperand(1)); break;
      case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::FPExt: case Instruction::FPTrunc:
        i.op = I_CAST; i.sub = I.getOpcode(); i.w2 = width(I.getOperand(0)->getType()); i.a = op(I.getOperand(0)); if (I.getType()->isFloatTy() || I.getOperand(0)->getType()->isFloatTy()) bad("float"); break;
      case Instruction::Select: i.op = I_SELECT; i.a = op(I.getOperand(0)); i.b = op(I.getOperand(1)); i.c = op(I.getOperand(2)); if (leaves(I.getType()) != 1) bad("aggregate select"); break;
      case Instruction::Freeze: i.op = I_COPY; i.a = op(I.getOperand(0)); i.imm = 1; break;
      case Instruction::Load: i.op = I_LOAD; i.a = op(I.getOperand(0)); i.w2 = (i.w + 7) / 8; if (leaves(I.getType()) != 1 || i.w > 64) bad("load type"); break;
      case Instruction::Store: i.op = I_STORE; i.a = op(I.getOperand(1)); i.b = op(I.getOperand(0)); i.w = width(I.getOperand(0)->getType()); i.w2 = (i.w + 7) / 8; if (leaves(I.getOperand(0)->getType()) != 1 || i.w > 64) bad("store type"); break;
      case Instruction::GetElementPtr: { i.op = I_GEP; GepX *g = new GepX(); g->off = 0; i.a = op(I.getOperand(0));
          for (auto gi = gep_type_begin(&I), ge = gep_type_end(&I); gi != ge; ++gi) { const Value *ix = gi.getOperand();
            if (StructType *st = gi.getStructTypeOrNull()) g->off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
            else { u64 sz = DL->getTypeAllocSize(gi.getIndexedType()); if (auto *ci = dyn_cast<ConstantInt>(ix)) g->off += ci->getSExtValue() * sz; else g->idx.push_back({ op(ix), sz, width(ix->getType()) }); } }
          i.x = g; break; }
      case Instruction::Alloca: { auto &A = cast<AllocaInst>(I); i.op = I_ALLOCA; i.imm = DL->getTypeAllocSize(A.getAllocatedType()); i.a = op(A.getArraySize()); i.w2 = std::max<u64>(16, A.getAlign().value()); break; }
      case Instruction::Br: { auto &Br = cast<BranchInst>(I); if (Br.isUnconditional()) { i.op = I_BR; Edge *e = new Edge; i.x = e; fix.push_back({ e, &B, Br.getSuccessor(0) }); } else { i.op = I_CBR; i.a = op(Br.getCondition()); Edge *e = new Edge[2]; i.x = e; fix.push_back({ &e[1], &B, Br.getSuccessor(0) }); fix.push_back({ &e[0], &B, Br.getSuccessor(1) }); } break; }
      case Instruction::Switch: { auto &S = cast<SwitchInst>(I); i.op = I_SWITCH; i.a = op(S.getCondition()); i.w2 = width(S.getCondition()->getType()); SwitchX *x = new SwitchX; i.x = x; fix.push_back({ &x->def, &B, S.getDefaultDest() }); std::map<const BasicBlock *, int> tg; for (auto &c : S.cases()) if (!tg.count(c.getCaseSuccessor())) { int k = tg.size(); tg[c.getCaseSuccessor()] = k; }
          x->tg.resize(tg.size()); for (auto &p : tg) fix.push_back({ &x->tg[p.second], &B, p.first }); for (auto &c : S.cases()) x->cases.push_back({ c.getCaseValue()->getZExtValue(), tg[c.getCaseSuccessor()] }); break; }
      case Instruction::Ret: { i.op = I_RET; auto *rv = cast<ReturnInst>(I).getReturnValue(); i.a = rv ? op(rv) : -1; i.imm = rv ? leaves(rv->getType()) : 0; if (rv && i.imm > 1 && isa<Constant>(rv)) bad("aggregate const ret"); break; }
      case Instruction::Unreachable: i.op = I_UNREACH; break;
      case Instruction::ExtractValue: { auto &ev = cast<ExtractValueInst>(I); Type *t = ev.getAggregateOperand()->getType(); int off = 0; for (unsigned ix : ev.indices()) { if (auto *st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < ix; k++) off += leaves(st->getElementType(k)); t = st->getElementType(ix); } else { off += ix * leaves(t->getArrayElementType()); t = t->getArrayElementType(); } }
          i.op = I_COPY; i.a = op(ev.getAggregateOperand()); if (i.a >= 0) i.a += off; i.imm = leaves(I.getType()); break; }
      case Instruction::InsertValue: { auto &iv = cast<InsertValueInst>(I); Type *t = iv.getType(); int off = 0; for (unsigned ix : iv.indices()) { if (auto *st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < ix; k++) off += leaves(st->getElementType(k)); t = st->getElementType(ix); } else { off += ix * leaves(t->getArrayElementType()); t = t->getArrayElementType(); } }
          Ins c = i; c.op = I_COPY; c.a = op(iv.getAggregateOperand()); c.imm = leaves(iv.getType()); if (c.a < 0) { c.imm = 0; } f->code.push_back(c); i.op = I_COPY; i.dst += off; i.a = op(iv.getInsertedValueOperand()); i.imm = leaves(iv.getInsertedValueOperand()->getType()); break; }
      case Instruction::Call: { auto &CI = cast<CallInst>(I); CallX *x = new CallX(); i.x = x; i.op = I_CALL; x->fn = 0; x->callee = -1; x->rleaf = leaves(I.getType()); x->vararg = CI.getFunctionType()->isVarArg();
          if (CI.isInlineAsm()) { i.op = I_COPY; i.imm = 0; std::string a = cast<InlineAsm>(CI.getCalledOperand())->getAsmString(); if (a != "subq $$8,%rsp" && a != "") bad("inline asm"); break; }
          if (isa<DbgInfoIntrinsic>(CI)) { i.op = I_COPY; i.imm = 0; break; }
          if (auto *ii = dyn_cast<IntrinsicInst>(&CI)) { auto id = ii->getIntrinsicID(); if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::donothing) { i.op = I_COPY; i.imm = 0; break; } }
          if (Function *cf = dyn_cast<Function>(CI.getCalledOperand()->stripPointerCasts())) x->fn = fnFor(cf); else x->callee = op(CI.getCalledOperand());
          for (auto &a : CI.args()) { if (a->getType()->isMetadataTy()) continue; int k = op(a.get()); int lv = leaves(a->getType()); if (CI.isByValArgument(&a - CI.arg_begin())) bad("byval"); x->args.push_back(k); x->aw.push_back(a->getType()->isDoubleTy() ? 0x80 | 64 : width(a->getType())); if (lv != 1) bad("aggregate arg"); }
          break; }
      default: bad("opcode");
      }
      f->code.push_back(i);
    }
  }
  for (auto &x : fix) { x.e->pc = bpc[x.to]; for (auto &P : x.to->phis()) { int d = slot[&P]; int sv = op(P.getIncomingValueForBlock(x.from)); int lv = leaves(P.getType()); for (int k = 0; k < lv; k++) x.e->mv.push_back({ d + k, sv >= 0 ? sv + k : sv }); } }
  (void)tmp0;
}
#include "asmload.h"
#include "interp.h"
#include "intrin.h"
#include "main.h"
