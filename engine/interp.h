// ---------------------------------------------------------------- interpreter
static void pushx86(State &s, u64 target, int dst) {   // a frame running mapper code
  Frame f; f.fn = 0; f.pc = (target - XC_BASE) / 8; f.base = s.regs.size(); f.dst = dst; f.sp = s.sp; f.uid = ++s.uid; f.alo = 0; f.cc = 0; f.va = 0;
  s.regs.resize(f.base + 36, C(0)); u64 rsp = (s.sp - 64) & ~15ull; s.sp = rsp - 4096; s.mem.setacc(s.sp, 4096, true); s.regs[f.base + 4] = C(rsp); s.fr.push_back(f);
}
static void callx86(State &s, u64 a, const std::vector<Val> &args, int dst) { pushx86(s, a, dst); static const int gr[6] = { 7, 6, 2, 1, 8, 9 }; for (size_t k = 0; k < args.size() && k < 6; k++) s.regs[s.fr.back().base + gr[k]] = args[k]; }
static bool pushfn(State &s, Fn *fn, const std::vector<Val> &args, const u8 *aw, int dst) {
  if (!fn->decoded) decode(fn);
  sh->fnhit[fn->id & 65535] |= 1 << s.phase;
  Frame f; f.fn = fn; f.pc = 0; f.base = s.regs.size(); f.dst = dst; f.sp = s.sp; f.uid = ++s.uid; f.alo = 0; f.cc = 0; f.va = 0;
  if (s.fr.size() > 20000) return false;
  s.regs.resize(f.base + fn->nslots, C(0));
  for (int i = 0; i < fn->nargs && i < (int)args.size(); i++) s.regs[f.base + fn->argslot[i]] = args[i];
  if (fn->vararg) { int nv = args.size() - fn->nargs; u64 sz = 8 * std::max(nv, 1); s.sp = (s.sp - sz - 32) & ~15ull; f.va = s.sp; s.mem.setacc(f.va, sz, true); for (int i = 0; i < nv; i++) { int w = aw ? aw[fn->nargs + i] & 0x7f : 64; Val v = args[fn->nargs + i]; if (v.e && v.e->w < 64) v = V(ZExt(v.e, 64)); (void)w; mwrite_raw(s.mem, f.va + 8 * i, 8, v); } }
  s.fr.push_back(f); return true;
}
static void popframe(State &s) { Frame &f = s.fr.back(); if (f.alo) s.mem.setacc(f.alo, f.sp - f.alo, false); s.sp = f.sp; s.regs.resize(f.base); s.fr.pop_back(); }
static Val g_res2;
// deliver a return value to the frame below
static void deliver(State &s, Fn *fn, int dst, const Val *v, int n) {
  if (s.fr.empty()) return; Frame &c = s.fr.back();
  if (c.fn) { if (dst >= 0) for (int i = 0; i < n; i++) s.regs[c.base + dst + i] = v[i]; }
  else if (n) { if (fn && fn->retfp) s.regs[c.base + 16] = v[0]; else { Val r = v[0]; if (r.e && r.e->w < 64) r = V(ZExt(r.e, 64)); s.regs[c.base] = r; } }
}
static Val binval(int op, int w, const Val &a, const Val &b) {
  if (!a.e && !b.e) { u64 M = mask(w), x = a.c, y = b.c; switch (op) { case ADD: return C((x + y) & M); case SUB: return C((x - y) & M); case AND: return C(x & y); case OR: return C(x | y); case XOR: return C(x ^ y); case MUL: return C((x * y) & M);
      case SHL: return C(y >= (u64)w ? 0 : (x << y) & M); case LSHR: return C(y >= (u64)w ? 0 : x >> y); case ASHR: return C((u64)(sx(x, w) >> (y >= (u64)w ? w - 1 : y)) & M); } return C(foldop(op, w, x, y, 0, 0, w, w)); }
  return V(mk(op, w, X(a, w), X(b, w)));
}
static Val cmpval(int pred, int w, const Val &a, const Val &b) {
  if (!a.e && !b.e) { u64 x = a.c, y = b.c; i64 p = sx(x, w), q = sx(y, w); bool r = false; switch (pred) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_SGT: r = p > q; break; case CmpInst::ICMP_SGE: r = p >= q; break; case CmpInst::ICMP_SLT: r = p < q; break; case CmpInst::ICMP_SLE: r = p <= q; break; } return C(r); }
  E x = X(a, w), y = X(b, w); switch (pred) { case CmpInst::ICMP_EQ: return V(Eq(x, y)); case CmpInst::ICMP_NE: return V(Not(Eq(x, y))); case CmpInst::ICMP_UGT: return V(mk(ULT, 1, y, x)); case CmpInst::ICMP_UGE: return V(mk(ULE, 1, y, x)); case CmpInst::ICMP_ULT: return V(mk(ULT, 1, x, y)); case CmpInst::ICMP_ULE: return V(mk(ULE, 1, x, y)); case CmpInst::ICMP_SGT: return V(mk(SLT, 1, y, x)); case CmpInst::ICMP_SGE: return V(mk(SLE, 1, y, x)); case CmpInst::ICMP_SLT: return V(mk(SLT, 1, x, y)); case CmpInst::ICMP_SLE: return V(mk(SLE, 1, x, y)); } return C(0);
}
static E fpcmp(int pred, E x, E y, int LT, int LE, int EQ_) {
  E lt = mk(LT, 1, x, y), eq = mk(EQ_, 1, x, y), gt = mk(LT, 1, y, x);
  E le = LE ? mk(LE, 1, x, y) : Or1(lt, eq), ge = LE ? mk(LE, 1, y, x) : Or1(gt, eq);
  E ord = LE ? And1(mk(EQ_, 1, x, x), mk(EQ_, 1, y, y)) : Or1(Or1(lt, gt), eq), uno = Not(ord);
  switch (pred) { case CmpInst::FCMP_OEQ: return eq; case CmpInst::FCMP_OGT: return gt; case CmpInst::FCMP_OGE: return ge; case CmpInst::FCMP_OLT: return lt; case CmpInst::FCMP_OLE: return le; case CmpInst::FCMP_ONE: return Or1(lt, gt); case CmpInst::FCMP_ORD: return ord; case CmpInst::FCMP_UNO: return uno;
  case CmpInst::FCMP_UEQ: return Or1(uno, eq); case CmpInst::FCMP_UGT: return Not(le); case CmpInst::FCMP_UGE: return Not(lt); case CmpInst::FCMP_ULT: return Not(ge); case CmpInst::FCMP_ULE: return Not(gt); case CmpInst::FCMP_UNE: return Not(eq); case CmpInst::FCMP_FALSE: return K(0, 1); } return K(1, 1);
}
static void takeEdge(State &s, Frame &f, Edge &e) {
  size_t n = e.mv.size(); Val *r = &s.regs[f.base];
  if (n == 1) { auto &m = e.mv[0]; r[m.first] = m.second >= 0 ? r[m.second] : f.fn->consts[~m.second]; }
  else if (n) { Val t[64]; std::vector<Val> big; Val *p = t; if (n > 64) { big.resize(n); p = big.data(); } for (size_t i = 0; i < n; i++) p[i] = e.mv[i].second >= 0 ? r[e.mv[i].second] : f.fn->consts[~e.mv[i].second]; for (size_t i = 0; i < n; i++) r[e.mv[i].first] = p[i]; }
  f.pc = e.pc;
}
static Val fval(Val v) { return v; }
// run until the path ends or stops; returns when the state is finished (caller deletes it)
static void run(State &s) {
  u64 ic = 0; std::string err; std::vector<Val> args;
#define FAILP(kind, msg) do { INC(instrs, ic); s.icount += ic; finish(s, kind, msg); return; } while (0)
  for (;;) {
    if (s.fr.empty()) FAILP("ok", "returned");
    if ((++ic & 0xffff) == 0) { s.icount += ic; INC(instrs, ic); ic = 0; if (s.phase && s.icount > pathBudget) FAILP("incomplete", "instruction budget"); if (now() > deadline || sh->stop) { INC(unexplored, 1); return; } }
    Frame &f = s.fr.back();
    if (!f.fn) { // ------------------------------------------------ x86
      if (f.pc >= xcode.size()) FAILP("memerr", "jump outside of code");
      XI &x = xcode[f.pc]; Val *r = &s.regs[f.base]; sh->xhit[f.pc & ((1 << 20) - 1)] = 1;
      auto ea = [&](const XO &o) -> Val { if (o.r == 255) return C((u64)o.d); return binval(ADD, 64, r[o.r], C((u64)o.d)); };
      bool bad = false;
      auto rd = [&](const XO &o) -> Val { switch (o.k) { case O_REG: case O_XMM: return r[o.r]; case O_IMM: return C((u64)o.d); case O_MEM: { Val v = C(0); Val a = ea(o); if (!load(s, a, 8, v, err)) bad = true; return v; } } return C(0); };
      auto wrv = [&](const XO &o, Val v) { if (o.k == O_MEM) { if (!store(s, ea(o), 8, v, err)) bad = true; } else s.regs[s.fr.back().base + o.r] = v; };
      auto jump = [&](u64 t) -> bool { if (t >= XC_BASE && t < XC_BASE + 8 * xcode.size() && !(t & 7)) { s.fr.back().pc = (t - XC_BASE) / 8; return true; }
        if (t >= FN_BASE && t < FN_BASE + 16 * fns.size()) { Fn *fn = fns[(t - FN_BASE) / 16]; args.clear(); if (fn->F) return pushfn(s, fn, args, 0, -1); }
        char b[64]; snprintf(b, 64, "jump to 0x%llx", (unsigned long long)t); err = b; return false; };
      auto cond = [&](int cc) -> Val { Val a = r[32], b = r[33]; switch (x.op) { case X_JE: return cmpval(CmpInst::ICMP_EQ, 64, a, b); case X_JNE: return cmpval(CmpInst::ICMP_NE, 64, a, b); case X_JG: return cmpval(CmpInst::ICMP_SGT, 64, a, b); case X_JGE: return cmpval(CmpInst::ICMP_SGE, 64, a, b); case X_JL: return cmpval(CmpInst::ICMP_SLT, 64, a, b); default: return cmpval(CmpInst::ICMP_SLE, 64, a, b); } };
      switch (x.op) {
      case X_MOV: { Val v = rd(x.a); if (!bad) wrv(x.b, v); break; }
      case X_MOVSD: { Val v = rd(x.a); if (!bad) wrv(x.b, v); break; }
      case X_LEA: wrv(x.b, ea(x.a)); break;
      case X_ADD: { Val v = rd(x.a), w = rd(x.b); if (!bad) wrv(x.b, binval(ADD, 64, w, v)); break; }
      case X_SUB: { Val v = rd(x.a), w = rd(x.b); if (!bad) wrv(x.b, binval(SUB, 64, w, v)); break; }
      case X_XOR: { Val v = rd(x.a), w = rd(x.b); if (!bad) wrv(x.b, binval(XOR, 64, w, v)); break; }
      case X_CMP: { Val v = rd(x.a), w = rd(x.b); r[32] = w; r[33] = v; break; }
      case X_TEST: { Val v = rd(x.a), w = rd(x.b); r[32] = binval(AND, 64, w, v); r[33] = C(0); break; }
      case X_JE: case X_JNE: case X_JG: case X_JGE: case X_JL: case X_JLE: { u64 t = x.t; int b = branch(s, cond(0), [&](State &o, int side) { if (side) { if (t >= XC_BASE && t < XC_BASE + 8 * xcode.size()) o.fr.back().pc = (t - XC_BASE) / 8; else die("jcc to C"); } else o.fr.back().pc++; }); if (b) { if (!jump(t)) FAILP("memerr", err); } else s.fr.back().pc++; continue; }
      case X_JMP: if (!jump(x.t)) FAILP("memerr", err); continue;
      case X_JMPI: { Val t = rd(x.a); if (bad) FAILP("memerr", err); u64 tt = concretize(s, t); if (!jump(tt)) FAILP("memerr", err); continue; }
      case X_PUSH: { u64 sp = r[4].c - 8; Val v = rd(x.a); r[4] = C(sp); s.mem.setacc(sp, 8, true); mwrite_raw(s.mem, sp, 8, v); break; }
      case X_POP: { Val v; u64 sp = r[4].c; if (!mread(s.mem, sp, 8, v)) { bad = true; break; } r[4] = C(sp + 8); r[x.a.r] = v; break; }
      case X_RET: { Frame ff = f; Val v = r[0]; s.sp = ff.sp; s.regs.resize(ff.base); s.fr.pop_back(); deliver(s, 0, ff.dst, &v, 1); continue; }
      case X_CALL: { u64 t = x.t ? x.t : concretize(s, rd(x.a)); if (!(t >= FN_BASE && t < FN_BASE + 16 * fns.size())) FAILP("memerr", "call of a non function");
          Fn *fn = fns[(t - FN_BASE) / 16]; if (!fn->F && !fn->in) FAILP("incomplete", "external " + fn->name);
          r = &s.regs[s.fr.back().base]; args.clear(); int gi = 0, xi = 0, st = 0; static const int gr[6] = { 7, 6, 2, 1, 8, 9 };
          for (int i = 0; i < fn->nargs; i++) { if (fn->argfp[i]) { if (xi < 8) args.push_back(r[16 + xi++]); else { Val v; mread(s.mem, r[4].c + 8 * st++, 8, v); args.push_back(v); } }
            else { Val v; if (gi < 6) v = r[gr[gi++]]; else { if (!mread(s.mem, r[4].c + 8 * st++, 8, v)) FAILP("memerr", "stack argument"); } int w = fn->F ? width(fn->F->getFunctionType()->getParamType(i)) : 64; if (w < 64) v = v.e ? V(Extract(v.e, 0, w)) : C(v.c & mask(w)); args.push_back(v); } }
          if (fn->in) { Val res = C(0); Ins dummy; memset(&dummy, 0, sizeof dummy); dummy.dst = 0; int k = fn->in(s, dummy, args, res); if (k == 2) { INC(instrs, ic); return; } if (k == 0) { Frame &ff = s.fr.back(); if (fn->retfp) s.regs[ff.base + 16] = res; else s.regs[ff.base] = res.e && res.e->w < 64 ? V(ZExt(res.e, 64)) : res; ff.pc++; } continue; }
          s.fr.back().pc++; if (!pushfn(s, fn, args, 0, 0)) FAILP("incomplete", "C stack"); continue; }
      }
      if (bad) FAILP("memerr", err);
      s.fr.back().pc++;
      continue;
    }
    // ------------------------------------------------ LLVM
    Fn *fn = f.fn; Ins &i = fn->code[f.pc]; Val *r = &s.regs[f.base];
#define OPV(k) ((k) >= 0 ? r[k] : fn->consts[~(k)])
    switch (i.op) {
    case I_BIN: r[i.dst] = binval(i.sub, i.w, OPV(i.a), OPV(i.b)); f.pc++; break;
    case I_DIV: { Val b = OPV(i.b); bool z; if (!b.e) z = b.c == 0; else z = branch(s, V(Eq(b.e, K(0, i.w))), [](State &, int) {}); Frame &ff = s.fr.back(); if (z) FAILP("memerr", "division by zero"); r = &s.regs[ff.base];
        if (i.sub == SDIV || i.sub == SREM) { Val a = OPV(i.a); bool o = branch(s, V(And1(Eq(X(a, i.w), K(1ull << (i.w - 1), i.w)), Eq(X(b, i.w), K(~0ull, i.w)))), [](State &, int) {}); if (o) FAILP("memerr", "signed division overflow"); }
        r[i.dst] = binval(i.sub, i.w, OPV(i.a), OPV(i.b)); ff.pc++; break; }
    case I_CMP: r[i.dst] = cmpval(i.sub, i.w2, OPV(i.a), OPV(i.b)); f.pc++; break;
    case I_FCMP: r[i.dst] = V(fpcmp(i.sub, X(OPV(i.a), 64), X(OPV(i.b), 64), FLT, FLE, FEQ)); f.pc++; break;
    case I_F80: r[i.dst] = V(fpcmp(i.sub, OPV(i.a).e, OPV(i.b).e, F80LT, 0, F80EQ)); f.pc++; break;
    case I_FBIN: { Val a = OPV(i.a), b = OPV(i.b); r[i.dst] = V(mk(i.sub, 64, X(a, 64), X(b, 64))); f.pc++; break; }
    case I_FNEG: r[i.dst] = binval(XOR, 64, OPV(i.a), C(1ull << 63)); f.pc++; break;
    case I_CAST: { Val a = OPV(i.a); switch (i.sub) {
        case Instruction::Trunc: r[i.dst] = a.e ? V(Extract(a.e, 0, i.w)) : C(a.c & mask(i.w)); break;
        case Instruction::ZExt: r[i.dst] = a.e ? V(ZExt(a.e, i.w)) : a; break;
        case Instruction::SExt: r[i.dst] = a.e ? V(SExt(a.e, i.w)) : C((u64)sx(a.c, i.w2) & mask(i.w)); break;
        case Instruction::SIToFP: r[i.dst] = i.w == 80 ? Val{ 0, mk0(F80I, 64, SExt(X(a, i.w2), 64)) } : V(mk(SI2F, 64, X(a, i.w2))); break;
        case Instruction::UIToFP: r[i.dst] = V(mk(UI2F, 64, X(a, i.w2))); break;
        case Instruction::FPToSI: r[i.dst] = V(mk(F2SI, i.w, X(a, 64))); break;
        case Instruction::FPToUI: r[i.dst] = V(mk(F2SI, i.w, X(a, 64))); break;
        case Instruction::FPExt: r[i.dst] = Val{ 0, mk0(F80D, 64, X(a, 64)) }; break;
        case Instruction::FPTrunc: FAILP("incomplete", "fptrunc"); 
        default: r[i.dst] = a; } f.pc++; break; }
    case I_SELECT: { Val c = OPV(i.a); if (c.e) { E e = simp(s, c.e); c = V(e); if (c.e) { auto k = s.known.find(e->id); if (k != s.known.end()) c = C(k->second); } } if (!c.e) r[i.dst] = c.c & 1 ? OPV(i.b) : OPV(i.c); else { Val x = OPV(i.b), y = OPV(i.c); r[i.dst] = V(Ite(c.e, X(x, i.w), X(y, i.w))); } f.pc++; break; }
    case I_COPY: { if (i.dst >= 0) for (u64 k = 0; k < i.imm; k++) r[i.dst + k] = i.a >= 0 ? r[i.a + k] : fn->consts[~i.a]; f.pc++; break; }
    case I_LOAD: { Val a = OPV(i.a); Val v; if (!load(s, a, i.w2, v, err)) FAILP("memerr", err); if (i.w & 7) v = v.e ? V(Extract(v.e, 0, i.w)) : C(v.c & mask(i.w)); Frame &ff = s.fr.back(); s.regs[ff.base + i.dst] = v; ff.pc++; break; }
    case I_STORE: { Val a = OPV(i.a), v = OPV(i.b); if (v.e && v.e->w < i.w2 * 8) v = V(ZExt(v.e, i.w2 * 8)); if (!store(s, a, i.w2, v, err)) FAILP("memerr", err); s.fr.back().pc++; break; }
    case I_GEP: { GepX *g = (GepX *)i.x; Val a = binval(ADD, 64, OPV(i.a), C(g->off)); for (auto &t : g->idx) { Val x = OPV(std::get<0>(t)); int w = std::get<2>(t); if (w < 64) x = x.e ? V(SExt(x.e, 64)) : C((u64)sx(x.c, w)); a = binval(ADD, 64, a, binval(MUL, 64, x, C(std::get<1>(t)))); } r[i.dst] = a; f.pc++; break; }
    case I_ALLOCA: { Val n = OPV(i.a); u64 cnt = concretize(s, n); Frame &ff = s.fr.back(); u64 sz = i.imm * cnt; s.sp = (s.sp - sz - 16) & ~(u64)(i.w2 - 1); if (s.sp < STACK_TOP - STACK_SIZE) FAILP("incomplete", "C stack overflow"); s.mem.setacc(s.sp, sz, true); ff.alo = s.sp; s.regs[ff.base + i.dst] = C(s.sp); ff.pc++; break; }
    case I_BR: takeEdge(s, f, *(Edge *)i.x); break;
    case I_CBR: { Edge *e = (Edge *)i.x; Val c = OPV(i.a); int b = branch(s, c, [&](State &o, int side) { takeEdge(o, o.fr.back(), e[side]); }); takeEdge(s, s.fr.back(), e[b]); break; }
    case I_SWITCH: { SwitchX *x = (SwitchX *)i.x; Val c = OPV(i.a); if (c.e) c = V(simp(s, c.e));
        if (!c.e) { Edge *e = &x->def; for (auto &k : x->cases) if (k.first == c.c) { e = &x->tg[k.second]; break; } takeEdge(s, f, *e); break; }
        int nt = x->tg.size(); E any = K(0, 1); bool done = false;
        // ranges per target
        for (int t = 0; t < nt && !done; t++) { E g = K(0, 1); std::vector<u64> vs; for (auto &k : x->cases) if (k.second == t) vs.push_back(k.first); std::sort(vs.begin(), vs.end());
          for (size_t p = 0; p < vs.size();) { size_t q = p; while (q + 1 < vs.size() && vs[q + 1] == vs[q] + 1) q++; E e = p == q ? Eq(c.e, K(vs[p], i.w2)) : And1(mk(ULE, 1, K(vs[p], i.w2), c.e), mk(ULE, 1, c.e, K(vs[q], i.w2))); g = Or1(g, e); p = q + 1; }
          int b = branch(s, V(g), [&](State &o, int side) { if (side) takeEdge(o, o.fr.back(), x->tg[t]); });
          if (b) { takeEdge(s, s.fr.back(), x->tg[t]); done = true; } }
        (void)any; if (!done) takeEdge(s, s.fr.back(), x->def); break; }
    case I_CALL: { CallX *x = (CallX *)i.x; Fn *cf = x->fn;
        if (!cf) { Val t = OPV(x->callee); u64 a = concretize(s, t); if (a >= FN_BASE && a < FN_BASE + 16 * fns.size() && !(a & 15)) cf = fns[(a - FN_BASE) / 16]; else if (a >= XC_BASE && a < XC_BASE + 8 * xcode.size() && !(a & 7)) { args.clear(); r = &s.regs[s.fr.back().base]; for (int k : x->args) args.push_back(OPV(k)); s.fr.back().pc++; callx86(s, a, args, i.dst); break; } else { char b[64]; snprintf(b, 64, "call of 0x%llx", (unsigned long long)a); FAILP("memerr", b); } r = &s.regs[s.fr.back().base]; }
        args.clear(); for (int k : x->args) args.push_back(OPV(k));
        if (cf->in) { Val res = C(0); int k = cf->in(s, i, args, res); if (k == 2) { INC(instrs, ic); return; } if (k == 0) { Frame &ff = s.fr.back(); if (i.dst >= 0) { if (i.w && i.w < 64) res = res.e ? V(res.e->w > i.w ? Extract(res.e, 0, i.w) : res.e) : C(res.c & mask(i.w)); s.regs[ff.base + i.dst] = res; if (x->rleaf == 2) s.regs[ff.base + i.dst + 1] = g_res2; } ff.pc++; } break; }
        if (!cf->F) { u64 xa = lookup(cf->name); if (xa >= XC_BASE && xa < XC_BASE + 8 * xcode.size()) { s.fr.back().pc++; callx86(s, xa, args, i.dst); break; } FAILP("incomplete", "external " + cf->name); }
        s.fr.back().pc++; if (!pushfn(s, cf, args, x->aw.data(), i.dst)) FAILP("incomplete", "C stack"); break; }
    case I_RET: { Val t[16]; int n = i.imm; for (int k = 0; k < n && k < 16; k++) t[k] = i.a >= 0 ? r[i.a + k] : fn->consts[~i.a]; int dst = f.dst; popframe(s); deliver(s, fn, dst, t, n); break; }
    case I_UNREACH: FAILP("memerr", "unreachable reached");
    case I_BAD: FAILP("incomplete", *(std::string *)i.x);
    }
  }
}
