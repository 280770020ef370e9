// ---------------------------------------------------------------- driver
static double lastFork;
static void splitWork() {
  while (work.size() > 1) {
    long a = sh->active; if (a >= maxWorkers || now() < lastFork + 0.03) return;
    if (!__sync_bool_compare_and_swap(&sh->active, a, a + 1)) continue;
    fflush(0); pid_t p = fork();
    if (p < 0) { INC(active, -1); return; }
    size_t n = work.size() / 2; lastFork = now();
    if (p == 0) { while (work.size() > n) { delete work.back(); work.pop_back(); } return; }   // child keeps the older half
    for (size_t k = 0; k < n; k++) { delete work.front(); work.pop_front(); }
  }
}
int main(int argc, char **argv) {
  t0 = now(); double limit = 600; std::string outf = "gsym.out", linkf; std::vector<std::string> pre; bool initonly = false; std::string fnlist;
  for (int k = 1; k < argc; k++) { std::string o = argv[k]; auto nx = [&]() { return std::string(argv[++k]); };
    if (o == "-o") outf = nx(); else if (o == "-t") limit = atof(nx().c_str()); else if (o == "-j") maxWorkers = atoi(nx().c_str()); else if (o == "-v") verbose++; else if (o == "-b") pathBudget = strtoull(nx().c_str(), 0, 0); else if (o == "-s") maxSamples = atoi(nx().c_str()); else if (o == "-q") qtimeout = atoi(nx().c_str()); else if (o == "-V") maxviol = atoi(nx().c_str()); else if (o == "-F") fnlist = nx(); else linkf = o; }
  zinit(); initIntrins();
  sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset(sh, 0, sizeof *sh); sh->active = 1; deadline = t0 + limit;
  outfd = open(outf.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644); if (outfd < 0) die("cannot write " + outf);
  memset(&zero_page, 0, sizeof zero_page); zero_page.ref = 1 << 30; memset(zero_page.acc, 255, sizeof zero_page.acc);
  Mem m0; M0 = &m0; std::ifstream lf(linkf); if (!lf) die("cannot read " + linkf); std::string l; std::vector<std::pair<char, int>> order;
  while (std::getline(lf, l)) { if (l.empty()) continue; char k = l[0]; std::string p = l.substr(2);
    if (k == 'A') { asmPass1(p); order.push_back({ 'A', (int)asmfiles.size() - 1 }); }
    else if (k == 'B') { auto mb = MemoryBuffer::getFile(p); if (!mb) die("cannot read " + p); auto me = parseBitcodeFile((*mb)->getMemBufferRef(), ctx); if (!me) { die("bad bitcode " + p + ": " + toString(me.takeError())); } mods.push_back(std::move(*me)); modname.push_back(p); order.push_back({ 'B', (int)mods.size() - 1 }); } }
  if (mods.empty()) die("no modules"); DL = &mods[0]->getDataLayout();
  // symbols: strong definitions first
  std::map<std::string, const GlobalVariable *> common;
  for (auto &M : mods) {
    for (auto &F : *M) if (!F.isDeclaration() && !F.hasLocalLinkage()) { Fn *f = getFn(F.getName().str()); if (f->F) die("duplicate function " + f->name); f->F = &F; sigFn(f, F.getFunctionType()); fnOf[&F] = f; symtab[f->name] = f->addr; }
    for (auto &G : M->globals()) { if (G.isDeclaration()) continue; std::string n = G.getName().str(); if (n.compare(0, 5, "llvm.") == 0) continue;
      bool loc = G.hasLocalLinkage(); u64 sz = DL->getTypeAllocSize(G.getValueType()), al = std::max<u64>(G.getAlign() ? G.getAlign()->value() : 1, 8);
      if (!loc && symtab.count(n)) { if (G.hasCommonLinkage() || common.count(n)) { gaddr[&G] = symtab[n]; if (G.hasCommonLinkage()) continue; if (G.hasInitializer() && !G.getInitializer()->isNullValue()) {} continue; } die("duplicate global " + n); }
      u64 a = galloc(sz, al); gaddr[&G] = a; datasym[a] = n; if (!loc) { symtab[n] = a; if (G.hasCommonLinkage()) common[n] = &G; } }
  }
  for (auto &M : mods) for (auto &F : *M) if (F.isDeclaration()) { std::string n = F.getName().str(); if (n.compare(0, 5, "llvm.") == 0) { Fn *f = newFn(n); f->in = llvmIntrin(n); sigFn(f, F.getFunctionType()); fnOf[&F] = f; } }
  for (auto &p : intrins) { auto it = fnByName.find(p.first); if (it != fnByName.end()) it->second->in = p.second; }
  for (auto &M : mods) for (auto &G : M->globals()) if (G.hasInitializer() && !G.hasCommonLinkage() && gaddr.count(&G) && G.getName().substr(0, 5) != "llvm.") initMem(gaddr[&G], G.getInitializer());
  for (auto *A : asmfiles) asmPass2(A);
  // constructors in link order, then main
  std::vector<u64> ctors;
  for (auto &o : order) { if (o.first == 'A') { if (asmfiles[o.second]->ctor) ctors.push_back(asmfiles[o.second]->ctor); }
    else if (auto *g = mods[o.second]->getGlobalVariable("llvm.global_ctors")) { if (auto *ca = dyn_cast<ConstantArray>(g->getInitializer())) for (auto &e : ca->operands()) ctors.push_back(constAddr(cast<Constant>(cast<Constant>(e)->getOperand(1)))); } }
  if (verbose) fprintf(stderr, "gsym: loaded %zu modules, %zu asm files, %zu instructions, %zu ctors in %.2fs\n", mods.size(), asmfiles.size(), xcode.size(), ctors.size(), now() - t0);
  u64 argv0 = galloc(16, 8), str = galloc(8, 8);   // before the memory is handed to the initial state
  State *s = new State(); for (int k = 0; k < 1024; k++) { s->mem.l1[k] = m0.l1[k]; if (m0.l1[k]) m0.l1[k]->ref++; }
  auto callv = [&](State &st, u64 a) { if (a >= XC_BASE) pushx86(st, a, -1); else { Fn *f = fns[(a - FN_BASE) / 16]; std::vector<Val> no; if (!f->F) die("ctor " + f->name); pushfn(st, f, no, 0, -1); } };
  Fn *mainf = getFn("main"); if (!mainf->F) die("no main");
  mwrite_raw(s->mem, str, 1, C('t')); mwrite_raw(s->mem, argv0, 8, C(str)); s->mem.setacc(argv0, 16, true); s->mem.setacc(str, 8, true); mwrite_raw(s->mem, argv0, 8, C(str)); mwrite_raw(s->mem, str, 1, C('t'));
  { std::vector<Val> a{ C(1), C(argv0), C(0) }; a.resize(mainf->nargs); pushfn(*s, mainf, a, 0, -1); }
  for (int k = (int)ctors.size() - 1; k >= 0; k--) callv(*s, ctors[k]);   // run first to last before main
  work.push_back(s);
  bool root = true; pid_t rootpid = getpid(); prctl(PR_SET_CHILD_SUBREAPER, 1);
  while (!work.empty() && !sh->stop && now() < deadline) {
    State *w = work.back(); work.pop_back(); run(*w); delete w; splitWork();
  }
  root = getpid() == rootpid;
  if (!work.empty()) INC(unexplored, work.size());
  INC(active, -1);
  if (!root) _exit(0);   // its children pass to the root process (PR_SET_CHILD_SUBREAPER)
  int st; while (wait(&st) > 0) { if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { INC(unexplored, 1); emit("{\"ev\":\"crash\",\"msg\":\"worker died\"}"); } }
  struct rusage ru; getrusage(RUSAGE_SELF, &ru);
  std::string r = "{\"ev\":\"summary\""; auto add = [&](const char *n, u64 v) { r += std::string(",\"") + n + "\":" + std::to_string(v); };
  add("paths", sh->paths); add("ok", sh->ok); add("viol", sh->viol); add("memerr", sh->memerr); add("incomplete", sh->incomplete); add("unexplored", sh->unexplored); add("queries", sh->queries); add("sat", sh->qsat); add("unsat", sh->qunsat); add("unknown", sh->qunk); add("cached", sh->qcache); add("core", sh->qcore); add("forks", sh->forks); add("instrs", sh->instrs); add("symbranch", sh->symbranch); add("mergedloads", sh->mergedloads); add("asserts", sh->assertq); add("assume_dead", sh->assume_dead); add("solver_ms", sh->solver_ns / 1000000); add("ms", (u64)((now() - t0) * 1000)); add("stopped", sh->stop); add("timeout", now() >= deadline);
  r += ",\"reach\":["; for (int k = 0; k < 64; k++) r += (k ? "," : "") + std::to_string(sh->reach[k]); r += "],\"functions\":["; bool first = true;
  for (auto *f : fns) if (f->F && (sh->fnhit[f->id & 65535] & 2)) { r += (first ? "" : ",") + js(f->name); first = false; } r += "],\"xinstrs\":"; u64 xc = 0; for (u64 k = 0; k < xcode.size(); k++) xc += sh->xhit[k]; r += std::to_string(xc) + "}"; emit(r);
  if (verbose) fprintf(stderr, "gsym: paths %llu ok %llu viol %llu memerr %llu incomplete %llu unexplored %llu queries %llu (cached %llu core %llu unk %llu) solver %.1fs instrs %llu forks %llu time %.2fs\n", (unsigned long long)sh->paths, (unsigned long long)sh->ok, (unsigned long long)sh->viol, (unsigned long long)sh->memerr, (unsigned long long)sh->incomplete, (unsigned long long)sh->unexplored, (unsigned long long)sh->queries, (unsigned long long)sh->qcache, (unsigned long long)sh->qcore, (unsigned long long)sh->qunk, sh->solver_ns / 1e9, (unsigned long long)sh->instrs, (unsigned long long)sh->forks, now() - t0);
  _exit(0);
}
