// loader for the assembly written by ma2asm (x86-64 mapper, AT&T syntax)
struct AsmFile { std::string path; std::map<std::string, u64> loc; std::vector<std::string> lines; u64 ctor = 0; u32 first; };
static std::vector<AsmFile *> asmfiles;
static int regno(const std::string &r) { static const char *n[] = { "rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi", "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15" }; for (int i = 0; i < 16; i++) if (r == n[i]) return i; if (r.compare(0, 3, "xmm") == 0) return 16 + atoi(r.c_str() + 3); return -1; }
static std::string trim(const std::string &s) { size_t a = s.find_first_not_of(" \t"), b = s.find_last_not_of(" \t\r"); return a == std::string::npos ? "" : s.substr(a, b - a + 1); }
static std::string unesc(const std::string &s) { std::string r; for (size_t i = 0; i < s.size(); i++) { if (s[i] != '\\') { r += s[i]; continue; } i++; if (s[i] >= '0' && s[i] <= '7') { int v = 0, k = 0; while (k < 3 && i < s.size() && s[i] >= '0' && s[i] <= '7') { v = v * 8 + s[i] - '0'; i++; k++; } i--; r += (char)v; } else switch (s[i]) { case 'n': r += '\n'; break; case 't': r += '\t'; break; case 'b': r += '\b'; break; case 'f': r += '\f'; break; case 'r': r += '\r'; break; default: r += s[i]; } } return r; }
static void asmPass1(const std::string &path) {
  AsmFile *A = new AsmFile; A->path = path; asmfiles.push_back(A); std::ifstream in(path); if (!in) die("cannot read " + path);
  std::string l; bool text = true; std::set<std::string> globl, local; A->first = xcode.size(); u32 n = A->first; std::vector<std::string> pend; std::string cur; bool ctors = false;
  while (std::getline(in, l)) {
    size_t h; std::string t = trim(l); if (t.empty()) continue; (void)h;
    if (t[0] == '#') continue;
    if (t.back() == ':' && t.find(' ') == std::string::npos && t.find('"') == std::string::npos) { std::string nm = t.substr(0, t.size() - 1); if (text) { A->loc[nm] = XC_BASE + 8ull * n; if (nm[0] != '.') cur = nm; } else pend.push_back(nm); continue; }
    if (t[0] == '.') { std::istringstream is(t); std::string d; is >> d; std::string rest; std::getline(is, rest); rest = trim(rest);
      if (d == ".text") text = true, ctors = false; else if (d == ".data" || d == ".section") { text = false; ctors = rest.find(".ctors") != std::string::npos || rest.find(".init_array") != std::string::npos; }
      else if (d == ".globl") globl.insert(rest); else if (d == ".local") local.insert(rest);
      else if (d == ".comm") { size_t c = rest.find(','); std::string nm = rest.substr(0, c); u64 sz = strtoull(rest.c_str() + c + 1, 0, 0); A->loc[nm] = galloc(sz, 16); datasym[A->loc[nm]] = nm; if (!local.count(nm)) globl.insert(nm); }
      else if (d == ".string" || d == ".asciz") { std::string s = unesc(rest.substr(1, rest.rfind('"') - 1)); u64 a = galloc(s.size() + 1, 1); for (size_t i = 0; i < s.size(); i++) mwrite_raw(*M0, a + i, 1, C((u8)s[i])); for (auto &p : pend) A->loc[p] = a; pend.clear(); }
      else if (d == ".quad") { if (ctors) { A->lines.push_back("\x01" + rest); } else { u64 a = galloc(8, 8); char *e; u64 v = strtoull(rest.c_str(), &e, 0); if (*e && *e != ' ' && *e != '\t') die("asm: .quad " + rest); if (rest[0] == '-') v = (u64)strtoll(rest.c_str(), 0, 0); mwrite_raw(*M0, a, 8, C(v)); for (auto &p : pend) A->loc[p] = a; pend.clear(); } }
      else if (d == ".double") { u64 a = galloc(8, 8); mwrite_raw(*M0, a, 8, C(dbits(strtod(rest.c_str(), 0)))); for (auto &p : pend) A->loc[p] = a; pend.clear(); }
      else if (d == ".align" || d == ".p2align" || d == ".type" || d == ".size" || d == ".file" || d == ".ident") {}
      else die("asm: directive " + t + " in " + path);
      continue; }
    if (!text) die("asm: instruction outside .text: " + t);
    A->lines.push_back(t); xsymAt.push_back(cur); n++;
  }
  xcode.resize(n);
  for (auto &g : globl) if (A->loc.count(g)) { if (symtab.count(g)) die("duplicate symbol " + g); symtab[g] = A->loc[g]; }
}
static u64 asmSym(AsmFile *A, std::string s) {
  size_t at = s.find('@'); if (at != std::string::npos) s = s.substr(0, at);
  i64 off = 0; size_t p = s.find_first_of("+-", 1); if (p != std::string::npos) { off = strtoll(s.c_str() + p, 0, 0); s = s.substr(0, p); }
  auto i = A->loc.find(s); if (i != A->loc.end()) return i->second + off; u64 a = lookup(s); if (a) return a + off; return getFn(s)->addr + off;
}
static XO asmOp(AsmFile *A, std::string s) {
  XO o; o.k = O_NONE; o.r = 255; o.d = 0; s = trim(s); if (s[0] == '*') s = s.substr(1);
  if (s[0] == '%') { int r = regno(s.substr(1)); if (r < 0) die("asm: register " + s); o.k = r >= 16 ? O_XMM : O_REG; o.r = r; return o; }
  if (s[0] == '$') { o.k = O_IMM; if (isdigit(s[1]) || s[1] == '-') o.d = s[1] == '-' ? strtoll(s.c_str() + 1, 0, 0) : (i64)strtoull(s.c_str() + 1, 0, 0); else o.d = asmSym(A, s.substr(1)); return o; }
  size_t p = s.find('('); if (p == std::string::npos) { o.k = O_MEM; o.d = asmSym(A, s); return o; }
  std::string disp = s.substr(0, p), b = s.substr(p + 2, s.find(')') - p - 2); o.k = O_MEM;
  if (b == "rip") { o.d = asmSym(A, disp); return o; }
  o.r = regno(b); if (disp.empty()) o.d = 0; else if (isdigit(disp[0]) || disp[0] == '-') o.d = strtoll(disp.c_str(), 0, 0); else die("asm: operand " + s); return o;
}
static void asmPass2(AsmFile *A) {
  u32 n = A->first;
  for (auto &t : A->lines) {
    if (t[0] == 1) { A->ctor = asmSym(A, t.substr(1)); continue; }
    XI &x = xcode[n++]; memset(&x, 0, sizeof x); std::string m, rest; size_t sp = t.find_first_of(" \t"); m = t.substr(0, sp); rest = sp == std::string::npos ? "" : trim(t.substr(sp));
    std::vector<std::string> ops; int par = 0; std::string c; for (char ch : rest) { if (ch == '(') par++; if (ch == ')') par--; if (ch == ',' && !par) { ops.push_back(c); c = ""; } else c += ch; } if (!trim(c).empty()) ops.push_back(c);
    auto two = [&](int op) { x.op = op; if (ops.size() != 2) die("asm: " + t); x.a = asmOp(A, ops[0]); x.b = asmOp(A, ops[1]); };
    auto jcc = [&](int op) { x.op = op; x.t = asmSym(A, trim(ops[0])); };
    if (m == "movq" || m == "movabsq" || m == "mov") two(X_MOV); else if (m == "leaq") two(X_LEA); else if (m == "addq") two(X_ADD); else if (m == "subq") two(X_SUB); else if (m == "cmpq" || m == "cmp") two(X_CMP); else if (m == "testq" || m == "test") two(X_TEST); else if (m == "xorq") two(X_XOR); else if (m == "movsd") two(X_MOVSD);
    else if (m == "je") jcc(X_JE); else if (m == "jne") jcc(X_JNE); else if (m == "jg") jcc(X_JG); else if (m == "jge") jcc(X_JGE); else if (m == "jl") jcc(X_JL); else if (m == "jle") jcc(X_JLE);
    else if (m == "jmp") { std::string o = trim(ops[0]); if (o[0] == '*') { x.op = X_JMPI; x.a = asmOp(A, o); } else { x.op = X_JMP; x.t = asmSym(A, o); } }
    else if (m == "call") { std::string o = trim(ops[0]); x.op = X_CALL; if (o[0] == '*') { x.a = asmOp(A, o); } else x.t = asmSym(A, o); }
    else if (m == "pushq") { x.op = X_PUSH; x.a = asmOp(A, ops[0]); } else if (m == "popq") { x.op = X_POP; x.a = asmOp(A, ops[0]); } else if (m == "ret") x.op = X_RET;
    else die("asm: instruction " + t + " in " + A->path);
  }
}
