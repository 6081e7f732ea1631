// facet identifiers must be the ones of the native library, whose locales are used
static bool nativeGlobal(const GlobalVariable& g) { StringRef n = g.getName(); return !g.isDeclaration() && (n.starts_with("_ZNSt") || n.starts_with("_ZGVNSt")) && n.ends_with("2idE") && dlsym(RTLD_DEFAULT, n.str().c_str()); }
// ---------------------------------------------------------------- set up and exploration control
static bool g_crash = false;
static void onSegv(int, siginfo_t* si, void*) {
  if (g_crash) _exit(77); g_crash = true; char b[160]; snprintf(b, sizeof b, "invalid memory access at 0x%llx (outside every tracked object)", (unsigned long long)si->si_addr);
  EG->violation("memory", b);
}
extern "C" void native_callback(u64 id, u64* g, double* x, u64* stk, u64* ret) {
  Engine* E = EG; Func* f = E->funcList[id]; std::vector<Slot> args; int ng = 0, nx = 0, ns = 0;
  if (!f->F) E->incomplete("callback into an unknown function " + f->name);
  auto kinds = [&] { std::vector<Leaf> k; for (auto& a : f->F->args()) E->leaves(a.getType(), k); return k; }();
  for (auto& k : kinds) { if (k.kind == K_F32 || k.kind == K_F64) { u64 b; if (nx < 8) memcpy(&b, &x[nx++], 8); else b = stk[ns++]; args.push_back(E->sv(b & maskw(k.bits))); } else { u64 b = ng < 6 ? g[ng++] : stk[ns++]; args.push_back(E->sv(b & maskw(k.bits))); } }
  auto rk = E->leavesOf(f->F->getReturnType()); ret[0] = ret[1] = ret[2] = ret[3] = 0;
  if (f->builtin) { CallSite cs; cs.ret = rk; cs.kinds = kinds; CallInfo ci; ci.E = E; ci.T = E->cur; ci.f = f; ci.cs = &cs; ci.args = args; for (auto& r : ci.ret) r = E->sv(0); f->builtin(ci); if (ci.pushed || ci.retry || ci.thrown) E->incomplete("blocking builtin called from native code: " + f->name); ret[0] = (u64)ci.ret[0].v; return; }
  if (f->F->isDeclaration()) E->incomplete("callback into unresolved function " + f->name);
  E->pushFrame(f, args.data(), args.size(), nullptr, true);
  E->runNested();
  int gi = 0, xi = 2; for (size_t i = 0; i < rk.size() && i < 4; i++) { Slot s = E->markerRet[i]; if (s.e) s.v = E->concretize(s.e, "value returned to native code"); if (rk[i].kind == K_F32 || rk[i].kind == K_F64) ret[xi++] = (u64)s.v; else ret[gi++] = (u64)s.v; }
}
// system calls a harness may define itself
static bool overridable(const std::string& n) { static const std::set<std::string> s = {"_Exit", "_exit", "exit", "getenv", "clock_gettime", "time", "open", "close", "read", "write", "stat", "lseek", "_ZNSt6chrono3_V212system_clock3nowEv"}; return s.count(n); }
static void setup(Engine* E, const std::vector<std::string>& bcs, const std::vector<std::string>& libs) {
  for (auto& l : libs) if (!dlopen(l.c_str(), RTLD_NOW | RTLD_GLOBAL)) { fprintf(stderr, "dlopen %s: %s\n", l.c_str(), dlerror()); exit(3); }
  SMDiagnostic err; 
  for (auto& b : bcs) { auto m = parseIRFile(b, err, E->ctx); if (!m) { err.print("vpse", errs()); exit(3); } if (!E->M) E->M = std::move(m); else if (Linker::linkModules(*E->M, std::move(m), 0)) { fprintf(stderr, "link failed\n"); exit(3); } }
  E->DL = &E->M->getDataLayout(); Module& M = *E->M;
  E->brk = MEMBASE + 4096; E->sym.grow();
  // tables of relative addresses
  { std::vector<IntrinsicInst*> rel; for (auto& F : M) for (auto& B : F) for (auto& I : B) if (auto* ii = dyn_cast<IntrinsicInst>(&I)) if (ii->getIntrinsicID() == Intrinsic::load_relative) rel.push_back(ii);
    for (auto* ii : rel) { IRBuilder<> b(ii); Value* base = ii->getArgOperand(0); Value* at = b.CreateGEP(b.getInt8Ty(), base, ii->getArgOperand(1)); Value* off = b.CreateSExt(b.CreateAlignedLoad(b.getInt32Ty(), at, Align(4)), b.getInt64Ty()); ii->replaceAllUsesWith(b.CreateGEP(b.getInt8Ty(), base, off)); ii->eraseFromParent(); } }
  // functions
  for (auto& g : M.globals()) if (g.isThreadLocal()) { // every access goes through the address of the current thread
    convertUsersOfConstantsToInstructions({&g}); std::vector<Use*> us; for (auto& u : g.uses()) if (auto* I = dyn_cast<Instruction>(u.getUser())) { auto* ii = dyn_cast<IntrinsicInst>(I); if (!ii || ii->getIntrinsicID() != Intrinsic::threadlocal_address) us.push_back(&u); }
    for (auto* u : us) { auto* I = cast<Instruction>(u->getUser()); if (isa<LandingPadInst>(I)) continue; Instruction* at = I; if (auto* p = dyn_cast<PHINode>(I)) at = p->getIncomingBlock(*u)->getTerminator(); IRBuilder<> b(at); u->set(b.CreateThreadLocalAddress(&g)); } }
  for (auto& F : M) { Func* f = new Func; f->name = F.getName().str(); f->F = &F; f->idx = E->funcList.size(); E->funcList.push_back(f); E->funcs[f->name] = f; E->byLLVM[&F] = f; if (F.isIntrinsic()) continue; if (F.isDeclaration() || !overridable(f->name)) f->builtin = Engine::findBuiltin(f->name); if (F.isDeclaration()) { f->native = dlsym(RTLD_DEFAULT, f->name.c_str()); f->nativeOk = Engine::isTrusted(f->name); } }
  size_t n = E->funcList.size() * 32 + 4096; E->trampBase = (u64)mmap(0, n, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  for (size_t i = 0; i < E->funcList.size(); i++) { u8* p = (u8*)(E->trampBase + i * 32); u32 id = i; u64 t = (u64)&tramp_common; p[0] = 0x41; p[1] = 0xbb; memcpy(p + 2, &id, 4); p[6] = 0x49; p[7] = 0xba; memcpy(p + 8, &t, 8); p[16] = 0x41; p[17] = 0xff; p[18] = 0xe2; E->funcList[i]->tramp = (u64)p; E->byAddr[(u64)p] = E->funcList[i]; if (E->funcList[i]->native) E->byAddr[(u64)E->funcList[i]->native] = E->funcList[i]; }
  Thread* t = E->newThread(); E->cur = t; t->vc.assign(1, 1);
  for (auto& g : M.globals()) {
    if (g.getName().starts_with("llvm.") || g.isThreadLocal()) continue;
    if (nativeGlobal(g)) { E->gaddr[&g] = (u64)dlsym(RTLD_DEFAULT, g.getName().str().c_str()); continue; }
    if (g.getName() == "__libc_single_threaded") { E->singleThreaded = E->gaddr[&g] = E->allocRaw(1, 1, 32, F_ADDR | F_INIT); *(u8*)E->singleThreaded = 1; continue; }
    if (g.isDeclaration()) { void* p = dlsym(RTLD_DEFAULT, g.getName().str().c_str()); if (!p && !g.hasExternalWeakLinkage()) { if (opt.trace) fprintf(stderr, "warning: unresolved global %s\n", g.getName().str().c_str()); p = (void*)E->allocRaw(64, 16, 32, F_ADDR | F_INIT); } E->gaddr[&g] = (u64)p; continue; }
    u64 sz = E->DL->getTypeAllocSize(g.getValueType()); u64 al = g.getAlign() ? g.getAlign()->value() : 16; E->gaddr[&g] = E->allocRaw(sz, al, 32, F_ADDR | F_INIT);
  }
  for (auto& g : M.globals()) { if (g.getName().starts_with("llvm.") || g.isThreadLocal() || g.isDeclaration() || nativeGlobal(g)) continue; E->initMem(E->gaddr[&g], g.getInitializer()); }
  for (auto& g : M.globals()) { if (g.getName().starts_with("llvm.") || g.isThreadLocal() || g.isDeclaration() || nativeGlobal(g)) continue; if (g.isConstant()) { u64 a = E->gaddr[&g]; u64 sz = E->DL->getTypeAllocSize(g.getValueType()); for (u64 i = 0; i < sz; i++) *FL(a + i) |= F_RO; } }
}
static void runCtors(Engine* E) {
  auto* gc = E->M->getGlobalVariable("llvm.global_ctors"); if (!gc || !gc->hasInitializer()) return;
  auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()); if (!ca) return; std::vector<std::pair<u64, Func*>> v;
  for (unsigned i = 0; i < ca->getNumOperands(); i++) { auto* s = cast<ConstantStruct>(ca->getOperand(i)); auto* f = dyn_cast<Function>(s->getOperand(1)->stripPointerCasts()); if (f) v.push_back({cast<ConstantInt>(s->getOperand(0))->getZExtValue(), E->byLLVM[f]}); }
  std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
  for (auto& p : v) E->callSync(p.second, {});
}
// Natively run library code may release blocks that the interpreted code allocated.
static void nativeDelete(void* p) { if (inMem((u64)p)) EG->heapFree((u64)p); else free(p); }
void operator delete(void* p) noexcept { nativeDelete(p); }
void operator delete[](void* p) noexcept { nativeDelete(p); }
void operator delete(void* p, size_t) noexcept { nativeDelete(p); }
void operator delete[](void* p, size_t) noexcept { nativeDelete(p); }
int main(int argc, char** argv) {
  std::vector<std::string> bcs, libs; 
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--jobs") opt.jobs = stoi(nx()); else if (a == "--time") opt.time = stod(nx()); else if (a == "--max-instr") opt.maxInstr = stoull(nx()); else if (a == "--max-viol") opt.maxViol = stoi(nx()); else if (a == "--preempt") opt.preempt = stoi(nx()); else if (a == "--trace") opt.trace = true; else if (a == "--out") opt.out = nx(); else if (a == "--concrete") opt.concrete = nx(); else if (a == "--entry") opt.entry = nx(); else if (a == "--lib") libs.push_back(nx()); else if (a == "--rlimit") opt.rlimit = stoul(nx()); else if (a == "--samples") opt.samples = stoi(nx()); else if (a == "--src-prefix") opt.srcPrefix = nx(); else if (a == "--uninit-zero") opt.uninitZero = true; else if (a == "--max-depth") opt.maxDepth = stoi(nx()); else if (a == "--no-race") opt.race = false; else bcs.push_back(a); }
  if (bcs.empty()) { fprintf(stderr, "usage: vpse [options] module.bc...\n"); return 3; }
  struct rlimit rl = {512ul << 20, 512ul << 20}; getrlimit(RLIMIT_STACK, &rl);
  sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); for (int i = 0; i < MAXD; i++) sem_init(&sh->sem[i], 1, 0);
  if (mmap((void*)MEMBASE, MEMSIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == MAP_FAILED || mmap((void*)SHB, MEMSIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == MAP_FAILED) { perror("mmap"); return 3; }
  madvise((void*)SHB, MEMSIZE, MADV_NOHUGEPAGE); madvise((void*)MEMBASE, MEMSIZE, MADV_NOHUGEPAGE);
  timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0); auto elapsed = [&] { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (t.tv_sec - t0.tv_sec) + (t.tv_nsec - t0.tv_nsec) / 1e9; };
  EG = new Engine; Engine* E = EG; E->S.rlimit = opt.rlimit; unlink(opt.out.c_str());
  setup(E, bcs, libs);
  if (!opt.concrete.empty()) { E->concrete = true; FILE* f = fopen(opt.concrete.c_str(), "r"); if (!f) { perror("concrete"); return 3; } char name[512]; static char hx[1 << 20]; while (fscanf(f, "%511s %1048575s", name, hx) == 2) { std::vector<u8> v; std::string h = hx; if (h != "-") for (size_t i = 0; i + 1 < h.size(); i += 2) v.push_back(stoi(h.substr(i, 2), 0, 16)); E->concIn.push_back({name, v}); } fclose(f); }
  double tSetup = elapsed();
  sh->live = 1; sh->freeTok = opt.jobs - 1; prctl(PR_SET_CHILD_SUBREAPER, 1);
  pid_t w = fork();
  if (w == 0) {
    setpgid(0, 0);
    struct sigaction sa{}; sa.sa_sigaction = onSegv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; static char alt[1 << 18]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, 0); sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0);
    runCtors(E); E->pathInstrs = 0;
    Func* m = E->getFunc(opt.entry); if (!m) { fprintf(stderr, "no entry function %s\n", opt.entry.c_str()); E->incomplete("no entry function"); }
    E->pushFrame(m, nullptr, 0); E->loop(); E->pathDone();
  }
  setpgid(w, w); bool timeout = false; int crashed = 0; 
  while (sh->live > 0) {
    int st; pid_t p = waitpid(-1, &st, WNOHANG); if (p < 0 && errno == ECHILD && sh->live > 0) { crashed++; break; }
    if (p > 0) { if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { crashed++; sh->live--; Engine::releaseToken(); } continue; }
    if (elapsed() > opt.time) { timeout = true; sh->stop = 1; kill(-w, SIGKILL); break; }
    if (sh->stop) { for (int i = 0; i < 60 && sh->live > 0; i++) { while (waitpid(-1, &st, WNOHANG) > 0) ; usleep(5000); } kill(-w, SIGKILL); break; }
    usleep(2000);
  }
  { int st; for (int i = 0; i < 200; i++) { pid_t p = waitpid(-1, &st, WNOHANG); if (p < 0) break; if (p == 0) usleep(5000); } }
  // summary
  // the functions that were executed, with those that were inlined into them
  std::string fn = "["; int nf = 0, nall = 0; std::map<std::string, std::string> seen; auto note = [&](const DISubprogram* sp, std::string name) { std::string file; unsigned line = 0; if (sp) { file = sp->getFilename().str(); if (!file.empty() && file[0] != '/') file = sp->getDirectory().str() + "/" + file; line = sp->getLine(); }
    if (!opt.srcPrefix.empty() && file.compare(0, opt.srcPrefix.size(), opt.srcPrefix) != 0) return; std::string dn = demangle(name); if (dn.size() > 160) dn = dn.substr(0, 160); seen.emplace(dn, " @" + (file.size() > opt.srcPrefix.size() ? file.substr(opt.srcPrefix.size()) : file) + ":" + std::to_string(line)); };
  for (Func* f : E->funcList) if (f->idx < sizeof sh->fcov && sh->fcov[f->idx]) { nall++; note(f->F->getSubprogram(), f->name); std::set<const DISubprogram*> in; for (auto& bb : *f->F) for (auto& i : bb) if (auto& dl = i.getDebugLoc()) for (const DILocation* l = dl.get(); l->getInlinedAt(); l = l->getInlinedAt()) if (auto* sp = l->getScope()->getSubprogram()) in.insert(sp); for (auto* sp : in) note(sp, (sp->getLinkageName().empty() ? sp->getName() : sp->getLinkageName()).str()); }
  for (auto& x : seen) { if (nf < 600) { if (nf) fn += ","; fn += Engine::jstr(x.first + x.second); } nf++; }
  fn += "]"; std::string lb = "{"; for (int i = 0; i < sh->nlab; i++) { if (i) lb += ","; lb += Engine::jstr(sh->lab[i]) + ":" + std::to_string(sh->labCount[i]); } lb += "}";
  char b[2048]; snprintf(b, sizeof b, "{\"type\":\"summary\",\"complete\":%s,\"timeout\":%s,\"crashed\":%d,\"paths\":%llu,\"pruned\":%llu,\"forks\":%llu,\"branches\":%llu,\"concretisations\":%llu,\"instructions\":%llu,\"max_path_instructions\":%llu,\"violations\":%llu,\"incomplete\":%llu,\"assert_checks\":%llu,\"assert_queries\":%llu,\"z3_queries\":%llu,\"domain_queries\":%llu,\"model_hits\":%llu,\"z3_seconds\":%.3f,\"z3_unknown\":%llu,\"z3_max_ms\":%.1f,\"uninitialised_bytes\":%llu,\"thread_switches\":%llu,\"setup_s\":%.2f,\"wall_s\":%.2f,\"repo_functions\":%d,\"all_functions\":%d,",
    !timeout && !crashed && !sh->incomplete && !(sh->stop && sh->viol) ? "true" : "false", timeout ? "true" : "false", crashed, (unsigned long long)sh->paths, (unsigned long long)sh->pruned, (unsigned long long)sh->forks, (unsigned long long)sh->branches, (unsigned long long)sh->concr, (unsigned long long)sh->instrs, (unsigned long long)sh->maxPathInstr, (unsigned long long)sh->viol, (unsigned long long)sh->incomplete, (unsigned long long)sh->asserts, (unsigned long long)sh->assertsSym, (unsigned long long)sh->z3Queries, (unsigned long long)sh->domQueries, (unsigned long long)sh->modelHits, sh->z3Micros / 1e6, (unsigned long long)sh->z3Unknown, sh->z3Max / 1e3, (unsigned long long)sh->uninit, (unsigned long long)sh->switches, tSetup, elapsed(), nf, nall);
  E->record(std::string(b) + "\"reached\":" + lb + ",\"functions\":" + fn + "}");
  return 0;
}
