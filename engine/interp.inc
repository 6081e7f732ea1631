// ---------------------------------------------------------------- interpreter (member functions of Engine)
static const Slot& G(const Frame& f, int op) { return op >= 0 ? f.r[op] : f.f->consts[-1 - op]; }
Slot sv(u128 v) { Slot s; s.v = v; s.e = nullptr; s.pad = 0; return s; }
void setE(Slot& d, Expr* e) { if (isC(e)) { d.v = e->val; d.e = nullptr; } else { d.v = 0; d.e = e; } }
Slot gs(const Frame& f, int op) { Slot s = G(f, op); if (s.e && s.e->mask.inter(S.boundMask)) { Expr* e = S.simp(s.e); setE(s, e); } return s; }

Thread* newThread() {
  auto* t = new Thread; t->id = threads.size(); t->slotCap = 1 << 21; t->slots = (Slot*)mmap(0, t->slotCap * sizeof(Slot), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  u64 sz = 16 << 20; t->stackLo = (brk + 4095) & ~4095ull; t->stackHi = t->stackLo + sz; brk = t->stackHi + 4096; t->sp = t->stackLo; threads.push_back(t); return t;
}
void pushFrame(Func* f, const Slot* args, int n, const std::vector<u64>* byval = nullptr, bool marker = false) {
  Thread* t = cur; if (!f->lowered) lower(f);
  if (f->idx < sizeof sh->fcov) sh->fcov[f->idx] = 1;
  if (t->frames.size() > (size_t)opt.maxDepth) violation("stack overflow", "recursion deeper than " + std::to_string(opt.maxDepth) + " frames");
  t->frames.emplace_back(); Frame& fr = t->frames.back(); fr.f = f; fr.pc = f->bbStart[0]; fr.sp = t->sp; fr.lpExc = 0; fr.lpSel = 0; fr.marker = marker; fr.atexit = false; fr.slotBase = t->slotTop; fr.varargs = nullptr; fr.r = t->slots + t->slotTop;
  t->slotTop += f->nslots; if (t->slotTop > t->slotCap) violation("stack overflow", "interpreter stack exhausted");
  for (int i = 0; i < f->nslots; i++) { fr.r[i].v = 0; fr.r[i].e = nullptr; }
  for (int i = 0; i < n && i < f->nargs; i++) { fr.r[i] = args[i]; if (f->argByval[i]) { u64 sz = f->argByval[i]; u64 a = stackAlloc(sz, 16); copyMem(a, (u64)args[i].v, sz); fr.r[i] = sv(a); } }
}
u64 stackAlloc(u64 size, u64 align) { Thread* t = cur; if (align < 16) align = 16; u64 a = (t->sp + 16 + align - 1) & ~(align - 1); u64 e = a + size + 16; if (e > t->stackHi) violation("stack overflow", "stack memory exhausted"); t->sp = (e + 15) & ~15ull; memset(FL(a), F_ADDR, size); return a; }
void popFrame() { Thread* t = cur; Frame& f = t->frames.back(); if (t->sp > f.sp) { memset(FL(f.sp), 0, t->sp - f.sp); t->sp = f.sp; } t->slotTop = f.slotBase; t->frames.pop_back(); }
void takeEdge(Frame& f, const Edge& e) {
  if (e.copies >= 0) { auto& c = f.f->copies[e.copies]; if (c.size() == 1) f.r[c[0].first] = G(f, c[0].second); else { Slot tmp[64]; std::vector<Slot> big; Slot* t = tmp; if (c.size() > 64) { big.resize(c.size()); t = big.data(); } for (size_t i = 0; i < c.size(); i++) t[i] = G(f, c[i].second); for (size_t i = 0; i < c.size(); i++) f.r[c[i].first] = t[i]; } }
  f.pc = f.f->bbStart[e.bb];
}
// the current instruction of the (new) top frame is the call that has just completed
void finishCall(const Slot* ret) {
  Frame& f = cur->frames.back(); const Inst& I = f.f->code[f.pc]; const CallSite* cs = (const CallSite*)I.p;
  if (I.dst >= 0) for (int i = 0; i < I.n; i++) f.r[I.dst + i] = ret[i];
  if (cs->invoke) takeEdge(f, cs->normal); else f.pc++;
}
// ---- exceptions
std::string typeName(std::type_info* ti) { int st; char* d = abi::__cxa_demangle(ti->name(), 0, 0, &st); std::string s = d ? d : ti->name(); free(d); return s; }
bool catches(std::type_info* cti, ExcObj& x, u64& adj) { void* p = (void*)x.obj; if (x.ti->__is_pointer_p()) p = *(void**)x.obj; if (cti->__do_catch(x.ti, &p, 1)) { adj = (u64)p; return true; } return false; }
u32 selOf(u64 ti) { return 1 + (u32)((ti >> 3) & 0x3fffffff); }
// unwinds the current thread to a landing pad; h = handle
void unwind(u64 h) {
  Thread* t = cur; ExcHandle& H = handles[h]; ExcObj& x = excs[H.obj]; 
  for (;;) {
    if (t->frames.empty()) { violation("uncaught exception", typeName(x.ti) + excWhat(x)); }
    Frame& f = t->frames.back(); const Inst& I = f.f->code[f.pc];
    if (I.op == I_CALL && ((const CallSite*)I.p)->invoke) {
      const CallSite* cs = (const CallSite*)I.p; const Inst* lp = &f.f->code[f.f->bbStart[cs->unwind.bb]];
      while (lp->op != I_LANDINGPAD) lp++;
      const LPad* L = (const LPad*)lp->p; u32 sel = 0; bool hit = L->cleanup;
      for (auto& c : L->clauses) { u64 adj = x.obj;
        if (c.filter) { bool ok = false; for (u64 ti : c.tis) if (catches((std::type_info*)ti, x, adj)) ok = true; if (!ok) { hit = true; sel = 0xffffffff; break; } continue; }
        if (c.tis[0] == 0) { hit = true; sel = selOf(0); H.adj = x.ti->__is_pointer_p() ? *(u64*)x.obj : x.obj; break; }
        if (catches((std::type_info*)c.tis[0], x, adj)) { hit = true; sel = selOf(c.tis[0]); H.adj = adj; break; } }
      if (hit) { f.lpExc = h; f.lpSel = sel; takeEdge(f, cs->unwind); return; }
    }
    bool m = f.marker; popFrame();
    if (m) { throw InterpThrow{h}; }
  }
}
std::string excWhat(ExcObj& x) { // best effort text for std::exception derived objects: not evaluated symbolically
  return ""; }
u64 newHandle(u64 obj) { u64 h = heapAlloc(16); heap.erase(h); handles[h] = ExcHandle{obj, 0, obj, false}; return h; }
void throwObj(u64 obj) { u64 h = newHandle(obj); excs[obj].ref++; cur->uncaught++; unwind(h); }
void throwNative(std::exception_ptr ep) { // called inside a host catch block
  u64 obj = *(u64*)&ep; new std::exception_ptr(ep); std::type_info* ti = abi::__cxa_current_exception_type();
  if (!excs.count(obj)) excs[obj] = ExcObj{obj, ti, 0, 1000000}; pendingNative = obj;
}
u64 pendingNative = 0;
// ---- choice of nondeterministic values
std::vector<Expr*> freshBytes(const std::string& name, u64 n) {
  std::vector<Expr*> r; InputRec ir; ir.name = name;
  if (concrete) { std::vector<u8> v(n, 0); if (concPos < concIn.size()) { std::string want = name; for (char& c : want) if (c == ' ') c = '_'; if (concIn[concPos].first != want) fprintf(stderr, "replay: expected %s got %s\n", name.c_str(), concIn[concPos].first.c_str()); v = concIn[concPos].second; v.resize(n); concPos++; }
    for (u8 b : v) { r.push_back(eConst(b, 8)); ir.bytes.push_back(nullptr); ir.conc.push_back(b); } }
  else for (u64 i = 0; i < n; i++) { Expr* e = eVar(S.newVar()); r.push_back(e); ir.bytes.push_back(e); ir.conc.push_back(0); }
  inputs.push_back(ir); return r;
}
u64 choose(u64 n, const std::string& name) { if (n <= 1) return 0; Expr* b = freshBytes(name, 1)[0]; if (isC(b)) return std::min<u64>((u64)b->val, n - 1); S.add(eBin(E_ULT, b, eConst(n, 8))); return (u64)concretize(b, "choice"); }
// ---- scheduling
bool enabled(Thread* t) {
  switch (t->st) { case T_RUN: return true; case T_DONE: return false; case T_MUTEX: return mutexes[t->waitAddr].owner < 0; case T_ONCE: return *(int*)t->waitAddr != 1; case T_COND: return t->timed || t->signaled; case T_JOIN: return threads[t->joinTid]->st == T_DONE; }
  return false;
}
void wake(Thread* t) { if (t->st == T_COND && !t->signaled) { t->wakeResult = ETIMEDOUT; if (vtime < t->deadline) vtime = t->deadline; auto& w = conds[t->waitAddr].waiters; for (size_t i = 0; i < w.size(); i++) if (w[i] == t->id) { w.erase(w.begin() + i); break; } t->signaled = true; } }
void schedule(bool voluntary) { // picks the next thread to run; the current one may be blocked or done
  std::vector<Thread*> en; Thread* c = cur; bool curEn = enabled(c);
  if (curEn && !voluntary && preemptions >= opt.preempt) return;
  if (curEn) en.push_back(c);
  for (Thread* t : threads) if (t != c && enabled(t)) en.push_back(t);
  if (en.empty()) { std::string s; for (Thread* t : threads) if (t->st != T_DONE) s += " thread" + std::to_string(t->id) + (t->st == T_MUTEX ? ":mutex" : t->st == T_COND ? ":cond" : t->st == T_JOIN ? ":join" : t->st == T_ONCE ? ":once" : ":?"); violation("deadlock", "no thread can make progress:" + s); }
  u64 k = choose(en.size(), "sched"); Thread* n = en[k];
  if (n != c) { sh->switches++; if (curEn && !voluntary) preemptions++; switchTo(n); } 
  if (n->st != T_RUN) wakeIt(n);
}
void wakeIt(Thread* n) { if (n->st == T_COND) { wake(n); n->st = T_RUN; n->phase = 2; } else n->st = T_RUN; }
void switchTo(Thread* n) { cur = n; }
bool schedPoint() { // before a visible operation; true if another thread was chosen (retry later)
  if (!mt()) return false; Thread* t = cur; if (t->schedDone) { t->schedDone = false; return false; }
  t->schedDone = true; schedule(false); if (cur != t) return true; t->schedDone = false; return false;
}
// ---- race detection (vector clocks, happens-before)
struct Acc { u32 wT = 0, wC = 0; std::vector<std::pair<u32,u32>> rd; };
std::unordered_map<u64, Acc> racc; std::unordered_map<u64, std::vector<u32>> syncVC; std::unordered_map<u64, int> syncOwn;
static void joinVC(std::vector<u32>& a, const std::vector<u32>& b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]); }
u32 vcAt(Thread* t, u32 i) { return i < t->vc.size() ? t->vc[i] : 0; }
void tick(Thread* t) { if (t->vc.size() <= (size_t)t->id) t->vc.resize(t->id + 1, 0); t->vc[t->id]++; }
void acquireVC(u64 a) { auto it = syncVC.find(a); if (it != syncVC.end()) joinVC(cur->vc, it->second); }
void releaseVC(u64 a) { joinVC(syncVC[a], cur->vc); tick(cur); }
void raceAccess(u64 a, u64 n, bool write, bool atomic) {
  if (!mt() || !opt.race || !inMem(a)) return; Thread* t = cur;
  if (a >= t->stackLo && a < t->stackHi) { bool shared = false; (void)shared; }
  for (u64 i = 0; i < n; i++) { Acc& x = racc[a + i]; u32 me = t->id + 1; u32 c = vcAt(t, t->id) * 2 + (atomic ? 1 : 0);
    auto conflict = [&](u32 ot, u32 oc) { return ot && ot != me && (oc / 2) >= vcAt(t, ot - 1) + 1 && !((oc & 1) && atomic); };
    bool bad = conflict(x.wT, x.wC); if (write) for (auto& r : x.rd) bad |= conflict(r.first, r.second);
    if (bad) { sh->races++; violation("data race", std::string(write ? "write" : "read") + " of shared memory not ordered with an access by another thread"); }
    if (write) { x.wT = me; x.wC = c; x.rd.clear(); } else { bool f = false; for (auto& r : x.rd) if (r.first == me) { r.second = c; f = true; } if (!f) x.rd.push_back({me, c}); } }
}
// C++ memory model: order is an llvm::AtomicOrdering; relaxed accesses synchronise only through fences
static bool isAcq(unsigned o) { return o == 4 || o == 6 || o == 7; } static bool isRel(unsigned o) { return o == 5 || o == 6 || o == 7; }
void atomicRead(u64 a, u64 n, unsigned o) { for (u64 k = 0; k < n; k += 4) { auto it = syncVC.find(a + k); if (it != syncVC.end()) joinVC(isAcq(o) ? cur->vc : cur->acqVC, it->second); } }
void atomicWrite(u64 a, unsigned o, bool rmw) { auto& d = syncVC[a]; int& own = syncOwn[a]; if (!rmw && own != cur->id + 1) d.clear(); if (!rmw) own = cur->id + 1; joinVC(d, isRel(o) ? cur->vc : cur->relVC); if (isRel(o)) tick(cur); }
void fence(unsigned o) { if (!mt()) return; if (isAcq(o)) joinVC(cur->vc, cur->acqVC); if (isRel(o)) { cur->relVC = cur->vc; tick(cur); } }
void clearRace(u64 a, u64 n) { if (racc.empty()) return; for (u64 i = 0; i < n; i++) racc.erase(a + i); }
// ---- native calls
bool nativeCall(Func* f, void* fn, const std::vector<Slot>& args, const std::vector<Leaf>& kinds, const std::vector<u64>& byval, const std::vector<Leaf>& ret, Slot* out, bool trusted) {
  u64 g[6] = {0}; double xm[8] = {0}; u64 stk[64]; int ng = 0, nx = 0, ns = 0;
  for (size_t i = 0; i < args.size(); i++) {
    Slot s = args[i]; if (s.e) { s.v = concretize(s.e, ("argument of external " + (f ? f->name : std::string("?"))).c_str()); }
    if (!trusted && (kinds[i].kind == K_PTR || kinds[i].kind == K_INT) && kinds[i].bits == 64) { u64 lo, hi; if (objectOf((u64)s.v, lo, hi)) { u8* fl = FL(lo); for (u64 k = 0; k < hi - lo; k++) { if (fl[k] & F_SYM) { Expr* e = byteExpr(lo + k); if (isC(e)) { *(u8*)(lo + k) = (u8)e->val; fl[k] &= ~F_SYM; } else if (undefVars.count(e->op == E_VAR ? (u32)e->val : ~0u)) { fl[k] &= ~F_SYM; } else incomplete("symbolic memory passed to external function " + (f ? f->name : "?")); } if (!(fl[k] & F_RO)) fl[k] |= F_INIT; } } }
    if (trusted && kinds[i].kind == K_PTR) { u64 lo, hi; if (objectOf((u64)s.v, lo, hi)) { u8* fl = FL((u64)s.v); for (u64 k = 0; (u64)s.v + k < hi && k < (f && f->name.find("8ios_base") != std::string::npos ? 216u : 48u); k++) if (!(fl[k] & F_SYM)) fl[k] |= F_INIT; } }
    if (byval[i]) { u64 n = (byval[i] + 7) / 8; if (ns + n > 60) incomplete("byval"); memcpy(stk + ns, (void*)(u64)s.v, byval[i]); ns += n; continue; }
    switch (kinds[i].kind) { case K_F32: case K_F64: { u64 b = (u64)s.v; if (nx < 8) memcpy(&xm[nx++], &b, 8); else stk[ns++] = b; break; } case K_F80: { u64 w[2] = {0, 0}; memcpy(w, &s.v, 10); if (ns & 1) stk[ns++] = 0; stk[ns++] = w[0]; stk[ns++] = w[1]; break; } default: { u64 b = (u64)s.v; if (kinds[i].bits > 64) { if (ng < 5) { g[ng++] = b; g[ng++] = (u64)(s.v >> 64); } else { stk[ns++] = b; stk[ns++] = (u64)(s.v >> 64); } break; } if (kinds[i].bits == 32) b = (u64)(i64)(int)b; if (ng < 6) g[ng++] = b; else stk[ns++] = b; } }
  }
  if (ret.size() == 1 && ret[0].kind == K_F80) { if (ng || nx || ns < 2 || ns > 4) incomplete("long double result of external"); long double a = 0, b = 0; memcpy(&a, stk, 10); if (ns == 4) memcpy(&b, stk + 2, 10); long double z = ns == 2 ? ((long double (*)(long double))fn)(a) : ((long double (*)(long double, long double))fn)(a, b); out[0] = sv(0); out[0].v = fromL(z, 80); return true; }
  u64 r[4] = {0}; bool threw = false; u64 rethrowH = 0;
  try { errno = errno; call_native(fn, g, xm, stk, ns, r); }
  catch (InterpThrow& it) { threw = true; rethrowH = it.handle; }
  catch (...) { std::exception_ptr ep = std::current_exception(); throwNative(ep); threw = true; }
  if (threw) { if (rethrowH) { unwind(rethrowH); } else throwObj(pendingNative); return false; }
  int gi = 0, xi = 2; for (size_t i = 0; i < ret.size(); i++) { out[i] = sv(0); if (ret[i].kind == K_F80) incomplete("long double result of external"); if (ret[i].kind == K_F32 || ret[i].kind == K_F64) out[i].v = r[xi++] & maskw(ret[i].bits); else if (ret[i].bits > 64) { out[i].v = (u128)r[0] | ((u128)r[1] << 64); gi = 2; } else out[i].v = r[gi++] & maskw(ret[i].bits); }
  return true;
}
Func* resolveAddr(u64 a) {
  auto it = byAddr.find(a); if (it != byAddr.end()) return it->second;
  if (a >= trampBase && a < trampBase + funcList.size() * 32) { Func* f = funcList[(a - trampBase) / 32]; return f; }
  if (a < 65536) violation("memory", "call through a null or invalid function pointer"); if (inMem(a)) violation("memory", "call of a data address");
  Dl_info di; Func* r = nullptr; if (dladdr((void*)a, &di) && di.dli_sname && di.dli_saddr == (void*)a) { r = getFunc(di.dli_sname); if (!r) { r = new Func; r->name = di.dli_sname; r->native = (void*)a; r->builtin = findBuiltin(r->name); r->nativeOk = isTrusted(r->name); } }
  if (!r) { r = new Func; r->name = "native@" + std::to_string(a); r->native = (void*)a; }
  byAddr[a] = r; return r;
}
static Builtin findBuiltin(const std::string& n); static bool isTrusted(const std::string& n);
bool isPure(const std::string& n);
// exact table of a pure native function of one 32-bit code point argument
struct PTab { std::vector<u32> lo; std::vector<i64> val; bool delta; };
std::unordered_map<void*, PTab> ptabs;
PTab& pureTab(void* fn, bool delta) {
  auto it = ptabs.find(fn); if (it != ptabs.end()) return it->second; PTab t; t.delta = delta; i64 last = 0;
  for (u32 c = 0; c <= 0x110000; c++) { i64 v = ((int (*)(int))fn)((int)c); if (!delta) v = (signed char)v ? ((int)v) : 0; if (delta) v = (u32)((u32)v - c); if (c == 0 || v != last) { t.lo.push_back(c); t.val.push_back(v); last = v; } }
  return ptabs[fn] = t;
}
Expr* pureMux(PTab& t, Expr* x, size_t l, size_t r, unsigned w) { if (r - l == 1) { Expr* k = eConst((u128)(u64)t.val[l], 32); Expr* e = t.delta ? eBin(E_ADD, x, k) : k; return eExtract(e, 0, w); } size_t m = (l + r) / 2; Expr* c = eBin(E_ULT, x, eConst(t.lo[m], 32)); if (isC(c)) return c->val ? pureMux(t, x, l, m, w) : pureMux(t, x, m, r, w); return eIte(c, pureMux(t, x, l, m, w), pureMux(t, x, m, r, w)); }

void doCall(Frame& f, const Inst& I) {
  const CallSite* cs = (const CallSite*)I.p; Func* fn = cs->direct; Thread* t = cur;
  if (!fn) { Slot s = gs(f, cs->callee); u64 a = conc(s, 64); fn = resolveAddr(a); }
  if (fn->F && !fn->F->isDeclaration() && !fn->builtin) {
    Slot args[64]; std::vector<Slot> big; Slot* ap = args; size_t n = cs->args.size(); if (n > 64) { big.resize(n); ap = big.data(); }
    for (size_t i = 0; i < n; i++) ap[i] = gs(f, cs->args[i]);
    pushFrame(fn, ap, n);
    if (fn->F->isVarArg()) { auto* va = new std::vector<Slot>(ap + std::min<size_t>(n, fn->nargs), ap + n); t->frames.back().varargs = va; }
    return;
  }
  CallInfo ci; ci.E = this; ci.T = t; ci.f = fn; ci.cs = cs; for (int a : cs->args) ci.args.push_back(gs(f, a)); for (auto& r : ci.ret) r = sv(0);
  if (fn->builtin) {
    fn->builtin(ci);
    if (ci.pushed || ci.retry || ci.thrown) return;
    finishCall(ci.ret); return;
  }
  if (!fn->native) incomplete("call of unresolved external function " + fn->name);
  if (fn->F && isPure(fn->name) && ci.args.size() == 1 && ci.args[0].e) { PTab& p = pureTab(fn->native, fn->name.compare(0, 4, "u_to") == 0); u128 mn, mx; Expr* x = ci.args[0].e; S.interval(x, mn, mx); size_t l = std::upper_bound(p.lo.begin(), p.lo.end(), (u32)mn) - p.lo.begin(); l = l ? l - 1 : 0; size_t h = std::upper_bound(p.lo.begin(), p.lo.end(), (u32)std::min<u128>(mx, 0xffffffffu)) - p.lo.begin(); if (h <= l) h = l + 1; Slot r; setE(r, pureMux(p, x, l, h, cs->ret[0].bits)); finishCall(&r); return; }
  if (opt.trace && !fn->nativeOk) fprintf(stderr, "native %s\n", fn->name.c_str());
  if (nativeCall(fn, fn->native, ci.args, cs->kinds, cs->byval, cs->ret, ci.ret, fn->nativeOk)) finishCall(ci.ret);
}
void doReturn(Frame& f, const Inst& I) {
  Slot ret[16]; std::vector<Slot> big; Slot* rp = ret; if (I.n > 16) { big.resize(I.n); rp = big.data(); } for (int i = 0; i < I.n; i++) rp[i] = G(f, leafOp(I.a, i));
  bool m = f.marker; bool dropRet = f.atexit; Thread* t = cur; popFrame();
  if (m) { for (int i = 0; i < I.n && i < 4; i++) markerRet[i] = rp[i]; markerDone = true; return; }
  if (t->frames.empty()) { threadExit(t); return; }
  Slot z[4]; for (auto& x : z) x = sv(0); finishCall(dropRet ? z : rp);
}
Slot markerRet[4]; bool markerDone = false; int nestDepth = 0;
void threadExit(Thread* t) {
  if (t->id != 0 && !t->tlsDtors.empty()) { auto d = t->tlsDtors.back(); t->tlsDtors.pop_back(); Slot a = sv(d.second); pushFrame(resolveAddr(d.first), &a, 1); return; }
  t->st = T_DONE; releaseVC((u64)t | 1); 
  if (t->id == 0) { mainDone = true; return; }
  schedule(true);
}
bool mainDone = false;
// runs until the marker frame pushed by the caller returns
void runNested() { Thread* t = cur; nestDepth++; bool save = markerDone; markerDone = false; try { loop(); } catch (...) { nestDepth--; markerDone = save; throw; } if (cur != t) incomplete("thread switch inside a native callback"); markerDone = save; nestDepth--; }
Slot callSync(Func* f, const std::vector<Slot>& a) { pushFrame(f, a.data(), a.size(), nullptr, true); runNested(); return markerRet[0]; }

double toD(const Slot& s, unsigned w) { if (w == 32) { float f; u32 b = (u32)s.v; memcpy(&f, &b, 4); return f; } double d; u64 b = (u64)s.v; memcpy(&d, &b, 8); return d; }
u128 fromD(double d, unsigned w) { if (w == 32) { float f = (float)d; u32 b; memcpy(&b, &f, 4); return b; } u64 b; memcpy(&b, &d, 8); return b; }
long double toL(const Slot& s, unsigned w) { if (w == 80) { long double l = 0; memcpy(&l, &s.v, 10); return l; } return toD(s, w); }
u128 fromL(long double l, unsigned w) { if (w == 80) { u128 v = 0; memcpy(&v, &l, 10); return v; } return fromD((double)l, w); }
void concF(Slot& s) { if (s.e) { s.v = concretize(s.e, "floating point operand"); s.e = nullptr; } }
static bool icmpC(unsigned p, u128 a, u128 b, unsigned w) {
  switch (p) { case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_UGT: return a > b; case CmpInst::ICMP_UGE: return a >= b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_ULE: return a <= b;
    case CmpInst::ICMP_SGT: return sx(a, w) > sx(b, w); case CmpInst::ICMP_SGE: return sx(a, w) >= sx(b, w); case CmpInst::ICMP_SLT: return sx(a, w) < sx(b, w); case CmpInst::ICMP_SLE: return sx(a, w) <= sx(b, w); } abort(); }
static Expr* icmpE(unsigned p, Expr* a, Expr* b) {
  switch (p) { case CmpInst::ICMP_EQ: return eBin(E_EQ, a, b); case CmpInst::ICMP_NE: return eNot(eBin(E_EQ, a, b)); case CmpInst::ICMP_UGT: return eBin(E_ULT, b, a); case CmpInst::ICMP_UGE: return eBin(E_ULE, b, a); case CmpInst::ICMP_ULT: return eBin(E_ULT, a, b); case CmpInst::ICMP_ULE: return eBin(E_ULE, a, b);
    case CmpInst::ICMP_SGT: return eBin(E_SLT, b, a); case CmpInst::ICMP_SGE: return eBin(E_SLE, b, a); case CmpInst::ICMP_SLT: return eBin(E_SLT, a, b); case CmpInst::ICMP_SLE: return eBin(E_SLE, a, b); } abort(); }
bool fcmpC(unsigned p, long double a, long double b) { bool u = std::isnan((double)a) || std::isnan((double)b);
  switch (p) { case CmpInst::FCMP_FALSE: return false; case CmpInst::FCMP_OEQ: return !u && a == b; case CmpInst::FCMP_OGT: return !u && a > b; case CmpInst::FCMP_OGE: return !u && a >= b; case CmpInst::FCMP_OLT: return !u && a < b; case CmpInst::FCMP_OLE: return !u && a <= b; case CmpInst::FCMP_ONE: return !u && a != b; case CmpInst::FCMP_ORD: return !u; case CmpInst::FCMP_UNO: return u; case CmpInst::FCMP_UEQ: return u || a == b; case CmpInst::FCMP_UGT: return u || a > b; case CmpInst::FCMP_UGE: return u || a >= b; case CmpInst::FCMP_ULT: return u || a < b; case CmpInst::FCMP_ULE: return u || a <= b; case CmpInst::FCMP_UNE: return u || a != b; default: return true; } }
Slot binop(EOp op, Slot a, Slot b, unsigned w) {
  if (op == E_UDIV || op == E_SDIV || op == E_UREM || op == E_SREM) {
    if (b.e) { if (!decide(eNot(eBin(E_EQ, b.e, eConst(0, w))), "division by zero")) violation("arithmetic", "division by zero"); }
    else if ((b.v & maskw(w)) == 0) violation("arithmetic", "division by zero");
  }
  Slot d; d.pad = 0; d.e = nullptr; if (!a.e && !b.e) { d.v = foldBin(op, a.v, b.v, w); return d; }
  setE(d, eBin(op, ex(a, w), ex(b, w))); return d;
}
u64 addrArg(Slot s, unsigned bytes, bool write) { if (s.e) return resolveAddr(s.e, bytes, write); return (u64)s.v; }

void loop() {
  for (;;) {
    if (markerDone) { markerDone = false; return; }
    if (mainDone && nestDepth == 0) return;
    Thread* t = cur; Frame& f = t->frames.back(); const Inst& I = f.f->code[f.pc];
    instrs++; if (++pathInstrs > opt.maxInstr) violation("non-termination", "more than " + std::to_string(opt.maxInstr) + " instructions on one path");
    if ((pathInstrs & 0xfffff) == 0 && sh->stop) leave();
    switch (I.op) {
      case I_NOP: f.pc++; break;
      case I_BIN: for (int i = 0; i < I.n; i++) { const Slot& a = G(f, leafOp(I.a, i)); const Slot& b = G(f, leafOp(I.b, i));
          EOp op = (EOp)I.aux; if (!a.e && !b.e && op != E_UDIV && op != E_SDIV && op != E_UREM && op != E_SREM) { f.r[I.dst + i].v = foldBin(op, a.v, b.v, I.w); f.r[I.dst + i].e = nullptr; } else { Slot r = binop(op, gs(f, leafOp(I.a, i)), gs(f, leafOp(I.b, i)), I.w); f.r[I.dst + i] = r; } } f.pc++; break;
      case I_ICMP: for (int i = 0; i < I.n; i++) { const Slot& a = G(f, leafOp(I.a, i)); const Slot& b = G(f, leafOp(I.b, i)); Slot& d = f.r[I.dst + i];
          if (!a.e && !b.e) { d.v = icmpC(I.aux, a.v & maskw(I.w), b.v & maskw(I.w), I.w); d.e = nullptr; } else { Slot x = gs(f, leafOp(I.a, i)), y = gs(f, leafOp(I.b, i)); setE(d, icmpE(I.aux, ex(x, I.w), ex(y, I.w))); } } f.pc++; break;
      case I_FBIN: for (int i = 0; i < I.n; i++) { Slot a = gs(f, leafOp(I.a, i)), b = gs(f, leafOp(I.b, i)); concF(a); concF(b); Slot r = sv(0);
          if (I.w == 80) { long double x = toL(a, 80), y = toL(b, 80), z = I.aux == 0 ? x + y : I.aux == 1 ? x - y : I.aux == 2 ? x * y : I.aux == 3 ? x / y : fmodl(x, y); r.v = fromL(z, 80); }
          else if (I.w == 32) { float x = (float)toD(a, 32), y = (float)toD(b, 32), z = I.aux == 0 ? x + y : I.aux == 1 ? x - y : I.aux == 2 ? x * y : I.aux == 3 ? x / y : fmodf(x, y); r.v = fromD(z, 32); }
          else { double x = toD(a, 64), y = toD(b, 64), z = I.aux == 0 ? x + y : I.aux == 1 ? x - y : I.aux == 2 ? x * y : I.aux == 3 ? x / y : fmod(x, y); r.v = fromD(z, 64); }
          cur->frames.back().r[I.dst + i] = r; } f.pc++; break;
      case I_FNEG: for (int i = 0; i < I.n; i++) { Slot a = gs(f, leafOp(I.a, i)); Slot r = binop(E_XOR, a, sv((u128)1 << (I.w - 1)), I.w); f.r[I.dst + i] = r; } f.pc++; break;
      case I_FCMP: for (int i = 0; i < I.n; i++) { Slot a = gs(f, leafOp(I.a, i)), b = gs(f, leafOp(I.b, i)); concF(a); concF(b); f.r[I.dst + i] = sv(fcmpC(I.aux, toL(a, I.w), toL(b, I.w))); } f.pc++; break;
      case I_FPCAST: for (int i = 0; i < I.n; i++) { Slot a = gs(f, leafOp(I.a, i)); concF(a); Slot r = sv(0);
          switch (I.aux) { case 0: r.v = I.w == 80 || I.w2 == 80 ? fromL(toL(a, I.w), I.w2) : fromD(toD(a, I.w), I.w2); break; case 1: r.v = (u128)(i128)(i64)toL(a, I.w) & maskw(I.w2); break; case 2: r.v = (u128)(u64)toL(a, I.w) & maskw(I.w2); break;
            case 3: if (I.w2 == 80) r.v = fromL((long double)(i64)sx(a.v, I.w), 80); else if (I.w2 == 32) r.v = fromD((double)(float)(i64)sx(a.v, I.w), 32); else r.v = fromD((double)(i64)sx(a.v, I.w), 64); break;
            case 4: if (I.w2 == 80) r.v = fromL((long double)(u64)a.v, 80); else if (I.w2 == 32) r.v = fromD((double)(float)(u64)a.v, 32); else r.v = fromD((double)(u64)a.v, 64); break; }
          f.r[I.dst + i] = r; } f.pc++; break;
      case I_SELECT: { auto& ls = *(const std::vector<Leaf>*)I.p;
        for (int i = 0; i < I.n; i++) { Slot c = gs(f, I.flags ? leafOp(I.a, i) : I.a); Slot a = gs(f, leafOp(I.b, i)), b = gs(f, leafOp(I.c, i)); Slot r;
          if (!c.e) r = (c.v & 1) ? a : b; 
          else if (ls[i].kind == K_F32 || ls[i].kind == K_F64 || ls[i].kind == K_F80) { r = decide(c.e) ? a : b; }
          else if (ls[i].kind == K_PTR) { r = decide(c.e) ? a : b; }
          else setE(r, eIte(c.e, ex(a, ls[i].bits), ex(b, ls[i].bits))); 
          f.r[I.dst + i] = r; } f.pc++; break; }
      case I_ALLOCA: { Slot c = gs(f, I.a); u64 n = conc(c, 64); f.r[I.dst] = sv(stackAlloc(n * I.imm, I.b)); if (mt()) clearRace((u64)f.r[I.dst].v, n * I.imm); f.pc++; break; }
      case I_LOAD: {
        if (I.flags && schedPoint()) break;
        Slot ps = gs(f, I.a); auto& ls = *(const std::vector<Leaf>*)I.p;
        if (I.n == 1) { unsigned by = (ls[0].bits + 7) / 8; Slot d; d.pad = 0; if (ps.e) { if (symLoad(ps.e, by, ls[0].bits, d)) { f.r[I.dst] = d; f.pc++; break; } u64 a = resolveAddr(ps.e, by, false); load(a, by, ls[0].bits, d); } else { load((u64)ps.v, by, ls[0].bits, d); if (t->id || mt()) { if (I.w2) atomicRead((u64)ps.v, by, I.w2); raceAccess((u64)ps.v, by, false, I.w2); } } f.r[I.dst] = d; }
        else { u64 a = ps.e ? resolveAddr(ps.e, ls.empty() ? 0 : ls.back().off + 8, false) : (u64)ps.v; for (int i = 0; i < I.n; i++) { Slot d; d.pad = 0; load(a + ls[i].off, (ls[i].bits + 7) / 8, ls[i].bits, d); f.r[I.dst + i] = d; } }
        f.pc++; break; }
      case I_STORE: {
        if (I.flags && schedPoint()) break;
        Slot ps = gs(f, I.a == INT32_MIN ? 0 : I.b); auto& ls = *(const std::vector<Leaf>*)I.p; if (ls.empty()) { f.pc++; break; }
        u64 a = ps.e ? resolveAddr(ps.e, ls.back().off + (ls.back().bits + 7) / 8, true) : (u64)ps.v;
        for (int i = 0; i < I.n; i++) store(a + ls[i].off, (ls[i].bits + 7) / 8, ls[i].bits, gs(f, leafOp(I.a, i)));
        if (mt()) { raceAccess(a, ls.back().off + (ls.back().bits + 7) / 8, true, I.w2); if (I.w2) atomicWrite(a, I.w2, false); }
        f.pc++; break; }
      case I_GEP: { auto& ix = *(const std::vector<GepIdx>*)I.p; Slot b = gs(f, I.a); u64 off = I.imm; Expr* e = b.e; 
        for (auto& g : ix) { Slot s = gs(f, g.op); if (!s.e) off += (u64)sx(s.v, g.width) * g.scale; else { Expr* t2 = eBin(E_MUL, eSext(s.e, 64), eConst(g.scale, 64)); if (g.width > 64) incomplete("wide gep"); e = e ? eBin(E_ADD, e, t2) : eBin(E_ADD, t2, eConst((u64)b.v, 64)); if (!b.e) { b.v = 0; b.e = e; } } }
        Slot d; d.pad = 0; if (e) setE(d, eBin(E_ADD, e, eConst(off, 64))); else { d.v = (u64)((u64)b.v + off); d.e = nullptr; } f.r[I.dst] = d; f.pc++; break; }
      case I_ZEXT: for (int i = 0; i < I.n; i++) { Slot a = gs(f, leafOp(I.a, i)); if (a.e) { Slot d; setE(d, S.normSingle(eZext(a.e, I.w2))); f.r[I.dst + i] = d; } else { a.v &= maskw(I.w); f.r[I.dst + i] = a; } } f.pc++; break;
      case I_SEXT: for (int i = 0; i < I.n; i++) { Slot a = gs(f, leafOp(I.a, i)); if (a.e) { Slot d; setE(d, S.normSingle(eSext(a.e, I.w2))); f.r[I.dst + i] = d; } else { a.v = (u128)sx(a.v, I.w) & maskw(I.w2); f.r[I.dst + i] = a; } } f.pc++; break;
      case I_TRUNC: for (int i = 0; i < I.n; i++) { Slot a = gs(f, leafOp(I.a, i)); if (a.e) { Slot d; setE(d, eExtract(a.e, 0, I.w2)); f.r[I.dst + i] = d; } else { a.v &= maskw(I.w2); f.r[I.dst + i] = a; } } f.pc++; break;
      case I_COPY: for (int i = 0; i < I.n; i++) f.r[I.dst + i] = G(f, leafOp(I.a, i)); f.pc++; break;
      case I_BR: takeEdge(f, ((const Edge*)I.p)[0]); break;
      case I_CBR: { Slot c = gs(f, I.a); bool b = c.e ? decide(c.e) : (c.v & 1); takeEdge(f, ((const Edge*)I.p)[b ? 0 : 1]); break; }
      case I_SWITCH: { auto& sw = *(const SwitchI*)I.p; Slot c = gs(f, I.a); const Edge* e = &sw.def;
        if (!c.e) { for (auto& k : sw.cases) if (k.first == (c.v & maskw(I.w))) { e = &k.second; break; } }
        else { // group the cases by destination
          std::vector<std::pair<const Edge*, Expr*>> gr; for (auto& k : sw.cases) { Expr* q = eBin(E_EQ, c.e, eConst(k.first, I.w)); bool found = false; for (auto& g : gr) if (g.first->bb == k.second.bb && g.first->copies == k.second.copies) { g.second = eBin(E_OR, g.second, q); found = true; break; } if (!found) gr.push_back({&k.second, q}); }
          for (auto& g : gr) if (decide(g.second)) { e = g.first; break; } }
        takeEdge(f, *e); break; }
      case I_RET: doReturn(f, I); break;
      case I_UNREACHABLE: violation("undefined behaviour", "unreachable code reached");
      case I_CALL: doCall(f, I); break;
      case I_LANDINGPAD: f.r[I.dst] = sv(f.lpExc); f.r[I.dst + 1] = sv(f.lpSel); f.pc++; break;
      case I_RESUME: { u64 h = (u64)G(f, I.a).v; bool m = f.marker; popFrame(); if (m) throw InterpThrow{h}; unwind(h); break; }
      case I_ATOMICRMW: { if (I.flags && schedPoint()) break; Slot ps = gs(f, I.a); u64 a = addrArg(ps, I.w / 8, true); Slot o; o.pad = 0; load(a, (I.w + 7) / 8, I.w, o); Slot b = gs(f, I.b); Slot n;
        switch (I.aux) { case AtomicRMWInst::Xchg: n = b; break; case AtomicRMWInst::Add: n = binop(E_ADD, o, b, I.w); break; case AtomicRMWInst::Sub: n = binop(E_SUB, o, b, I.w); break; case AtomicRMWInst::And: n = binop(E_AND, o, b, I.w); break; case AtomicRMWInst::Or: n = binop(E_OR, o, b, I.w); break; case AtomicRMWInst::Xor: n = binop(E_XOR, o, b, I.w); break; default: incomplete("atomicrmw"); }
        store(a, (I.w + 7) / 8, I.w, n); if (mt()) { atomicRead(a, I.w / 8, I.w2); raceAccess(a, I.w / 8, true, true); atomicWrite(a, I.w2, true); } f.r[I.dst] = o; f.pc++; break; }
      case I_CMPXCHG: { if (I.flags && schedPoint()) break; Slot ps = gs(f, I.a); u64 a = addrArg(ps, I.w / 8, true); Slot o; o.pad = 0; load(a, (I.w + 7) / 8, I.w, o); Slot c = gs(f, I.b), n = gs(f, I.c); bool eq = !o.e && !c.e ? (o.v & maskw(I.w)) == (c.v & maskw(I.w)) : decide(eBin(E_EQ, ex(o, I.w), ex(c, I.w)));
        if (eq) store(a, (I.w + 7) / 8, I.w, n); if (mt()) { atomicRead(a, I.w / 8, I.w2); raceAccess(a, I.w / 8, eq, true); if (eq) atomicWrite(a, I.w2, true); } f.r[I.dst] = o; f.r[I.dst + 1] = sv(eq); f.pc++; break; }
      case I_FENCE: fence(I.w2); f.pc++; break;
      case I_INTRIN: intrinsic(f, I); break;
      default: { std::string s; raw_string_ostream os(s); os << *I.src; incomplete("unsupported instruction: " + os.str()); }
    }
  }
}
void intrinsic(Frame& f, const Inst& I) {
  if (I.aux == 200) { auto& pr = *(const std::pair<std::vector<Leaf>, std::vector<Leaf>>*)I.p; Expr* e = nullptr; for (int i = pr.first.size() - 1; i >= 0; i--) { Expr* b = ex(gs(f, leafOp(I.a, i)), pr.first[i].bits); e = e ? eConcat(e, b) : b; } unsigned off = 0; for (size_t i = 0; i < pr.second.size(); i++) { Slot d; setE(d, eExtract(e, off, pr.second[i].bits)); off += pr.second[i].bits; f.r[I.dst + i] = d; } f.pc++; return; }
  const CallSite* cs = (const CallSite*)I.p; auto A = [&](int i) { return gs(f, cs->args[i]); }; unsigned w = cs->kinds.empty() ? 0 : cs->kinds[0].bits; int n = cs->ret.size();
  auto el = [&](int a, int i) { return gs(f, cs->args[a * std::max(1, n) + i]); };
  switch (cs->intrin) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { Slot d = A(0), s = A(1), l = A(2); u64 len = conc(l, 64); u64 da = len ? addrArg(d, 1, true) : 0, sa = len ? addrArg(s, 1, false) : 0; if (mt()) { raceAccess(sa, len, false, false); raceAccess(da, len, true, false); } copyMem(da, sa, len); f.pc++; return; }
    case Intrinsic::memset: { Slot d = A(0), v = A(1), l = A(2); u64 len = conc(l, 64); u64 da = len ? addrArg(d, 1, true) : 0; if (mt()) raceAccess(da, len, true, false); setMem(da, v, len); f.pc++; return; }
    case Intrinsic::lifetime_start: { Slot l = A(0), p = A(1); if (!p.e && inMem((u64)p.v) && (i64)l.v > 0) { u8* fl = FL((u64)p.v); for (u64 i = 0; i < (u64)l.v; i++) if (fl[i] & F_ADDR) fl[i] = F_ADDR; clearRace((u64)p.v, (u64)l.v); } f.pc++; return; }
    case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::var_annotation: case Intrinsic::stackrestore: f.pc++; return;
    case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::stacksave: if (I.dst >= 0) f.r[I.dst] = sv(0); f.pc++; return;
    case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::expect: case Intrinsic::ssa_copy: case Intrinsic::ptr_annotation: f.r[I.dst] = A(0); f.pc++; return;
    case Intrinsic::is_constant: f.r[I.dst] = sv(0); f.pc++; return;
    case Intrinsic::objectsize: f.r[I.dst] = sv((A(1).v & 1) ? 0 : maskw(cs->ret[0].bits)); f.pc++; return;
    case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: violation("trap", "trap instruction reached (undefined behaviour check)");
    case Intrinsic::eh_typeid_for: f.r[I.dst] = sv(selOf((u64)A(0).v)); f.pc++; return;
    case Intrinsic::threadlocal_address: f.r[I.dst] = sv(tlsAddr((const GlobalVariable*)((const Value*)I.imm)->stripPointerCasts())); f.pc++; return;
    case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: for (int i = 0; i < n; i++) { Slot a = el(0, i), b = el(1, i); bool mx = cs->intrin == Intrinsic::umax || cs->intrin == Intrinsic::smax; EOp op = cs->intrin == Intrinsic::umax || cs->intrin == Intrinsic::umin ? E_ULT : E_SLT; Expr* x = ex(a, w); Expr* y = ex(b, w); Slot d; setE(d, eIte(eBin(op, x, y), mx ? y : x, mx ? x : y)); f.r[I.dst + i] = d; } f.pc++; return;
    case Intrinsic::abs: { for (int i = 0; i < n; i++) { Expr* x = ex(gs(f, cs->args[i]), w); Slot d; setE(d, eIte(eBin(E_SLT, x, eConst(0, w)), eBin(E_SUB, eConst(0, w), x), x)); f.r[I.dst + i] = d; } f.pc++; return; }
    case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop: { Slot a = A(0); Expr* x = ex(a, w); Slot d; Expr* r;
      if (cs->intrin == Intrinsic::ctpop) { r = eConst(0, w); for (unsigned i = 0; i < w; i++) r = eBin(E_ADD, r, w == 1 ? x : eZext(eExtract(x, i, 1), w)); }
      else { r = eConst(w, w); for (unsigned k = 0; k < w; k++) { unsigned bit = cs->intrin == Intrinsic::ctlz ? k : w - 1 - k; unsigned val = cs->intrin == Intrinsic::ctlz ? w - 1 - k : w - 1 - k; r = eIte(eExtract(x, bit, 1), eConst(val, w), r); } }
      setE(d, r); f.r[I.dst] = d; f.pc++; return; }
    case Intrinsic::bswap: { Expr* x = ex(A(0), w); Expr* r = nullptr; for (unsigned i = 0; i < w / 8; i++) { Expr* b = eExtract(x, 8 * i, 8); r = r ? eConcat(r, b) : b; } Slot d; setE(d, r); f.r[I.dst] = d; f.pc++; return; }
    case Intrinsic::bitreverse: { Expr* x = ex(A(0), w); Expr* r = nullptr; for (unsigned i = 0; i < w; i++) { Expr* b = eExtract(x, i, 1); r = r ? eConcat(r, b) : b; } Slot d; setE(d, r); f.r[I.dst] = d; f.pc++; return; }
    case Intrinsic::fshl: case Intrinsic::fshr: { Expr* a = ex(A(0), w); Expr* b = ex(A(1), w); Slot c = A(2); Slot d; bool l = cs->intrin == Intrinsic::fshl;
      if (!c.e) { unsigned k = (unsigned)(c.v % w); if (k == 0) setE(d, l ? a : b); else if (l) setE(d, eConcat(eExtract(a, 0, w - k), eExtract(b, w - k, k))); else setE(d, eConcat(eExtract(a, 0, k), eExtract(b, k, w - k))); }
      else { if (w > 64) incomplete("wide funnel shift"); Expr* k = eZext(eBin(E_UREM, c.e, eConst(w, w)), 2 * w); Expr* cc = eConcat(a, b); Expr* r = l ? eExtract(eBin(E_SHL, cc, k), w, w) : eExtract(eBin(E_LSHR, cc, k), 0, w); setE(d, r); }
      f.r[I.dst] = d; f.pc++; return; }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
      bool sg = cs->intrin == Intrinsic::sadd_with_overflow || cs->intrin == Intrinsic::ssub_with_overflow || cs->intrin == Intrinsic::smul_with_overflow; EOp op = cs->intrin == Intrinsic::uadd_with_overflow || cs->intrin == Intrinsic::sadd_with_overflow ? E_ADD : cs->intrin == Intrinsic::usub_with_overflow || cs->intrin == Intrinsic::ssub_with_overflow ? E_SUB : E_MUL;
      if (w > 64) incomplete("wide overflow intrinsic"); unsigned W = op == E_MUL ? 2 * w : w + 1; Expr *a = ex(A(0), w), *b = ex(A(1), w); Expr *x = sg ? eSext(a, W) : eZext(a, W), *y = sg ? eSext(b, W) : eZext(b, W); Expr* r = eBin(op, x, y); Expr* lo = eExtract(r, 0, w); Slot d0, d1; setE(d0, lo); setE(d1, eNot(eBin(E_EQ, r, sg ? eSext(lo, W) : eZext(lo, W)))); f.r[I.dst] = d0; f.r[I.dst + 1] = d1; f.pc++; return; }
    case Intrinsic::uadd_sat: case Intrinsic::usub_sat: { Expr *a = ex(A(0), w), *b = ex(A(1), w); Slot d; if (cs->intrin == Intrinsic::usub_sat) setE(d, eIte(eBin(E_ULT, a, b), eConst(0, w), eBin(E_SUB, a, b))); else { Expr* s = eBin(E_ADD, a, b); setE(d, eIte(eBin(E_ULT, s, a), eConst(maskw(w), w), s)); } f.r[I.dst] = d; f.pc++; return; }
    case Intrinsic::fabs: { Slot a = A(0); concF(a); a.v &= maskw(w - 1); f.r[I.dst] = a; f.pc++; return; }
    case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::sqrt: case Intrinsic::rint: case Intrinsic::round: case Intrinsic::trunc: { Slot a = A(0); concF(a); if (w == 80) { long double x = toL(a, 80), z = cs->intrin == Intrinsic::floor ? floorl(x) : cs->intrin == Intrinsic::ceil ? ceill(x) : cs->intrin == Intrinsic::sqrt ? sqrtl(x) : cs->intrin == Intrinsic::rint ? rintl(x) : cs->intrin == Intrinsic::round ? roundl(x) : truncl(x); f.r[I.dst] = sv(fromL(z, 80)); f.pc++; return; } double x = toD(a, w); double r = cs->intrin == Intrinsic::floor ? floor(x) : cs->intrin == Intrinsic::ceil ? ceil(x) : cs->intrin == Intrinsic::sqrt ? sqrt(x) : cs->intrin == Intrinsic::rint ? rint(x) : cs->intrin == Intrinsic::round ? round(x) : trunc(x); f.r[I.dst] = sv(fromD(r, w)); f.pc++; return; }
    case Intrinsic::pow: case Intrinsic::exp: case Intrinsic::log: case Intrinsic::log10: { Slot a = A(0); concF(a); if (w == 80) { long double x = toL(a, 80), z; if (cs->intrin == Intrinsic::pow) { Slot b = A(1); concF(b); z = powl(x, toL(b, 80)); } else z = cs->intrin == Intrinsic::exp ? expl(x) : cs->intrin == Intrinsic::log ? logl(x) : log10l(x); f.r[I.dst] = sv(fromL(z, 80)); f.pc++; return; } double x = toD(a, w), r; if (cs->intrin == Intrinsic::pow) { Slot b = A(1); concF(b); r = pow(x, toD(b, w)); } else r = cs->intrin == Intrinsic::exp ? exp(x) : cs->intrin == Intrinsic::log ? log(x) : log10(x); f.r[I.dst] = sv(fromD(r, w)); f.pc++; return; }
    case Intrinsic::fmuladd: { Slot a = A(0), b = A(1), c = A(2); concF(a); concF(b); concF(c); f.r[I.dst] = sv(fromD(toD(a, w) * toD(b, w) + toD(c, w), w)); f.pc++; return; }
    case Intrinsic::vastart: { // System V va_list: everything in the overflow area
      u64 ap = (u64)A(0).v; auto* va = f.varargs; u64 n2 = va ? va->size() : 0; u64 area = stackAlloc(8 * n2 + 8, 16); for (u64 i = 0; i < n2; i++) { Slot s = (*va)[i]; store(area + 8 * i, 8, 64, s.e ? [&] { Slot z; setE(z, eZext(s.e, 64)); return z; }() : sv((u64)s.v)); }
      store(ap, 4, 32, sv(48)); store(ap + 4, 4, 32, sv(176)); store(ap + 8, 8, 64, sv(area)); store(ap + 16, 8, 64, sv(0)); f.pc++; return; }
    case Intrinsic::vaend: f.pc++; return;
    default: { std::string s; raw_string_ostream os(s); os << *I.src; incomplete("unsupported intrinsic: " + os.str()); }
  }
}
