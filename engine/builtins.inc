// ---------------------------------------------------------------- modelled external functions
u64 CallInfo::argc(int i) { Slot& s = args[i]; if (s.e) { s.v = E->concretize(s.e, ("argument of " + f->name).c_str()); s.e = nullptr; } return (u64)s.v; }
#define B(n) static void n(CallInfo& c)
static void setRet(CallInfo& c, u128 v) { c.ret[0].v = v; c.ret[0].e = nullptr; }
static bool badSize(u64 n) { return n > (1ull << 33); }
static void throwStd(CallInfo& c, void (*thrower)()) { try { thrower(); } catch (...) { std::exception_ptr ep = std::current_exception(); c.E->throwNative(ep); } c.thrown = true; c.E->throwObj(c.E->pendingNative); }
B(b_malloc) { u64 n = c.argc(0); if (badSize(n)) { setRet(c, 0); return; } setRet(c, c.E->heapAlloc(n)); }
B(b_calloc) { u64 n = c.argc(0) * c.argc(1); if (badSize(n)) { setRet(c, 0); return; } setRet(c, c.E->heapAlloc(n, 16, true)); }
B(b_new) { u64 n = c.argc(0); if (badSize(n)) { throwStd(c, [] { throw std::bad_alloc(); }); return; } setRet(c, c.E->heapAlloc(n)); }
B(b_newal) { u64 n = c.argc(0); if (badSize(n)) { throwStd(c, [] { throw std::bad_alloc(); }); return; } setRet(c, c.E->heapAlloc(n, c.argc(1))); }
B(b_alignedalloc) { setRet(c, c.E->heapAlloc(c.argc(1), c.argc(0))); }
B(b_memalign) { u64 a = c.E->heapAlloc(c.argc(2), c.argc(1)); c.E->store(c.argc(0), 8, 64, c.E->sv(a)); setRet(c, 0); }
B(b_free) { u64 a = c.argc(0); c.E->heapFree(a); }
B(b_realloc) { Engine* E = c.E; u64 a = c.argc(0), n = c.argc(1); if (badSize(n)) { setRet(c, 0); return; } if (!a) { setRet(c, E->heapAlloc(n)); return; } if (!inMem(a)) { setRet(c, (u64)realloc((void*)a, n)); return; } auto it = E->heap.find(a); if (it == E->heap.end()) E->violation("memory", "realloc of an invalid pointer"); u64 b = E->heapAlloc(n); E->copyMem(b, a, std::min(n, it->second)); E->heapFree(a); setRet(c, b); }
B(b_usable) { Engine* E = c.E; auto it = E->heap.find(c.argc(0)); setRet(c, it == E->heap.end() ? 0 : it->second); }
// memory comparison as one expression
static Expr* cmpExpr(Engine* E, u64 a, u64 b, u64 n, bool onlyEq) {
  E->checkAddr(a, n, false); E->checkAddr(b, n, false); std::vector<std::pair<Expr*, Expr*>> d;
  for (u64 i = 0; i < n; i++) { Slot x, y; E->load(a + i, 1, 8, x); E->load(b + i, 1, 8, y); if (!x.e && !y.e) { if (x.v == y.v) continue; d.push_back({E->ex(x, 8), E->ex(y, 8)}); break; } d.push_back({E->ex(x, 8), E->ex(y, 8)}); }
  Expr* r = eConst(0, 32);
  for (size_t i = d.size(); i-- > 0;) { Expr* eq = eBin(E_EQ, d[i].first, d[i].second); Expr* df = onlyEq ? eConst(1, 32) : eBin(E_SUB, eZext(d[i].first, 32), eZext(d[i].second, 32)); r = eIte(eq, r, df); }
  return r;
}
B(b_memcmp) { u64 n = c.argc(2); if (!n) { setRet(c, 0); return; } u64 a = c.argc(0), b = c.argc(1); c.E->setE(c.ret[0], cmpExpr(c.E, a, b, n, c.f->name == "bcmp")); }
B(b_memcpy) { u64 d = c.argc(0), s = c.argc(1), n = c.argc(2); if (c.E->mt()) { c.E->raceAccess(s, n, false, false); c.E->raceAccess(d, n, true, false); } c.E->copyMem(d, s, n); setRet(c, d); }
B(b_memset) { u64 d = c.argc(0), n = c.argc(2); c.E->setMem(d, c.args[1], n); setRet(c, d); }
// ---- exceptions
B(b_cxa_alloc) { u64 n = c.argc(0); u64 a = c.E->allocRaw(n + 128, 16, 32, F_ADDR | F_INIT); c.E->excs[a] = ExcObj{a, nullptr, 0, 0}; setRet(c, a); }
B(b_cxa_free) { c.E->excs.erase(c.argc(0)); }
B(b_cxa_throw) { Engine* E = c.E; u64 o = c.argc(0); ExcObj& x = E->excs[o]; x.obj = o; x.ti = (std::type_info*)c.argc(1); x.dtor = c.argc(2); c.thrown = true; E->throwObj(o); }
B(b_begin_catch) { Engine* E = c.E; u64 h = c.argc(0); auto it = E->handles.find(h); if (it == E->handles.end()) E->incomplete("foreign exception in begin_catch"); ExcHandle& H = it->second; H.handlers++; if (H.handlers == 1 || H.rethrown) { if (H.handlers == 1) c.T->uncaught--; } if (H.rethrown) { H.rethrown = false; } if (c.T->caught.empty() || c.T->caught.back() != h) c.T->caught.push_back(h); setRet(c, H.adj); }
static void exDecRef(CallInfo& c, u64 obj) { Engine* E = c.E; ExcObj& x = E->excs[obj]; if (--x.ref > 0) return; if (x.dtor) { Func* f = E->resolveAddr(x.dtor); Slot s = E->sv(obj); x.dtor = 0; if (f->F && !f->F->isDeclaration()) { E->pushFrame(f, &s, 1); E->cur->frames.back().atexit = true; c.pushed = true; } else if (f->native) { ((void (*)(void*))f->native)((void*)obj); } } }
B(b_end_catch) { Engine* E = c.E; if (c.T->caught.empty()) E->incomplete("end_catch without catch"); u64 h = c.T->caught.back(); ExcHandle& H = E->handles[h]; if (H.handlers > 0) H.handlers--; if (H.handlers == 0) { c.T->caught.pop_back(); if (!H.rethrown) exDecRef(c, H.obj); } else if (H.rethrown) c.T->caught.pop_back(); }
B(b_rethrow) { Engine* E = c.E; if (c.T->caught.empty()) E->violation("abort", "rethrow without a current exception (std::terminate)"); u64 h = c.T->caught.back(); ExcHandle& H = E->handles[h]; c.thrown = true; u64 obj = H.obj; E->excs[obj].ref++; /* the original handle is released by its end_catch; continue with a new handle */ u64 nh = E->newHandle(obj); c.T->uncaught++; E->unwind(nh); }
B(b_unwind_resume) { c.thrown = true; c.E->unwind(c.argc(0)); }
B(b_get_exc_ptr) { setRet(c, c.E->handles[c.argc(0)].adj); }
B(b_current_exc) { Engine* E = c.E; u64 out = c.argc(0), obj = 0; if (!c.T->caught.empty()) { obj = E->handles[c.T->caught.back()].obj; E->excs[obj].ref++; } E->store(out, 8, 64, E->sv(obj)); setRet(c, out); }
B(b_rethrow_exc) { Engine* E = c.E; Slot s; E->load(c.argc(0), 8, 64, s); u64 obj = E->conc(s, 64); if (!obj) E->violation("abort", "rethrow of a null exception_ptr"); c.thrown = true; E->throwObj(obj); }
B(b_ep_addref) { Engine* E = c.E; Slot s; E->load(c.argc(0), 8, 64, s); u64 o = (u64)s.v; if (o) E->excs[o].ref++; }
B(b_ep_release) { Engine* E = c.E; u64 p = c.argc(0); Slot s; E->load(p, 8, 64, s); u64 o = (u64)s.v; if (o) { E->store(p, 8, 64, E->sv(0)); exDecRef(c, o); } }
B(b_uncaught) { setRet(c, c.T->uncaught > 0 ? (c.f->name == "_ZSt19uncaught_exceptionsv" ? c.T->uncaught : 1) : 0); }
B(b_curtype) { setRet(c, c.T->caught.empty() ? 0 : (u64)c.E->excs[c.E->handles[c.T->caught.back()].obj].ti); }
B(b_terminate) { c.E->violation("abort", "call of " + c.f->name); }
B(b_assertfail) { c.E->violation("abort", "assertion failed: " + c.E->cstring(c.argc(0))); }
B(b_purevirtual) { c.E->violation("undefined behaviour", "pure virtual function called"); }
B(b_exit) { c.E->violation("exit", "process exit requested by the code under test"); }
// ---- initialisation guards
B(b_guard_acquire) { Engine* E = c.E; u64 g = c.argc(0); u8 v = *(u8*)g; if (v) { E->acquireVC(g); setRet(c, 0); return; } auto it = E->onceRunner.find(g); if (it != E->onceRunner.end() && it->second != c.T->id) { c.T->st = T_MUTEX; c.T->waitAddr = g ^ 1; E->mutexes[g ^ 1].owner = it->second; c.retry = true; E->schedule(true); return; } E->onceRunner[g] = c.T->id; E->mutexes[g ^ 1].owner = c.T->id; setRet(c, 1); }
B(b_guard_release) { Engine* E = c.E; u64 g = c.argc(0); *(u8*)g = 1; if (inMem(g)) *FL(g) |= F_INIT; E->mutexes[g ^ 1].owner = -1; E->onceRunner.erase(g); E->releaseVC(g); }
B(b_guard_abort) { Engine* E = c.E; u64 g = c.argc(0); E->mutexes[g ^ 1].owner = -1; E->onceRunner.erase(g); }
B(b_nop0) { setRet(c, 0); }
B(b_threadatexit) { c.T->tlsDtors.push_back({c.argc(0), c.argc(1)}); setRet(c, 0); }
// ---- mutexes, condition variables, threads
static bool mutexLock(CallInfo& c, u64 a, bool tryOnly) { // true when done (result in ret), false when blocked
  Engine* E = c.E; if (E->schedPoint()) { c.retry = true; return false; }
  MutexS& m = E->mutexes[a];
  if (m.owner == c.T->id) { int kind = inMem(a) && (*FL(a + 16) & F_INIT) ? *(int*)(a + 16) & 3 : 0; if (kind == 1) { m.count++; setRet(c, 0); return true; } if (tryOnly) { setRet(c, EBUSY); return true; } if (kind == 2) { setRet(c, EDEADLK); return true; } E->violation("deadlock", "a thread locks a mutex it already holds"); }
  if (m.owner < 0) { m.owner = c.T->id; m.count = 1; E->acquireVC(a); setRet(c, 0); return true; }
  if (tryOnly) { setRet(c, EBUSY); return true; }
  c.T->st = T_MUTEX; c.T->waitAddr = a; c.T->schedDone = false; c.retry = true; E->schedule(true); c.T->schedDone = (E->cur == c.T); return false;
}
B(b_mutex_lock) { mutexLock(c, c.argc(0), false); }
B(b_mutex_trylock) { mutexLock(c, c.argc(0), true); }
static void mutexUnlock(Engine* E, u64 a) { MutexS& m = E->mutexes[a]; if (m.owner != E->cur->id) E->violation("mutex", "unlock of a mutex not held by this thread"); if (--m.count == 0) { m.owner = -1; E->releaseVC(a); } }
B(b_mutex_unlock) { mutexUnlock(c.E, c.argc(0)); setRet(c, 0); }
B(b_mutex_init) { Engine* E = c.E; u64 a = c.argc(0), at = c.argc(1); E->mutexes.erase(a); if (inMem(a)) { memset((void*)a, 0, 40); for (int i = 0; i < 40; i++) { *FL(a + i) = (*FL(a + i) & ~F_SYM) | F_INIT; } if (at) *(int*)(a + 16) = *(int*)at & 3; } setRet(c, 0); }
B(b_mutex_destroy) { Engine* E = c.E; u64 a = c.argc(0); auto it = E->mutexes.find(a); if (it != E->mutexes.end() && it->second.owner >= 0) E->violation("mutex", "destroying a locked mutex"); E->mutexes.erase(a); setRet(c, 0); }
B(b_mutexattr_init) { Engine* E = c.E; E->store(c.argc(0), 4, 32, E->sv(0)); setRet(c, 0); }
B(b_mutexattr_settype) { Engine* E = c.E; E->store(c.argc(0), 4, 32, E->sv(c.argc(1))); setRet(c, 0); }
static void condWait(CallInfo& c, u64 cond, u64 mtx, bool timed, u64 deadline) {
  Engine* E = c.E; Thread* t = c.T;
  if (t->phase == 0) { // release and sleep
    if (!E->mt() && !timed) E->violation("deadlock", "the only thread waits on a condition variable");
    MutexS& m = E->mutexes[mtx]; if (m.owner != t->id) E->violation("mutex", "condition wait without holding the mutex"); m.owner = -1; m.count = 0; E->releaseVC(mtx);
    E->conds[cond].waiters.push_back(t->id); t->st = T_COND; t->waitAddr = cond; t->waitMutex = mtx; t->timed = timed; t->signaled = false; t->wakeResult = 0; t->phase = 1; t->deadline = deadline; c.retry = true; E->schedule(true); return;
  }
  // woken (phase 2): re-acquire the mutex
  MutexS& m = E->mutexes[mtx];
  if (m.owner >= 0) { t->st = T_MUTEX; t->waitAddr = mtx; c.retry = true; E->schedule(true); return; }
  m.owner = t->id; m.count = 1; E->acquireVC(mtx); t->phase = 0; t->timed = false; setRet(c, t->wakeResult);
}
B(b_cond_wait) { condWait(c, c.argc(0), c.argc(1), false, 0); }
B(b_scond_wait) { Engine* E = c.E; Slot s; E->load(c.argc(1), 8, 64, s); condWait(c, c.argc(0), (u64)s.v, false, 0); }
static u64 tsOf(Engine* E, u64 p) { Slot a, b; E->load(p, 8, 64, a); E->load(p + 8, 8, 64, b); return E->conc(a, 64) * 1000000000ull + E->conc(b, 64); }
B(b_cond_timedwait) { condWait(c, c.argc(0), c.argc(1), true, tsOf(c.E, c.argc(2))); }
B(b_cond_clockwait) { condWait(c, c.argc(0), c.argc(1), true, tsOf(c.E, c.argc(3))); }
static void signalOne(Engine* E, u64 a, bool all) { auto& w = E->conds[a].waiters; if (w.empty()) return; if (all) { for (int id : w) E->threads[id]->signaled = true; w.clear(); } else { u64 k = E->choose(w.size(), "wake"); E->threads[w[k]]->signaled = true; w.erase(w.begin() + k); } }
B(b_cond_signal) { if (c.E->schedPoint()) { c.retry = true; return; } signalOne(c.E, c.argc(0), false); setRet(c, 0); }
B(b_cond_broadcast) { if (c.E->schedPoint()) { c.retry = true; return; } signalOne(c.E, c.argc(0), true); setRet(c, 0); }
B(b_cond_destroy) { Engine* E = c.E; u64 a = c.argc(0); auto it = E->conds.find(a); if (it != E->conds.end() && !it->second.waiters.empty()) E->violation("mutex", "destroying a condition variable with waiting threads"); E->conds.erase(a); setRet(c, 0); }
static Thread* spawn(Engine* E) { if (E->singleThreaded) *(u8*)E->singleThreaded = 0; if (!E->mt()) { E->cur->vc.assign(1, 1); } Thread* n = E->newThread(); if (E->threads.size() > 8) E->incomplete("more than 8 threads"); E->tick(E->cur); n->vc = E->cur->vc; n->vc.resize(n->id + 1, 0); n->vc[n->id] = 1; E->tick(E->cur); return n; }
B(b_thread_start) { // std::thread::_M_start_thread(this, unique_ptr<_State>&, void(*)())
  Engine* E = c.E; Thread* n = spawn(E); u64 self = c.argc(0), up = c.argc(1); Slot s; E->load(up, 8, 64, s); u64 st = (u64)s.v; E->store(up, 8, 64, E->sv(0)); E->store(self, 8, 64, E->sv(n->id + 1000));
  u64 vt = *(u64*)st; u64 run = *(u64*)(vt + 16); Func* f = E->resolveAddr(run); Thread* me = E->cur; E->cur = n; Slot a = E->sv(st); E->pushFrame(f, &a, 1); E->cur = me; n->startArg = st; }
B(b_pthread_create) { Engine* E = c.E; Thread* n = spawn(E); u64 out = c.argc(0), fn = c.argc(2), arg = c.argc(3); E->store(out, 8, 64, E->sv(n->id + 1000)); Func* f = E->resolveAddr(fn); Thread* me = E->cur; E->cur = n; Slot a = E->sv(arg); E->pushFrame(f, &a, 1); E->cur = me; setRet(c, 0); }
static void doJoin(CallInfo& c, u64 id) { Engine* E = c.E; if (id < 1000 || id - 1000 >= E->threads.size()) E->violation("thread", "join of a thread that is not joinable"); Thread* t = E->threads[id - 1000]; if (t->st != T_DONE) { c.T->st = T_JOIN; c.T->joinTid = t->id; c.retry = true; E->schedule(true); return; } E->acquireVC((u64)t | 1); setRet(c, 0); }
B(b_thread_join) { Engine* E = c.E; u64 self = c.argc(0); Slot s; E->load(self, 8, 64, s); u64 id = (u64)s.v; if (!id) E->violation("thread", "join of a thread that is not joinable"); doJoin(c, id); if (!c.retry) E->store(self, 8, 64, E->sv(0)); }
B(b_thread_detach) { Engine* E = c.E; u64 self = c.argc(0); E->store(self, 8, 64, E->sv(0)); }
B(b_pthread_join) { doJoin(c, c.argc(0)); }
B(b_self) { setRet(c, c.T->id + 1000); }
B(b_yield) { if (c.E->mt() && c.E->schedPoint()) { c.retry = true; return; } setRet(c, 0); }
B(b_sleep) { Engine* E = c.E; if (E->mt() && E->schedPoint()) { c.retry = true; return; } E->vtime += 1000000; setRet(c, 0); }
B(b_now) { setRet(c, c.E->vtime += 1000); }
B(b_clock_gettime) { Engine* E = c.E; E->vtime += 1000; u64 p = c.argc(1); E->store(p, 8, 64, E->sv(E->vtime / 1000000000)); E->store(p + 8, 8, 64, E->sv(E->vtime % 1000000000)); setRet(c, 0); }
B(b_once) { Engine* E = c.E; u64 o = c.argc(0), fn = c.argc(1); if (E->schedPoint()) { c.retry = true; return; } if (*FL(o) & F_INIT ? *(int*)o == 2 : false) { E->acquireVC(o); setRet(c, 0); return; }
  if (*(int*)o == 1) { c.T->st = T_ONCE; c.T->waitAddr = o; c.retry = true; E->schedule(true); return; }
  E->store(o, 4, 32, E->sv(1)); // the call is made by the support code
  (void)fn; E->incomplete("pthread_once must be modelled by the support library"); }
B(b_key_create) { static u64 k = 1; Engine* E = c.E; E->store(c.argc(0), 4, 32, E->sv(k++)); setRet(c, 0); }
B(b_getspecific) { auto it = c.E->tss.find(c.argc(0) * 64 + c.T->id); setRet(c, it == c.E->tss.end() ? 0 : it->second); }
B(b_setspecific) { c.E->tss[c.argc(0) * 64 + c.T->id] = c.argc(1); setRet(c, 0); }
B(b_once_wait) { Engine* E = c.E; c.T->st = T_ONCE; c.T->waitAddr = c.argc(0); finish: if (E->mt()) { Thread* me = c.T; E->finishCall(c.ret); c.retry = true; E->schedule(true); (void)me; } else E->violation("deadlock", "recursive one-time initialisation"); }
B(b_sync_acq) { c.E->acquireVC(c.argc(0)); }
B(b_sync_rel) { c.E->releaseVC(c.argc(0)); }
B(b_tid) { setRet(c, c.T->id); }
// ---- harness interface
static std::string nm(CallInfo& c, int i) { return c.E->cstring(c.argc(i)); }
B(vp_symbolic_) { Engine* E = c.E; u64 p = c.argc(0), n = c.argc(1); auto v = E->freshBytes(nm(c, 2), n); E->checkAddr(p, n, true); for (u64 i = 0; i < n; i++) E->storeByteE(p + i, v[i]); }
B(vp_assume_) { Slot s = c.args[0]; Engine* E = c.E; if (s.e) E->assume(eNot(eBin(E_EQ, s.e, eConst(0, 32)))); else if (!(u32)s.v) E->pathDone(true); }
B(vp_assert_) { Slot s = c.args[0]; Engine* E = c.E; sh->asserts++; if (s.e) E->assertE(eNot(eBin(E_EQ, s.e, eConst(0, 32))), "assert", nm(c, 1)); else if (!(u32)s.v) E->violation("assert", nm(c, 1)); }
B(vp_fail_) { c.E->violation("assert", nm(c, 0)); }
B(vp_observe_) { ObsRec o; o.name = nm(c, 0); Slot s = c.args[1]; for (int i = 0; i < 8; i++) { if (s.e) { Expr* e = eExtract(s.e, 8 * i, 8); o.bytes.push_back(isC(e) ? nullptr : e); o.conc.push_back(isC(e) ? (u8)e->val : 0); } else { o.bytes.push_back(nullptr); o.conc.push_back((u8)(s.v >> (8 * i))); } } c.E->obs.push_back(o); }
B(vp_observe_bytes_) { ObsRec o; o.name = nm(c, 0); u64 p = c.argc(1), n = c.argc(2); for (u64 i = 0; i < n; i++) { Slot s; c.E->load(p + i, 1, 8, s); o.bytes.push_back(s.e); o.conc.push_back((u8)s.v); } c.E->obs.push_back(o); }
B(vp_reach_) { std::string s = nm(c, 0); lockS(); int i; for (i = 0; i < sh->nlab; i++) if (s == sh->lab[i]) break; if (i == sh->nlab && i < MAXL) { strncpy(sh->lab[i], s.c_str(), 95); sh->nlab++; } unlockS(); if (i < MAXL) sh->labCount[i]++; }
B(vp_choose_) { u64 n = c.argc(0); setRet(c, c.E->choose(n, nm(c, 1))); }
B(vp_concrete_) { setRet(c, c.argc(0)); }
B(vp_is_engine_) { setRet(c, 1); }
B(vp_is_symbolic_) { setRet(c, c.args[0].e ? 1 : 0); }
B(vp_done_) { c.E->pathDone(); }
B(vp_trace_) { std::string s = nm(c, 0); fprintf(stderr, "[vp %d] %s %s\n", getpid(), s.c_str(), c.args.size() > 1 ? eStr(c.E->ex(c.args[1], 64)).c_str() : ""); }
B(vp_preempt_) { opt.preempt = (int)c.argc(0); }
B(vp_undef_) { u64 p = c.argc(0), n = c.argc(1); for (u64 i = 0; i < n; i++) *FL(p + i) &= ~(F_INIT | F_SYM); }
B(vp_ite_) { Slot k = c.args[0]; Engine* E = c.E; if (!k.e) { c.ret[0] = (u32)k.v ? c.args[1] : c.args[2]; return; } E->setE(c.ret[0], eIte(eNot(eBin(E_EQ, k.e, eConst(0, 32))), E->ex(c.args[1], 64), E->ex(c.args[2], 64))); }
// bytes of the C library model: not inputs of the harness
B(vp_range_) { Engine* E = c.E; u128 lo, hi; if (c.args[0].e) E->S.interval(c.args[0].e, lo, hi); else lo = hi = c.argc(0); for (int k = 0; k < 2; k++) { u64 p = c.argc(1 + k), v = (u64)(k ? hi : lo); E->checkAddr(p, 8, true); E->store(p, 8, 64, E->sv(v)); } }
B(vp_fresh_) { Engine* E = c.E; u64 p = c.argc(0), n = c.argc(1); E->checkAddr(p, n, true); for (u64 i = 0; i < n; i++) E->storeByteE(p + i, eVar(E->S.newVar())); }
B(vp_fmt_double_) { Engine* E = c.E; u64 d = c.argc(0), cap = c.argc(1); std::string sp = E->cstring(c.argc(2)); u64 bits = c.argc(3); double x; memcpy(&x, &bits, 8); char b[512]; int k = snprintf(b, sizeof b, sp.c_str(), x); for (int i = 0; i < k && (u64)i < cap; i++) E->store(d + i, 1, 8, E->sv((u8)b[i])); setRet(c, (u32)k); }
B(vp_alloc_live_) { setRet(c, c.E->heap.size()); }
// throw helpers of libstdc++: executed natively, converted to interpreted exceptions
static const std::unordered_map<std::string, Builtin>& builtinTable() {
  static std::unordered_map<std::string, Builtin> t = {
    {"malloc", b_malloc}, {"calloc", b_calloc}, {"realloc", b_realloc}, {"free", b_free}, {"aligned_alloc", b_alignedalloc}, {"posix_memalign", b_memalign}, {"malloc_usable_size", b_usable},
    {"_Znwm", b_new}, {"_Znam", b_new}, {"_ZnwmSt11align_val_t", b_newal}, {"_ZnamSt11align_val_t", b_newal}, {"_ZnwmRKSt9nothrow_t", b_malloc}, {"_ZnamRKSt9nothrow_t", b_malloc},
    {"_ZdlPv", b_free}, {"_ZdaPv", b_free}, {"_ZdlPvm", b_free}, {"_ZdaPvm", b_free}, {"_ZdlPvSt11align_val_t", b_free}, {"_ZdlPvmSt11align_val_t", b_free}, {"_ZdaPvSt11align_val_t", b_free}, {"_ZdlPvRKSt9nothrow_t", b_free}, {"_ZdaPvRKSt9nothrow_t", b_free},
    {"memcmp", b_memcmp}, {"bcmp", b_memcmp}, {"memcpy", b_memcpy}, {"memmove", b_memcpy}, {"memset", b_memset},
    {"__cxa_allocate_exception", b_cxa_alloc}, {"__cxa_free_exception", b_cxa_free}, {"__cxa_throw", b_cxa_throw}, {"__cxa_begin_catch", b_begin_catch}, {"__cxa_end_catch", b_end_catch}, {"__cxa_rethrow", b_rethrow}, {"_Unwind_Resume", b_unwind_resume}, {"__cxa_get_exception_ptr", b_get_exc_ptr},
    {"_ZSt17current_exceptionv", b_current_exc}, {"_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE", b_rethrow_exc}, {"_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv", b_ep_addref}, {"_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv", b_ep_release}, {"_ZSt18uncaught_exceptionv", b_uncaught}, {"_ZSt19uncaught_exceptionsv", b_uncaught}, {"__cxa_current_exception_type", b_curtype},
    {"_ZSt9terminatev", b_terminate}, {"abort", b_terminate}, {"__cxa_call_unexpected", b_terminate}, {"__assert_fail", b_assertfail}, {"__cxa_pure_virtual", b_purevirtual}, {"exit", b_exit}, {"_exit", b_exit}, {"_Exit", b_exit}, {"quick_exit", b_exit}, {"__stack_chk_fail", b_terminate}, {"_ZSt21__glibcxx_assert_failPKciS0_S0_", b_terminate},
    {"__cxa_guard_acquire", b_guard_acquire}, {"__cxa_guard_release", b_guard_release}, {"__cxa_guard_abort", b_guard_abort}, {"__cxa_atexit", b_nop0}, {"atexit", b_nop0}, {"__cxa_thread_atexit", b_threadatexit}, {"__cxa_thread_atexit_impl", b_threadatexit},
    {"pthread_mutex_lock", b_mutex_lock}, {"pthread_mutex_trylock", b_mutex_trylock}, {"pthread_mutex_unlock", b_mutex_unlock}, {"pthread_mutex_init", b_mutex_init}, {"pthread_mutex_destroy", b_mutex_destroy}, {"pthread_mutexattr_init", b_mutexattr_init}, {"pthread_mutexattr_settype", b_mutexattr_settype}, {"pthread_mutexattr_destroy", b_nop0}, {"pthread_mutexattr_setpshared", b_nop0}, {"pthread_mutexattr_setrobust", b_nop0},
    {"pthread_cond_init", b_nop0}, {"pthread_condattr_init", b_nop0}, {"pthread_condattr_destroy", b_nop0}, {"pthread_condattr_setclock", b_nop0}, {"pthread_condattr_setpshared", b_nop0},
    {"pthread_cond_wait", b_cond_wait}, {"pthread_cond_timedwait", b_cond_timedwait}, {"pthread_cond_clockwait", b_cond_clockwait}, {"pthread_cond_signal", b_cond_signal}, {"pthread_cond_broadcast", b_cond_broadcast}, {"pthread_cond_destroy", b_cond_destroy},
    {"_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE", b_scond_wait}, {"_ZNSt18condition_variable10notify_oneEv", b_cond_signal}, {"_ZNSt18condition_variable10notify_allEv", b_cond_broadcast}, {"_ZNSt18condition_variableC1Ev", b_nop0}, {"_ZNSt18condition_variableC2Ev", b_nop0}, {"_ZNSt18condition_variableD1Ev", b_cond_destroy}, {"_ZNSt18condition_variableD2Ev", b_cond_destroy},
    {"_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE", b_thread_start}, {"_ZNSt6thread4joinEv", b_thread_join}, {"_ZNSt6thread6detachEv", b_thread_detach}, {"pthread_create", b_pthread_create}, {"pthread_join", b_pthread_join}, {"pthread_self", b_self}, {"pthread_equal", nullptr}, {"sched_yield", b_yield}, {"nanosleep", b_sleep}, {"clock_nanosleep", b_sleep}, {"usleep", b_sleep},
    {"_ZNSt6chrono3_V212system_clock3nowEv", b_now}, {"_ZNSt6chrono3_V212steady_clock3nowEv", b_now}, {"clock_gettime", b_clock_gettime},
    {"pthread_key_create", b_key_create}, {"pthread_key_delete", b_nop0}, {"pthread_getspecific", b_getspecific}, {"pthread_setspecific", b_setspecific}, {"__vp_once_wait", b_once_wait}, {"__vp_sync_acquire", b_sync_acq}, {"__vp_sync_release", b_sync_rel}, {"__vp_tid", b_tid},
    {"vp_symbolic", vp_symbolic_}, {"vp_assume", vp_assume_}, {"vp_assert", vp_assert_}, {"vp_fail", vp_fail_}, {"vp_observe", vp_observe_}, {"vp_observe_bytes", vp_observe_bytes_}, {"vp_reach", vp_reach_}, {"vp_choose", vp_choose_}, {"vp_concrete", vp_concrete_}, {"vp_is_engine", vp_is_engine_}, {"vp_is_symbolic", vp_is_symbolic_}, {"vp_done", vp_done_}, {"vp_trace", vp_trace_}, {"vp_yield", b_yield}, {"vp_preempt", vp_preempt_}, {"vp_undef", vp_undef_}, {"vp_ite", vp_ite_}, {"vp_alloc_live", vp_alloc_live_}, {"__vp_fresh", vp_fresh_}, {"__vp_range", vp_range_}, {"__vp_fmt_double", vp_fmt_double_},
  };
  return t;
}
Builtin Engine::findBuiltin(const std::string& n) { auto& t = builtinTable(); auto it = t.find(n); return it == t.end() ? nullptr : it->second; }
// externals run natively although the memory behind their arguments may hold symbolic bytes: they touch only the concrete part
bool Engine::isTrusted(const std::string& n) {
  static const char* pre[] = {"_ZSt18_Rb_tree_", "_ZSt28_Rb_tree_rebalance_for_erase", "_ZSt29_Rb_tree_insert_and_rebalance", "_ZNSt8__detail15_List_node_base", "__dynamic_cast", "_ZNSt6locale", "_ZNKSt6locale", "_ZNSt8ios_base", "_ZNKSt8ios_base", "_ZNSt11logic_error", "_ZNSt13runtime_error", "_ZNSt12out_of_range", "_ZNSt16invalid_argument", "_ZNSt12length_error", "_ZNSt11range_error", "_ZNSt12domain_error", "_ZNSt9exception", "_ZNKSt9exception", "_ZSt20__throw_", "_ZSt19__throw_", "_ZSt17__throw_", "_ZSt24__throw_", "_ZSt16__throw_", "_ZSt21__throw_", "_ZSt25__throw_", "_ZSt22__throw_", "_ZSt18__throw_", "_ZSt23__throw_", "_ZNSt12system_error", "_ZNSt14overflow_error", "_ZNSt15underflow_error", "_ZNSt6thread6_StateD", "_ZNSt9bad_alloc", "_ZNSt8bad_cast", "_ZNKSt8bad_cast", "_ZN5boost6system", "_ZNSt10bad_typeid", "_ZNKSt13runtime_error4what", "_ZNKSt11logic_error4what", "_ZNKSt8__detail20_Prime_rehash_policy", "_ZNKSt9type_info", "__errno_location"};
  for (const char* p : pre) if (n.compare(0, strlen(p), p) == 0) return true;
  return false;
}
bool Engine::isPure(const std::string& n) {
  static const char* pre[] = {"u_is", "u_to", "u_charType", "u_hasBinary", "u_digit"}; 
  for (const char* p : pre) if (n.compare(0, strlen(p), p) == 0) return true;
  return n == "isalpha" || n == "isdigit" || n == "isspace" || n == "isalnum" || n == "isxdigit" || n == "isupper" || n == "islower" || n == "ispunct" || n == "isprint" || n == "iscntrl";
}
