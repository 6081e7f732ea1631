// Symbolic executor for LLVM IR: native-memory interpreter with byte-granular symbolic shadow, forking at symbolic branches.
#include "engine.h"
#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <exception>
#include <fcntl.h>
#include <link.h>
#include <math.h>
#include <signal.h>
#include <stdarg.h>
#include <stdexcept>
#include <sys/mman.h>
#include <sys/uio.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/ReplaceConstant.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/LegacyPassManager.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/Scalar/Scalarizer.h>
#include <llvm/Demangle/Demangle.h>
using namespace llvm;

extern "C" void call_native(void* fn, u64* g, double* x, u64* stk, u64 n, u64* ret);
extern "C" void tramp_common();
struct InterpThrow { u64 handle; };

// ------------------------------------------------------------------------------------------------ options and shared state
struct Options { int jobs = 8; double time = 600; u64 maxInstr = 30000000; int maxViol = 1; int preempt = 2; bool trace = false; bool uninitZero = false; std::string out = "out.jsonl"; std::string concrete; std::string entry = "vp_main"; unsigned rlimit = 0; int samples = 60; std::string srcPrefix; int maxDepth = 4000; int spurious = 0; bool race = true; } opt;
static const int MAXD = 8192, MAXL = 128;
struct Shared {
  std::atomic_flag lk; int freeTok; int waiting[MAXD]; sem_t sem[MAXD];
  std::atomic<int> live, stop; std::atomic<u64> paths, pruned, forks, branches, instrs, viol, incomplete, exprs, asserts, assertsSym, z3Queries, domQueries, modelHits, z3Micros, z3Unknown, z3Max, samples, procs, concr, maxPathInstr, decisions, uninit, switches, races;
  int nlab; char lab[MAXL][96]; std::atomic<u64> labCount[MAXL];
  u8 fcov[1 << 16];
};
static Shared* sh;
static void lockS() { while (sh->lk.test_and_set(std::memory_order_acquire)) ; }
static void unlockS() { sh->lk.clear(std::memory_order_release); }

struct Engine;
static Engine* EG;
static u64 MEMBASE = 0x200000000000ull; static const u64 MEMSIZE = 1ull << 35; // 32 GB reserve
static u64 SHB = 0x300000000000ull;
static const u8 F_ADDR = 1, F_INIT = 2, F_SYM = 4, F_RO = 8, F_FREED = 16;
static inline bool inMem(u64 a) { return a - MEMBASE < MEMSIZE; }
static inline u8* FL(u64 a) { return (u8*)(SHB + (a - MEMBASE)); }

struct AddrMap { // address -> Expr*
  u64* keys = nullptr; Expr** vals = nullptr; u64 cap = 0, cnt = 0;
  void grow() { u64 nc = cap ? cap * 2 : 1024; u64* nk = (u64*)calloc(nc, 8); Expr** nv = (Expr**)calloc(nc, 8);
    for (u64 i = 0; i < cap; i++) if (keys[i]) { u64 j = (keys[i] * 0x9e3779b97f4a7c15ull) >> 20 & (nc-1); while (nk[j]) j = (j+1) & (nc-1); nk[j] = keys[i]; nv[j] = vals[i]; }
    free(keys); free(vals); keys = nk; vals = nv; cap = nc; }
  void set(u64 a, Expr* e) { if (cnt * 2 >= cap) grow(); u64 j = (a * 0x9e3779b97f4a7c15ull) >> 20 & (cap-1); while (keys[j] && keys[j] != a) j = (j+1) & (cap-1); if (!keys[j]) { keys[j] = a; cnt++; } vals[j] = e; }
  Expr* get(u64 a) { u64 j = (a * 0x9e3779b97f4a7c15ull) >> 20 & (cap-1); while (keys[j] != a) { if (!keys[j]) return nullptr; j = (j+1) & (cap-1); } return vals[j]; }
};

struct ExcObj { u64 obj; std::type_info* ti; u64 dtor; int ref; };
struct ExcHandle { u64 obj; int handlers; u64 adj; bool rethrown; };
struct InputRec { std::string name; std::vector<Expr*> bytes; std::vector<u8> conc; };
struct ObsRec { std::string name; std::vector<Expr*> bytes; std::vector<u8> conc; };
struct MutexS { int owner = -1; int count = 0; std::vector<u32> vc; };
struct CondS { std::vector<int> waiters; };

struct Engine {
  LLVMContext ctx; std::unique_ptr<Module> M; const DataLayout* DL;
  Solver S;
  AddrMap sym; u64 brk, singleThreaded = 0; std::unordered_map<u64, u64> heap; // base -> size
  std::map<u64, u64> heapAll; std::unordered_map<u64, int> freed;
  std::unordered_map<std::string, Func*> funcs; std::vector<Func*> funcList; std::unordered_map<const Function*, Func*> byLLVM; std::unordered_map<u64, Func*> byAddr;
  std::unordered_map<const GlobalVariable*, u64> gaddr; u64 trampBase;
  std::vector<Thread*> threads; Thread* cur = nullptr; int depth = 0; int preemptions = 0; u64 vtime = 1000000000000ull;
  std::unordered_map<u64, ExcObj> excs; std::unordered_map<u64, ExcHandle> handles;
  std::unordered_map<u64, MutexS> mutexes; std::unordered_map<u64, CondS> conds; std::unordered_map<u64,int> rwr; std::unordered_map<u64, int> onceRunner;
  std::vector<InputRec> inputs; std::vector<ObsRec> obs; std::vector<u32> schedLog; std::vector<std::string> reached; std::unordered_set<u32> undefVars;
  std::vector<std::pair<std::string, std::vector<u8>>> concIn; size_t concPos = 0; bool concrete = false;
  u64 instrs = 0; std::string tag; bool initDone = false; std::unordered_map<u64,u64> tss; std::vector<u64> atexits;
  std::vector<u64> excSym;
  bool mt() { return threads.size() > 1; }

  // ---------------------------------------------------------------- path end
  void flushStats() {
    sh->instrs += instrs; instrs = 0; u64 m;
    sh->z3Queries += S.st->z3Queries; sh->domQueries += S.st->domQueries; sh->modelHits += S.st->modelHits; sh->z3Micros += S.st->z3Micros; sh->z3Unknown += S.st->z3Unknown;
    while ((m = sh->z3Max) < S.st->z3MaxMicros && !sh->z3Max.compare_exchange_weak(m, S.st->z3MaxMicros)) ;
    *S.st = SolverStats{};
  }
  u64 pathInstrs = 0;
  [[noreturn]] void leave() {
    flushStats(); u64 m; while ((m = sh->maxPathInstr) < pathInstrs && !sh->maxPathInstr.compare_exchange_weak(m, pathInstrs)) ;
    releaseToken(); sh->live--; _exit(0);
  }
  static std::string jstr(const std::string& s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }
  static std::string hex(const std::vector<u8>& v) { std::string o; char b[3]; for (u8 x : v) { snprintf(b, 3, "%02x", x); o += b; } return o; }
  std::vector<u8> evalBytes(const std::vector<Expr*>& e, const std::vector<u8>& c) { std::vector<u8> r(c); for (size_t i = 0; i < e.size(); i++) if (e[i]) r[i] = (u8)S.eval(e[i]); return r; }
  std::string inputsJson() { std::string o = "["; for (size_t i = 0; i < inputs.size(); i++) { if (i) o += ","; o += "[" + jstr(inputs[i].name) + ",\"" + hex(evalBytes(inputs[i].bytes, inputs[i].conc)) + "\"]"; } return o + "]"; }
  std::string obsJson() { std::string o = "["; for (size_t i = 0; i < obs.size(); i++) { if (i) o += ","; o += "[" + jstr(obs[i].name) + ",\"" + hex(evalBytes(obs[i].bytes, obs[i].conc)) + "\"]"; } return o + "]"; }
  std::string stackJson() {
    std::string o = "["; if (!cur) return "[]"; bool first = true; int n = 0;
    for (size_t i = cur->frames.size(); i-- > 0 && n < 24; n++) { Frame& f = cur->frames[i]; std::string loc;
      if (f.pc >= 0 && f.pc < (int)f.f->code.size()) if (auto* I = f.f->code[f.pc].src) if (auto dl = I->getDebugLoc()) loc = std::string(dl->getFilename()) + ":" + std::to_string(dl->getLine());
      if (!first) o += ","; first = false; std::string dn = demangle(f.f->name); if (dn.size() > 120) dn = dn.substr(0, 120); o += jstr(dn + " @" + loc); }
    return o + "]"; }
  void record(const std::string& s) { static int fd = -1; if (fd < 0) fd = open(opt.out.c_str(), O_WRONLY | O_APPEND | O_CREAT, 0644); std::string t = s + "\n"; if (write(fd, t.data(), t.size()) < 0) perror("write"); }
  [[noreturn]] void violation(const std::string& kind, const std::string& msg) {
    u64 n = sh->viol++;
    if (n < 64) record("{\"type\":\"violation\",\"kind\":" + jstr(kind) + ",\"msg\":" + jstr(msg) + ",\"inputs\":" + inputsJson() + ",\"obs\":" + obsJson() + ",\"stack\":" + stackJson() + "}");
    if ((int)n + 1 >= opt.maxViol) sh->stop = 1;
    leave();
  }
  [[noreturn]] void incomplete(const std::string& why) {
    u64 n = sh->incomplete++; if (n < 40) record("{\"type\":\"incomplete\",\"msg\":" + jstr(why) + ",\"inputs\":" + inputsJson() + ",\"stack\":" + stackJson() + "}");
    leave();
  }
  [[noreturn]] void pathDone(bool pruned = false) {
    if (pruned) { sh->pruned++; leave(); }
    u64 n = sh->paths++;
    bool take = n < 16 || ((n & (n - 1)) == 0) || (n % 37 == 0);
    if (take && sh->samples < (u64)opt.samples) { sh->samples++; record("{\"type\":\"path\",\"n\":" + std::to_string(n) + ",\"inputs\":" + inputsJson() + ",\"obs\":" + obsJson() + "}"); }
    leave();
  }
  // ---------------------------------------------------------------- forking
  bool acquireToken() { lockS(); bool r = sh->freeTok > 0; if (r) sh->freeTok--; unlockS(); return r; }
  static void releaseToken() { lockS(); for (int d = MAXD - 1; d >= 0; d--) if (sh->waiting[d]) { sh->waiting[d]--; unlockS(); sem_post(&sh->sem[d]); return; } sh->freeTok++; unlockS(); }
  bool forkPath() { // true in the child
    if (sh->stop) leave();
    depth++; if (depth >= MAXD - 1) incomplete("fork depth limit");
    sh->forks++; sh->live++; bool tok = acquireToken(); int d = depth;
    if (!tok) { lockS(); if (sh->freeTok > 0) { sh->freeTok--; tok = true; } else sh->waiting[d]++; unlockS(); }
    flushStats();
    pid_t p; while ((p = fork()) < 0) usleep(5000);
    if (p == 0) { if (!tok) while (sem_wait(&sh->sem[d]) < 0) ; if (sh->stop) leave(); return true; }
    return false;
  }
  // ---------------------------------------------------------------- symbolic decisions
  bool decide(Expr* c, const char* what = "branch") { // returns the truth value taken on this path
    c = S.simp(c);
    if (isC(c)) return c->val;
    auto k = S.known.find(c); if (k != S.known.end()) return k->second;
    bool tv = S.eval(c) != 0; sh->branches++;
    Expr* other = tv ? eNot(c) : c; std::vector<std::pair<u32,u8>> nm;
    Res r = S.check(other, &nm);
    if (r == R_UNKNOWN) incomplete(std::string("solver gave up on ") + what);
    if (r == R_UNSAT) { S.known[c] = tv; S.known[eNot(c)] = !tv; return tv; }
    if (opt.trace) fprintf(stderr, "[%d] fork on %s  (%s)\n", getpid(), eStr(c).c_str(), cur && cur->frames.size() ? cur->frames.back().f->name.c_str() : "");
    if (forkPath()) { S.setModel(nm); S.add(other); return !tv; }
    S.add(tv ? c : eNot(c)); return tv;
  }
  u128 concretize(Expr* e, const char* what = "value") {
    e = S.simp(e); 
    while (!isC(e)) {
      u128 v = S.eval(e); Expr* eq = eBin(E_EQ, e, eConst(v, e->width));
      sh->concr++;
      if (decide(eq, what)) return v;
      e = S.simp(e);
    }
    return e->val;
  }
  u64 conc(Slot& s, int w) { if (s.e) { s.v = concretize(s.e); s.e = nullptr; } return (u64)s.v; }
  Expr* ex(const Slot& s, unsigned w) { if (s.e) return s.e; return eConst(s.v, w); }
  void assume(Expr* c) {
    c = S.simp(c); if (isC(c)) { if (!c->val) pathDone(true); return; }
    if (S.eval(c)) { S.add(c); return; }
    std::vector<std::pair<u32,u8>> nm; Res r = S.check(c, &nm);
    if (r == R_UNSAT) pathDone(true); if (r == R_UNKNOWN) incomplete("solver gave up on an assumption");
    S.setModel(nm); S.add(c);
  }
  void assertE(Expr* c, const std::string& kind, const std::string& msg) { // fails if the negation is satisfiable
    c = S.simp(c); if (isC(c)) { if (!c->val) violation(kind, msg); return; }
    sh->assertsSym++;
    std::vector<std::pair<u32,u8>> nm; Expr* n = eNot(c);
    if (!S.eval(c)) violation(kind, msg);
    Res r = S.check(n, &nm, true);
    if (r == R_UNSAT) { S.known[c] = true; S.known[n] = false; return; }
    if (r == R_UNKNOWN) incomplete("solver gave up on an assertion: " + msg);
    if (forkPath()) { S.setModel(nm); S.add(n); violation(kind, msg); }
    S.add(c);
  }
  // ---------------------------------------------------------------- memory
  u64 allocRaw(u64 size, u64 align, u64 rz, u8 fl) {
    if (align < 16) align = 16; u64 a = (brk + rz + align - 1) & ~(align - 1); u64 end = a + size + rz;
    if (end > MEMBASE + MEMSIZE) incomplete("engine memory exhausted");
    brk = (end + 15) & ~15ull; memset(FL(a), fl, size); return a;
  }
  u64 heapAlloc(u64 size, u64 align = 16, bool zero = false) { u64 a = allocRaw(size, align, 32, F_ADDR | (zero ? F_INIT : 0)); heap[a] = size; return a; }
  void heapFree(u64 a) {
    if (!a) return;
    if (!inMem(a)) { free((void*)a); return; }
    auto it = heap.find(a);
    if (it == heap.end()) { if (freed.count(a)) violation("memory", "double free"); violation("memory", "free of a pointer that is not the start of a heap block"); }
    raceAccess(a, std::min<u64>(it->second, 4096), true, false); memset(FL(a), F_FREED, it->second); freed[a] = 1; heap.erase(it);
  }
  std::string describe(u64 a) { if (!inMem(a)) { char b[64]; snprintf(b, 64, "address 0x%llx", (unsigned long long)a); return b; } u8 f = *FL(a); if (f & F_FREED) return "freed memory"; if (!(f & F_ADDR)) return "memory outside any live object"; if (f & F_RO) return "read-only memory"; return "memory"; }
  void checkAddr(u64 a, u64 n, bool write) {
    if (inMem(a)) { u8* f = FL(a); for (u64 i = 0; i < n; i++) if (!(f[i] & F_ADDR) || (write && (f[i] & F_RO))) violation("memory", std::string(write ? "write of " : "read of ") + std::to_string(n) + " byte(s) touches " + describe(a + i)); }
    else if (a < 65536) violation("memory", std::string(write ? "write through " : "read through ") + (a < 4096 ? "a null pointer" : "an invalid pointer"));
  }
  Expr* byteExpr(u64 a) { return S.simp(sym.get(a)); }
  void makeUndef(u64 a) { // a fresh unconstrained byte for an uninitialised location
    sh->uninit++;
    if (opt.uninitZero || concrete) { *(u8*)a = 0; *FL(a) |= F_INIT; return; }
    u32 v = S.newVar(); undefVars.insert(v); *(u8*)a = 0; sym.set(a, eVar(v)); *FL(a) |= F_INIT | F_SYM;
  }
  void load(u64 a, unsigned bytes, unsigned bits, Slot& d) {
    d.e = nullptr; d.v = 0;
    if (inMem(a)) {
      u8* f = FL(a); bool slow = false; u8 all = 0xff, any = 0;
      for (unsigned i = 0; i < bytes; i++) { all &= f[i]; any |= f[i]; }
      if (!(all & F_ADDR)) checkAddr(a, bytes, false);
      if (!(all & F_INIT)) { for (unsigned i = 0; i < bytes; i++) if (!(f[i] & F_INIT)) makeUndef(a + i); any = 0; for (unsigned i = 0; i < bytes; i++) any |= f[i]; }
      slow = any & F_SYM;
      if (slow) {
        Expr* r = nullptr;
        for (int i = bytes - 1; i >= 0; i--) { Expr* b = (f[i] & F_SYM) ? byteExpr(a + i) : eConst(*(u8*)(a + i), 8); r = r ? eConcat(r, b) : b; }
        if (bits < bytes * 8) r = eExtract(r, 0, bits);
        if (isC(r)) d.v = r->val; else d.e = r;
        return;
      }
    } else if (a < 65536) checkAddr(a, bytes, false);
    memcpy(&d.v, (void*)a, bytes); if (bits < bytes * 8) d.v &= maskw(bits);
  }
  void storeByteE(u64 a, Expr* b) { if (isC(b)) { *(u8*)a = (u8)b->val; *FL(a) = (*FL(a) & ~F_SYM) | F_INIT; } else { sym.set(a, b); *FL(a) |= F_SYM | F_INIT; *(u8*)a = (u8)S.eval(b); } }
  void store(u64 a, unsigned bytes, unsigned bits, Slot s) {
    if (inMem(a)) {
      u8* f = FL(a);
      for (unsigned i = 0; i < bytes; i++) if ((f[i] & (F_ADDR | F_RO)) != F_ADDR) checkAddr(a, bytes, true);
      if (s.e) { Expr* e = S.simp(s.e); if (!isC(e)) { if (bits < bytes * 8) e = eZext(e, bytes * 8); for (unsigned i = 0; i < bytes; i++) storeByteE(a + i, eExtractRaw(e, 8 * i, 8)); return; } s.v = e->val; }
      memcpy((void*)a, &s.v, bytes); for (unsigned i = 0; i < bytes; i++) f[i] = (f[i] & ~F_SYM) | F_INIT;
      return;
    }
    checkAddr(a, bytes, true);
    if (s.e) s.v = concretize(s.e, "store to native memory");
    memcpy((void*)a, &s.v, bytes);
  }
  // copy with shadow; regions may overlap
  void copyMem(u64 d, u64 s, u64 n) {
    if (!n) return; checkAddr(s, n, false); checkAddr(d, n, true);
    if (!inMem(s) && !inMem(d)) { memmove((void*)d, (void*)s, n); return; }
    if (!inMem(s)) { memmove((void*)d, (void*)s, n); u8* f = FL(d); for (u64 i = 0; i < n; i++) f[i] = (f[i] & ~F_SYM) | F_INIT; return; }
    u8* fs = FL(s); u8 any = 0; for (u64 i = 0; i < n; i++) any |= fs[i];
    if (!inMem(d)) { if (any & F_SYM) for (u64 i = 0; i < n; i++) if (fs[i] & F_SYM) { Expr* e = byteExpr(s + i); u8 v = isC(e) ? (u8)e->val : (u8)concretize(e, "copy to native memory"); *(u8*)(s + i) = v; fs[i] &= ~F_SYM; } memmove((void*)d, (void*)s, n); return; }
    if (any & F_SYM) { std::vector<Expr*> es(n, nullptr); std::vector<u8> fl(fs, fs + n); for (u64 i = 0; i < n; i++) if (fl[i] & F_SYM) es[i] = byteExpr(s + i);
      memmove((void*)d, (void*)s, n); u8* f = FL(d); for (u64 i = 0; i < n; i++) { f[i] = (f[i] & ~(F_SYM | F_INIT)) | (fl[i] & F_INIT); if (es[i]) storeByteE(d + i, es[i]); } return; }
    u8 tmp[512]; u8* fl = n <= 512 ? tmp : (u8*)malloc(n); memcpy(fl, fs, n); memmove((void*)d, (void*)s, n); u8* f = FL(d); for (u64 i = 0; i < n; i++) f[i] = (f[i] & ~(F_SYM | F_INIT)) | (fl[i] & F_INIT); if (fl != tmp) free(fl);
  }
  void setMem(u64 d, Slot v, u64 n) { if (!n) return; checkAddr(d, n, true); if (v.e) { Expr* b = eExtract(S.simp(v.e), 0, 8); if (inMem(d)) { for (u64 i = 0; i < n; i++) storeByteE(d + i, b); return; } v.v = concretize(b); }
    memset((void*)d, (int)v.v, n); if (inMem(d)) { u8* f = FL(d); for (u64 i = 0; i < n; i++) f[i] = (f[i] & ~F_SYM) | F_INIT; } }
  bool objectOf(u64 a, u64& lo, u64& hi) { if (!inMem(a) || !(*FL(a) & F_ADDR)) return false; lo = a; hi = a + 1; u64 lim = 1 << 16; while (lo > MEMBASE && lim-- && (*FL(lo - 1) & F_ADDR)) lo--; lim = 1 << 16; while (lim-- && (*FL(hi) & F_ADDR)) hi++; return true; }
  // symbolic address: resolves to one concrete address per path, or (reads of small objects) a mux
  bool symLoad(Expr* ae, unsigned bytes, unsigned bits, Slot& d) { // true if handled as a mux
    for (;;) {
      ae = S.simp(ae); if (isC(ae)) return false;
      u64 a = (u64)S.eval(ae), lo, hi; bool native = !inMem(a);
      if (native) { // tables of the standard library
        u128 il, ih; S.interval(ae, il, ih); if (ih - il > 255) return false; u64 l = (u64)il, n = (u64)(ih - il) + bytes; if (inMem(l) || inMem(l + n)) return false;
        u8 buf[264]; iovec lv{buf, n}, rv{(void*)l, n}; if (process_vm_readv(getpid(), &lv, 1, &rv, 1, 0) != (ssize_t)n) return false;
        std::vector<std::pair<u64, Expr*>> c; for (u64 k = 0; k + bytes <= n; k++) { u64 v = 0; memcpy(&v, buf + k, bytes); Expr* e = eConst(v & (bits >= 64 ? ~0ull : (1ull << bits) - 1), bits); if (!c.empty() && c.back().second == e) continue; c.push_back({l + k, e}); }
        d.e = buildMux(ae, c, 0, c.size()); d.v = 0; if (isC(d.e)) { d.v = d.e->val; d.e = nullptr; } return true; }
      if (!objectOf(a, lo, hi) || hi - lo < bytes) { return false; }
      Expr* in = eBin(E_ULE, eBin(E_SUB, ae, eConst(lo, 64)), eConst(hi - lo - bytes, 64));
      if (!decide(in, "address range")) continue;
      ae = S.simp(ae); if (isC(ae)) return false;
      // candidate offsets
      if (hi - lo > 4096) return false;
      std::vector<std::pair<u64, Expr*>> c; bool anySym = false; unsigned cnt = 0;
      unsigned step = 1; // alignment from the expression's low bits
      for (unsigned s = 8; s > 1; s /= 2) { unsigned k = s == 8 ? 3 : s == 4 ? 2 : 1; Expr* l = eExtract(eBin(E_SUB, ae, eConst(lo, 64)), 0, k); if (isC(l)) { step = s; a = lo + (u64)l->val; break; } }
      u64 first = step > 1 ? lo + ((a - lo) & (step - 1)) : lo;
      for (u64 p = first; p + bytes <= hi; p += step) { bool un = false; for (unsigned i = 0; i < bytes; i++) { if (!(*FL(p + i) & F_INIT)) un = true; if (*FL(p + i) & F_SYM) anySym = true; } if (un) return false; cnt++; (void)cnt; }
      if (cnt > 1100 || (anySym && cnt > 64)) return false;
      for (u64 p = first; p + bytes <= hi; p += step) { Slot t; load(p, bytes, bits, t); Expr* e = ex(t, bits); if (!c.empty() && c.back().second == e) continue; c.push_back({p, e}); }
      d.e = buildMux(ae, c, 0, c.size()); d.v = 0; if (isC(d.e)) { d.v = d.e->val; d.e = nullptr; }
      return true;
    }
  }
  Expr* buildMux(Expr* x, std::vector<std::pair<u64, Expr*>>& c, size_t l, size_t r) { if (r - l == 1) return c[l].second; size_t m = (l + r) / 2; return eIte(eBin(E_ULT, x, eConst(c[m].first, x->width)), buildMux(x, c, l, m), buildMux(x, c, m, r)); }
  u64 resolveAddr(Expr* ae, unsigned bytes, bool write) {
    for (;;) {
      ae = S.simp(ae); if (isC(ae)) return (u64)ae->val;
      u64 a = (u64)S.eval(ae), lo, hi;
      if (objectOf(a, lo, hi) && hi - lo >= bytes) { Expr* in = eBin(E_ULE, eBin(E_SUB, ae, eConst(lo, 64)), eConst(hi - lo - bytes, 64)); if (!decide(in, "address range")) continue; return (u64)concretize(ae, "address"); }
      if (inMem(a)) { // invalid address under this model: out of bounds
        checkAddr(a, bytes, write);
      }
      return (u64)concretize(ae, "address");
    }
  }
  std::string cstring(u64 a) { std::string s; for (int i = 0; i < 400; i++) { Slot t; load(a + i, 1, 8, t); char c = t.e ? (char)S.eval(t.e) : (char)t.v; if (!c) break; s += c; } return s; }
  #include "lower.inc"
  #include "interp.inc"
};
#include "builtins.inc"
#include "main.inc"
