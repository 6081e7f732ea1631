// Concurrency primitives and queues: every interleaving of a few threads, up to the pre-emption bound.
#include "common.hpp"
#include <Balau/Concurrent/CyclicBarrier.hpp>
#include <Balau/Concurrent/LazyValue.hpp>
#include <Balau/Concurrent/Semaphore.hpp>
#include <Balau/Concurrent/SingleTimeExecutor.hpp>
#include <Balau/Container/ArrayBlockingQueue.hpp>
#include <Balau/Container/SynchronizedQueue.hpp>
#include <atomic>
#include <memory>
#include <thread>
using namespace Balau::Concurrent; using namespace Balau::Container;
#ifndef NT
#define NT 3
#endif
#ifndef ROUNDS
#define ROUNDS 2
#endif
// Runs n threads f(0) .. f(n - 1) and waits for all of them.
template <class F> static void parallel(size_t n, F f) { std::thread t[NT + 1]; for (size_t i = 0; i < n; i++) t[i] = std::thread([&f, i] { f(i); }); for (size_t i = 0; i < n; i++) t[i].join(); }

extern "C" void exec_once() {
  size_t callers = symLen(NT, "callers"); bool throwing = false, dtor = vp_choose(2, "destructor code"); int ran = 0, ended = 0, product = 0; (void)throwing;
  { void* mem = operator new(sizeof(SingleTimeExecutor)); memset(mem, 0xFF, sizeof(SingleTimeExecutor)); // stale contents of the memory do not matter
    auto* e = dtor ? new (mem) SingleTimeExecutor([&] { ++ran; product = 42; }, [&] { ++ended; }) : new (mem) SingleTimeExecutor([&] { ++ran; product = 42; });
    vp_assert(!e->hasExecuted(), "nothing has been executed before the first call");
    parallel(callers, [&](size_t) { (*e)(); vp_assert(product == 42, "the code has completed when a call returns"); vp_assert(e->hasExecuted(), "hasExecuted after a call"); });
    vp_assert(ran == (callers ? 1 : 0), "the code runs exactly once"); vp_assert(ended == 0, "the destructor code does not run early"); e->~SingleTimeExecutor(); operator delete(mem); }
  vp_assert(ended == (callers && dtor ? 1 : 0), "the destructor code runs exactly once, after execution only"); if (callers > 1) vp_reach("several callers"); }
extern "C" void exec_throw() { int n = 0; size_t fail = symLen(2, "failures");
  SingleTimeExecutor e([&] { if (n++ < (int)fail) throw 1; }); std::atomic<int> ok{0}, failed{0};
  parallel(2, [&](size_t) { for (int k = 0; k < 2; k++) try { e(); ok++; } catch (int) { failed++; } });
  vp_assert(failed == (int)fail && ok == 4 - (int)fail, "a failed execution is reported to its caller only"); vp_assert(n == (int)fail + 1, "execution is retried until it succeeds, then never again"); vp_reach("done"); }

extern "C" void lazy_once() {
  size_t callers = symLen(NT, "callers"); bool dtor = vp_choose(2, "destructor code"); int made = 0, destroyed = 0; unsigned v = vp_value<unsigned>("value"); unsigned last = 0;
  { auto d = [&](std::unique_ptr<unsigned>& p) { ++destroyed; last = *p; };
    LazyValue<std::unique_ptr<unsigned>> z = dtor ? LazyValue<std::unique_ptr<unsigned>>(d) : LazyValue<std::unique_ptr<unsigned>>();
    vp_assert(!z.isConstructed(), "not constructed before the first call");
    parallel(callers, [&](size_t) { auto& p = z([&] { ++made; return std::unique_ptr<unsigned>(new unsigned(v)); }); vp_assert(p && *p == v, "every caller gets the one value"); vp_assert(z.isConstructed(), "constructed after a call"); });
    vp_assert(made == (callers ? 1 : 0), "the value is constructed exactly once"); vp_assert(destroyed == 0, "not destroyed early"); }
  vp_assert(destroyed == (callers && dtor ? 1 : 0) && (!destroyed || last == v), "the destructor function sees the value exactly once"); if (callers > 1) vp_reach("several callers"); }

extern "C" void semaphore_permits() { // permits bound the number of threads inside, and nobody waits for ever
  size_t permits = 1 + vp_choose(NT - 1, "permits"); Semaphore s(permits); std::atomic<unsigned> inside{0};
  parallel(NT, [&](size_t) { s.decrement(); unsigned n = inside.fetch_add(1, std::memory_order_relaxed) + 1; vp_assert(n <= permits, "no more threads than permits"); inside.fetch_sub(1, std::memory_order_relaxed); s.increment(); });
  if (permits > 1) vp_reach("two permits"); }
extern "C" void semaphore_signal() { // each increment releases exactly one waiter and orders what came before it
  Semaphore s; int data[NT - 1] = {}; std::atomic<int> through{0}; size_t extra = vp_choose(2, "one in advance"); Semaphore a(extra);
  parallel(NT, [&](size_t i) { if (i == 0) { for (int k = 0; k < NT - 1; k++) { data[k] = k + 1; s.increment(); } } else { s.decrement(); vp_assert(data[0] == 1, "what was written before the increment is visible"); through++; } });
  vp_assert(through == NT - 1, "one waiter per increment"); if (extra) a.decrement(); vp_reach("done"); }
extern "C" void semaphore_mutex() { Semaphore s(1); int shared = 0; parallel(NT, [&](size_t) { s.decrement(); ++shared; s.increment(); }); vp_assert(shared == NT, "a semaphore of one is a lock"); vp_reach("done"); }

static void barrierRounds(size_t n, int rounds) { CyclicBarrier b(n); int at[NT + 1] = {};
  parallel(n, [&](size_t i) { for (int r = 1; r <= rounds; r++) { at[i] = r; b.countdown(); for (size_t j = 0; j < n; j++) vp_assert(at[j] == r, "nobody passes before all have arrived, nobody is a round ahead"); b.countdown(); } });
  for (size_t j = 0; j < n; j++) vp_assert(at[j] == rounds, "all threads finish"); }
extern "C" void barrier_two() { barrierRounds(2, ROUNDS); vp_reach("done"); }
extern "C" void barrier_three() { CyclicBarrier b(3); int at[3] = {}; parallel(3, [&](size_t i) { at[i] = 1; b.countdown(); for (size_t j = 0; j < 3; j++) vp_assert(at[j] == 1, "nobody passes before all have arrived"); }); vp_reach("done"); }
extern "C" void barrier_reuse() { size_t n = 1 + vp_choose(2, "first"), m = 1 + vp_choose(2, "second"); CyclicBarrier b(n); int at[3] = {};
  parallel(n, [&](size_t i) { at[i] = 1; b.countdown(); for (size_t j = 0; j < n; j++) vp_assert(at[j] == 1, "all have arrived"); }); b.reconfigure(m);
  int bt[3] = {}; parallel(m, [&](size_t i) { bt[i] = 1; b.countdown(); for (size_t j = 0; j < m; j++) vp_assert(bt[j] == 1, "all have arrived after reconfiguration"); }); if (m > n) vp_reach("more"); if (m < n) vp_reach("fewer"); }

// sequential semantics of the blocking queue against a list model: every sequence of operations, capacity and element
struct Item { unsigned v = 0; int* live; Item() : live(nullptr) {} Item(unsigned x) : v(x), live(nullptr) {} };
#ifndef OPS
#define OPS 4
#endif
extern "C" void queue_model() {
  size_t cap = symLen(1, 3, "capacity"); int fullCalls = 0, spaceCalls = 0; using Q = ArrayBlockingQueue<std::unique_ptr<unsigned>>;
  Q q(cap, [&](const std::unique_ptr<unsigned>& p) { vp_assert((bool)p, "the callback sees the object"); ++fullCalls; }, [&](const std::unique_ptr<unsigned>&) { ++spaceCalls; }); std::vector<unsigned> m; int wantFull = 0;
  for (int k = 0; k < OPS; k++) { unsigned v = vp_value<unsigned>("value");
    switch (vp_choose(4, "operation")) {
      case 0: { bool fits = m.size() < cap; if (vp_choose(2, "waiting form")) { vp_assert(q.tryEnqueue(std::make_unique<unsigned>(v), std::chrono::milliseconds(vp_choose(2, "wait time"))) == fits, "enqueued when there is room"); } else vp_assert(q.tryEnqueue(std::make_unique<unsigned>(v)) == fits, "enqueued when there is room"); if (fits) m.push_back(v); else { ++wantFull; vp_reach("full"); } break; }
      case 1: if (m.size() < cap) { q.enqueue(std::make_unique<unsigned>(v)); m.push_back(v); } break;
      case 2: { bool ok = !m.empty(), got = !ok; auto p = vp_choose(2, "waiting form") ? q.tryDequeue(std::chrono::milliseconds(vp_choose(2, "wait time")), got) : q.tryDequeue(got); vp_assert(got == ok && (bool)p == ok, "dequeued when there is an element"); if (ok) { vp_assert(*p == m.front(), "first in, first out"); m.erase(m.begin()); } else vp_reach("empty"); break; }
      default: if (!m.empty()) { auto p = q.dequeue(); vp_assert(p && *p == m.front(), "first in, first out"); m.erase(m.begin()); } }
    vp_assert(q.empty() == m.empty() && q.full() == (m.size() == cap), "empty and full"); vp_assert(fullCalls == wantFull && spaceCalls == 0, "the full callback is called for a full queue only"); }
  vp_reach("done"); }
// producers and consumers: nothing lost, nothing twice, order kept per producer, nobody waits for ever
#ifndef PER
#define PER 2
#endif
static void transfer(size_t producers, size_t consumers, size_t cap, bool viaTry) {
  ArrayBlockingQueue<std::unique_ptr<int>> q(cap); size_t total = producers * PER; size_t share = total / consumers; int got[2][4 * PER] = {}; size_t n[2] = {};
  parallel(producers + consumers, [&](size_t i) {
    if (i < producers) for (size_t k = 0; k < PER; k++) { auto p = std::make_unique<int>(int(10 * (i + 1) + k)); q.enqueue(std::move(p)); }
    else { size_t c = i - producers; for (size_t k = 0; k < share; k++) { std::unique_ptr<int> p; if (viaTry) { bool ok = false; p = q.tryDequeue(std::chrono::milliseconds(5), ok); vp_assert(ok == (bool)p, "success is reported truthfully"); if (!ok) p = q.dequeue(); } else p = q.dequeue(); vp_assert((bool)p, "a dequeued element is an enqueued element"); got[c][n[c]++] = *p; } } });
  vp_assert(q.empty() && !q.full(), "everything has been transferred");
  for (size_t a = 0; a < producers; a++) for (size_t k = 0; k < PER; k++) { int x = 10 * (a + 1) + k, seen = 0; for (size_t c = 0; c < consumers; c++) for (size_t j = 0; j < n[c]; j++) seen += got[c][j] == x; vp_assert(seen == 1, "every element arrives exactly once"); }
  for (size_t c = 0; c < consumers; c++) for (size_t j = 0; j < n[c]; j++) for (size_t l = j + 1; l < n[c]; l++) vp_assert(got[c][j] / 10 != got[c][l] / 10 || got[c][j] < got[c][l], "elements of one producer stay in order"); }
extern "C" void queue_one_one() { transfer(1, 1, 1 + vp_choose(2, "capacity"), vp_choose(2, "timed")); vp_reach("done"); }
extern "C" void queue_two_one() { transfer(2, 1, 1, false); vp_reach("done"); }
extern "C" void queue_one_two() { transfer(1, 2, 1 + vp_choose(2, "capacity"), false); vp_reach("done"); }
extern "C" void queue_timed() { // timed enqueue against a consumer: refused objects are the ones that do not arrive
  ArrayBlockingQueue<int> q(1); bool in[3] = {}; int out[3] = {}; size_t n = 0;
  parallel(2, [&](size_t i) { if (i == 0) for (int k = 0; k < 3; k++) in[k] = q.tryEnqueue(k + 1, std::chrono::milliseconds(1)); else for (int k = 0; k < 2; k++) { bool ok; int v = q.tryDequeue(std::chrono::milliseconds(1), ok); if (ok) out[n++] = v; else vp_assert(v == 0, "a default value when there is none"); } });
  for (bool ok = true; ok;) { int v = q.tryDequeue(ok); if (ok) { vp_assert(n < 3, "no more elements than enqueued"); out[n++] = v; } }
  size_t j = 0; for (int k = 0; k < 3; k++) if (in[k]) { vp_assert(j < n && out[j] == k + 1, "exactly the accepted elements arrive, in order"); j++; } vp_assert(j == n, "nothing else arrives"); if (!in[1]) vp_reach("refused"); if (in[1]) vp_reach("waited"); }
// two threads wait on a full (or empty) queue and a third one makes room (or enqueues) for both, by either form of the operation
extern "C" void queue_waiters() { ArrayBlockingQueue<int> q(2); bool producers = vp_choose(2, "producers wait"), tryForm = vp_choose(2, "try form"); int got[4] = {}; if (producers) { q.enqueue(1); q.enqueue(2); }
  parallel(3, [&](size_t i) { if (i < 2) { if (producers) q.enqueue(int(3 + i)); else got[i] = q.dequeue(); } else for (int k = 0; k < 2; k++) { if (!producers) { if (tryForm) vp_assert(q.tryEnqueue(3 + k), "there is room"); else q.enqueue(3 + k); } else if (tryForm) { bool ok = false; got[k] = q.tryDequeue(ok); vp_assert(ok, "there is an element"); } else got[k] = q.dequeue(); } });
  if (producers) { got[2] = q.dequeue(); got[3] = q.dequeue(); vp_assert(got[0] == 1 && got[1] == 2, "first in, first out"); vp_assert(got[2] + got[3] == 7 && got[2] != got[3] && got[2] >= 3, "everything that was enqueued is in the queue"); vp_reach("producers"); } else { vp_assert(got[0] + got[1] == 7 && got[0] != got[1] && got[0] >= 3, "every element is dequeued once"); vp_reach("consumers"); } vp_assert(q.empty(), "nothing is left"); }
extern "C" void queue_observed() { ArrayBlockingQueue<int> q(1); std::atomic<int> seen{0}; // empty and full may be called at any time
  parallel(2, [&](size_t i) { if (i == 0) { q.enqueue(1); q.dequeue(); } else { bool e = q.empty(), f = q.full(); if (f) seen++; (void)e; } }); if (seen) vp_reach("full seen"); vp_reach("done"); }

extern "C" void syncqueue_model() { SynchronizedQueue<std::unique_ptr<unsigned>> q; std::vector<unsigned> m;
  for (int k = 0; k < OPS + 1; k++) { if (vp_choose(2, "operation")) { unsigned v = vp_value<unsigned>("value"); q.enqueue(std::make_unique<unsigned>(v)); m.push_back(v); } else { bool threw = false; std::unique_ptr<unsigned> p; try { p = q.dequeue(); } catch (const Balau::Exception::EmptyException&) { threw = true; } vp_assert(threw == m.empty(), "the empty exception is thrown exactly for an empty queue"); if (!threw) { vp_assert(*p == m.front(), "first in, first out"); m.erase(m.begin()); } else vp_reach("empty"); } vp_assert(q.empty() == m.empty(), "empty"); } vp_reach("done"); }
extern "C" void syncqueue_threads() { SynchronizedQueue<int> q; int got[4]; size_t n = 0;
  parallel(3, [&](size_t i) { if (i < 2) for (int k = 0; k < 2; k++) q.enqueue(10 * (i + 1) + k); else { for (int k = 0; k < 3; k++) if (!q.empty()) { got[n++] = q.dequeue(); } } });
  while (!q.empty()) { vp_assert(n < 4, "no more than enqueued"); got[n++] = q.dequeue(); } vp_assert(n == 4, "nothing is lost"); for (int a = 1; a <= 2; a++) { int last = -1, c = 0; for (size_t j = 0; j < n; j++) if (got[j] / 10 == a) { vp_assert(got[j] > last, "elements of one thread stay in order"); last = got[j]; c++; } vp_assert(c == 2, "every element exactly once"); } vp_reach("done"); }

// thread local instances; boost's thread specific storage is modelled (one slot per thread and pointer object, cleaned up when the thread ends)
#ifdef TSS
#include <Balau/Concurrent/ThreadLocalInstance.hpp>
struct TssSlot { const void* key; boost::detail::thread::cleanup_caller_t caller; boost::detail::thread::cleanup_func_t func; void* data; };
struct TssTable { TssSlot slot[4]; int n; };
static void tssEnd(TssTable* t) { for (int i = 0; i < t->n; i++) if (t->slot[i].data && t->slot[i].caller) t->slot[i].caller(t->slot[i].func, t->slot[i].data); t->n = 0; }
struct TssHolder { TssTable t{}; ~TssHolder() { tssEnd(&t); } };
static thread_local TssHolder tss;
namespace boost { namespace detail {
void set_tss_data(void const* key, thread::cleanup_caller_t caller, thread::cleanup_func_t func, void* data, bool cleanup) {
  for (int i = 0; i < tss.t.n; i++) if (tss.t.slot[i].key == key) { auto& s = tss.t.slot[i]; if (cleanup && s.data && s.caller) s.caller(s.func, s.data); s = {key, caller, func, data}; return; }
  tss.t.slot[tss.t.n++] = {key, caller, func, data}; }
void* get_tss_data(void const* key) { for (int i = 0; i < tss.t.n; i++) if (tss.t.slot[i].key == key) return tss.t.slot[i].data; return nullptr; }
} }
static std::atomic<int> tlsMade, tlsGone;
struct Local { int v; Local() : v(0) { tlsMade++; } explicit Local(int v_) : v(v_) { tlsMade++; } ~Local() { tlsGone++; } };
struct Argument { int v; explicit Argument(int v_) : v(v_) { tlsMade++; } ~Argument() { tlsGone++; } };
template <class I> static void tlsThreads(bool withFunction, I get) { tlsMade = tlsGone = 0; unsigned x[2] = {vp_value<unsigned>("first"), vp_value<unsigned>("second")}; bool uses[2] = {vp_choose(2, "first uses") != 0, vp_choose(2, "second uses") != 0}; { 
    parallel(2, [&](size_t i) { if (!uses[i]) return; auto* a = &get(x[i]); if (withFunction) vp_assert((unsigned)a->v == x[i], "made by the function of this thread"); a->v = x[i] + 1; auto* b = &get(x[i]); vp_assert(a == b && (unsigned)b->v == x[i] + 1, "one instance per thread, kept between calls"); });
    vp_assert(tlsMade == uses[0] + uses[1], "one instance for each thread that uses it"); vp_assert(tlsGone == uses[0] + uses[1], "destroyed when its thread ends"); } if (uses[0] && uses[1]) vp_reach("both"); }
extern "C" void tls_default() { ThreadLocalInstance<Local> t; tlsThreads(false, [&](unsigned) -> Local& { return t(); }); }
extern "C" void tls_function() { ThreadLocalInstance<Local> t; tlsThreads(true, [&](unsigned v) -> Local& { return t([v] { return new Local(v); }); }); }
extern "C" void tls_argument() { ThreadLocalInstance<Argument> t; tlsThreads(true, [&](unsigned v) -> Argument& { return t([v] { return new Argument(v); }); }); }
#endif
