// Shared memory queues and objects, over models of the Boost message queue, shared memory and archives.
#include <Balau/Type/FromString.hpp>
#include <Balau/Type/ToString.hpp>
#include <Balau/Serialization/SerializationMacros.hpp>
#include <Balau/Util/Strings.hpp>
#include <Balau/Interprocess/SharedMemoryQueue.hpp>
#include <Balau/Interprocess/USharedMemoryObject.hpp>
#include "common.hpp"
#include <memory>
#include <thread>
using namespace Balau::Interprocess; using vpShared::world;
#ifndef QM
#define QM 4
#endif
#ifndef QT
#define QT 2
#endif
#ifndef QC
#define QC 6
#endif
// a message of a number of symbolic bytes: 4 + 1 + size bytes in the archive
struct Msg { unsigned char size = 0; unsigned char data[44] = {}; template <class A> void serialize(A& a, unsigned) { a & size; for (unsigned i = 0; i < size && i < sizeof data; i++) a & data[i]; } };
static const unsigned Chunk = 32, Net = 16; // a header of 16 bytes and 16 bytes of content
static const size_t sizes[] = {0, 11, 12, 27, 28, 43}; // 1, 1 (exactly), 2, 2 (exactly), 3, 3 (exactly) chunks
static size_t chunks(const Msg& m) { return (5 + m.size + Net - 1) / Net; }
static Msg make(size_t size, const char* name) { Msg m; m.size = size; if (size) vp_symbolic(m.data, size, name); return m; }
static int same(const Msg& a, const Msg& b) { if (a.size != b.size) return 0; int ok = 1; for (size_t i = 0; i < a.size; i++) ok &= a.data[i] == b.data[i]; return ok; }
using Queue = SharedMemoryQueue<Msg>;
using std::chrono::milliseconds;
static bool stale; // what the success flag holds before a call
static bool tryGet(Queue& q, Msg& m, unsigned way, long long wait) { bool ok = stale; world().lastWait = -1; m = way ? q.tryDequeue(milliseconds(wait), ok) : q.tryDequeue(ok); if (!ok) vp_assert(world().lastWait == (way ? wait : 0), "a failed call waits as long as asked"), vp_assert(m.size == 0, "nothing is returned on failure"); return ok; }

// whole messages, two handles: priorities first, then the order of enqueueing; contents unchanged
extern "C" void smq_messages() {
  size_t n = 1 + vp_choose(3, "messages"); Msg m[QM]; unsigned prio[QM]; bool by[QM]; stale = vp_choose(2, "stale success"); bool turn = vp_choose(2, "second handle first");
  for (size_t i = 0; i < n; i++) { m[i] = make(sizes[i ? 2 * vp_choose(3, "size") : vp_choose(6, "size")], "content"); prio[i] = vp_choose(2, "priority"); by[i] = turn != (i & 1); }
  unsigned how = vp_choose(4, "way of dequeueing"); bool other = vp_choose(2, "dequeue by the second handle");
  Queue a(9, Chunk, std::string("vp-q")); Queue b(std::string("vp-q")); vp_assert(a.getName() == "vp-q" && b.getName() == "vp-q", "name"); vp_assert(a.empty() && b.empty() && !a.full(), "a new queue is empty");
  size_t total = 0; for (size_t i = 0; i < n; i++) { Queue& q = by[i] ? b : a; total += chunks(m[i]); if (!prio[i] && chunks(m[i]) == 1) { vp_assert(q.tryEnqueue(m[i]), "there is space"); } else if (!prio[i]) q.enqueue(m[i]); else if (chunks(m[i]) == 1 && how == 1) vp_assert(q.tryEnqueue(m[i], prio[i]), "there is space"); else q.enqueue(m[i], prio[i]); vp_assert(!q.empty(), "not empty after enqueueing"); vp_assert(q.full() == (total == 9), "full when there is no space"); }
  Queue& q = other ? b : a; bool got[QM] = {};
  for (size_t k = 0; k < n; k++) { size_t e = n; for (size_t i = 0; i < n; i++) if (!got[i] && (e == n || prio[i] > prio[e])) e = i;
    Msg r; if (how == 0) r = q.dequeue(); else if (how == 1) { vp_assert(tryGet(q, r, 0, 0), "a message is there"); } else if (how == 2) vp_assert(tryGet(q, r, 1, 250), "a message is there"); else r = q.tryDequeue(milliseconds(3));
    vp_assert(same(r, m[e]), "messages leave by priority, then in order, with their contents"); got[e] = true; }
  Msg r; vp_assert(a.empty() && b.empty(), "empty at the end"); vp_assert(!tryGet(q, r, how & 1, 70), "nothing is left"); if (total == 9) vp_reach("full"); if (n > 1) vp_reach("several"); }

// the chunks of concurrent messages in every order of arrival, with attempts to dequeue in between
extern "C" void smq_chunks() {
  size_t n = 2 + vp_choose(QM - 1, "messages"); Msg m[QM]; std::deque<vpShared::Message> part[QM]; stale = vp_choose(2, "stale success"); size_t left = 0;
  for (size_t i = 0; i < n; i++) { m[i] = make(sizes[2 * vp_choose(3, "chunks")] + 1, "content"); left += chunks(m[i]); if (i) vp_assume(m[i - 1].size >= m[i].size); } vp_assume(left <= QC); size_t most = n == QM ? 0 : QT;
  Queue q(12, Chunk, std::string("vp-q")); std::unique_ptr<Queue> feeder(n == 2 && vp_choose(2, "open or create") ? new Queue(OpenOrCreateSelector(), 12, Chunk, std::string("vp-q")) : new Queue(std::string("vp-q")));
  for (size_t i = 0; i < n; i++) { world().capture = true; if (i & 1) q.enqueue(m[i]); else feeder->enqueue(m[i]); world().capture = false; part[i].swap(world().captured); vp_assert(part[i].size() == chunks(m[i]), "number of chunks"); }
  boost::interprocess::message_queue raw(boost::interprocess::open_only, "vp-q"); std::vector<size_t> order; size_t next = 0, attempts = 0; bool started[QM] = {};
  auto attempt = [&] { Msg r; bool ok = tryGet(q, r, 1, 20); if (ok) { vp_assert(next < order.size(), "nothing is dequeued twice"); vp_assert(part[order[next]].empty(), "a message is dequeued when it is complete"); vp_assert(same(r, m[order[next]]), "messages leave in the order of their first chunks, with their contents"); ++next; } return ok; };
  while (left) { size_t c = vp_choose(n + (attempts < most), "event");
    if (c == n) { ++attempts; attempt(); } else { vp_assume(!part[c].empty()); if (!started[c] && c && !started[c - 1]) vp_assume(m[c - 1].size != m[c].size); if (!started[c]) { started[c] = true; order.push_back(c); } auto& x = part[c].front(); raw.send(x.bytes.data(), x.bytes.size(), x.priority); part[c].pop_front(); --left; } }
  if (attempts && next) vp_reach("dequeued early"); if (attempts && !next) vp_reach("attempt failed"); bool blocking = vp_choose(2, "blocking");
  while (next < n) { vp_assert(!q.empty(), "not empty while messages remain"); if (blocking) { Msg r = q.dequeue(); vp_assert(same(r, m[order[next]]), "messages leave in the order of their first chunks, with their contents"); ++next; } else vp_assert(attempt(), "complete messages are dequeued"); }
  Msg r; vp_assert(q.empty(), "empty at the end"); vp_assert(!tryGet(q, r, 0, 0), "nothing is left"); vp_reach("done"); }

// limits: capacity, oversize objects, buffer sizes
extern "C" void smq_limits() {
  unsigned kind = vp_choose(5, "kind"); size_t z = vp_choose(6, "size"); Msg m = make(sizes[z], "content"); bool big = chunks(m) > 1; bool refuses = vp_choose(2, "throw on oversize"); long long wait = vp_choose(2, "wait") ? 0 : 1500; unsigned variant = vp_choose(3, "variant");
  if (kind == 0) { unsigned size = 30 + vp_choose(6, "buffer size"); bool thrown = false; try { if (variant == 0) { Queue q(3u, size, refuses); } else if (variant == 1) { Queue q(3u, size, std::string("vp-q"), refuses); } else { Queue q(OpenOrCreateSelector(), 3u, size, std::string("vp-q"), refuses); } } catch (const Balau::Exception::SizeException&) { thrown = true; } vp_assert(thrown == (size < 32), "the smallest buffer holds a header and as many bytes"); vp_reach("buffer size"); return; }
  if (kind == 1) { std::unique_ptr<Queue> q(variant == 0 ? new Queue(3u, refuses) : variant == 1 ? new Queue(3u, std::string("vp-q"), refuses) : new Queue(OpenOrCreateSelector(), 3u, std::string("vp-q"), refuses)); vp_assert(q->tryEnqueue(Msg()), "the default buffer holds a default object"); bool ok = false; vp_assert(q->tryDequeue(ok).size == 0 && ok, "and returns it"); if (variant) vp_assert(q->getName() == "vp-q", "name"); vp_reach("default size"); return; }
  if (kind == 2) { Queue q(3u, Chunk, std::string("vp-q"), refuses); bool thrown = false, sent = false; try { if (variant == 0) { q.enqueue(m); sent = true; } else if (variant == 1) sent = q.tryEnqueue(m); else { q.enqueue(m, 1u); sent = true; } } catch (const Balau::Exception::SizeException&) { thrown = true; }
    vp_assert(thrown == (big && (refuses || variant == 1)), "oversize objects are refused"); vp_assert(sent == !thrown, "or enqueued"); vp_assert(q.empty() == thrown, "a refused object leaves nothing in the queue"); if (thrown) vp_reach("oversize"); if (!thrown) vp_assert(same(q.dequeue(), m), "the object arrives"); return; }
  if (kind == 4) { Queue q(3u, Chunk + 8, std::string("vp-q")); Queue o(OpenOrCreateSelector(), 5u, (unsigned) (Chunk + 8 * variant), std::string("vp-q")); bool back = wait != 0;
    (back ? o : q).enqueue(m); vp_assert(same((back ? q : o).dequeue(), m), "an existing queue is used with its own buffer size"); vp_assert(q.empty() && o.empty(), "nothing is left"); vp_reach("existing"); return; }
  Msg s = make(5, "small"); size_t cap = 1 + vp_choose(3, "capacity"); Queue q(cap, Chunk, std::string("vp-q"), refuses); Queue o(std::string("vp-q"));
  for (size_t i = 0; i < cap; i++) { vp_assert(!q.full(), "not full yet"); vp_assert(q.tryEnqueue(s), "there is space"); } vp_assert(q.full() && o.full(), "full"); world().lastWait = -1; bool r = variant == 0 ? q.tryEnqueue(s, milliseconds(wait)) : variant == 1 ? o.tryEnqueue(s, milliseconds(wait), 1u) : (wait = 0, q.tryEnqueue(s, 1u));
  vp_assert(!r, "no space"); vp_assert(world().lastWait == wait, "a failed call waits as long as asked"); vp_assert(same(o.dequeue(), s), "first"); vp_assert(!q.full() && q.tryEnqueue(s), "there is space again"); vp_reach("full"); }

// two producers and a consumer on a small queue: every interleaving up to the pre-emption bound
extern "C" void smq_concurrent() {
  size_t z[2] = {sizes[vp_choose(3, "size") * 2], sizes[vp_choose(3, "size") * 2]}; vp_assume(z[0] <= z[1]); Msg m[2]; for (size_t i = 0; i < 2; i++) m[i] = make(z[i], "content"); m[0].data[0] = 1; m[1].data[0] = 2; if (!z[0]) m[0] = make(1, "content");
  Queue q(1 + vp_choose(2, "capacity"), Chunk, std::string("vp-q")); Queue o(std::string("vp-q")); int seen[2] = {};
  std::thread a([&] { q.enqueue(m[0]); }), b([&] { o.enqueue(m[1]); }); for (int k = 0; k < 2; k++) { Msg r = q.dequeue(); bool first = r.size == m[0].size && (r.size != m[1].size || r.data[0] == m[0].data[0]); vp_assert(same(r, m[first ? 0 : 1]), "a message arrives as it was sent"); seen[first ? 0 : 1]++; } a.join(); b.join();
  vp_assert(seen[0] == 1 && seen[1] == 1, "each message arrives exactly once"); vp_assert(q.empty(), "empty at the end"); vp_reach("done"); }

// shared memory objects: all handles of a name refer to one object
struct Shared { unsigned a; unsigned char b; Shared(unsigned a_, unsigned char b_) : a(a_), b(b_) {} };
template <template <class> class H, class Tag> static std::unique_ptr<H<Shared>> open(Tag t, unsigned a, unsigned char b) { if constexpr (std::is_same_v<Tag, CreateOnlySelector> || std::is_same_v<Tag, OpenOrCreateSelector>) return std::make_unique<H<Shared>>(t, std::string("vp-o"), a, b); else return std::make_unique<H<Shared>>(t, std::string("vp-o")); }
template <template <class> class H> static void objects() {
  unsigned x = vp_value<unsigned>("x"), y = vp_value<unsigned>("y"); unsigned char c = vp_value<unsigned char>("c"); unsigned first = vp_choose(4, "first"), second = vp_choose(3, "second"); bool moved = vp_choose(2, "moved"), back = vp_choose(2, "write by the second handle"), assigned = vp_choose(2, "assigned");
  if (first == 3) { bool thrown = false; try { if (second == 1) open<H>(OpenOnlySelector(), 0, 0); else open<H>(OpenReadOnlySelector(), 0, 0); } catch (const std::exception&) { thrown = true; } catch (...) { thrown = true; } vp_assert(thrown, "an object that does not exist cannot be opened"); vp_reach("absent"); return; }
  std::unique_ptr<H<Shared>> older; if (first != 1 && vp_choose(2, "older")) older = open<H>(CreateOnlySelector(), y, 1);
  std::unique_ptr<H<Shared>> h; if (first == 0) h = open<H>(CreateOnlySelector(), x, c); else if (first == 1) h = open<H>(OpenOrCreateSelector(), x, c); else h = std::make_unique<H<Shared>>(CreateOnlySelector(), std::string("vp-o"), x, c);
  vp_assert((*h)->a == x && (**h).b == c, "constructed with the arguments");
  if (older) { vp_assert((*older)->a == y && (**older).b == 1, "an object that is replaced by a new one of its name is not overwritten"); vp_reach("replaced"); }
  if (moved) { auto n = std::make_unique<H<Shared>>(std::move(*h)); if (assigned) { *h = std::move(*n); } else h.swap(n); vp_assert((*h)->a == x, "the object is kept when its handle is moved"); if (n) new std::unique_ptr<H<Shared>>(std::move(n)); }
  auto s = second == 0 ? open<H>(OpenOrCreateSelector(), y, 0) : second == 1 ? open<H>(OpenOnlySelector(), 0, 0) : open<H>(OpenReadOnlySelector(), 0, 0); const H<Shared>& cs = *s;
  vp_assert(cs->a == x && (*cs).b == c, "an existing object is opened, the arguments are ignored"); if (back && second != 2) { (*s)->a = y; vp_assert((*h)->a == y, "seen through the first handle"); } else { (**h).a = y; vp_assert(cs->a == y, "seen through the second handle"); } vp_reach("shared"); }
extern "C" void shm_managed() { objects<MSharedMemoryObject>(); }
extern "C" void shm_unmanaged() { objects<USharedMemoryObject>(); }
