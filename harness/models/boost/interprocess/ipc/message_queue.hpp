// Model of the Boost message queue: bounded, highest priority first, in order of arrival within a priority.
#pragma once
#include <boost/date_time/posix_time/posix_time_types.hpp>
#include <boost/interprocess/shared_memory_object.hpp>
namespace boost { namespace interprocess {
class vp_message_queue { vpShared::Ref ref;
  vp_message_queue(vpShared::How h, const char* n, size_t max, size_t size) { bool created = false; ref = vpShared::obtain(h, n, &created); if (created) { ref->queue = true; ref->maxMessages = max; ref->maxSize = size; } else if (!ref->queue) vpShared::refuse(not_found_error); }
  void put(const void* p, size_t n, unsigned priority) { auto at = ref->messages.end(); while (at != ref->messages.begin() && (at - 1)->priority < priority) --at; ref->messages.insert(at, vpShared::Message{std::vector<char>((const char*)p, (const char*)p + n), priority}); ref->changed.notify_all(); }
  void get(void* p, size_t& n, unsigned& priority) { auto& m = ref->messages.front(); n = m.bytes.size(); priority = m.priority; for (size_t i = 0; i < n; i++) ((char*)p)[i] = m.bytes[i]; ref->messages.pop_front(); ref->changed.notify_all(); }
  // the time that a call waits when nobody else acts: the clock advances to the limit
  static void waited(const boost::posix_time::ptime& limit) { auto now = boost::posix_time::vp_microsec_clock::universal_time(); long long w = (limit - now).total_milliseconds(); vpShared::world().lastWait = w; }
  bool hold(const void* p, size_t n, unsigned priority) { if (n > ref->maxSize) vpShared::refuse(size_error); if (!vpShared::world().capture) return false; vpShared::world().captured.push_back(vpShared::Message{std::vector<char>((const char*)p, (const char*)p + n), priority}); return true; }
public: using size_type = size_t;
  vp_message_queue(create_only_t, const char* n, size_t max, size_t size) : vp_message_queue(vpShared::How::Create, n, max, size) {} vp_message_queue(open_or_create_t, const char* n, size_t max, size_t size) : vp_message_queue(vpShared::How::OpenOrCreate, n, max, size) {} vp_message_queue(open_only_t, const char* n) : vp_message_queue(vpShared::How::Open, n, 0, 0) {}
  vp_message_queue(vp_message_queue&&) = default; vp_message_queue(const vp_message_queue&) = delete;
  void send(const void* p, size_t n, unsigned priority) { if (hold(p, n, priority)) return; std::unique_lock<std::mutex> l(ref->lock); while (ref->messages.size() == ref->maxMessages) ref->changed.wait(l); put(p, n, priority); }
  bool try_send(const void* p, size_t n, unsigned priority) { if (hold(p, n, priority)) return true; std::unique_lock<std::mutex> l(ref->lock); if (ref->messages.size() == ref->maxMessages) return false; put(p, n, priority); return true; }
  bool timed_send(const void* p, size_t n, unsigned priority, const boost::posix_time::ptime& limit) { if (try_send(p, n, priority)) return true; waited(limit); return false; }
  void receive(void* p, size_t n, size_t& got, unsigned& priority) { if (n < ref->maxSize) vpShared::refuse(size_error); std::unique_lock<std::mutex> l(ref->lock); while (ref->messages.empty()) ref->changed.wait(l); get(p, got, priority); }
  bool try_receive(void* p, size_t n, size_t& got, unsigned& priority) { if (n < ref->maxSize) vpShared::refuse(size_error); std::unique_lock<std::mutex> l(ref->lock); if (ref->messages.empty()) return false; get(p, got, priority); return true; }
  bool timed_receive(void* p, size_t n, size_t& got, unsigned& priority, const boost::posix_time::ptime& limit) { if (try_receive(p, n, got, priority)) return true; waited(limit); return false; }
  size_t get_max_msg() const { return ref->maxMessages; } size_t get_max_msg_size() const { return ref->maxSize; } size_t get_num_msg() const { std::lock_guard<std::mutex> l(ref->lock); return ref->messages.size(); }
  static bool remove(const char* n) { return vpShared::removeName(n); } };
} }
#define message_queue vp_message_queue
