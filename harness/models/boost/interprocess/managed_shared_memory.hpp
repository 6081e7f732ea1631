#pragma once
#include <boost/interprocess/shared_memory_object.hpp>
namespace boost { namespace interprocess {
// calls that lock the mutex of the segment need a segment that is mapped for writing
class vp_managed_shared_memory { vpShared::Ref ref; bool writable = false;
  vp_managed_shared_memory(vpShared::How h, const char* n, size_t size, bool w) : writable(w) { bool created = false; ref = vpShared::obtain(h, n, &created); if (created) ref->size = size; }
  vpShared::Object& locked() { vp_assert(ref != nullptr, "the segment is used while it is mapped"); vp_assert(writable, "the mutex of a segment mapped read-only is not locked"); return *ref; }
  template <class T> struct Maker { vp_managed_shared_memory& m; std::string name; bool find;
    template <class... P> T* operator()(P&&... p) { auto& o = m.locked(); auto f = o.named.find(name); if (f != o.named.end()) { if (find) return (T*)f->second.first; vpShared::refuse(already_exists_error); }
      size_t used = sizeof(T); for (auto& n : o.named) used += n.second.second; vp_assert(used <= o.size, "the segment is large enough"); void* mem = std::malloc(sizeof(T)); T* t = new (mem) T(std::forward<P>(p)...); o.named[name] = {mem, sizeof(T)}; return t; } };
public: vp_managed_shared_memory() = default; vp_managed_shared_memory(create_only_t, const char* n, size_t s) : vp_managed_shared_memory(vpShared::How::Create, n, s, true) {} vp_managed_shared_memory(open_or_create_t, const char* n, size_t s) : vp_managed_shared_memory(vpShared::How::OpenOrCreate, n, s, true) {} vp_managed_shared_memory(open_only_t, const char* n) : vp_managed_shared_memory(vpShared::How::Open, n, 0, true) {} vp_managed_shared_memory(open_read_only_t, const char* n) : vp_managed_shared_memory(vpShared::How::Open, n, 0, false) {}
  vp_managed_shared_memory(vp_managed_shared_memory&& o) noexcept : ref(std::move(o.ref)), writable(o.writable) {} vp_managed_shared_memory& operator=(vp_managed_shared_memory&& o) noexcept { ref = std::move(o.ref); writable = o.writable; return *this; }
  template <class T> Maker<T> construct(const char* n) { return {*this, n, false}; } template <class T> Maker<T> find_or_construct(const char* n) { return {*this, n, true}; }
  template <class T> std::pair<T*, size_t> find(const char* n) { locked(); return find_no_lock<T>(n); }
  template <class T> std::pair<T*, size_t> find_no_lock(const char* n) { vp_assert(ref != nullptr, "the segment is used while it is mapped"); auto f = ref->named.find(n); return f == ref->named.end() ? std::pair<T*, size_t>(nullptr, 0) : std::pair<T*, size_t>((T*)f->second.first, 1); }
  template <class T> bool destroy(const char* n) { auto& o = locked(); auto f = o.named.find(n); if (f == o.named.end()) return false; ((T*)f->second.first)->~T(); std::free(f->second.first); o.named.erase(f); return true; } };
} }
#define managed_shared_memory vp_managed_shared_memory
