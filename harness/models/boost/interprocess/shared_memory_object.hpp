#pragma once
#include "vp_shared.hpp"
namespace boost { namespace interprocess {

class shared_memory_object { vpShared::Ref ref; mode_t mode = read_only; friend class mapped_region; std::string name;
  shared_memory_object(vpShared::How h, const char* n, mode_t m) : ref(vpShared::obtain(h, n)), mode(m), name(n) {}
public: shared_memory_object() = default; shared_memory_object(create_only_t, const char* n, mode_t m) : shared_memory_object(vpShared::How::Create, n, m) {} shared_memory_object(open_or_create_t, const char* n, mode_t m) : shared_memory_object(vpShared::How::OpenOrCreate, n, m) {} shared_memory_object(open_only_t, const char* n, mode_t m) : shared_memory_object(vpShared::How::Open, n, m) {}
  shared_memory_object(shared_memory_object&&) = default; shared_memory_object& operator=(shared_memory_object&&) = default; shared_memory_object(const shared_memory_object&) = delete;
  void truncate(offset_t n) { if (!ref || mode != read_write) vpShared::refuse(security_error); if ((size_t)n != ref->size) { void* p = std::calloc(1, n); if (ref->raw) std::free(ref->raw); ref->raw = (unsigned char*)p; ref->size = n; } }
  bool get_size(offset_t& n) const { if (!ref) return false; n = (offset_t)ref->size; return true; } mode_t get_mode() const { return mode; } const char* get_name() const { return name.c_str(); }
  static bool remove(const char* n) { return vpShared::removeName(n); } };
class mapped_region { vpShared::Ref ref; mode_t mode = read_only;
public: mapped_region() = default; mapped_region(const shared_memory_object& o, mode_t m) : ref(o.ref), mode(m) { if (!ref || !ref->size) vpShared::refuse(size_error); if (m == read_write && o.mode != read_write) vpShared::refuse(security_error); }
  mapped_region(mapped_region&&) = default; mapped_region& operator=(mapped_region&&) = default; void* get_address() const { return ref ? ref->raw : nullptr; } size_t get_size() const { return ref ? ref->size : 0; } mode_t get_mode() const { return mode; } };
} }
