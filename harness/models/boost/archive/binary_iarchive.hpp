#pragma once
#include <boost/archive/binary_oarchive.hpp>
namespace boost { namespace archive {
class binary_iarchive { std::streambuf& sb; void get(void* p, size_t n) { if ((size_t)sb.sgetn((char*)p, n) != n) throw std::runtime_error("input stream error"); }
public: explicit binary_iarchive(std::streambuf& s, unsigned = 0) : sb(s) { char t[4]; get(t, 4); if (std::memcmp(t, "\x04VPA", 4)) throw std::runtime_error("invalid signature"); }
  template <class T> binary_iarchive& operator>>(const boost::serialization::nvp<T>& t) { return *this >> t.value(); }
  template <class T> binary_iarchive& operator>>(T& t) { if constexpr (std::is_arithmetic_v<T>) get(&t, sizeof t); else t.serialize(*this, 0u); return *this; }
  template <class T> binary_iarchive& operator&(const T& t) { return *this >> const_cast<T&>(t); } };
} }
