// Model of the Boost binary archives: a signature, then the bytes of each value in order.
#pragma once
#include <boost/serialization/nvp.hpp>
#include <cstring>
#include <stdexcept>
#include <streambuf>
#include <type_traits>
namespace boost { namespace archive {
class binary_oarchive { std::streambuf& sb; void put(const void* p, size_t n) { if ((size_t)sb.sputn((const char*)p, n) != n) throw std::runtime_error("output stream error"); }
public: explicit binary_oarchive(std::streambuf& s, unsigned = 0) : sb(s) { put("\x04VPA", 4); } ~binary_oarchive() { sb.pubsync(); }
  template <class T> binary_oarchive& operator<<(const boost::serialization::nvp<T>& t) { return *this << t.const_value(); }
  template <class T> binary_oarchive& operator<<(const T& t) { if constexpr (std::is_arithmetic_v<T>) put(&t, sizeof t); else const_cast<T&>(t).serialize(*this, 0u); return *this; }
  template <class T> binary_oarchive& operator&(const T& t) { return *this << t; } };
} }
