// Shared helpers of the harnesses.
#pragma once
#include "vp.h"
#include <cstring>
#include <exception>
#include <string>
#include <string_view>
#include <vector>
// n symbolic bytes in an exactly sized heap block, so that a read one past either end leaves the object
struct SymBytes { char* p; size_t n; SymBytes(size_t len, const char* name) : p(new char[len ? len : 1]), n(len) { if (len) vp_symbolic(p, len, name); } std::string_view view() const { return std::string_view(p, n); } std::string str() const { return std::string(p, n); } ~SymBytes() { delete[] p; } SymBytes(const SymBytes&) = delete; };
struct SymU32 { char32_t* p; size_t n; SymU32(size_t len, const char* name) : p(new char32_t[len ? len : 1]), n(len) { if (len) vp_symbolic(p, len * 4, name); } std::u32string_view view() const { return std::u32string_view(p, n); } ~SymU32() { delete[] p; } SymU32(const SymU32&) = delete; };
static inline size_t symLen(size_t max, const char* name) { return vp_choose(max + 1, name); }
static inline size_t symLen(size_t lo, size_t max, const char* name) { return lo + vp_choose(max - lo + 1, name); }
// restricts a byte to a set of characters
static inline void oneOf(char c, const char* set) { int ok = 0; for (const char* s = set; *s; s++) ok |= c == *s; vp_assume(ok); }
static inline void allOf(const SymBytes& b, const char* set) { for (size_t i = 0; i < b.n; i++) oneOf(b.p[i], set); }
static inline void observeStr(const char* n, std::string_view s) { vp_observe_bytes(n, s.data(), s.size()); }
// branch-free equality of two texts
template <class S, class T> static inline int sameText(const S& a, const T& b) { if (a.size() != b.size()) return 0; int ok = 1; for (size_t i = 0; i < a.size(); i++) ok &= a[i] == b[i]; return ok; }
template <class V> static inline int matchAt(const V& s, size_t at, const V& p) { if (at + p.size() > s.size()) return 0; int ok = 1; for (size_t i = 0; i < p.size(); i++) ok &= s[at + i] == p[i]; return ok; }
// reference UTF-8 encoder (RFC 3629), independent of the code under test
static inline size_t refEncode(char32_t c, unsigned char* o) {
  if (c < 0x80) { o[0] = c; return 1; }
  if (c < 0x800) { o[0] = 0xC0 | (c >> 6); o[1] = 0x80 | (c & 63); return 2; }
  if (c < 0x10000) { o[0] = 0xE0 | (c >> 12); o[1] = 0x80 | ((c >> 6) & 63); o[2] = 0x80 | (c & 63); return 3; }
  o[0] = 0xF0 | (c >> 18); o[1] = 0x80 | ((c >> 12) & 63); o[2] = 0x80 | ((c >> 6) & 63); o[3] = 0x80 | (c & 63); return 4;
}
static inline int isScalar(char32_t c) { return (c < 0xD800) | ((c > 0xDFFF) & (c <= 0x10FFFF)); }
// a well-formed UTF-8 text of n symbolic code points; lengths of the encodings fork
struct SymText { std::string s; std::vector<char32_t> cp; std::vector<size_t> at;
  SymText(size_t n, const char* name) { for (size_t i = 0; i < n; i++) { char32_t c; vp_symbolic(&c, 4, name); vp_assume(isScalar(c)); unsigned char b[4]; size_t k = refEncode(c, b); at.push_back(s.size()); s.append((const char*)b, k); cp.push_back(c); } at.push_back(s.size()); } };
