// C library functions executed symbolically (C locale), and other pieces of the runtime the engine needs as IR.
#include <cstddef>
#include <cstdint>
#include <errno.h>
#include <stdarg.h>
typedef unsigned char uc;
extern "C" {
void __vp_once_wait(int* o); void __vp_sync_acquire(void*); void __vp_sync_release(void*); void vp_yield(); int __vp_tid();
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
size_t wcslen(const wchar_t* s) { size_t n = 0; while (s[n]) n++; return n; }
void* memchr(const void* s, int c, size_t n) { const uc* p = (const uc*)s; for (size_t i = 0; i < n; i++) if (p[i] == (uc)c) return (void*)(p + i); return nullptr; }
void* memrchr(const void* s, int c, size_t n) { const uc* p = (const uc*)s; while (n--) if (p[n] == (uc)c) return (void*)(p + n); return nullptr; }
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
char* strrchr(const char* s, int c) { const char* r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return (int)(uc)*a - (int)(uc)*b; }
int strncmp(const char* a, const char* b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (int)(uc)*a - (int)(uc)*b; if (!*a) return 0; } return 0; }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) ; return r; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { char* r = d; while (*d) d++; while ((*d++ = *s++)) ; return r; }
char* strstr(const char* h, const char* n) { if (!*n) return (char*)h; for (; *h; h++) { size_t i = 0; while (n[i] && h[i] == n[i]) i++; if (!n[i]) return (char*)h; } return nullptr; }
int isdigit(int c) { return (unsigned)c - '0' < 10; }
int isupper(int c) { return (unsigned)c - 'A' < 26; }
int islower(int c) { return (unsigned)c - 'a' < 26; }
int isalpha(int c) { return ((unsigned)c | 32) - 'a' < 26; }
int isalnum(int c) { return (((unsigned)c | 32) - 'a' < 26) | ((unsigned)c - '0' < 10); }
int isspace(int c) { return (c == ' ') | ((unsigned)c - '\t' < 5); }
int isblank(int c) { return (c == ' ') | (c == '\t'); }
int isxdigit(int c) { return ((unsigned)c - '0' < 10) | (((unsigned)c | 32) - 'a' < 6); }
int iscntrl(int c) { return ((unsigned)c < 32) | (c == 127); }
int isprint(int c) { return (unsigned)c - 32 < 95; }
int isgraph(int c) { return (unsigned)c - 33 < 94; }
int ispunct(int c) { return ((unsigned)c - 33 < 94) & !((((unsigned)c | 32) - 'a' < 26) | ((unsigned)c - '0' < 10)); }
int tolower(int c) { return (unsigned)c - 'A' < 26 ? c + 32 : c; }
int toupper(int c) { return (unsigned)c - 'a' < 26 ? c - 32 : c; }
int strcasecmp(const char* a, const char* b) { for (;; a++, b++) { int x = tolower((uc)*a), y = tolower((uc)*b); if (x != y) return x - y; if (!x) return 0; } }
static inline int digitOf(uc c) { if ((unsigned)c - '0' < 10) return c - '0'; if (((unsigned)c | 32) - 'a' < 26) return (c | 32) - 'a' + 10; return 99; }
static unsigned long parseU(const char* s, char** end, int base, bool& neg, bool& over, unsigned long lim, bool isSigned, bool binary) {
  const char* p = s; neg = false; over = false; while (isspace((uc)*p)) p++;
  if (*p == '-') { neg = true; p++; } else if (*p == '+') p++;
  if ((base == 0 || base == 16) && *p == '0' && (p[1] | 32) == 'x' && digitOf(p[2]) < 16) { base = 16; p += 2; }
  else if (binary && (base == 0 || base == 2) && *p == '0' && (p[1] | 32) == 'b' && digitOf(p[2]) < 2) { base = 2; p += 2; }
  else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long max = isSigned ? (neg ? lim + 1 : lim) : lim; unsigned long cut = max / base, cl = max % base, acc = 0; bool any = false; int safe = base <= 10 ? 19 : base <= 16 ? 16 : 12, k = 0;
  for (;; p++) { int d = digitOf(*p); if (d >= base) break; any = true; if (over) continue; if (k < safe) { acc = acc * base + (unsigned long)d; k++; continue; } if (k++ == safe && acc > max) { over = true; continue; } if (acc > cut || (acc == cut && (unsigned long)d > cl)) { over = true; continue; } acc = acc * base + (unsigned long)d; }
  if (k <= safe && acc > max) over = true;
  if (end) *end = (char*)(any ? p : s);
  if (!any) { neg = false; over = false; return 0; }
  return acc;
}
static long pl(const char* s, char** e, int b, bool bin) { bool n, o; unsigned long v = parseU(s, e, b, n, o, 0x7fffffffffffffffL, true, bin); if (o) { errno = ERANGE; return n ? (long)0x8000000000000000L : 0x7fffffffffffffffL; } return n ? -(long)v : (long)v; }
static unsigned long pul(const char* s, char** e, int b, bool bin) { bool n, o; unsigned long v = parseU(s, e, b, n, o, ~0ul, false, bin); if (o) { errno = ERANGE; return ~0ul; } return n ? -v : v; }
long strtol(const char* s, char** e, int b) { return pl(s, e, b, false); }
long long strtoll(const char* s, char** e, int b) { return pl(s, e, b, false); }
unsigned long strtoul(const char* s, char** e, int b) { return pul(s, e, b, false); }
unsigned long long strtoull(const char* s, char** e, int b) { return pul(s, e, b, false); }
long __isoc23_strtol(const char* s, char** e, int b) { return pl(s, e, b, true); }
long __isoc23_strtoll(const char* s, char** e, int b) { return pl(s, e, b, true); }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return pul(s, e, b, true); }
unsigned long __isoc23_strtoull(const char* s, char** e, int b) { return pul(s, e, b, true); }
// formatted output
int vp_is_symbolic(unsigned long); void vp_assume(int); unsigned long vp_ite(int, unsigned long, unsigned long);
void __vp_fresh(void*, unsigned long); void __vp_range(unsigned long, unsigned long*, unsigned long*); int __vp_fmt_double(char*, unsigned long, const char*, double);
// decimal digits of v, most significant first; symbolic values are described by their digits: sum d_i 10^i == v
static int decDigits(unsigned long v, char* b) {
  if (!vp_is_symbolic(v)) { int n = 0; char t[24]; do { t[n++] = '0' + v % 10; v /= 10; } while (v); for (int i = 0; i < n; i++) b[i] = t[n - 1 - i]; return n; }
  int n = 1; unsigned long p = 10; while (n < 20 && v >= p) { n++; if (n < 20) p *= 10; }
  unsigned long lo, hi; __vp_range(v, &lo, &hi); unsigned long top = 1; for (int i = 1; i < n; i++) top *= 10; if (lo < top && n > 1) lo = top; if (n < 20 && hi > top * 10 - 1) hi = top * 10 - 1;
  // leading digits shared by the whole range are concrete
  int k = n; unsigned long pw = top; while (k > 1 && hi / pw - lo / pw <= 1) { if (hi / pw != lo / pw) { if (v >= hi / pw * pw) lo = hi / pw * pw; else hi = hi / pw * pw - 1; } k--; pw /= 10; }
  if (k == 1 && hi == lo) k = 0; // pw * 10: weight of the last concrete digit
  unsigned long base = 0; { unsigned long w = top; for (int i = 0; i < n - k; i++, w /= 10) { b[i] = (char)('0' + lo / w % 10); base += lo / w % 10 * w; } }
  if (!k) return n;
  uc* d = (uc*)b + (n - k); __vp_fresh(d, k); unsigned long acc = 0; for (int i = 0; i < k; i++) vp_assume((d[i] >= '0') & (d[i] <= '9'));
  if (k == n) { if (n == 20) vp_assume(d[0] == '1'); else if (n > 1) vp_assume(d[0] != '0'); }
  for (int i = 0; i < k; i++) acc = acc * 10 + (unsigned long)digitOf(d[i]);
  vp_assume(acc == v - base); return n;
}
static int powDigits(unsigned long v, char* b, int sh, bool up) { int n = 1; while (n * sh < 64 && (v >> (n * sh))) n++; for (int i = 0; i < n; i++) { unsigned x = (v >> ((n - 1 - i) * sh)) & ((1 << sh) - 1); b[i] = (char)vp_ite(x < 10, '0' + x, (up ? 'A' : 'a') + x - 10); } return n; }
int vsnprintf(char* out, size_t cap, const char* f, va_list ap) {
  size_t o = 0; auto put = [&](char c) { if (o + 1 < cap) out[o] = c; o++; };
  for (; *f; f++) {
    if (*f != '%') { put(*f); continue; }
    const char* spec = f; f++; bool left = false, zero = false, plus = false, space = false, alt = false; for (;; f++) { if (*f == '-') left = true; else if (*f == '0') zero = true; else if (*f == '+') plus = true; else if (*f == ' ') space = true; else if (*f == '#') alt = true; else break; }
    int w = 0, pr = -1; if (*f == '*') { w = va_arg(ap, int); if (w < 0) { left = true; w = -w; } f++; } else while (*f >= '0' && *f <= '9') w = w * 10 + (*f++ - '0');
    if (*f == '.') { f++; pr = 0; if (*f == '*') { pr = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') pr = pr * 10 + (*f++ - '0'); }
    int l = 0; for (;; f++) { if (*f == 'l') l++; else if (*f == 'z' || *f == 'j' || *f == 't' || *f == 'q') l = 2; else if (*f == 'h') l--; else break; }
    char c = *f; char b[72]; int n = 0; const char* body = b; char sign = 0; const char* pre = "";
    if (c == '%') { put('%'); continue; }
    if (c == 'c') { b[0] = (char)va_arg(ap, int); n = 1; zero = false; }
    else if (c == 's') { body = va_arg(ap, const char*); if (!body) body = "(null)"; while ((pr < 0 || n < pr) && body[n]) n++; zero = false; }
    else if (c == 'd' || c == 'i') { long v = l > 0 ? va_arg(ap, long) : va_arg(ap, int); if (l == -1) v = (short)v; if (l == -2) v = (signed char)v; if (v < 0) { sign = '-'; n = decDigits(0ul - (unsigned long)v, b); } else { sign = plus ? '+' : space ? ' ' : 0; n = decDigits(v, b); } }
    else if (c == 'u' || c == 'x' || c == 'X' || c == 'o' || c == 'p') { unsigned long v = l > 0 || c == 'p' ? va_arg(ap, unsigned long) : va_arg(ap, unsigned); if (l == -1) v = (unsigned short)v; if (l == -2) v = (unsigned char)v; if (c == 'u') n = decDigits(v, b); else if (c == 'o') n = powDigits(v, b, 3, false); else n = powDigits(v, b, 4, c == 'X'); if (c == 'p' || (alt && c == 'x' && v)) pre = "0x"; else if (alt && c == 'X' && v) pre = "0X"; }
    else { double d = va_arg(ap, double); char sp[32]; int k = 0; while (spec <= f && k < 31) sp[k++] = *spec++; sp[k] = 0; n = __vp_fmt_double(b, sizeof b, sp, d); for (int i = 0; i < n; i++) put(b[i]); continue; }
    int zeros = 0; if (c != 'c' && c != 's') { if (pr >= 0) { zero = false; if (pr > n) zeros = pr - n; } }
    int pl = 0; while (pre[pl]) pl++; int len = n + zeros + pl + (sign ? 1 : 0); int padn = w > len ? w - len : 0;
    if (!left && !zero) for (int i = 0; i < padn; i++) put(' ');
    if (sign) put(sign); for (int i = 0; i < pl; i++) put(pre[i]); if (!left && zero) for (int i = 0; i < padn; i++) put('0'); for (int i = 0; i < zeros; i++) put('0');
    for (int i = 0; i < n; i++) put(body[i]);
    if (left) for (int i = 0; i < padn; i++) put(' ');
  }
  if (cap) out[o < cap ? o : cap - 1] = 0; return (int)o;
}
int vsprintf(char* out, const char* f, va_list ap) { return vsnprintf(out, (size_t)1 << 30, f, ap); }
int snprintf(char* out, size_t cap, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(out, cap, f, ap); va_end(ap); return r; }
int sprintf(char* out, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(out, (size_t)1 << 30, f, ap); va_end(ap); return r; }
int atoi(const char* s) { return (int)pl(s, nullptr, 10, false); }
long atol(const char* s) { return pl(s, nullptr, 10, false); }
long long atoll(const char* s) { return pl(s, nullptr, 10, false); }
// std::ctype<char> in the C locale (virtual functions of a native object, replaced by name)
char vp_ct_up(void*, char c) __asm__("_ZNKSt5ctypeIcE10do_toupperEc");
char vp_ct_up(void*, char c) { return (char)toupper((uc)c); }
char vp_ct_lo(void*, char c) __asm__("_ZNKSt5ctypeIcE10do_tolowerEc");
char vp_ct_lo(void*, char c) { return (char)tolower((uc)c); }
const char* vp_ct_upr(void*, char* a, const char* b) __asm__("_ZNKSt5ctypeIcE10do_toupperEPcPKc");
const char* vp_ct_upr(void*, char* a, const char* b) { for (; a < b; a++) *a = (char)toupper((uc)*a); return b; }
const char* vp_ct_lor(void*, char* a, const char* b) __asm__("_ZNKSt5ctypeIcE10do_tolowerEPcPKc");
const char* vp_ct_lor(void*, char* a, const char* b) { for (; a < b; a++) *a = (char)tolower((uc)*a); return b; }
char vp_ct_w(void*, char c) __asm__("_ZNKSt5ctypeIcE8do_widenEc");
char vp_ct_w(void*, char c) { return c; }
char vp_ct_n(void*, char c, char) __asm__("_ZNKSt5ctypeIcE9do_narrowEcc");
char vp_ct_n(void*, char c, char) { return c; }
const char* vp_ct_wr(void*, const char* a, const char* b, char* d) __asm__("_ZNKSt5ctypeIcE8do_widenEPKcS2_Pc");
const char* vp_ct_wr(void*, const char* a, const char* b, char* d) { while (a < b) *d++ = *a++; return b; }
const char* vp_ct_nr(void*, const char* a, const char* b, char, char* d) __asm__("_ZNKSt5ctypeIcE9do_narrowEPKcS2_cPc");
const char* vp_ct_nr(void*, const char* a, const char* b, char, char* d) { while (a < b) *d++ = *a++; return b; }
void vp_ct_wi(const void*) __asm__("_ZNKSt5ctypeIcE13_M_widen_initEv");
void vp_ct_wi(const void*) {}
char vp_ct_nn(void*, char c, char) __asm__("_ZNKSt5ctypeIcE6narrowEcc");
char vp_ct_nn(void*, char c, char) { return c; }
// the hash function of the standard library is abstracted: any function of the bytes is allowed, this one depends on the length only
size_t vp_hash_bytes(const void*, size_t len, size_t seed) __asm__("_ZSt11_Hash_bytesPKvmm");
size_t vp_hash_bytes(const void*, size_t len, size_t) { return len; }
size_t vp_fnv_bytes(const void*, size_t len, size_t seed) __asm__("_ZSt15_Fnv_hash_bytesPKvmm");
size_t vp_fnv_bytes(const void*, size_t len, size_t) { return len; }
}
// one-time initialisation
namespace std { extern __thread void* __once_callable; extern __thread void (*__once_call)(); }
extern "C" void __once_proxy() { std::__once_call(); }
extern "C" int pthread_once(int* o, void (*fn)()) {
  for (;;) {
    vp_yield();
    int v = __atomic_load_n(o, __ATOMIC_ACQUIRE);
    if (v == 2) return 0;
    if (v == 1) { __vp_once_wait(o); continue; }
    __atomic_store_n(o, 1, __ATOMIC_RELEASE);
    try { fn(); } catch (...) { __atomic_store_n(o, 0, __ATOMIC_RELEASE); throw; }
    __atomic_store_n(o, 2, __ATOMIC_RELEASE);
    return 0;
  }
}
#define VP_NAME(x) x##_74
#include "icu_model.inc"
