// Harness interface: symbolic in the engine (vpse), concrete in the native replay build.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
void vp_symbolic(void* p, unsigned long n, const char* name);
void vp_assume(int c);
void vp_assert(int c, const char* msg);
[[noreturn]] void vp_fail(const char* msg);
void vp_observe(const char* name, unsigned long v);
void vp_observe_bytes(const char* name, const void* p, unsigned long n);
void vp_reach(const char* label);
unsigned long vp_choose(unsigned long n, const char* name);   // one path per value in [0, n)
unsigned long vp_concrete(unsigned long v);                   // one path per feasible value
int vp_is_engine();
int vp_is_symbolic(unsigned long v);
void vp_trace(const char* msg, unsigned long v);
void vp_yield();
void vp_done();
unsigned long vp_ite(int c, unsigned long a, unsigned long b);
unsigned long vp_alloc_live();
void vp_main();
}
template <class T> static inline T vp_value(const char* name) { T v; vp_symbolic(&v, sizeof v, name); return v; }
template <class T> static inline T vp_range(T lo, T hi, const char* name) { T v; vp_symbolic(&v, sizeof v, name); vp_assume(v >= lo && v <= hi); return v; }
