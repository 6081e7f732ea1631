// Native counterpart of the harness interface: reads the recorded inputs and runs the harness once, on the real machine.
// usage: <binary> <inputs file> <entry>; lines of the inputs file: "name hex" ("-" for no bytes)
#include "vp.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <string>
#include <unistd.h>
#include <utility>
#include <vector>
static std::vector<std::pair<std::string, std::vector<unsigned char>>> g_in; static size_t g_pos = 0;
static std::string nosp(const char* n) { std::string s = n; for (char& c : s) if (c == ' ') c = '_'; return s; }
extern "C" {
void vp_symbolic(void* p, unsigned long n, const char* nm) {
  std::string ns = nosp(nm); const char* name = ns.c_str();
  if (g_pos >= g_in.size() || g_in[g_pos].first != name || g_in[g_pos].second.size() != n) { fprintf(stderr, "VP-DIVERGED at input %zu (%s)\n", g_pos, name); fflush(stdout); _exit(99); }
  memcpy(p, g_in[g_pos++].second.data(), n);
}
unsigned long vp_choose(unsigned long n, const char* name) { if (n <= 1) return 0; unsigned char c; vp_symbolic(&c, 1, name); return c < n ? c : n - 1; }
void vp_assume(int c) { if (!c) { printf("VP-ASSUME\n"); fflush(stdout); _exit(98); } }
void vp_assert(int c, const char* msg) { if (!c) { printf("VP-ASSERT %s\n", msg); fflush(stdout); _exit(42); } }
void vp_fail(const char* msg) { printf("VP-ASSERT %s\n", msg); fflush(stdout); _exit(42); }
void vp_observe_bytes(const char* name, const void* p, unsigned long n) { printf("VP-OBS %s ", nosp(name).c_str()); for (unsigned long i = 0; i < n; i++) printf("%02x", ((const unsigned char*)p)[i]); printf("\n"); }
void vp_observe(const char* name, unsigned long v) { vp_observe_bytes(name, &v, 8); }
void vp_reach(const char*) {}
unsigned long vp_concrete(unsigned long v) { return v; }
int vp_is_engine() { return 0; }
int vp_is_symbolic(unsigned long) { return 0; }
void vp_trace(const char*, unsigned long) {}
void vp_yield() {}
void vp_done() { printf("VP-DONE\n"); fflush(stdout); _exit(0); }
unsigned long vp_ite(int c, unsigned long a, unsigned long b) { return c ? a : b; }
unsigned long vp_alloc_live() { return 0; }
void vp_preempt(unsigned long) {}
}
int main(int argc, char** argv) {
  if (argc < 3) return 3;
  FILE* f = fopen(argv[1], "r"); if (!f) { perror(argv[1]); return 3; }
  static char name[512]; static char hx[1 << 20];
  while (fscanf(f, "%511s %1048575s", name, hx) == 2) { std::vector<unsigned char> v; if (strcmp(hx, "-")) for (size_t i = 0; hx[i] && hx[i + 1]; i += 2) { char b[3] = {hx[i], hx[i + 1], 0}; v.push_back((unsigned char)strtoul(b, 0, 16)); } g_in.push_back({name, v}); }
  fclose(f);
  auto e = (void (*)())dlsym(RTLD_DEFAULT, argv[2]); if (!e) { fprintf(stderr, "no entry %s\n", argv[2]); return 3; }
  e(); printf("VP-DONE\n"); fflush(stdout); _exit(0);
}
