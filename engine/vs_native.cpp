// Native side of the harness interface: replays one concrete input vector against the real code.
// usage: prog <entry> <inputs-file>   inputs: one "name bits value" per line; VS_PARAMS="a=1,b=2"; VS_FILL=byte
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <string>
#include <csignal>
#include <unistd.h>
#include <dlfcn.h>
typedef unsigned long u64;
static struct In { char name[96]; unsigned bits; u64 v; } *ins; static size_t nin, pos; static long countdown = -1, live = 0; static int fill = -1; static bool abortok;
static struct Blk { void* p; size_t n; int kind; void* base; } tab[1 << 18]; // side table of live blocks
static size_t slot(void* p) { size_t i = ((u64)p >> 4) * 0x9E3779B97F4A7C15ull >> 46; while (tab[i].p && tab[i].p != p) i = (i + 1) & ((1 << 18) - 1); return i; }
[[noreturn]] static void stop(int code, const char* what, const char* msg) { fflush(nullptr); char b[600]; int n = snprintf(b, 600, "\n%s %s\n", what, msg); if (write(1, b, n)) {} _exit(code); }
extern "C" {
u64 vs_sym(unsigned bits, const char* name) { if (pos >= nin) { ++pos; return 0; } In& i = ins[pos++]; if (i.bits != bits || strcmp(i.name, name)) stop(77, "VS-DIVERGED", name); return i.v; }
void vs_assume(int c) { if (!c) stop(67, "VS-ASSUME", ""); }
void vs_check(int c, const char* m) { if (!c) stop(66, "VS-FAIL", m); }
void vs_reach(const char*) {}
void vs_observe(u64 v) { printf("VS-OBS %lu\n", v); }
long vs_heap_live() { return live; }
static void onabort(int) { stop(0, "VS-END", "abort"); }
void vs_expect_abort(int on) { abortok = on; signal(SIGABRT, on ? onabort : SIG_DFL); }
long vs_concrete(long v) { return v; }
long vs_param(const char* n, long d) { const char* e = getenv("VS_PARAMS"); size_t l = strlen(n); while (e && *e) { if (!strncmp(e, n, l) && e[l] == '=') return atol(e + l + 1); e = strchr(e, ','); if (e) ++e; } return d; }
static long skew = 0;
void vs_skew(long n) { skew = n; }
void vs_fail_alloc(long k) { countdown = k; }
long vs_fail_left() { return countdown; }
}
// kinds: 3 new, 4 new[], 5 and 6 their aligned forms
static void* get(size_t n, int kind, bool nt, size_t al = 0) {
  if (countdown >= 0 && countdown-- == 0) { if (nt) return nullptr; throw std::bad_alloc(); }
  if (n > 0xE0000) { if (nt) return nullptr; throw std::bad_alloc(); }
  void* base; void* p; if (al) p = base = aligned_alloc(al, (n + al - 1) / al * al + (n ? 0 : al)); else if (skew) { base = aligned_alloc(4096, (n + skew + 4095) / 4096 * 4096); p = base ? (char*)base + skew : base; } else p = base = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc(); if (fill >= 0) memset(p, fill, n); size_t i = slot(p); tab[i] = {p, n, kind, base}; ++live; return p; }
static void put(void* p, int kind, size_t n) { if (!p) return; size_t i = slot(p); if (!tab[i].p || tab[i].kind < 0) { if (tab[i].p) stop(66, "VS-FAIL", "second release of a block"); free(p); return; }
  if (tab[i].kind != kind) stop(66, "VS-FAIL", "block released with the wrong form of delete"); if (n != ~(size_t)0 && n != tab[i].n) stop(66, "VS-FAIL", "sized delete matches the allocation"); tab[i].kind = -1; --live; free(tab[i].base); }
void* operator new(size_t n) { return get(n, 3, false); } void* operator new[](size_t n) { return get(n, 4, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return get(n, 3, true); } void* operator new[](size_t n, const std::nothrow_t&) noexcept { return get(n, 4, true); }
void* operator new(size_t n, std::align_val_t a) { return get(n, 5, false, (size_t)a); } void* operator new[](size_t n, std::align_val_t a) { return get(n, 6, false, (size_t)a); }
void operator delete(void* p) noexcept { put(p, 3, ~(size_t)0); } void operator delete[](void* p) noexcept { put(p, 4, ~(size_t)0); }
void operator delete(void* p, size_t n) noexcept { put(p, 3, n); } void operator delete[](void* p, size_t n) noexcept { put(p, 4, n); }
void operator delete(void* p, const std::nothrow_t&) noexcept { put(p, 3, ~(size_t)0); } void operator delete[](void* p, const std::nothrow_t&) noexcept { put(p, 4, ~(size_t)0); }
void operator delete(void* p, std::align_val_t) noexcept { put(p, 5, ~(size_t)0); } void operator delete[](void* p, std::align_val_t) noexcept { put(p, 6, ~(size_t)0); }
void operator delete(void* p, size_t n, std::align_val_t) noexcept { put(p, 5, n); } void operator delete[](void* p, size_t n, std::align_val_t) noexcept { put(p, 6, n); }
int main(int argc, char** argv) {
  const char* f = getenv("VS_FILL"); if (f) fill = atoi(f); ins = (In*)calloc(100000, sizeof(In)); FILE* fp = fopen(argv[2], "r"); if (!fp) return 99; char line[400];
  while (fgets(line, 400, fp)) if (sscanf(line, "%95s %u %lu", ins[nin].name, &ins[nin].bits, &ins[nin].v) == 3) ++nin; fclose(fp);
  void (*e)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]); if (!e) return 98; setvbuf(stdout, nullptr, _IONBF, 0);
  try { live = 0; e(); } catch (std::exception& x) { stop(65, "VS-UNCAUGHT", x.what()); } catch (...) { stop(65, "VS-UNCAUGHT", "exception"); }
  if (pos < nin) printf("VS-UNUSED %zu\n", nin - pos); printf("VS-END return\n"); fflush(nullptr); _exit(0); }
