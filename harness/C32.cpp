//@ flags -DVS_STACK_TRACE_CPP=\"@REPO@/src/stack_trace.cpp\"
//@ quick N=4
//@ thorough N=7
//@ bounds Up to N frames with every combination of outcomes of the symbol lookups for each frame: module unknown, module without a symbol name, name that can be demangled or not; names of up to 2 arbitrary characters, descriptions also empty; every number of frames from 1 to 128 (a full buffer) with one outcome for all, the last one alike or different.
//@ outside Failure to obtain the symbol list (asserted); concurrent use; what the platform's lookups really return.
//@ stubs backtrace, backtrace_symbols, dladdr and abi::__cxa_demangle are replaced by models that return every combination their documentation allows.
#include <cassert>
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <string>
#include <cxxabi.h>
#include <dlfcn.h>
#include <execinfo.h>
#include "vs.hpp"
static int frames, mode[128], freed; static char sname[128][4]; static long given; // blocks handed out, not yet given back
static void* owed[300];
static void vs_free(void* p) { if (p) { for (long i = given; i-- > 0;) if (owed[i] == p) { owed[i] = owed[--given]; break; } free(p); } }
static void* give(size_t n) { return owed[given++] = malloc(n); }
static void* vs_realloc(void* p, size_t n) { void* q = realloc(p, n); for (long i = given; i-- > 0;) if (owed[i] == p) { owed[i] = q; break; } return q; }
namespace std { using ::vs_free; using ::vs_realloc; }
static int vs_backtrace(void** b, int n) { int k = frames < n ? frames : n; for (int i = 0; i < k; ++i) b[i] = (void*)(0x1000UL + 16 * i); return k; }
static char** vs_symbols(void* const* b, int n) { char** s = (char**)give(n * sizeof(char*) + 16); CHECK(n == frames, "symbols are asked for the frames there are"); for (int i = 0; i < n; ++i) { CHECK(b[i] == (void*)(0x1000UL + 16 * i), "the frames given are the ones obtained"); s[i] = sname[i]; } return s; }
static int index(const void* a) { unsigned long x = (unsigned long)a; CHECK(x >= 0x1000 && x < 0x1000 + 16UL * frames && x % 16 == 0, "an address looked up is a frame's"); return (int)((x - 0x1000) / 16); }
static int vs_dladdr(const void* a, Dl_info* d) { int i = index(a); if (mode[i] == 0) return 0; d->dli_fname = "module"; d->dli_fbase = nullptr; d->dli_sname = mode[i] == 1 || mode[i] == 4 ? nullptr : sname[i]; d->dli_saddr = nullptr; return 1; }
static bool good(const char* m) { for (int i = 0; i < frames; ++i) if (m == sname[i] && (mode[i] == 3 || mode[i] == 4)) return true; return false; }
namespace __cxxabiv1 { static char* vs_demangle(const char* m, char* buf, size_t* n, int* st) { CHECK(m != nullptr, "the name demangled exists"); if (!good(m)) { if (st) *st = -2; return nullptr; } CHECK(buf == nullptr || n != nullptr, "a buffer comes with its size"); char* r = buf; if (buf == nullptr) { r = (char*)give(8); if (n) *n = 8; } else if (*n < 3) { r = (char*)vs_realloc(buf, 8); *n = 8; } r[0] = 'd'; r[1] = m[0]; r[2] = 0; if (st) *st = 0; return r; } }
#define backtrace vs_backtrace
#define backtrace_symbols vs_symbols
#define dladdr vs_dladdr
#define __cxa_demangle vs_demangle
#define free vs_free
#define realloc vs_realloc
#define ENABLE_STACK_TRACE
#include VS_STACK_TRACE_CPP
#undef free
#undef realloc
#undef backtrace
#undef backtrace_symbols
#undef dladdr
#undef __cxa_demangle
struct Cap { std::stringstream e; std::streambuf* b; Cap() : b(std::cerr.rdbuf(e.rdbuf())) {} ~Cap() { std::cerr.rdbuf(b); } };
static void once(int times) { Cap c; for (int t = 0; t < times; ++t) { { std::stringstream f; std::cerr.rdbuf(f.rdbuf()); Helper::stack_trace(); std::string s = f.str(); int lines = 0; size_t at = 0; bool ok = true; for (int i = 0; i < frames; ++i) { size_t e = s.find('\n', at); if (e == std::string::npos) break; std::string l = s.substr(at, e - at); at = e + 1; ++lines; if (mode[i] == 2) ok = ok & (l.find(sname[i]) != std::string::npos); else if (mode[i] >= 3) ok = ok & (l.find(sname[i][0]) != std::string::npos); else ok = ok & !l.empty(); }
    CHECK(std::cerr.good(), "the error stream stays usable"); CHECK(lines == frames && at == s.size(), "one line is written per frame"); CHECK(ok, "a frame's line shows its name where it is known"); std::cerr.rdbuf(c.e.rdbuf()); } std::cerr << "after"; } std::string all = c.e.str(); CHECK(all.size() == 5u * times, "output after the trace still arrives"); }
TEST(lookups) { frames = vs::pick(0, vs::param("N", 4), "frames"); for (int i = 0; i < frames; ++i) { mode[i] = vs::pick(0, 4, "mode"); sname[i][0] = (char)(vs::u8("c") | 0x40); sname[i][1] = mode[i] % 2 ? 0 : 'x'; if (mode[i] < 2) { if (vs::boolean("empty")) sname[i][0] = 0; } } long b = vs_heap_live(); once(1); CHECK(vs_heap_live() == b && given == 0, "nothing it was given is leaked or freed twice"); }
TEST(twice) { frames = vs::pick(1, 2, "frames"); for (int i = 0; i < frames; ++i) { mode[i] = vs::pick(0, 4, "mode"); sname[i][0] = 'f'; } once(2); }
TEST(many) { frames = vs::pick(1, 128, "frames"); int m = vs::pick(0, 4, "mode"), k = vs::pick(0, 1, "last"); for (int i = 0; i < frames; ++i) { mode[i] = m; sname[i][0] = 'f'; } if (k) mode[frames - 1] = (m + 2) % 5; once(1); CHECK(given == 0, "nothing it was given is leaked"); }
