//@ quick H=4 B=0
//@ thorough H=7 B=24
//@ bounds Every history of H operations (restart, click, query, copy) on a stopwatch in seconds, milliseconds, microseconds, nanoseconds, minutes or fractions of a second, for every non-decreasing sequence of 64-bit clock readings (nanoseconds, from 0 on).
//@ outside A clock that runs backwards; differences beyond 292 years.
//@ stubs std::chrono::high_resolution_clock::now() returns arbitrary non-decreasing readings; its other members are the real code.
#include <chrono>
#include <ratio>
#include "vs.hpp"
namespace vst { inline long now = 0; inline long last = 0; inline int reads = 0; inline bool frozen = false; }
namespace std { namespace chrono { inline namespace _V2 { system_clock::time_point system_clock::now() noexcept { ++vst::reads; if (!vst::frozen) { long t = vs::i64("t"); ASSUME(t >= vst::last); vst::last = t; } return time_point(duration(vst::last)); } } } }
#include "stopwatch.hpp"
using namespace Helper;
// the unit in nanoseconds
template <class D> static void history(long unit) {
  Stopwatch<D> w; long start = vst::last, click = start; CHECK(vst::reads >= 1, "the stopwatch starts at construction"); int H = vs::param("H", 4);
  for (int h = 0; h < H; ++h) { int op = vs::pick(0, 3, "op"); int n = vst::reads;
    if (op == 0) { Stopwatch<D>& r = w.restart(); CHECK(&r == &w, "restart returns the stopwatch"); start = click = vst::last; vs_reach("restart"); }
    else if (op == 1) { Stopwatch<D>& r = w.click(); CHECK(&r == &w && vst::reads > n, "click reads the clock and returns the stopwatch"); click = vst::last; vs_reach("click"); }
    else if (op == 2) { Stopwatch<D> c(w); w.restart(); CHECK((long)c.duration().count() == (click - start) / unit, "a copy keeps its own times"); w = c; }
    else { D d = w.duration(), e = w.duration(); CHECK(d == e, "a query does not change the duration"); CHECK(vst::reads == n, "a query does not read the clock"); }
    long want = (click - start) / unit; D d = w.duration(); CHECK((long)d.count() == want, "duration() is the time from the last restart to the last click, truncated to the unit"); CHECK(d.count() >= 0, "a duration is never negative"); } }
static void begin() { long t = vs::i64("t0"); ASSUME(t >= 0); vst::last = t; }
TEST(seconds) { begin(); history<Seconds>(1000000000L); }
TEST(milliseconds) { begin(); history<Milliseconds>(1000000L); }
TEST(microseconds) { begin(); history<Microseconds>(1000L); }
TEST(nanoseconds) { begin(); history<std::chrono::nanoseconds>(1L); }
TEST(minutes) { begin(); history<std::chrono::minutes>(60000000000L); }
TEST(tenths) { begin(); history<std::chrono::duration<long, std::ratio<1, 10>>>(100000000L); }
// a few chosen differences, for which the floating-point result is computed exactly
template <class D> static void chosen(long unit, double num, double den) { vst::frozen = true; static const long diffs[] = {0, 1, 999, 1000, 999999, 1000001, 999999999, 1000000000, 1999999999, 59999999999L, 61000000001L, 123456789012345L}; vst::last = 0; Stopwatch<D> w; long a = diffs[vs::pick(0, 11, "a")], b = diffs[vs::pick(0, 11, "b")]; vst::last = a; if (vs::flag("restart")) { w.restart(); vst::last += b; w.click(); CHECK((long)w.duration().count() == b / unit, "duration() is truncated to the unit"); } else { w.click(); vst::last += b; b = a; } double e = w.elapsed_seconds(), x = (double)(b / unit) * num / den; CHECK(e - x <= 1e-12 * x && x - e <= 1e-12 * x, "elapsed_seconds() is the duration in seconds"); CHECK((long)w.duration().count() == b / unit, "duration() is truncated to the unit"); }
TEST(elapsed) { switch (vs::pick(0, 5, "unit")) { case 0: chosen<Seconds>(1000000000L, 1, 1); break; case 1: chosen<Milliseconds>(1000000L, 1, 1000); break; case 2: chosen<Microseconds>(1000L, 1, 1000000); break; case 3: chosen<std::chrono::nanoseconds>(1, 1, 1000000000); break; case 4: chosen<std::chrono::minutes>(60000000000L, 60, 1); break; default: chosen<std::chrono::duration<long, std::ratio<1, 10>>>(100000000L, 1, 10); } }
// any difference: the result is the exact quotient or within a relative error of 1e-12 of it
template <class D> static void any(long unit, double num, double den, long bits) { vst::frozen = true; vst::last = 0; Stopwatch<D> w; long d = vs::i64("d"); ASSUME(d >= 0 && d < (unit << bits)); vst::last = d; w.click(); double e = w.elapsed_seconds(), x = den == 1 ? (double)(d / unit) * num : (double)(d / unit) / den; CHECK((e == x) | ((e - x <= 1e-12 * x) & (x - e <= 1e-12 * x)), "elapsed_seconds() is the duration in seconds"); }
TEST(elapsed_any) { long b = vs::param("B", 0); if (b == 0) return; switch (vs::pick(0, 5, "unit")) { case 0: any<Seconds>(1000000000L, 1, 1, b); break; case 1: any<Milliseconds>(1000000L, 1, 1000, b); break; case 2: any<Microseconds>(1000L, 1, 1000000, b); break; case 3: any<std::chrono::nanoseconds>(1, 1, 1000000000, b); break; case 4: any<std::chrono::minutes>(60000000000L, 60, 1, b); break; default: any<std::chrono::duration<long, std::ratio<1, 10>>>(100000000L, 1, 10, b); } }
