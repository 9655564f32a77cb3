//@ quick W=7 G=3 K=2 R=2
//@ thorough W=16 G=5 K=4 R=5
//@ bounds Every generator output, G values per history: integer randomisers with any 32-bit minimum and any width below 2^W, with fixed wide intervals of 16, 32 and 64-bit types; real randomisers on fixed intervals of float and double; at most K rejections by the distribution in a history. Three randomisers of each of ten types used in any order. Every value of an integer type as minimum or maximum (type ends).
//@ outside More rejections than that; long double beyond six outputs; intervals whose width is not representable; the quality of the outputs (C37).
//@ stubs std::mt19937 is replaced by a generator whose outputs are arbitrary (each handed out once, copies repeat them), std::random_device and the clock by constants; libstdc++'s distributions are the real code.
#include "rnd.hpp"
using namespace Helper;
static void start(int n) { vsr::on() = true; vsr::most() = n; }
// one value, which must lie in [lo,hi] and come from output not used before
template <class R, class T> static T one(R& r, T lo, T hi) { int u = vsr::used(); T x = r.get(); bool ok = (x >= lo) & (x <= hi); CHECK(ok, "a value lies between the bounds"); CHECK(vsr::used() > u, "each value takes fresh output of the shared generator"); CHECK(!vsr::twice(), "no output is used twice"); return x; }
TEST(narrow) { start(1 + vs::param("K", 2)); int lo = vs::i32("lo"); uint32_t w = vs::u32("w"); ASSUME(w < (1u << vs::param("W", 7)) && (int64_t)lo + w <= INT32_MAX); UniformIntRandomiser<int> r(lo, (int)(lo + w)); one(r, lo, (int)(lo + w)); }
template <class T> static void fixed(T lo, T hi, int per) { int n = vs::param("G", 3); start(n * per + vs::param("K", 2)); UniformIntRandomiser<T> r(lo, hi); RandomiserInterface<T>& i = r; for (int k = 0; k < n; ++k) { if (k % 2) one(i, lo, hi); else one(r, lo, hi); } }
TEST(wide) { switch (vs::pick(0, 11, "interval")) { case 0: fixed<int>(INT32_MIN, INT32_MAX, 1); break; case 1: fixed<int>(0, 1000000000, 1); break; case 2: fixed<int>(-7, INT32_MAX - 7, 1); break; case 3: fixed<int>(INT32_MIN, -1, 1); break; case 4: fixed<int>(5, 5, 1); break; case 5: fixed<short>(-32768, 32767, 1); break; case 6: fixed<short>(-3, 4, 1); break; case 7: fixed<unsigned short>(65530, 65535, 1); break; case 8: fixed<unsigned>(0, UINT32_MAX, 1); break; case 9: fixed<unsigned>(UINT32_MAX - 2, UINT32_MAX, 1); break; case 10: fixed<long>(-5, 5, 1); break; default: fixed<int>(-1, 0, 1); } }
TEST(wide64) { switch (vs::pick(0, 4, "interval")) { case 0: fixed<long>(INT64_MIN, INT64_MAX, 2); break; case 1: fixed<long>(-1, 1L << 32, 2); break; case 2: fixed<unsigned long>(0, UINT64_MAX, 2); break; case 3: fixed<unsigned long>(10, 10 + (1UL << 40), 2); break; default: fixed<unsigned long>(UINT64_MAX - 1, UINT64_MAX, 1); } }
// two randomisers: bounds of their own, one stream of outputs
TEST(two) { int n = vs::param("G", 3); start(2 * n + vs::param("K", 2)); UniformIntRandomiser<int> a(0, 3), b(100, 163); for (int k = 0; k < n; ++k) if (vs::flag("which")) { one(a, 0, 3); vs_reach("first"); } else { one(b, 100, 163); vs_reach("second"); } UniformIntRandomiser<int> c(a); one(c, 0, 3); c = b; one(c, 100, 163); one(a, 0, 3); }
// the value is a function of the outputs taken, and another generator position gives another value for some outputs
static uint32_t mixed(int i) { return (uint32_t)i * 2654435769u + 0x3C6EF372u; }
template <class T> static void all(T lo, T hi, const char* m) { vsr::on() = true; vsr::source() = mixed; vsr::made() = vsr::used() = 0; UniformIntRandomiser<T> r(lo, hi); bool seen[16] = {}; size_t w = (size_t)(hi - lo) + 1; for (int i = 0; i < 64; ++i) { T x = r.get(); size_t k = (size_t)(x - lo); CHECK(k < w, "a value lies between the bounds"); seen[k] = true; if (vsr::made() > 500) break; } bool ok = true; for (size_t k = 0; k < w; ++k) ok = ok & seen[k]; CHECK(ok, m); }
TEST(every_value) { int w = vs::pick(1, 8, "width"); int lo = vs::pick(-3, 3, "lo"); all<int>(lo, lo + w - 1, "every integer between the bounds, both included, occurs"); }
TEST(every_value_unsigned) { int w = vs::pick(1, 8, "width"); unsigned lo = vs::pick(0, 3, "lo"); all<unsigned>(lo, lo + w - 1, "every integer between the bounds, both included, occurs"); }
template <class T> static void real(T lo, T hi, int per, int n) { start(n * per); UniformRealRandomiser<T> r(lo, hi); RandomiserInterface<T>& i = r; for (int k = 0; k < n; ++k) { if (k % 2) one(i, lo, hi); else one(r, lo, hi); } }
TEST(real_float) { switch (vs::pick(0, vs::param("R", 2), "interval")) { case 0: real<float>(0, 1, 1, 1); break; case 1: real<float>(-1, 1, 1, 1); break; case 2: real<float>(2.5f, 2.5f, 1, 1); break; case 3: real<float>(-8, -0.5f, 1, 1); break; case 4: real<float>(0, 1024, 1, 1); break; default: real<float>(3, 4, 1, 1); } }
TEST(real_double) { switch (vs::pick(0, vs::param("R", 2) , "interval")) { case 0: real<double>(0, 1, 2, 1); break; case 1: real<double>(-1, 1, 2, 1); break; case 2: real<double>(2.5, 2.5, 2, 1); break; case 3: real<double>(-8, 0, 2, 1); break; default: real<double>(3, 4, 2, 1); } }
TEST(real_spread) { vsr::on() = true; vsr::source() = mixed; UniformRealRandomiser<double> r(-2, 6); bool lowq = false, highq = false; double last = 9; int same = 0; for (int i = 0; i < 16; ++i) { double x = r.get(); CHECK(x >= -2 && x <= 6, "a value lies between the bounds"); lowq = lowq | (x < 0); highq = highq | (x > 4); if (x == last) ++same; last = x; } CHECK(lowq && highq, "values occur in both ends of the interval"); CHECK(same == 0, "successive outputs give successive values"); }
// two, three randomisers of one type: each keeps bounds of its own
template <class U, class T> static void several(T alo, T ahi, T blo, T bhi, T clo, T chi, int per) { int n = 2; start((2 * n + 3) * per + vs::param("K", 2)); U a(alo, ahi), b(blo, bhi); one(a, alo, ahi); for (int k = 0; k < n; ++k) if (vs::flag("which")) one(a, alo, ahi); else one(b, blo, bhi); U c(clo, chi); one(c, clo, chi); RandomiserInterface<T>& i = b; one(i, blo, bhi); one(a, alo, ahi); }
TEST(several_short) { several<UniformIntRandomiser<short>, short>(0, 3, 100, 163, -8, -1, 1); }
TEST(several_ushort) { several<UniformIntRandomiser<unsigned short>, unsigned short>(0, 3, 100, 163, 65528, 65535, 1); }
TEST(several_int) { several<UniformIntRandomiser<int>, int>(0, 3, 100, 163, -8, -1, 1); }
TEST(several_unsigned) { several<UniformIntRandomiser<unsigned>, unsigned>(0, 3, 100, 163, 4294967288u, 4294967295u, 1); }
TEST(several_long) { several<UniformIntRandomiser<long>, long>(0, 3, 100, 163, -8, -1, 1); }
TEST(several_longlong) { several<UniformIntRandomiser<long long>, long long>(0, 3, 100, 163, -8, -1, 1); }
TEST(several_ulong) { several<UniformIntRandomiser<unsigned long>, unsigned long>(0, 3, 100, 163, UINT64_MAX - 7, UINT64_MAX, 1); }
// real randomisers of one type: constant outputs at the ends and in between
static int shift; static uint32_t pattern(int i) { i += shift; static const uint32_t p[] = {0, 0xffffffffu, 0x80000000u, 1, 0x7fffffffu, 0x12345678u}; return p[i % 6]; }
template <class T> static void reals() { vsr::on() = true; vsr::source() = pattern; UniformRealRandomiser<T> a(0, 1), b(10, 20), c(-5, -4); shift = (int)vs::pick(0, 5, "shift"); for (int k = 0; k < 4; ++k) { int w = vs::pick(0, 2, "which"); if (w == 0) one(a, T(0), T(1)); else if (w == 1) one(b, T(10), T(20)); else one(c, T(-5), T(-4)); } }
TEST(several_float) { reals<float>(); }
TEST(several_double) { reals<double>(); }
TEST(several_long_double) { reals<long double>(); }
template <class T> static void top() { int w = vs::pick(1, 8, "width"); T hi = std::numeric_limits<T>::max(), lo = std::numeric_limits<T>::min(); static const char m[] = "every integer between the bounds, both included, occurs"; if (vs::flag("low")) all<T>(lo, (T)(lo + (w - 1)), m); else all<T>((T)(hi - (w - 1)), hi, m); }
TEST(every_value_ends) { switch (vs::pick(0, 6, "type")) { case 0: top<short>(); break; case 1: top<unsigned short>(); break; case 2: top<int>(); break; case 3: top<unsigned>(); break; case 4: top<long>(); break; case 5: top<unsigned long>(); break; default: top<long long>(); } }
