//@ quick N=300
//@ thorough N=1000
//@ bounds Any 64-bit start and stop for size, values and properties; ranges of up to N values from any 64-bit start for the iteration, and of 70001 and 100000 values from some. Begin and end of any 64-bit range, including the last values.
//@ outside start greater than stop; indices not less than the size.
#include "vs.hpp"
#include "range.hpp"
using namespace Helper;
TEST(properties) { uint64_t a = vs::u64("start"), b = vs::u64("stop"), i = vs::u64("i"); ASSUME(a <= b); const Range r = range(a, b), q(a, b); CHECK(r.size() == b - a && q.size() == b - a, "size is stop minus start"); CHECK(r.start() == a && r.stop() == b && q.start() == a && q.stop() == b, "start and stop are those given"); CHECK(r.stride() == 1, "the stride is 1"); ASSUME(i < b - a); CHECK(r[i] == a + i && q[i] == a + i, "the i-th value is start plus i"); CHECK(r[i] >= a && r[i] < b, "values lie between start and stop"); }
TEST(from_zero) { uint64_t b = vs::u64("stop"), i = vs::u64("i"); const Range r = range(b); CHECK(r.start() == 0 && r.stop() == b && r.size() == b && r.stride() == 1, "range(stop) is range(0,stop)"); ASSUME(i < b); CHECK(r[i] == i, "the i-th value of range(stop) is i"); }
TEST(iteration) { uint64_t a = vs::u64("start"); size_t n = vs::pick(0, vs::param("N", 40), "n"); ASSUME(a <= a + n); Range r = range(a, a + n); size_t k = 0; bool ok = true; for (size_t x : r) { ok = ok & (x == a + k) & (x == r[k]); if (++k > n) break; } CHECK(ok && k == n, "iterating yields start to stop-1, each once, in order, and ends"); }
TEST(explicit_iterators) { uint64_t a = vs::u64("start"); size_t n = vs::pick(0, 5, "n"); ASSUME(a <= a + n); auto it = begin(range(a, a + n)), e = end(range(a, a + n)); for (size_t k = 0; k < n; ++k) { CHECK(it != e, "the end is not reached early"); CHECK(*it == a + k, "values in order"); auto& s = ++it; CHECK(&s == &it, "increment returns the iterator"); } CHECK(!(it != e), "the end is reached after size steps"); CHECK(*begin(range(n)) == 0, "range(stop) starts at 0"); }
TEST(empty) { uint64_t a = vs::u64("start"); Range r = range(a, a); CHECK(r.size() == 0, "an empty range has size 0"); int k = 0; for (size_t x : r) { (void)x; ++k; break; } CHECK(k == 0, "an empty range yields nothing"); }
TEST(long_iteration) { static const size_t s[] = {0, 1, 65000, 0xfffffff0u, (size_t)1 << 40}; size_t a = s[vs::pick(0, 4, "start")], n = vs::flag("more") ? 100000 : 70001; Range r = range(a, a + n); size_t k = 0; bool ok = true; for (size_t x : r) { ok = ok & (x == a + k) & (x == r[k]); if (++k > n) break; } CHECK(ok && k == n, "iterating yields start to stop-1, each once, in order, and ends"); }
TEST(ends) { uint64_t a = vs::u64("start"), b = vs::u64("stop"); ASSUME(a <= b); auto it = begin(range(a, b)), e = end(range(a, b)); CHECK((it != e) == (a != b), "the end is reached at once exactly for an empty range"); CHECK(*it == a, "iteration starts at start"); if (a != b) { ++it; CHECK(*it == a + 1 && (it != e) == (a + 1 != b), "the end is reached exactly after the last value"); } auto z = begin(range(b)); CHECK(*z == 0 && (z != end(range(b))) == (b != 0), "range(stop) is range(0,stop)"); }
