//@ encodes macros of include/test.hpp, expanded in the harness: HELPER_TEST_ASSERT, CHECK, CHECK_WARN, SAME, SAME_AS, EQUAL, NOT_EQUAL, EQUALS, WITHIN, LESS, UNARY_PREDICATE, BINARY_PREDICATE, COMPARE, RESULT_COMPARE, THROWS, FAIL, TRY, EVALUATE, CALL, ASSIGN, STATIC_ASSERT, CONCEPT, SKIP
//@ quick
//@ thorough
//@ bounds Every pair of 32-bit operands (64-bit for the tolerance test of integers, every pair of doubles and tolerance for doubles), operands given as compound expressions as well as variables, and every outcome of a statement: returning, throwing the expected class, a class derived from it, another standard exception or something else. Every pair of doubles; subsets of eight elements ordered by inclusion; either stream bad or failed; up to 300 failing checks in a row; operands named ok, result and error.
//@ outside Operands that name the macros' own variables (helper_test_...); exceptions not derived from std::exception inside HELPER_TEST_CALL and HELPER_TEST_THROWS, which pass through; the construction macros, which construct a second time outside their handler; the text written beyond the ERROR prefix.
#include <iostream>
#include <sstream>
#include <string>
#include <type_traits>
#include "vs.hpp"
#include "test.hpp"
struct Cap { std::stringstream o, e; std::streambuf *a, *b; int f; bool quiet; explicit Cap(bool q = false) : a(std::cout.rdbuf()), b(std::cerr.rdbuf()), f(HELPER_TEST_FAILURES), quiet(q) { std::cout.rdbuf(q ? nullptr : o.rdbuf()); std::cerr.rdbuf(q ? nullptr : e.rdbuf()); } ~Cap() { std::cout.rdbuf(a); std::cerr.rdbuf(b); }
  void expect(bool bad) { int d = HELPER_TEST_FAILURES - f; CHECK(d == (bad ? 1 : 0), "the failure count grows by one exactly when the check fails"); if (!quiet) { std::string s = e.str(); CHECK((s.compare(0, 6, "ERROR:") == 0) == bad && (bad || s.empty()), "a failing check writes an ERROR line to the error stream, a passing one nothing"); CHECK(!o.str().empty(), "the check is written to the output"); } } };
struct Num { int v; friend bool operator==(Num a, Num b) { return a.v == b.v; } friend bool operator!=(Num a, Num b) { return a.v != b.v; } friend bool operator<(Num a, Num b) { return a.v < b.v; } friend bool operator<=(Num a, Num b) { return a.v <= b.v; } friend bool operator>(Num a, Num b) { return a.v > b.v; } friend bool operator>=(Num a, Num b) { return a.v >= b.v; } friend bool same(Num a, Num b) { return a.v == b.v; } Num operator+(Num b) const { return Num{(int)((unsigned)v + (unsigned)b.v)}; } friend std::ostream& operator<<(std::ostream& o, const Num& n) { return o.put((char)n.v); } explicit operator bool() const { return v != 0; } };
struct Big { int64_t v; friend Big operator-(Big a, Big b) { return Big{a.v - b.v}; } friend Big operator+(Big a, Big b) { return Big{a.v + b.v}; } friend Big abs(Big a) { return Big{a.v < 0 ? -a.v : a.v}; } friend bool operator<=(Big a, Big b) { return a.v <= b.v; } friend bool operator<(Big a, Big b) { return a.v < b.v; } friend bool operator>(Big a, Big b) { return a.v > b.v; } friend bool operator>=(Big a, Big b) { return a.v >= b.v; } friend bool operator==(Big a, Big b) { return a.v == b.v; } friend bool operator!=(Big a, Big b) { return a.v != b.v; } Big operator-() const { return Big{-v}; } friend std::ostream& operator<<(std::ostream& o, const Big& n) { return o.put((char)n.v); } };
static Num num(const char* n) { return Num{vs::i32(n)}; }
static bool pos(Num a) { return a.v > 0; } static bool div2(Num a, Num b) { return a.v / 2 == b.v; }
#define T2(name, MACRO, bad) TEST(name) { Num a = num("a"), b = num("b"); { Cap c; MACRO; c.expect(bad); } }
TEST(assert_) { Num a = num("a"); { Cap c; HELPER_TEST_ASSERT(a); c.expect(a.v == 0); } Num b = num("b"); { Cap c; HELPER_TEST_ASSERT(a < b); c.expect(a.v >= b.v); } }
T2(check, HELPER_TEST_CHECK(a, b), a.v != b.v)
T2(check_expr, HELPER_TEST_CHECK(a + b, b + Num{1}), a.v != 1)
T2(same_, HELPER_TEST_SAME(a, b), a.v != b.v)
T2(same_as, HELPER_TEST_SAME_AS(a, b), a.v != b.v)
T2(equal, HELPER_TEST_EQUAL(a, b), a.v != b.v)
T2(equal_expr, HELPER_TEST_EQUAL(a.v & 1, b.v & 2), (a.v & 1) != (b.v & 2))
T2(not_equal, HELPER_TEST_NOT_EQUAL(a, b), a.v == b.v)
T2(not_equal_expr, HELPER_TEST_NOT_EQUAL(a.v & 1, b.v & 1), (a.v & 1) == (b.v & 1))
T2(equals, HELPER_TEST_EQUALS(a, b), a.v != b.v)
T2(equals_expr, HELPER_TEST_EQUALS(a.v & 1, b.v & 1), (a.v & 1) != (b.v & 1))
T2(less, HELPER_TEST_LESS(a, b), a.v >= b.v)
T2(less_expr, HELPER_TEST_LESS(a.v & 3, b.v & 3), (a.v & 3) >= (b.v & 3))
T2(unary, HELPER_TEST_UNARY_PREDICATE(pos, a), a.v <= 0)
T2(binary, HELPER_TEST_BINARY_PREDICATE(div2, a, b), a.v / 2 != b.v)
T2(compare_lt, HELPER_TEST_COMPARE(a, <, b), a.v >= b.v)
T2(compare_ge, HELPER_TEST_COMPARE(a, >, b), a.v <= b.v)
T2(compare_eq, HELPER_TEST_COMPARE(a, ==, b), a.v != b.v)
T2(compare_expr, HELPER_TEST_COMPARE(a.v & 1, !=, b.v & 1), (a.v & 1) == (b.v & 1))
T2(result_compare, HELPER_TEST_RESULT_COMPARE(Num, a + b, <=, b), !(a + b <= b))
T2(check_warn, HELPER_TEST_CHECK_WARN(a, a), false)
TEST(warn_only) { Num a = num("a"), b = num("b"); Cap c; HELPER_TEST_CHECK_WARN(a, b); CHECK(HELPER_TEST_FAILURES == c.f, "a warning check is not counted as a failure"); CHECK(c.e.str().empty() == (a.v == b.v), "a warning check warns when it fails"); }
static int64_t small(const char* n) { int64_t x = vs::i64(n); ASSUME(x > -(1L << 60) && x < (1L << 60)); return x; }
TEST(within) { Big a{small("a")}, b{small("b")}, t{small("t")}; { Cap c; HELPER_TEST_WITHIN(a, b, t); int64_t d = a.v - b.v; c.expect((d < 0 ? -d : d) > t.v); } }
TEST(within_expr) { Big a{small("a")}, b{small("b")}, k{small("k")}, t{small("t")}; { Cap c; HELPER_TEST_WITHIN(a, b + k, t + Big{1}); int64_t d = a.v - (b.v + k.v); c.expect((d < 0 ? -d : d) > t.v + 1); } }
TEST(within_int) { int a = vs::i32("a"), b = vs::i32("b"), t = vs::i32("t"); ASSUME(a > -1000000000 && a < 1000000000 && b > -1000000000 && b < 1000000000); { Cap c(true); HELPER_TEST_WITHIN(a, b, t); c.expect((a > b ? a - b : b - a) > t); } }
TEST(within_double) { double a = vs::f64("a"), b = vs::f64("b"), t = vs::f64("t"); double d = a - b; bool ok = (d <= t) & (-d <= t); { Cap c(true); HELPER_TEST_WITHIN(a, b, t); c.expect(!ok); } }
TEST(within_chosen) { static const double v[] = {0, 0.25, -0.25, 0.5, 1.5, -1.75, 3, 1e10}; double a = v[vs::pick(0, 7, "a")], b = v[vs::pick(0, 7, "b")], t = v[vs::pick(0, 4, "t")]; double d = a - b; { Cap c; HELPER_TEST_WITHIN(a, b, t); c.expect(!(d <= t && -d <= t)); } d = a - (b + 0.125); { Cap c; HELPER_TEST_WITHIN(a, b + 0.125, t); c.expect(!(d <= t && -d <= t)); } float f = (float)a, g = (float)b; d = f - g; { Cap c; HELPER_TEST_WITHIN(f, g, (float)t); c.expect(!(d <= t && -d <= t)); } }
struct Derived : std::runtime_error { using std::runtime_error::runtime_error; };
static Num act(int k, Num v) { switch (k) { case 0: return v; case 1: throw std::runtime_error("r"); case 2: throw Derived("d"); case 3: throw std::logic_error("l"); case 4: throw std::bad_alloc(); default: throw 7; } }
TEST(throws) { int k = vs::pick(0, 4, "k"); Num v = num("v"); { Cap c; HELPER_TEST_THROWS(act(k, v), std::runtime_error); c.expect(!(k == 1 || k == 2)); } { Cap c; HELPER_TEST_THROWS(act(k, v), Derived); c.expect(k != 2); } { Cap c; HELPER_TEST_THROWS(act(k, v), std::exception); c.expect(k == 0); } }
TEST(fail) { int k = vs::pick(0, 5, "k"); Num v = num("v"); { Cap c; HELPER_TEST_FAIL(act(k, v)); c.expect(k == 0); } }
TEST(try_) { int k = vs::pick(0, 5, "k"); Num v = num("v"); { Cap c; HELPER_TEST_TRY(act(k, v)); c.expect(k != 0); } }
TEST(evaluate) { int k = vs::pick(0, 5, "k"); Num v = num("v"); { Cap c; HELPER_TEST_EVALUATE(act(k, v)); c.expect(k != 0); } }
TEST(call) { int k = vs::pick(0, 4, "k"); Num v = num("v"); { Cap c; HELPER_TEST_CALL(act(k, v)); c.expect(k != 0); } }
TEST(assign) { int k = vs::pick(0, 5, "k"); Num v = num("v"), w{0}; { Cap c; HELPER_TEST_ASSIGN(w, act(k, v)); c.expect(k != 0); CHECK(w.v == (k == 0 ? v.v : 0), "the assignment is performed"); } }
TEST(static_) { { Cap c; HELPER_TEST_STATIC_ASSERT(std::is_same<int, long>); c.expect(true); } { Cap c; HELPER_TEST_STATIC_ASSERT(std::is_same<int, int>); c.expect(false); } { Cap c; HELPER_TEST_CONCEPT(std::is_integral_v<int>); c.expect(false); } { Cap c; HELPER_TEST_CONCEPT(std::is_same_v<int, long>); c.expect(true); } }
TEST(skip) { int s = HELPER_TEST_SKIPPED; int k = vs::pick(0, 5, "k"); { Cap c; HELPER_TEST_SKIP(act(k, Num{1})); CHECK(HELPER_TEST_FAILURES == c.f && HELPER_TEST_SKIPPED == s + 1, "a skipped test is counted as skipped and is not run"); } }
// failures add up over several checks
TEST(sum) { int n = 0, f = HELPER_TEST_FAILURES; { Cap c; for (int i = 0; i < 4; ++i) { Num a = num("a"), b = num("b"); int w = vs::pick(0, 3, "w"); if (w == 0) { HELPER_TEST_EQUAL(a, b); n += a.v != b.v; } else if (w == 1) { HELPER_TEST_LESS(a, b); n += a.v >= b.v; } else if (w == 2) { HELPER_TEST_THROWS(if (a < b) throw std::runtime_error("x"), std::runtime_error); n += a.v >= b.v; } else { HELPER_TEST_ASSERT(a); n += a.v == 0; } } } CHECK(HELPER_TEST_FAILURES == f + n, "the failure count is the number of failed checks"); }
// doubles, among them infinities and not-a-numbers: a check fails exactly when its comparison is false
#define D2(name, MACRO, good) TEST(name) { double a = vs::f64("a"), b = vs::f64("b"); bool g = good; { Cap c(true); MACRO; c.expect(!g); } }
D2(double_less, HELPER_TEST_LESS(a, b), a < b)
D2(double_check, HELPER_TEST_CHECK(a, b), a == b)
D2(double_equal, HELPER_TEST_EQUAL(a, b), a == b)
D2(double_equals, HELPER_TEST_EQUALS(a, b), a == b)
D2(double_not_equal, HELPER_TEST_NOT_EQUAL(a, b), a != b)
D2(double_compare_lt, HELPER_TEST_COMPARE(a, <, b), a < b)
D2(double_compare_le, HELPER_TEST_COMPARE(a, <=, b), a <= b)
D2(double_compare_ge, HELPER_TEST_COMPARE(a, >=, b), a >= b)
D2(double_compare_gt, HELPER_TEST_COMPARE(a, >, b), a > b)
D2(double_result_compare, HELPER_TEST_RESULT_COMPARE(double, a, <=, b), a <= b)
// an order in which elements may be incomparable: subsets of a set of eight
struct Sub { unsigned char m; friend bool operator==(Sub a, Sub b) { return a.m == b.m; } friend bool operator!=(Sub a, Sub b) { return a.m != b.m; } friend bool operator<=(Sub a, Sub b) { return (a.m & ~b.m & 255) == 0; } friend bool operator<(Sub a, Sub b) { return a <= b && a != b; } friend bool operator>(Sub a, Sub b) { return b < a; } friend bool operator>=(Sub a, Sub b) { return b <= a; } friend std::ostream& operator<<(std::ostream& o, const Sub& s) { return o.put((char)s.m); } };
#define P2(name, MACRO, good) TEST(name) { Sub a{vs::u8("a")}, b{vs::u8("b")}; bool g = good; { Cap c; MACRO; c.expect(!g); } }
P2(partial_less, HELPER_TEST_LESS(a, b), a < b)
P2(partial_compare_lt, HELPER_TEST_COMPARE(a, <, b), a < b)
P2(partial_compare_le, HELPER_TEST_COMPARE(a, <=, b), a <= b)
P2(partial_compare_gt, HELPER_TEST_COMPARE(a, >, b), a > b)
P2(partial_compare_ge, HELPER_TEST_COMPARE(a, >=, b), a >= b)
// streams that are in a bad state count and check all the same
struct Bad { int f, k; Bad() : f(HELPER_TEST_FAILURES), k((int)vs::pick(0, 3, "bad")) { std::ios::iostate s = k & 1 ? std::ios::badbit : std::ios::failbit; if (k < 2) std::cout.setstate(s); else std::cerr.setstate(s); } ~Bad() { std::cout.clear(); std::cerr.clear(); } void expect(bool bad) { CHECK(HELPER_TEST_FAILURES - f == (bad ? 1 : 0), "the failure count grows by one exactly when the check fails, whatever the state of the streams"); } };
struct Quiet { std::stringstream o, e; std::streambuf *a, *b; Quiet() : a(std::cout.rdbuf(o.rdbuf())), b(std::cerr.rdbuf(e.rdbuf())) {} ~Quiet() { std::cout.rdbuf(a); std::cerr.rdbuf(b); std::cout.clear(); std::cerr.clear(); } };
#define B1(MACRO, bad) { Bad bad_w; MACRO; bad_w.expect(bad); }
TEST(bad_streams) { Quiet q; Num a = num("a"), b = num("b"); B1(HELPER_TEST_ASSERT(a), a.v == 0) B1(HELPER_TEST_CHECK(a, b), a.v != b.v) B1(HELPER_TEST_SAME(a, b), a.v != b.v) B1(HELPER_TEST_EQUAL(a, b), a.v != b.v) B1(HELPER_TEST_NOT_EQUAL(a, b), a.v == b.v) }
TEST(bad_streams2) { Quiet q; Num a = num("a"), b = num("b"); B1(HELPER_TEST_EQUALS(a, b), a.v != b.v) B1(HELPER_TEST_LESS(a, b), a.v >= b.v) B1(HELPER_TEST_UNARY_PREDICATE(pos, a), a.v <= 0) B1(HELPER_TEST_BINARY_PREDICATE(div2, a, b), a.v / 2 != b.v) B1(HELPER_TEST_COMPARE(a, <, b), a.v >= b.v) }
TEST(bad_streams3) { Quiet q; int k = vs::pick(0, 5, "k"), j = k > 4 ? 4 : k; Num v{5}, w{0}; B1(HELPER_TEST_FAIL(act(k, v)), k == 0) B1(HELPER_TEST_TRY(act(k, v)), k != 0) B1(HELPER_TEST_EVALUATE(act(k, v)), k != 0) B1(HELPER_TEST_CALL(act(j, v)), j != 0) }
TEST(bad_streams4) { Quiet q; int k = vs::pick(0, 5, "k"), j = k > 4 ? 4 : k; Num v{5}, w{0}; B1(HELPER_TEST_ASSIGN(w, act(k, v)), k != 0) B1(HELPER_TEST_THROWS(act(j, v), std::runtime_error), !(j == 1 || j == 2)) B1(HELPER_TEST_THROWS(act(j, v), std::logic_error), j != 3) B1(HELPER_TEST_RESULT_COMPARE(Num, v, <=, v), false) B1(HELPER_TEST_CHECK_WARN(v, w), false) }
// many failing and passing checks in a row, in any pattern
TEST(counting) { Quiet q; int f = HELPER_TEST_FAILURES, want = 0; int n = vs::pick(1, 5, "n"); for (int i = 0; i < n; ++i) { int how = vs::pick(0, 3, "how"); bool bad = vs::flag("bad"); int x = bad ? 1 : 0; if (how == 0) { HELPER_TEST_ASSERT(x == 0); } else if (how == 1) { HELPER_TEST_EQUAL(x, 0); } else if (how == 2) { HELPER_TEST_FAIL(act(1 - x, Num{0})); } else { HELPER_TEST_CALL(act(x, Num{0})); } want += x; CHECK(HELPER_TEST_FAILURES - f == want, "the failure count is the number of failed checks"); } }
TEST(many) { Quiet q; int f = HELPER_TEST_FAILURES; int n = vs::pick(0, 3, "n"); n = n == 0 ? 127 : n == 1 ? 128 : n == 2 ? 256 : 300; for (int i = 0; i < n; ++i) HELPER_TEST_EQUAL(i, -1); CHECK(HELPER_TEST_FAILURES - f == n, "the failure count is the number of failed checks, however many"); }
// operands whose names are words a macro could use for its own variables
#define NAMED(MACRO, bad) { Cap c(true); MACRO; c.expect(bad); }
TEST(named) { int ok = vs::pick(0, 1, "ok"), result = vs::i32("result"), error = vs::i32("error"); ASSUME(error > -1000000000 && error < 1000000000 && result > -1000000000 && result < 1000000000); std::string err = "e", message = "m"; bool expected = ok; (void)expected;
  NAMED(HELPER_TEST_ASSERT(ok), !ok) NAMED(HELPER_TEST_ASSERT(error > 0), error <= 0) NAMED(HELPER_TEST_EQUAL(ok, 1), ok != 1) NAMED(HELPER_TEST_EQUAL(1, ok), ok != 1) NAMED(HELPER_TEST_EQUALS(ok, 1), ok != 1) NAMED(HELPER_TEST_EQUALS(result, error), result != error) NAMED(HELPER_TEST_NOT_EQUAL(ok, 1), ok == 1) NAMED(HELPER_TEST_CHECK(ok, 1), ok != 1) NAMED(HELPER_TEST_CHECK(result, error), result != error) NAMED(HELPER_TEST_LESS(ok, 1), ok >= 1) NAMED(HELPER_TEST_LESS(result, error), result >= error)
  NAMED(HELPER_TEST_WITHIN(result, 7, error), (result > 7 ? result - 7 : 7 - result) > error) NAMED(HELPER_TEST_WITHIN(ok, 1, 0), ok != 1) NAMED(HELPER_TEST_COMPARE(ok, ==, 1), ok != 1) NAMED(HELPER_TEST_COMPARE(result, <, error), result >= error) NAMED(HELPER_TEST_RESULT_COMPARE(int, result, ==, error), result != error) NAMED(HELPER_TEST_RESULT_COMPARE(int, error, <=, result), error > result) NAMED(HELPER_TEST_RESULT_COMPARE(int, ok, ==, 1), ok != 1) }
static bool is_one(int k) { return k == 1; } static bool eq(int a, int b) { return a == b; } static bool same(int a, int b) { return a == b; }
TEST(named_predicates) { int ok = vs::pick(0, 1, "ok"), result = vs::i32("result"), error = vs::i32("error"); NAMED(HELPER_TEST_UNARY_PREDICATE(is_one, ok), ok != 1) NAMED(HELPER_TEST_UNARY_PREDICATE(is_one, result), result != 1) NAMED(HELPER_TEST_BINARY_PREDICATE(eq, ok, 1), ok != 1) NAMED(HELPER_TEST_BINARY_PREDICATE(eq, result, error), result != error) NAMED(HELPER_TEST_SAME(ok, 1), ok != 1) NAMED(HELPER_TEST_SAME(result, error), result != error) NAMED(HELPER_TEST_SAME_AS(ok, 1), ok != 1) NAMED(HELPER_TEST_SAME_AS(error, result), result != error) }
