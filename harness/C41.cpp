//@ encodes macros of include/test.hpp, expanded in the harness: HELPER_TEST_DECLARE, CONSTRUCT, DEFAULT_CONSTRUCT, NAMED_CONSTRUCT, ASSIGN_CONSTRUCT, ASSIGN, EXECUTE, PRINT, CLASS, WARN, NOTIFY, GRID_TREE_SUBPAVING_ITERATOR, HELPER_PRINT_TEST_CASE_TITLE, HELPER_PRINT_TEST_COMMENT, HELPER_CLEAN_TEST_VECTOR
//@ quick N=5
//@ thorough N=12
//@ bounds Every 32-bit value; a statement that returns, or throws (a runtime error, failed allocation, out-of-range error, or an exception that is a class of its own or an int) at any of its first three evaluations; vectors and sequences of 0..N pointers, each null or not; standard output and error in a good or bad state.
//@ outside The exact text beyond the ERROR, WARNING and NOTIFICATION prefixes and the values; HELPER_TEST_EQUIVALENT_TYPE and HELPER_TEST_SAME_TYPE, which name things the library does not define.
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include "vs.hpp"
#include "test.hpp"
struct Cap { std::stringstream o, e; std::streambuf *a, *b; int f, s; bool quiet; explicit Cap(bool q = false) : a(std::cout.rdbuf()), b(std::cerr.rdbuf()), f(HELPER_TEST_FAILURES), s(HELPER_TEST_SKIPPED), quiet(q) { std::cout.rdbuf(q ? nullptr : o.rdbuf()); std::cerr.rdbuf(q ? nullptr : e.rdbuf()); } ~Cap() { std::cout.rdbuf(a); std::cerr.rdbuf(b); }
  void expect(int bad) { CHECK(HELPER_TEST_FAILURES - f == bad && HELPER_TEST_SKIPPED == s, "the failure count grows exactly by the failures"); if (!quiet) { std::string t = e.str(); CHECK((t.compare(0, 6, "ERROR:") == 0) == (bad > 0) && (bad > 0 || t.empty()), "a failure writes an ERROR line to the error stream, and nothing else does"); CHECK(!o.str().empty(), "what is done is written to the output"); } } };
static int evals; static int bomb = -1; static int kind;
struct Odd { };
// throws at one of its evaluations
static int val(int x) { int k = evals++; if (k == bomb) { switch (kind) { case 0: throw std::runtime_error("boom"); case 1: throw std::bad_alloc(); case 2: throw std::out_of_range("boom"); case 3: throw Odd(); default: throw 5; } } return x; }
struct Num { int v; Num() : v(val(11)) {} Num(int x) : v(val(x)) {} Num(int x, int y) : v(val(x ^ y)) {} static Num from(int x) { return Num(x, 1); } friend bool operator==(const Num& a, const Num& b) { return a.v == b.v; } friend std::ostream& operator<<(std::ostream& o, const Num& n) { return o.put((char)('a' + (n.v & 15))); } };
// what happened: 0 finished, 1 a standard exception came out, 2 another
template <class F> static int outcome(F f) { try { f(); } catch (const std::exception&) { return 1; } catch (...) { return 2; } return 0; }
static void arm() { evals = 0; bomb = (int)vs::pick(-1, 2, "bomb"); kind = (int)vs::pick(0, 4, "kind"); }
static int thrown() { return kind > 2 ? 2 : 1; }
// a macro which tries in one block what it then does: a failure of the trial is counted, one of the deed comes out
#define TRIED(name, MACRO, want) TEST(name) { int x = vs::i32("x"); bool q = vs::flag("quiet"); arm(); int got = 0; bool done = false; Cap c(q); int r = outcome([&] { MACRO; got = v.v; done = true; }); c.expect(bomb == 0 ? 1 : 0); CHECK(r == (bomb == 1 ? thrown() : 0), "a failure of the construction itself comes out"); CHECK(done == (r == 0) && (!done || got == (want)), "the variable has the value asked for"); }
TRIED(declare, HELPER_TEST_DECLARE(Num, v), 11 + 0 * x)
TRIED(named, HELPER_TEST_NAMED_CONSTRUCT(Num, v, from(x)), x ^ 1)
TRIED(assign_construct, HELPER_TEST_ASSIGN_CONSTRUCT(Num, v, x), x)
#define ONCE(name, MACRO, want) TEST(name) { int x = vs::i32("x"); bool q = vs::flag("quiet"); arm(); int got = 0; bool done = false; Cap c(q); int r = outcome([&] { MACRO; got = v.v; done = true; }); c.expect(0); CHECK(r == (bomb == 0 ? thrown() : 0), "a failure comes out"); CHECK(evals == 1, "the object is constructed once"); CHECK(done == (r == 0) && (!done || got == (want)), "the variable has the value asked for"); }
ONCE(construct, HELPER_TEST_CONSTRUCT(Num, v, (x, 3)), x ^ 3)
ONCE(default_construct, HELPER_TEST_DEFAULT_CONSTRUCT(Num, v), 11 + 0 * x)
TEST(assign) { int x = vs::i32("x"), y = vs::i32("y"); bool q = vs::flag("quiet"); bomb = -1; Num v(y); arm(); Cap c(q); int r = outcome([&] { HELPER_TEST_ASSIGN(v, Num(x)); }); CHECK(r == 0, "a failing assignment is reported and does not come out"); CHECK(evals == 1, "the expression is evaluated once"); CHECK(v.v == (bomb == 0 ? y : x), "the variable has the value of the expression, or its old one"); c.expect(bomb == 0 ? 1 : 0); if (bomb == 0) vs_reach("failed assignment"); }
TEST(execute_print) { int x = vs::i32("x"); bool q = vs::flag("quiet"); arm(); int got = 0; { Cap c(q); int r = outcome([&] { HELPER_TEST_EXECUTE(got = val(x)); }); c.expect(0); CHECK(r == (bomb == 0 ? thrown() : 0) && evals == 1 && got == (bomb == 0 ? 0 : x), "the statement is executed once, and its exceptions come out"); } bomb = -1; evals = 0; Num n(x); { Cap c(q); HELPER_TEST_PRINT(n); c.expect(0); char ch = (char)('a' + (x & 15)); if (!q) { std::string t = c.o.str(); CHECK(t.size() > 2 && t[t.size() - 3] == ch, "the value is printed"); } } }
struct Tested { int* n; void test() { ++*n; CHECK(HELPER_CURRENT_TESTING_CLASS == "Tested", "the class under test is known while it is tested"); val(0); } };
TEST(classes) { bool q = vs::flag("quiet"); arm(); int n = 0; std::string old = HELPER_CURRENT_TESTING_CLASS; Cap c(q); int r = outcome([&] { HELPER_TEST_CLASS(Tested, Tested{&n}); }); c.expect(0); CHECK(n == 1 && r == (bomb == 0 ? thrown() : 0), "the tests of the class are run once"); HELPER_CURRENT_TESTING_CLASS = old; }
static bool starts(const std::string& s, const char* p) { size_t n = 0; while (p[n]) ++n; return s.compare(0, n, p) == 0; }
TEST(messages) { bool q = vs::flag("quiet"); char m[3] = {(char)('a' + vs::pick(0, 25, "m")), 'z', 0}; int f = HELPER_TEST_FAILURES, s = HELPER_TEST_SKIPPED, t = test_case_counter;
  { Cap c(q); HELPER_TEST_WARN(m << 7); std::string e = c.e.str(), o = c.o.str(); if (!q) CHECK(starts(e, "WARNING:") && starts(o, "WARNING:") && e.find(m) != e.npos && o.find(m) != o.npos, "a warning goes to both streams"); } { Cap c(q); HELPER_TEST_NOTIFY(m << 7); std::string e = c.e.str(), o = c.o.str(); if (!q) CHECK(starts(e, "NOTIFICATION:") && starts(o, "NOTIFICATION:") && e.find(m) != e.npos && o.find(m) != o.npos, "a notification goes to both streams"); }
  { Cap c(q); HELPER_PRINT_TEST_COMMENT(m); c.expect(0); if (!q) CHECK(c.o.str().find(m) != std::string::npos, "the comment is printed"); } CHECK(test_case_counter == t, "only titles number the test cases"); for (int i = 1; i <= 3; ++i) { Cap c(q); HELPER_PRINT_TEST_CASE_TITLE(m); c.expect(0); CHECK(test_case_counter == t + i, "every title takes the next number, once"); if (!q) { std::string o = c.o.str(), n = std::to_string(t + i); CHECK(o.find(m) != o.npos && o.find(n) != o.npos, "title and number are printed"); } } CHECK(HELPER_TEST_FAILURES == f && HELPER_TEST_SKIPPED == s, "messages are not failures"); }
struct Counted { static inline int live = 0; int v; explicit Counted(int x) : v(x) { ++live; } ~Counted() { --live; } };
TEST(clean) { long heap = vs_heap_live(); { size_t n = vs::pick(0, vs::param("N", 5), "n"); std::vector<Counted*> v(n, nullptr); for (size_t i = 0; i < n; ++i) if (vs::flag("given")) v[i] = new Counted((int)i); HELPER_CLEAN_TEST_VECTOR(v); bool ok = v.size() == n; for (Counted* p : v) ok = ok && !p; CHECK(ok && Counted::live == 0, "every element is deleted once and set to null"); HELPER_CLEAN_TEST_VECTOR(v); } CHECK(vs_heap_live() == heap, "nothing is leaked"); }
struct GridTreeSubpaving { struct ConstIterator { const Num* p; bool operator!=(const ConstIterator& o) const { return p != o.p; } ConstIterator operator++(int) { return ConstIterator{p++}; } const Num& operator*() const { return *p; } }; const Num* a; size_t n; ConstIterator begin() const { return ConstIterator{a}; } ConstIterator end() const { return ConstIterator{a + n}; } };
TEST(iterated) { bomb = -1; size_t n = vs::pick(0, 3, "n"), m = vs::pick(0, 3, "m"); std::vector<Num> a(4), b(4); std::vector<Num*> want(4); int bad = n == m ? 0 : 1; for (int i = 0; i < 4; ++i) { a[i].v = vs::i32("a"); b[i].v = vs::i32("b"); want[i] = &b[i]; } GridTreeSubpaving g{a.data(), n}; for (size_t i = 0; i < n && i < m; ++i) bad += a[i].v != b[i].v; Cap c(vs::flag("quiet")); HELPER_TEST_GRID_TREE_SUBPAVING_ITERATOR(want, g, m); CHECK(HELPER_TEST_FAILURES - c.f == bad, "every wrong element and a wrong number of elements are one failure each"); }
