//@ encodes macros of include/macros.hpp, expanded in the harness: HELPER_ASSERT, HELPER_ASSERT_MSG, HELPER_ASSERT_EQUAL, HELPER_PRECONDITION, HELPER_PRECONDITION_MSG, HELPER_DEBUG_ASSERT, HELPER_DEBUG_ASSERT_MSG, HELPER_DEBUG_PRECONDITION, HELPER_FAIL_MSG, HELPER_THROW, HELPER_WARN, HELPER_WARN_ONCE, HELPER_NOTIFY, HELPER_ERROR, HELPER_DEPRECATED
//@ quick
//@ thorough
//@ bounds Every pair of 32-bit operands and supplied text of up to 3 arbitrary characters, for every macro with and without NDEBUG (the second in C30_ndebug.cpp); the once-only messages for up to 4 executions at two places. Error streams in every state at any of four executions; up to 300 executions of one line; texts of up to 5000 characters; conditions on a variable named result and texts from a stream named ss.
//@ outside Conditions and texts that name the macros' own variables assertion_result and helper_throw_stream; concurrent first executions; conditions that throw; HELPER_NOT_IMPLEMENTED, which needs a StringType the library does not define.
#include <typeinfo>
#include "mac.hpp"
static std::string text() { std::string s; int n = vs::pick(0, 3, "n"); for (int i = 0; i < n; ++i) s.push_back((char)vs::u8("c")); return s; }
TEST(asserts) { int a = vs::i32("a"), b = vs::i32("b"); std::string m; { int r = run([&] { HELPER_ASSERT(ev(a < b)); }, m); THROWS_IFF(a >= b, m, "ev(a < b)", "Assertion") } }
TEST(assert_msg) { int a = vs::i32("a"), b = vs::i32("b"); std::string m, t = text(); int r = run([&] { HELPER_ASSERT_MSG(ev(a <= b), "a is " << t); }, m); THROWS_IFF(a > b, m, "ev(a <= b)", ("a is " + t).c_str()) }
TEST(assert_equal) { Num a{vs::i32("a")}, b{vs::i32("b")}; ASSUME((a.v & 255) != 0 && (b.v & 255) != 0); std::string m; bool ne = a.v != b.v; int r = run([&] { HELPER_ASSERT_EQUAL((++evals, a), b); }, m); THROWS_IFF(ne, m, "b", " != ") if (r == 0) CHECK(a.cmp == 1, "the comparison is evaluated once"); else CHECK(has(m, "(++evals, a)"), "the message names both expressions"); }
TEST(precondition) { int a = vs::i32("a"), b = vs::i32("b"); std::string m; int r = run([&] { HELPER_PRECONDITION(ev(a != b)); }, m); THROWS_IFF(a == b, m, "ev(a != b)", "Precondition") }
TEST(precondition_msg) { int a = vs::i32("a"), b = vs::i32("b"); std::string m, t = text(); int r = run([&] { HELPER_PRECONDITION_MSG(ev(a > b), t << "!"); }, m); THROWS_IFF(a <= b, m, "ev(a > b)", (t + "!").c_str()) }
TEST(conversions) { uint64_t x = vs::u64("x"); std::string m; int r = run([&] { HELPER_ASSERT((++evals, x)); }, m); THROWS_IFF(x == 0, m, "x", "") evals = 0; Cond c{vs::boolean("b")}; bool bad = !c.b; r = run([&] { HELPER_ASSERT(c); }, m); THROWS_IFF(bad, m, "`c'", "") evals = 0; r = run([&] { HELPER_PRECONDITION(c); }, m); THROWS_IFF(bad, m, "`c'", "") evals = 0; r = run([&] { HELPER_ASSERT_MSG(c, "t"); }, m); THROWS_IFF(bad, m, "`c'", "t") evals = 0; int v = 5; int* p = bad ? nullptr : &v; r = run([&] { HELPER_PRECONDITION_MSG((++evals, p), "t"); }, m); THROWS_IFF(bad, m, "p", "t") evals = 0; uint64_t big = (uint64_t)(uint32_t)x << 32; r = run([&] { HELPER_ASSERT_MSG((++evals, big), "t"); }, m); THROWS_IFF(big == 0, m, "big", "t") evals = 0; r = run([&] { HELPER_PRECONDITION((++evals, big)); }, m); THROWS_IFF(big == 0, m, "big", "") }
TEST(debug_forms) { int a = vs::i32("a"), b = vs::i32("b"); std::string m, t = text(); int r = run([&] { HELPER_DEBUG_ASSERT(ev(a < b)); }, m); THROWS_IFF(a >= b, m, "ev(a < b)", "Assertion") evals = 0; r = run([&] { HELPER_DEBUG_ASSERT_MSG(ev(a < b), t); }, m); THROWS_IFF(a >= b, m, "ev(a < b)", t.c_str()) evals = 0; r = run([&] { HELPER_DEBUG_PRECONDITION(ev(a < b)); }, m); THROWS_IFF(a >= b, m, "ev(a < b)", "Precondition") }
TEST(always) { std::string m, t = text(); int r = run([&] { HELPER_FAIL_MSG("because " << t); }, m); CHECK(r == 1 && has(m, ("because " + t).c_str()), "HELPER_FAIL_MSG always throws, with the text"); bool ok = false; try { HELPER_THROW(Mine, "here()", "what " << t); } catch (const Mine& e) { ok = has(e.what(), ("what " + t).c_str()) && has(e.what(), "here()") && has(e.what(), "Mine"); } CHECK(ok, "HELPER_THROW throws the named type, with place and text"); ok = false; try { HELPER_THROW(std::invalid_argument, __FUNCTION__, t); } catch (const std::invalid_argument& e) { ok = has(e.what(), t.c_str()) && has(e.what(), "invalid_argument"); } CHECK(ok, "HELPER_THROW throws the named type, with place and text"); }
static void warn_a(const std::string& t) { HELPER_WARN_ONCE("A" << t) } static void warn_b() { HELPER_WARN_ONCE("B") } static void depr() { HELPER_DEPRECATED(depr, "use other") }
TEST(once) { std::string t = text(), want; Captured c; bool a = false, b = false, d = false; for (int i = 0; i < 4; ++i) { int w = vs::pick(0, 3, "w"); if (w == 0) { warn_a(t); if (!a) want += "WARNING: A" + t + "\n"; a = true; } else if (w == 1) { warn_b(); if (!b) want += "WARNING: B\n"; b = true; } else if (w == 2) { std::string before = c.str(); depr(); std::string now = c.str(); if (d) CHECK(now == before, "a deprecation is reported at its first execution only"); else { CHECK(has(now.substr(before.size()), "DEPRECATED") && has(now.substr(before.size()), "use other") && has(now.substr(before.size()), "depr"), "a deprecation is reported"); want += now.substr(before.size()); } d = true; } CHECK(c.str() == want, "a once-only warning prints at its first execution only"); } }
TEST(prints) { std::string t = text(); Captured c; int n = vs::pick(1, 2, "times"); std::string want; for (int i = 0; i < n; ++i) { HELPER_WARN("w" << t); HELPER_NOTIFY("n" << t); HELPER_ERROR("e" << t); want += "WARNING: w" + t + "\nNOTIFICATION: n" + t + "\nERROR: e" + t + "\n"; } CHECK(c.str() == want, "the messages are written each time, in full"); }
// the error stream may be unusable at the first execution (nothing is seen of it, but it was the first), or at a later one
static void warn_c() { HELPER_WARN_ONCE("C") } static void depr2() { HELPER_DEPRECATED(depr2, "use another") }
TEST(once_failed_stream) { Captured c; bool d = vs::flag("deprecated"); int bad = vs::pick(0, 3, "state"), when = vs::pick(0, 2, "when"); std::ios::iostate st = bad == 0 ? std::ios::failbit : bad == 1 ? std::ios::badbit : bad == 2 ? std::ios::eofbit : std::ios::goodbit; int n = 0; bool first = false; for (int i = 0; i < 4; ++i) { if (i == when) std::cerr.setstate(st); std::string before = c.str(); if (d) depr2(); else warn_c(); if (c.str() != before) { ++n; first = first || i == 0; } std::cerr.clear(); } CHECK(n == (when == 0 && bad != 3 ? 0 : 1), "a once-only warning prints at its first execution and never again"); if (n) CHECK(first, "a once-only warning prints at its first execution"); }
TEST(asserts_failed_stream) { std::cerr.setstate(std::ios::badbit); std::cout.setstate(std::ios::badbit); int a = vs::i32("a"), b = vs::i32("b"); std::string m; { int r = run([&] { HELPER_ASSERT(ev(a < b)); }, m); THROWS_IFF(a >= b, m, "ev(a < b)", "Assertion") } evals = 0; { int r = run([&] { HELPER_PRECONDITION_MSG(ev(a < b), "why"); }, m); THROWS_IFF(a >= b, m, "ev(a < b)", "why") } std::cerr.clear(); std::cout.clear(); }
// one line executed many times, and in a template and a loop of its own
template <int N> static void warn_t() { HELPER_WARN_ONCE("T" << N) }
TEST(once_many) { Captured c; int n = vs::pick(1, 300, "n"); for (int i = 0; i < n; ++i) { warn_t<1>(); if (i >= 2) warn_t<2>(); } CHECK(c.str() == (n > 2 ? "WARNING: T1\nWARNING: T2\n" : "WARNING: T1\n"), "a once-only warning prints once, however often it is executed"); }
TEST(long_text) { static const int ls[] = {63, 64, 65, 127, 128, 255, 256, 257, 1000, 5000}; int l = ls[vs::pick(0, 9, "l")]; std::string t; for (int i = 0; i < l; ++i) t.push_back((char)('a' + i % 26)); char z = (char)vs::u8("z"); t[l - 1] = z; bool bad = vs::boolean("bad"); std::string m; int how = vs::pick(0, 3, "how"); int r = run([&] { if (how == 0) { HELPER_ASSERT_MSG(ev(!bad), t); } else if (how == 1) { HELPER_PRECONDITION_MSG(ev(!bad), t); } else if (how == 2) { HELPER_DEBUG_ASSERT_MSG(ev(!bad), t); } else { ev(true); if (bad) HELPER_FAIL_MSG(t); } }, m); CHECK(r == (bad ? 1 : 0) && evals == 1, "thrown exactly when the condition is false"); if (bad && z) CHECK(has(m, t.c_str()), "a long supplied text is included in full"); Captured c; HELPER_WARN(t); CHECK(c.str() == "WARNING: " + t + "\n", "a long message is written in full"); }
// conditions and texts whose names are words a macro could use for its own variables
TEST(named) { int result = vs::i32("result"), ok = vs::pick(0, 1, "ok"); std::string m; std::ostringstream ss, msg; ss << "text of ss"; msg << "text of msg"; int r;
  r = run([&] { HELPER_DEBUG_PRECONDITION((++evals, result)); }, m); THROWS_IFF(result == 0, m, "result", "") evals = 0; r = run([&] { HELPER_DEBUG_PRECONDITION(ev(result > 0)); }, m); THROWS_IFF(result <= 0, m, "result > 0", "") evals = 0; r = run([&] { HELPER_DEBUG_ASSERT(ev(result > 0)); }, m); THROWS_IFF(result <= 0, m, "result > 0", "") evals = 0; r = run([&] { HELPER_PRECONDITION(ev(result > 0)); }, m); THROWS_IFF(result <= 0, m, "result > 0", "") evals = 0; r = run([&] { HELPER_ASSERT(ev(result > 0)); }, m); THROWS_IFF(result <= 0, m, "result > 0", "")
  evals = 0; r = run([&] { HELPER_ASSERT_MSG(ev(ok), ss.str()); }, m); THROWS_IFF(!ok, m, "ev(ok)", "text of ss") evals = 0; r = run([&] { HELPER_PRECONDITION_MSG(ev(ok), ss.str() << msg.str()); }, m); THROWS_IFF(!ok, m, "ev(ok)", "text of sstext of msg") evals = 0; r = run([&] { HELPER_DEBUG_ASSERT_MSG(ev(ok), msg.str() << "/" << ss.str()); }, m); THROWS_IFF(!ok, m, "ev(ok)", "text of msg/text of ss")
  r = run([&] { HELPER_FAIL_MSG(ss.str()); }, m); CHECK(r == 1 && has(m, "text of ss"), "HELPER_FAIL_MSG always throws, with the text"); bool got = false; try { HELPER_THROW(std::runtime_error, ss.str(), msg.str()); } catch (const std::runtime_error& e) { got = has(e.what(), "text of ss") && has(e.what(), "text of msg"); } CHECK(got, "HELPER_THROW throws the named type, with place and text"); }
