//@ flags -DNDEBUG
//@ bounds With NDEBUG defined: the debug forms do nothing and the others are as without it.
#include <typeinfo>
#include "mac.hpp"
TEST(debug_forms_off) { int a = vs::i32("a"), b = vs::i32("b"); std::string m; int r = run([&] { HELPER_DEBUG_ASSERT(ev(a < b)); HELPER_DEBUG_ASSERT_MSG(ev(a < b), (++evals, "text")); HELPER_DEBUG_PRECONDITION(ev(a < b)); }, m); CHECK(r == 0 && evals == 0, "with NDEBUG the debug forms do nothing"); }
TEST(others_on) { int a = vs::i32("a"), b = vs::i32("b"); std::string m; int r = run([&] { HELPER_ASSERT(ev(a < b)); }, m); THROWS_IFF(a >= b, m, "ev(a < b)", "Assertion") evals = 0; r = run([&] { HELPER_PRECONDITION(ev(a < b)); }, m); THROWS_IFF(a >= b, m, "ev(a < b)", "Precondition") evals = 0; r = run([&] { HELPER_ASSERT_MSG(ev(a < b), "text"); }, m); THROWS_IFF(a >= b, m, "ev(a < b)", "text") evals = 0; r = run([&] { HELPER_PRECONDITION_MSG(ev(a < b), "text"); }, m); THROWS_IFF(a >= b, m, "ev(a < b)", "text") evals = 0; r = run([&] { HELPER_ASSERT_EQUAL((++evals, a & 1), 1); }, m); THROWS_IFF(!(a & 1), m, "a & 1", " != ") }
