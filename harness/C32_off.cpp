//@ flags -DVS_STACK_TRACE_CPP=\"@REPO@/src/stack_trace.cpp\"
//@ bounds Without ENABLE_STACK_TRACE the function writes nothing, allocates nothing and returns.
#include <iostream>
#include <sstream>
#include "vs.hpp"
#include VS_STACK_TRACE_CPP
TEST(disabled) { std::stringstream e, o; std::streambuf *b = std::cerr.rdbuf(e.rdbuf()), *a = std::cout.rdbuf(o.rdbuf()); long h = vs_heap_live(); Helper::stack_trace(); CHECK(vs_heap_live() == h, "disabled, it allocates nothing"); std::cerr.rdbuf(b); std::cout.rdbuf(a); CHECK(e.str().empty() && o.str().empty(), "disabled, it writes nothing"); }
