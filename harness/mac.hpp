#pragma once
#include <iostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include "vs.hpp"
#include "macros.hpp"
static int evals; static long frees;
// counts evaluations of a condition
static bool ev(bool b) { ++evals; return b; }
struct Num { int v; mutable int cmp = 0; friend bool operator==(const Num& a, const Num& b) { ++a.cmp; return a.v == b.v; } friend bool operator!=(const Num& a, const Num& b) { ++a.cmp; return a.v != b.v; } friend bool operator<(const Num& a, const Num& b) { ++a.cmp; return a.v < b.v; } friend std::ostream& operator<<(std::ostream& o, const Num& n) { return o.put((char)n.v); } };
// a condition type with an explicit conversion only
struct Cond { bool b; explicit operator bool() const { ++evals; return b; } };
static bool has(const std::string& s, const char* t) { return s.find(t) != std::string::npos; }
struct Captured { std::stringstream ss; std::streambuf* old; Captured() : old(std::cerr.rdbuf(ss.rdbuf())) {} ~Captured() { std::cerr.rdbuf(old); } std::string str() const { return ss.str(); } };
struct Mine : std::runtime_error { using std::runtime_error::runtime_error; };
// runs f; 0 returned, 1 std::runtime_error itself (text in m), 2 anything else
template <class F> static int run(F f, std::string& m) { try { f(); } catch (const std::runtime_error& e) { m = e.what(); return typeid(e) == typeid(std::runtime_error) ? 1 : 2; } catch (...) { return 2; } return 0; }
#define THROWS_IFF(bad, m, expr, text) CHECK(r == ((bad) ? 1 : 0), "the macro throws std::runtime_error exactly when the condition is false"); if (r == 0) CHECK(evals == 1, "a condition that holds is evaluated once"); else { CHECK(has(m, expr), "the message names the failed expression"); CHECK(has(m, text), "the message includes the supplied text"); }
