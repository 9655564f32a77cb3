// A model of the generator and of the sources of its seed: every output is an arbitrary 32-bit value, and each output of each
// generator is handed out once, so that copies of a generator repeat each other's outputs as real ones do.
#pragma once
#include <random>
#include <chrono>
#include "vs.hpp"
namespace vsr {
inline int& lives() { static int n = 0; return n; }
inline bool& on() { static bool b = false; return b; }           // outputs are symbolic from here on
inline uint32_t* outs() { static uint32_t o[512]; return o; } inline int& made() { static int n = 0; return n; }   // outputs so far of the one stream
inline int& used() { static int n = 0; return n; }                // calls so far
inline bool& twice() { static bool b = false; return b; }         // an output was handed out twice
inline int& most() { static int n = 4; return n; }                // bound on the outputs
inline uint32_t (*&source())(int) { static uint32_t (*f)(int) = nullptr; return f; } 
inline unsigned dev = 12345; inline int devs = 0, clks = 0; inline long clk[4] = {1700000000000000000L, 1700000000000000100L, 1700000000000000200L, 1700000000000000300L};
}
namespace std { struct vs_engine { typedef mt19937::result_type result_type; result_type seed_; int at = 0; static constexpr result_type min() { return 0; } static constexpr result_type max() { return 0xffffffffu; } static constexpr result_type default_seed = 5489u;
  vs_engine() : seed_(5489u) {} explicit vs_engine(result_type s) : seed_(s) {} template<class Q> requires requires(Q& q, result_type* p) { q.generate(p, p); } explicit vs_engine(Q& q) { q.generate(&seed_, &seed_ + 1); } template<class Q> requires requires(Q& q, result_type* p) { q.generate(p, p); } void seed(Q& q) { q.generate(&seed_, &seed_ + 1); at = 0; } void seed(result_type s = 5489u) { seed_ = s; at = 0; } void discard(unsigned long long n) { at += (int)n; }
  result_type operator()() { int i = at++; ++vsr::used(); if (!vsr::on()) return 1; if (i < vsr::made()) { vsr::twice() = true; return vsr::outs()[i]; } if (vsr::source()) { vsr::made() = i + 1; return vsr::outs()[i] = vsr::source()(i); } ASSUME(i < vsr::most()); while (vsr::made() <= i) { uint32_t u = vs::u32("u"); vsr::outs()[vsr::made()++] = u; } return vsr::outs()[i]; } };
struct vs_device { typedef unsigned result_type; static constexpr unsigned min() { return 0; } static constexpr unsigned max() { return 0xffffffffu; } vs_device() {} explicit vs_device(const string&) {} vs_device(const vs_device&) = delete; vs_device& operator=(const vs_device&) = delete; unsigned operator()() { ++vsr::devs; return vsr::dev; } double entropy() const { return 32; } };
namespace chrono { inline namespace _V2 { system_clock::time_point system_clock::now() noexcept { return time_point(duration(vsr::clk[vsr::clks++ & 3])); } } } }
#define mt19937 vs_engine
#define random_device vs_device
#include "randomiser.hpp"
#undef mt19937
#undef random_device
