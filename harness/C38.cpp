//@ quick
//@ thorough
//@ bounds Every pair of 32-bit outputs of the entropy device, every sequence of clock readings from 1970 to 2262.
//@ outside The quality of the device's outputs; seeds taken on platforms without a random device.
//@ stubs std::random_device and the clock return arbitrary values; std::mt19937 is replaced by a generator that records its seed.
#include "rnd.hpp"
using namespace Helper;
static unsigned long seed_of(unsigned dev) { vsr::dev = dev; vsr::clks = 0; RandomGenerator g; return g.engine().seed_; }
static void clocks() { for (int i = 0; i < 4; ++i) { vsr::clk[i] = vs::i64("t"); ASSUME(vsr::clk[i] >= 0); } }
TEST(entropy) { clocks(); uint32_t a = vs::u32("a"), b = vs::u32("b"); vsr::devs = 0; unsigned long s = seed_of(a); CHECK(vsr::devs >= 1, "the seed is taken from the entropy device"); unsigned long t = seed_of(b); CHECK((((uint32_t)s == (uint32_t)t)) == (a == b), "different outputs of the entropy device give different seeds"); }
TEST(one_engine) { RandomGenerator g; CHECK(&g.engine() == &g.engine(), "engine() is the generator's own engine, not a copy"); vsr::on() = true; vsr::most() = 4; int n = vs::pick(1, 4, "n"); for (int i = 0; i < n; ++i) g.engine()(); CHECK(g.engine().at == n && !vsr::twice(), "outputs taken through engine() advance the generator"); CHECK(&RANDOM_GENERATOR.engine() != &g.engine(), "generators are separate"); }
TEST(program) { CHECK(vsr::devs >= 1, "the program's generator is seeded from the entropy device"); UniformIntRandomiser<int> r(0, 255); vsr::on() = true; vsr::most() = 2; int before = RANDOM_GENERATOR.engine().at; r.get(); CHECK(RANDOM_GENERATOR.engine().at > before, "randomisers draw from the program's generator"); }
