//@ quick H=4 N=5
//@ thorough H=5 N=10
//@ bounds Up to N accesses with every pattern of failing calls; every history of H operations (access, copy construction, copy and move assignment, destruction) on three lazies, each with its own function and any of its calls failing; an allocation failure in an access; 70000 accesses, 300 failures in a row and 300 copies. Objects may be copied by the code, which the check would notice.
//@ outside Concurrent access; functions returning a null pointer; use of a moved-from Lazy; functions that access the same Lazy.
#include <optional>
#include <vector>
#include "vs.hpp"
#include "lazy.hpp"
using Helper::Lazy; using vs::Elem; using vs::Boom;
static int calls[4], fails[4], made[4]; static int val[4]; static bool dead[1024]; static int serial;
struct Obj { int v, who, id; Obj(int x, int w) : v(x), who(w), id(serial++) { ++vs::cnt().live; } Obj(const Obj& o) : v(o.v), who(o.who), id(serial++) { ++vs::cnt().live; } Obj& operator=(const Obj&) = delete; ~Obj() { vs_check(!dead[id], "the object is destroyed once"); dead[id] = true; --vs::cnt().live; } };
static Lazy<Obj> lazy(int w) { val[w] = vs::i32("v"); return Lazy<Obj>([w]() -> Obj* { ++calls[w]; if (fails[w] > 0) { --fails[w]; throw Boom(); } ++made[w]; return new Obj(val[w], w); }); }
TEST(accesses) { size_t n = vs::pick(0, vs::param("N", 5), "n"); long b = vs_heap_live(); { fails[0] = vs::pick(0, vs::param("N", 5), "fails"); int f = fails[0]; const Lazy<Obj> l = lazy(0); CHECK(calls[0] == 0, "the function is not called before the first access"); const Obj* p = nullptr;
  for (size_t i = 0; i < n; ++i) { bool should = (int)i < f; int o = vs::outcome<Boom>([&] { const Obj& r = l(); CHECK(r.v == val[0], "the value is what the function produced"); CHECK(p == nullptr || p == &r, "every access returns the same object"); p = &r; }); CHECK(o == (should ? 1 : 0), "an exception of the function propagates, and only that"); CHECK(calls[0] == (should ? (int)i + 1 : f + 1), "the function is called once, plus once per failed access"); vs_reach(should ? "failed" : "succeeded"); CHECK(vs::cnt().live == (should ? 0 : 1), "one object exists after a successful access"); } }
  CHECK(vs::cnt().live == 0 && vs_heap_live() == b, "the object is released with the last lazy"); }
TEST(histories) { long b = vs_heap_live(); { const int S = 3; std::optional<Lazy<Obj>> l[S]; int fn[S]; const Obj* obj[S]; bool moved[S]; for (int i = 0; i < S; ++i) { fails[i] = i == 0 ? (int)vs::pick(0, 1, "fails") : 0; l[i].emplace(lazy(i)); fn[i] = i; obj[i] = nullptr; moved[i] = false; } int H = vs::param("H", 4), want[4] = {0, 0, 0, 0};
  for (int h = 0; h < H; ++h) { int op = vs::pick(0, 4, "op"), i = vs::pick(0, S - 1, "i"), j = op == 0 || op == 4 ? 0 : vs::pick(0, S - 1, "j");
    if (op == 0) { if (!l[i] || moved[i]) continue; int w = fn[i], f = fails[w], c = calls[w]; bool first = obj[i] == nullptr; const Obj* p = nullptr; int o = vs::outcome<Boom>([&] { p = &(*l[i])(); }); CHECK(o == (first && f > 0 ? 1 : 0), "an access fails exactly when the function does"); CHECK(calls[w] == c + (first ? 1 : 0), "the function is called on first use only"); if (p) { CHECK(first || p == obj[i], "every access returns the same object"); CHECK(p->v == val[w] && p->who == w && !dead[p->id], "the object returned is alive and is the one the function made"); if (first) for (int k = 0; k < S; ++k) CHECK(obj[k] != p, "lazies that do not share have objects of their own"); obj[i] = p; } vs_reach("access"); }
    else if (op == 1) { if (!l[i] || moved[i] || i == j) continue; l[j].reset(); l[j].emplace(*l[i]); fn[j] = fn[i]; obj[j] = obj[i]; moved[j] = false; vs_reach("copy"); }
    else if (op == 2) { if (!l[i] || moved[i] || !l[j]) continue; *l[j] = *l[i]; fn[j] = fn[i]; obj[j] = obj[i]; moved[j] = false; vs_reach("assignment"); }
    else if (op == 3) { if (!l[i] || moved[i] || !l[j] || i == j) continue; *l[j] = std::move(*l[i]); fn[j] = fn[i]; obj[j] = obj[i]; moved[j] = false; moved[i] = true; obj[i] = nullptr; vs_reach("move"); }
    else { l[i].reset(); obj[i] = nullptr; }
    long n = 0; for (int x = 0; x < S; ++x) if (obj[x]) { bool seen = false; for (int y = 0; y < x; ++y) seen = seen || obj[y] == obj[x]; if (!seen) ++n; CHECK(!dead[obj[x]->id], "the object lives while any copy does"); } CHECK(vs::cnt().live == n, "an object is destroyed when its last lazy goes"); }
  } CHECK(vs::cnt().live == 0 && vs_heap_live() == b, "everything is released in the end"); }
TEST(copies) { long b = vs_heap_live(); { Lazy<Obj> a = lazy(0); bool before = vs::flag("before"); std::optional<Lazy<Obj>> c; if (before) c.emplace(a); const Obj& x = a(); if (!before) c.emplace(a); CHECK(calls[0] == 1, "copying does not call the function"); const Obj& y = (*c)(); CHECK(y.v == x.v, "a copy gives the same value"); CHECK(before || (&x == &y && calls[0] == 1), "a copy made after the first use shares the object"); bool first = vs::flag("drop"); if (first) { c.reset(); CHECK(!dead[a().id] && a().v == val[0], "the object outlives the copy"); } else { a = lazy(1); CHECK(!dead[(*c)().id] && (*c)().v == val[0], "the object outlives the original"); } } CHECK(vs::cnt().live == 0 && vs_heap_live() == b, "everything is released in the end"); }
TEST(allocation_failure) { long b = vs_heap_live(); { Lazy<Obj> a = lazy(0); long t = vs::pick(0, 2, "t"); vs_fail_alloc(t); int o = vs::outcome<std::bad_alloc>([&] { a(); }); vs_fail_alloc(-1); CHECK(o != 2, "a failed allocation propagates"); if (o == 1) { vs_reach("failed"); CHECK(vs::cnt().live == 0, "a failed access keeps no object"); CHECK(a().v == val[0] && vs::cnt().live == 1, "the next access tries again"); } } CHECK(vs::cnt().live == 0 && vs_heap_live() == b, "everything is released in the end"); }
TEST(any_type) { int v = vs::i32("v"); int n = 0; Lazy<int> l([&]() { ++n; return new int(v); }); CHECK(n == 0, "the function is not called before the first access"); CHECK(l() == v && l() == v && n == 1, "one call for any number of accesses"); Lazy<Elem> e([&]() { return new Elem(v); }); CHECK(e().get() == v, "a class type"); struct Der : Elem { using Elem::Elem; }; }
TEST(many_accesses) { long b = vs_heap_live(); { fails[0] = vs::flag("failing") ? 300 : 0; int f = fails[0]; const Lazy<Obj> l = lazy(0); int bad = 0; for (int i = 0; i < f; ++i) bad += vs::outcome<Boom>([&] { l(); }) == 1; CHECK(bad == f && calls[0] == f, "every access fails while the function does"); const Obj* p = &l(); bool ok = true; for (int i = 0; i < 70000; ++i) ok = ok & (&l() == p); CHECK(ok, "every access returns the same object"); CHECK(calls[0] == f + 1 && p->v == val[0], "the function is called once, plus once per failed access"); } CHECK(vs::cnt().live == 0 && vs_heap_live() == b, "the object is released with the last lazy"); }
TEST(many_copies) { long b = vs_heap_live(); { Lazy<Obj> a = lazy(0); const Obj* p = &a(); std::vector<Lazy<Obj>> c; int n = vs::flag("more") ? 300 : 20; c.reserve(n); for (int i = 0; i < n; ++i) c.push_back(i % 3 ? a : c.empty() ? a : c.back()); bool ok = true; for (auto& x : c) ok = ok & (&x() == p); CHECK(ok && calls[0] == 1, "a copy made after the first use shares the object"); a = lazy(1); int k = vs::pick(0, 3, "k") * (n - 1) / 3; for (int i = 0; i < n; ++i) if (i != k) c[i] = a; CHECK(!dead[p->id] && c[k]().v == val[0] && &c[k]() == p, "the object lives while any copy does"); CHECK(a().v == val[1], "another lazy"); c[k] = a; CHECK(dead[0] && vs::cnt().live == 1, "an object is destroyed when its last lazy goes"); } CHECK(vs::cnt().live == 0 && vs_heap_live() == b, "everything is released in the end"); }
