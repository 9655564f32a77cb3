//@ quick H=3
//@ thorough H=4
//@ bounds Every history of H operations (copy, copy assignment, self-assignment, move assignment, construction from another interface, writing through each of the six mutable accessors, destruction) over three handles, for six dynamic types and arbitrary values; every way of constructing a handle; up to 300 handles sharing an object.
//@ outside Writes through a reference or pointer kept from an earlier access; reading a moved-from or empty handle; objects whose clone, _copy or _move do not copy; construction from a reference of an intermediate base class (slices).
#include <vector>
#include "hnd.hpp"
static bool is(const Handle<I>& h, int k, int v) { const I* p = obj(h); return (p->kind() == k) & (p->value() == v); }
TEST(histories) { { const int S = 3; std::optional<Handle<I>> h[S]; int k[S], v[S]; int a = vs::pick(0, 5, "accessor"), t = vs::pick(1, 6, "type"); v[0] = vs::i32("v"); k[0] = t; v[1] = vs::i32("v"); k[1] = 1; h[0].emplace(make(t, v[0])); h[1].emplace(make(1, v[1])); h[2].emplace(*h[0]); k[2] = k[0]; v[2] = v[0]; int H = vs::param("H", 3); bool mv[S] = {false, false, false};
  for (int s = 0; s < H; ++s) { int op = vs::pick(0, 4, "op"), i = vs::pick(0, S - 1, "i"), j = op >= 3 ? 0 : vs::pick(0, S - 1, "j");
    if (op == 0) { if (!h[i] || !h[j] || mv[j]) continue; *h[i] = *h[j]; mv[i] = false; k[i] = k[j]; v[i] = v[j]; vs_reach("assignment"); }
    else if (op == 1) { if (!h[i] || !h[j] || mv[j] || i == j) continue; *h[i] = std::move(*h[j]); k[i] = k[j]; v[i] = v[j]; mv[i] = false; mv[j] = true; vs_reach("move"); }
    else if (op == 2) { if (!h[j] || mv[j] || i == j) continue; h[i].reset(); h[i].emplace(*h[j]); mv[i] = false; k[i] = k[j]; v[i] = v[j]; vs_reach("copy"); }
    else if (op == 3) { if (!h[i] || mv[i]) continue; v[i] = vs::i32("w"); write(*h[i], a, v[i]); vs_reach("write"); }
    else { h[i].reset(); mv[i] = false; }
    int n = 0; for (int x = 0; x < S; ++x) if (h[x] && !mv[x]) { ++n; CHECK(is(*h[x], k[x], v[x]), "every handle shows its own last write and no other"); } CHECK(vs::cnt().live <= n && (n == 0) == (vs::cnt().live == 0), "no object outlives its handles"); }
  } CHECK(vs::cnt().live == 0 && vs_heap_live() == 0, "everything is destroyed once in the end"); }
template <class X> static Handle<I> built(int m, X& x, int v) { switch (m) { case 0: return Handle<I>(x); case 1: return Handle<I>((const X&)x); case 2: return Handle<I>(std::move(x)); case 3: return Handle<I>((const I&)x); case 4: return Handle<I>((I&&)x); case 5: return Handle<I>((I*)x.clone()); case 6: return Handle<I>(std::shared_ptr<I>(x.clone())); default: return (const I&)x; } }
template <class X> static void construction(X x, int k, int v) { int m = vs::pick(0, 7, "m"), a = vs::pick(0, 5, "accessor"), w = vs::i32("w"), u = vs::i32("u"); { Handle<I> h = built(m, x, v); CHECK(is(h, k, v), "a handle refers to an object equal to the one it was built from, of the same type"); CHECK((const I*)&x != obj(h), "a handle built from an object has an object of its own"); if (m != 2 && m != 4) CHECK(x.value() == v && !x.x.moved, "the object given is not changed"); if (m == 2) CHECK(x.x.moved, "an object given as an rvalue is moved"); x.set(u); CHECK(is(h, k, v), "the handle does not follow the object it was built from"); Handle<I> g(h); write(h, a, w); CHECK(is(h, k, w), "a write shows through its handle"); CHECK(is(g, k, v), "a write does not show through a copy"); CHECK(x.value() == u, "a write does not reach the object given"); write(g, a, u); CHECK(is(h, k, w) && is(g, k, u), "two copies written separately"); } CHECK(vs::cnt().live == 1, "the handles' objects are destroyed"); }
TEST(construct) { int t = vs::pick(1, 4, "type"), v = vs::i32("v"); if (t == 1) construction(A(v), 1, v); else if (t == 2) construction(B(v), 2, v); else if (t == 3) construction(C(v), 3, v); else construction(P(v), 6, v); CHECK(vs::cnt().live == 0 && vs_heap_live() == 0, "everything is destroyed once in the end"); }
TEST(shared) { int t = vs::pick(1, 6, "type"), a = vs::pick(0, 5, "accessor"), v = vs::i32("v"), w = vs::i32("w"); { std::shared_ptr<I> p(make(t, v)); Handle<I> g(p), h(p); CHECK(obj(g) == p.get(), "a handle built from a pointer refers to that object"); write(h, a, w); CHECK(is(h, t, w) && is(g, t, v), "handles built from one pointer are independent"); write(g, a, w ^ 1); CHECK(is(h, t, w) && is(g, t, w ^ 1), "in both directions"); } CHECK(vs::cnt().live == 0 && vs_heap_live() == 0, "everything is destroyed once in the end"); }
TEST(conversion) { int t = vs::pick(1, 6, "type"), a = vs::pick(0, 5, "accessor"), v = vs::i32("v"), w = vs::i32("w"); { Handle<I> h(make(t, v)); const Handle<I>& ch = h; Handle<Root> r(ch); Handle<const I> c(h); Handle<Root> q(c.const_reference().clone()); CHECK(r.const_reference().kind() == t && r.const_reference().value() == v, "conversion to a base interface keeps the object"); CHECK(c.const_reference().kind() == t && c.const_reference().value() == v, "conversion to a constant interface keeps the object"); bool other = vs::flag("other"); if (other) { Root& x = r.reference(); CHECK(x.value() == v, "mutable access after a conversion"); CHECK(is(h, t, v), "mutable access to a converted handle leaves the original alone"); if (I* y = dynamic_cast<I*>(&x)) { y->set(w); CHECK(r.const_reference().value() == w, "the write shows"); } CHECK(is(h, t, v) && c.const_reference().value() == v && c.reference().value() == v, "a write through a converted handle does not show through the original"); } else { write(h, a, w); CHECK(is(h, t, w), "a write shows through its handle"); CHECK(r.const_reference().value() == v && c.const_reference().value() == v && c.reference().value() == v, "a write does not show through converted handles"); } } CHECK(vs::cnt().live == 0 && vs_heap_live() == 0, "everything is destroyed once in the end"); }
TEST(make) { int v = vs::i32("v"), w = vs::i32("w"); { Handle<B> h = Helper::make_handle<B>(v); CHECK(h.const_reference().value() == v && h.const_reference().kind() == 2 && h.const_reference().extra == 77, "make_handle builds the object from the arguments"); Handle<B> g(h); h.reference().set(w); CHECK(h.const_reference().value() == w && g.const_reference().value() == v, "handles to a concrete class"); Handle<I> i(g); i.reference().set(w); CHECK(i.const_reference().value() == w && i.const_reference().kind() == 2 && g.const_reference().value() == v, "conversion of a mutable handle"); } CHECK(vs::cnt().live == 0 && vs_heap_live() == 0, "everything is destroyed once in the end"); }
TEST(many_handles) { int t = vs::pick(1, 6, "type"), a = vs::pick(0, 5, "accessor"), v = vs::i32("v"), w = vs::i32("w"), u = vs::i32("u"); { size_t n = vs::flag("more") ? 300 : 17; std::vector<Handle<I>> h; h.reserve(n); h.emplace_back(make(t, v)); for (size_t i = 1; i < n; ++i) h.push_back(h[i / 2]); size_t p = vs::pick(0, 3, "p") * (n - 1) / 3; write(h[p], a, w); size_t q = p ? 0 : n - 1; bool ok = true; for (size_t i = 0; i < n; ++i) ok = ok & is(h[i], t, i == p ? w : v); CHECK(ok, "a write shows through its handle and no other"); write(h[q], a, u); ok = is(h[p], t, w) & is(h[q], t, u); for (size_t i = 0; i < n; ++i) if (i != p && i != q) ok = ok & is(h[i], t, v); CHECK(ok, "every handle shows its own last write and no other"); for (size_t i = 0; i < n; ++i) if (i != p) h[i] = h[p]; ok = true; for (size_t i = 0; i < n; ++i) ok = ok & is(h[i], t, w); CHECK(ok, "every handle shows its own last write and no other"); CHECK(vs::cnt().live == 1, "no object outlives its handles"); } CHECK(vs::cnt().live == 0 && vs_heap_live() == 0, "everything is destroyed once in the end"); }
