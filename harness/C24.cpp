//@ quick
//@ thorough
//@ bounds Six dynamic types (a class, a class derived from it, a class with a second base, two wrapped plain classes of which one derives from the other, a class that prints itself) against nine target types, for constant and mutable handles, handles to constant interfaces and shared pointers; arbitrary values; the handle alone or sharing its object. Wrappers built around copied and moved objects; casts out of handles that die afterwards.
//@ outside Mutable extraction from a handle to a constant interface; targets that are ambiguous or inaccessible bases; dynamic_handle_cast between plain Handle types, which does not compile (two declarations are ambiguous).
#include "hnd.hpp"
using namespace Helper;
struct X { int x; virtual ~X() = default; };                                    // a base of nothing here
struct V : A { explicit V(int v) : A(v) {} };
// does an object of dynamic type k (1 A, 2 B, 3 C, 4 W<T>, 5 W<U>, 6 P) contain the target
template <class Z> struct Tgt; 
template <> struct Tgt<A> { static constexpr bool in[] = {0, 1, 1, 0, 0, 0, 0}; static int v(const A& a) { return a.value(); } };
template <> struct Tgt<B> { static constexpr bool in[] = {0, 0, 1, 0, 0, 0, 0}; static int v(const B& a) { return a.value() - 77 + a.extra; } };
template <> struct Tgt<C> { static constexpr bool in[] = {0, 0, 0, 1, 0, 0, 0}; static int v(const C& a) { return a.value(); } };
template <> struct Tgt<T> { static constexpr bool in[] = {0, 0, 0, 0, 1, 1, 0}; static int v(const T& a) { return a.x.v; } };
template <> struct Tgt<U> { static constexpr bool in[] = {0, 0, 0, 0, 0, 1, 0}; static int v(const U& a) { return a.x.v - 5 + a.more; } };
template <> struct Tgt<WT> { static constexpr bool in[] = {0, 0, 0, 0, 1, 0, 0}; static int v(const WT& a) { return a.value(); } };
template <> struct Tgt<P> { static constexpr bool in[] = {0, 0, 0, 0, 0, 0, 1}; static int v(const P& a) { return a.value(); } };
template <> struct Tgt<V> { static constexpr bool in[] = {0, 0, 0, 0, 0, 0, 0}; static int v(const V& a) { return a.value(); } };
template <> struct Tgt<X> { static constexpr bool in[] = {0, 0, 0, 0, 0, 0, 0}; static int v(const X& a) { return a.x; } };
template <class Z> static bool part(const I* i, const Z* p) { const char* b = (const char*)dynamic_cast<const void*>(i); return (const char*)p >= b && (const char*)p < b + 512; }
template <class Z> static void constant(int k, int v, int how) { const bool want = Tgt<Z>::in[k]; Handle<I> h(make(k, v)); std::optional<Handle<I>> g; if (how == 1 || how == 3) g.emplace(h); const I* o = h.raw_const_pointer(); const Z* p = nullptr; long n = vs::cnt().live; int r = vs::outcome<std::bad_cast>([&] { if (how < 2) { const Handle<I>& c = h; p = &dynamic_handle_extract<Z>(c); } else { const Handle<const I> c(h); p = &dynamic_handle_extract<Z>(c); } }); CHECK(r == (want ? 0 : 1), "extraction succeeds exactly when the object is or wraps the target type, and throws bad_cast otherwise"); CHECK(h.raw_const_pointer() == o && vs::cnt().live == n && o->kind() == k && o->value() == v, "extraction through a constant handle changes nothing"); if (p) { CHECK(part<Z>(o, p), "extraction gives the handle's own object"); CHECK(Tgt<Z>::v(*p) == v, "extraction gives the object's value"); vs_reach("found"); } else vs_reach("not found"); }
template <class Z> static void mutable_(int k, int v, int how) { const bool want = Tgt<Z>::in[k]; Handle<I> h(make(k, v)); std::optional<Handle<I>> g; if (how) g.emplace(h); Z* p = nullptr; int r = vs::outcome<std::bad_cast>([&] { p = &dynamic_handle_extract<Z>(h); }); CHECK(r == (want ? 0 : 1), "extraction from a mutable handle succeeds exactly when the object is or wraps the target type, and throws bad_cast otherwise"); const I* o = h.raw_const_pointer(); CHECK(o->kind() == k && o->value() == v && (!how || (g->raw_const_pointer()->kind() == k && g->raw_const_pointer()->value() == v)), "the objects are as before"); if (p) { CHECK(part<Z>(o, p), "extraction gives the handle's own object"); CHECK(Tgt<Z>::v(*p) == v, "extraction gives the object's value"); int w = vs::i32("w"); if constexpr (requires { p->x.v; }) p->x.v = w; CHECK(o->value() == w && Tgt<Z>::v(*p) == w, "a write shows through the handle"); if (how) CHECK(g->raw_const_pointer()->value() == v, "a write through an extracted reference does not reach another handle"); vs_reach("found mutable"); } }
template <class Z> static void pointer(int k, int v, int how) { const bool want = Tgt<Z>::in[k]; std::shared_ptr<const I> i(make(k, v)); { std::shared_ptr<const Z> p = dynamic_pointer_extract<Z>(i); CHECK((p != nullptr) == want, "dynamic_pointer_extract gives null exactly when the object is not of the type"); if (p) { CHECK(part<Z>(i.get(), p.get()) && Tgt<Z>::v(*p) == v, "dynamic_pointer_extract gives the same object"); CHECK(i.use_count() == 2, "the pointers share the object"); if (how) { i.reset(); CHECK(Tgt<Z>::v(*p) == v, "the extracted pointer keeps the object alive"); } } else CHECK(i.use_count() == 1 && i->value() == v, "the pointer given is unchanged"); } }
template <class Z> static void null() { std::shared_ptr<const I> i; CHECK(dynamic_pointer_extract<Z>(i) == nullptr, "a null pointer gives a null pointer"); }
template <class Z> struct Run { static void go(int what, int k, int v, int how) { if (what == 0) constant<Z>(k, v, how); else if (what == 1) { if constexpr (!std::is_same<Z, X>::value) mutable_<Z>(k, v, how); else { Handle<I> h(make(k, v)); int r = vs::outcome<std::bad_cast>([&] { dynamic_handle_extract<X>(h); }); CHECK(r == 1 && h.raw_const_pointer()->value() == v, "an unrelated class is never found"); } } else if (what == 2) pointer<Z>(k, v, how); else null<Z>(); } };
static void all(int what, int nhow) { int k = vs::pick(1, 6, "type"), t = vs::pick(0, 8, "target"), how = vs::pick(0, nhow, "how"); int v = vs::i32("v"); switch (t) { case 0: Run<A>::go(what, k, v, how); break; case 1: Run<B>::go(what, k, v, how); break; case 2: Run<C>::go(what, k, v, how); break; case 3: Run<T>::go(what, k, v, how); break; case 4: Run<U>::go(what, k, v, how); break; case 5: Run<WT>::go(what, k, v, how); break; case 6: Run<P>::go(what, k, v, how); break; case 7: Run<V>::go(what, k, v, how); break; default: Run<X>::go(what, k, v, how); } CHECK(vs::cnt().live == 0 && vs_heap_live() == 0, "everything is destroyed once in the end"); }
TEST(constant_handle) { all(0, 3); }
TEST(mutable_handle) { all(1, 1); }
TEST(pointer) { all(2, 1); }
TEST(null_pointer) { all(3, 0); }
// dynamic_handle_cast for classes built on Handle
template <class J> struct Hnd : Handle<J> { using Handle<J>::Handle; Hnd(Handle<J> h) : Handle<J>(h) {} typedef J Interface; };
TEST(handle_cast) { int k = vs::pick(1, 6, "type"), t = vs::pick(0, 2, "target"), v = vs::i32("v"); { const Hnd<I> h(Handle<I>(make(k, v))); const I* o = h.raw_const_pointer(); const bool want = t == 0 ? k <= 2 : t == 1 ? k == 2 : k == 6; int r = vs::outcome<std::bad_cast>([&] { auto look = [&](auto c) { CHECK(c.const_reference().value() == v && c.const_reference().kind() == k && dynamic_cast<const void*>(c.raw_const_pointer()) == dynamic_cast<const void*>(o), "a cast handle refers to the same object"); }; if (t == 0) look(dynamic_handle_cast<Hnd<const A>>(h)); else if (t == 1) look(dynamic_handle_cast<Hnd<const B>>(h)); else look(dynamic_handle_cast<Hnd<const P>>(h)); }); CHECK(r == (want ? 0 : 1), "a handle cast succeeds exactly when the object is of the type, and throws bad_cast otherwise"); CHECK(h.raw_const_pointer() == o && o->value() == v, "the handle is unchanged"); } CHECK(vs::cnt().live == 0 && vs_heap_live() == 0, "everything is destroyed once in the end"); }
// a wrapper holds the object it was built from, copied or moved, and extraction gives it
struct WM : Wrapper<T, I> { explicit WM(const T& t) : Wrapper<T, I>(t) {} explicit WM(T&& t) : Wrapper<T, I>(std::move(t)) {} WM* clone() const override { return new WM(*this); } WM* _copy() const override { return new WM(*this); } WM* _move() override { return new WM(std::move(*this)); } void set(int w) override { x.v = w; } int value() const override { return x.v; } int kind() const override { return 7; } };
TEST(wrapping) { int v = vs::i32("v"), w = vs::i32("w"); bool mv = vs::flag("move"), more = vs::flag("more"); { T t(v); std::optional<Handle<I>> h, g; if (mv) h.emplace(new WM(std::move(t))); else h.emplace(new WM(t)); CHECK(t.x.moved == mv && t.x.v == v, "a wrapper copies an lvalue and moves an rvalue"); if (more) g.emplace(*h); const Handle<I>& c = *h; const T& e = dynamic_handle_extract<T>(c); CHECK(e.x.v == v && &e != &t, "extraction gives the wrapped object"); T& m = dynamic_handle_extract<T>(*h); m.x.v = w; CHECK(h->const_reference().value() == w && dynamic_handle_extract<T>(c).x.v == w && t.x.v == v, "a write shows through the handle"); if (more) CHECK(g->const_reference().value() == v && g->const_reference().kind() == 7, "a write through an extracted reference does not reach another handle"); int r = vs::outcome<std::bad_cast>([&] { dynamic_handle_extract<WT>(c); }); CHECK(r == 1, "another wrapper of the class is not found"); } CHECK(vs::cnt().live == 0 && vs_heap_live() == 0, "everything is destroyed once in the end"); }
TEST(handle_cast_lives) { int k = vs::pick(1, 2, "type"), v = vs::i32("v"), w = vs::i32("w"); bool end = vs::flag("end"); { std::optional<Hnd<I>> h; h.emplace(Handle<I>(make(k, v))); const Hnd<I>& c = *h; Hnd<const A> a = dynamic_handle_cast<Hnd<const A>>(c); if (end) h.reset(); else h->reference().set(w); CHECK(a.const_reference().value() == v && a.const_reference().kind() == k, "a cast handle keeps its object when the first one is written or goes"); if (!end) CHECK(c.const_reference().value() == w, "the write shows through the first handle"); Hnd<const A> b(a); CHECK(b.const_reference().value() == v, "a copy of a cast handle"); } CHECK(vs::cnt().live == 0 && vs_heap_live() == 0, "everything is destroyed once in the end"); }
