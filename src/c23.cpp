// C23: allocator-aware elements live in their collection's allocator
#include "machine.hpp"
#include <memory_resource>
#include <scoped_allocator>
namespace vp {
const char* const nontrivial_rule =
  "a case drives 2-4 collections over polymorphic_allocator or scoped_allocator_adaptor (three distinguishable resources, propagating or not) with elements that take an allocator (trailing, leading, not assignable, move-only, and one that takes none) "
  "through generated emplacements, insertions, range insertions, erasures, capacity operations, copies, moves, allocator-extended constructions, assignments and swaps; non-trivial when elements pass between collections with unequal allocators";
// resources that know their blocks
struct Res : std::pmr::memory_resource {
  int id; std::map<void*, std::pair<std::size_t, std::size_t>> blocks; explicit Res(int i) : id(i) {}
  void* do_allocate(std::size_t n, std::size_t a) override { void* p = ::operator new(n ? n : 1, std::align_val_t(a)); blocks[p] = {n, a}; return p; }
  void do_deallocate(void* p, std::size_t n, std::size_t a) override { auto it = blocks.find(p); if (it == blocks.end()) world().bad("a block was returned to an allocator it does not come from"); else { if (it->second.first != n || it->second.second != a) world().bad("a block was returned with another size"); blocks.erase(it); } ::operator delete(p, std::align_val_t(a)); }
  bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};
static Res* res(int i) { static Res* r[4] = {new Res(0), new Res(1), new Res(2), new Res(3)}; return r[i]; }   // 0: default
template <class T, int F> struct Sa {
  using value_type = T; using propagate_on_container_copy_assignment = std::bool_constant<(F & 1) != 0>; using propagate_on_container_move_assignment = std::bool_constant<(F & 2) != 0>; using propagate_on_container_swap = std::bool_constant<(F & 4) != 0>; using is_always_equal = std::false_type;
  template <class U> struct rebind { using other = Sa<U, F>; };
  int id; Sa(int i = 0) : id(i) {} Sa(const Sa&) = default; Sa& operator=(const Sa&) = default; template <class U> Sa(const Sa<U, F>& x) : id(x.id) {}
  T* allocate(std::size_t n) { return static_cast<T*>(res(id)->allocate(n * sizeof(T), alignof(T))); } void deallocate(T* p, std::size_t n) { res(id)->deallocate(p, n * sizeof(T), alignof(T)); }
  Sa select_on_container_copy_construction() const { return F & 8 ? Sa(0) : *this; }
  template <class U> bool operator==(const Sa<U, F>& x) const { return id == x.id; } template <class U> bool operator!=(const Sa<U, F>& x) const { return id != x.id; }
};
struct Pmr { template <class T> using al = std::pmr::polymorphic_allocator<T>; using el = al<char>; static constexpr int F = 8; template <class T> static al<T> make(int i) { return al<T>(res(i)); } template <class A> static int id(const A& a) { return static_cast<Res*>(a.resource())->id; } };
template <int FF> struct Sc { template <class T> using al = std::scoped_allocator_adaptor<Sa<T, FF>>; using el = Sa<char, FF>; static constexpr int F = FF; template <class T> static al<T> make(int i) { return al<T>(Sa<T, FF>(i)); } template <class A> static int id(const A& a) { return a.id; } template <class T> static int id(const std::scoped_allocator_adaptor<Sa<T, FF>>& a) { return a.outer_allocator().id; } };
static long live;
template <class Tr> struct Cr {   // an element's own block, from the allocator it was given
  using A = typename Tr::el; int k; A a; char* p; bool given; static constexpr std::size_t N = 24;
  void own() { p = a.allocate(N); p[0] = (char)k; ++live; }
  Cr(int k_, bool) : k(k_), a(Tr::template make<char>(0)), given(false) { own(); } Cr(int k_, const A& a_) : k(k_), a(a_), given(true) { own(); }
  Cr(const Cr& x) : k(x.k), a(x.a), given(x.given) { own(); } ~Cr() { if (p[0] != (char)k) world().bad("an element's block was overwritten"); p[0] = 0; a.deallocate(p, N); k = -3; --live; }
  Cr& operator=(const Cr& x) { k = x.k; p[0] = (char)k; return *this; }   // keeps its allocator
};
#if MODEL == MODEL_BASE
#define KK(n) static constexpr int id = n; int key() const override { return c.k; } int tid() const override { return n; }
#else
#define KK(n) static constexpr int id = n; int key() const { return c.k; } int operator()(int x) const { return c.k + x; }
#endif
template <class Tr> struct Wt final : Iface { using allocator_type = typename Tr::el; using A = allocator_type; Cr<Tr> c; explicit Wt(int k) : c(k, false) {} Wt(int k, const A& a) : c(k, a) {} Wt(const Wt&) = default; Wt(Wt&& x) noexcept : c(x.c) {} Wt(const Wt& x, const A& a) : c(x.c.k, a) {} Wt(Wt&& x, const A& a) : c(x.c.k, a) {} Wt& operator=(const Wt&) = default; KK(0) };
template <class Tr> struct Wl : Iface { using allocator_type = typename Tr::el; using A = allocator_type; using G = std::allocator_arg_t; Cr<Tr> c; long pad[3]; explicit Wl(int k) : c(k, false) {} Wl(G, const A& a, int k) : c(k, a) {} Wl(const Wl&) = default; Wl(Wl&& x) noexcept : c(x.c) {} Wl(G, const A& a, const Wl& x) : c(x.c.k, a) {} Wl(G, const A& a, Wl&& x) : c(x.c.k, a) {} Wl& operator=(const Wl&) = default; KK(1) };
template <class Tr> struct Wn final : Iface { using allocator_type = typename Tr::el; using A = allocator_type; Cr<Tr> c; explicit Wn(int k) : c(k, false) {} Wn(int k, const A& a) : c(k, a) {} Wn(const Wn&) = default; Wn(Wn&& x) noexcept : c(x.c) {} Wn(const Wn& x, const A& a) : c(x.c.k, a) {} Wn(Wn&& x, const A& a) : c(x.c.k, a) {} Wn& operator=(const Wn&) = delete; KK(2) };
template <class Tr> struct Wm final : Iface { using allocator_type = typename Tr::el; using A = allocator_type; Cr<Tr> c; explicit Wm(int k) : c(k, false) {} Wm(int k, const A& a) : c(k, a) {} Wm(const Wm&) = delete; Wm(Wm&& x) noexcept : c(x.c) {} Wm(Wm&& x, const A& a) : c(x.c.k, a) {} Wm& operator=(Wm&& x) noexcept { c = x.c; return *this; } KK(3) };
template <class Tr> struct Wp final : Iface { Cr<Tr> c; explicit Wp(int k) : c(k, false) {} KK(4) };   // takes no allocator

template <class Tr> struct Run {
  using A = typename Tr::template al<Value>; using C = Coll<A>; using L = tlist<Wt<Tr>, Wl<Tr>, Wn<Tr>, Wm<Tr>, Wp<Tr>>;
  struct Slot { C c; std::vector<int> s[5]; int al; Slot(int a) : c(Tr::template make<Value>(a)), al(a) {} };
  std::vector<std::unique_ptr<Slot>> sl; int key = 1; bool nt = false;
  static int id_of(const C& c) { return Tr::id(c.get_allocator()); }
  template <class F> void typed(int i, F&& f) { int n = 0; for_types(L{}, [&](auto t) { if (n == i) f(t); ++n; }); }
  void check(const C& c, const std::vector<int>* m, int al, const char* op) {
    check_problem(op); VP_CHECK(id_of(c) == al, op, ": the collection has allocator ", id_of(c), ", expected ", al); std::size_t tot = 0;
    for_types(L{}, [&](auto t) { using T = typename decltype(t)::type; auto& v = m[T::id]; tot += v.size(); std::size_t z = c.template is_registered<T>() ? c.template size<T>() : 0;
      VP_CHECK(z == v.size(), op, ": segment ", T::id, " holds ", z, " elements, expected ", v.size()); if (!z) return; std::size_t i = 0; auto b = c.begin(typeid(T));
      for (auto& x : c.template segment<T>()) { VP_CHECK(x.c.k == v[i] && key_of(*b) == v[i], op, ": element ", i, " of segment ", T::id, " is ", x.c.k, ", expected ", v[i]);
        if (T::id == 4) VP_CHECK(!x.c.given, op, ": an allocator was passed to a type that takes none"); else VP_CHECK(Tr::id(x.c.a) == al, op, ": element ", i, " of segment ", T::id, " uses allocator ", Tr::id(x.c.a), " in a collection with allocator ", al); ++i; ++b; } });
    VP_CHECK(c.size() == tot, op, ": size ", c.size(), ", expected ", tot);
  }
  static bool uncopyable(const std::vector<int>* m) { return !m[3].empty(); }
  void element(Slot& s) {
    int ix = (int)src().draw(5); const char* nm = "?";
    typed(ix, [&](auto t) {
      using T = typename decltype(t)::type; auto& v = s.s[ix]; auto& c = s.c; c.template register_types<T>(); std::size_t q = src().draw((u32)v.size() + 1); auto ql = (std::ptrdiff_t)q; int k = key; key = key % 100 + 1;
      switch (src().draw(13)) {
        case 0: nm = "emplace"; trace("emplace ", ix); c.template emplace<T>(k); v.push_back(k); break;
        case 1: nm = "emplace_pos"; trace("emplace_pos ", ix, "@", q); c.template emplace_pos<T>(c.begin(typeid(T)) + ql, k); v.insert(v.begin() + ql, k); break;
        case 2: nm = "emplace_pos"; trace("emplace_pos ", ix, "@", q); c.emplace_pos(c.template cbegin<T>() + ql, k); v.insert(v.begin() + ql, k); break;
        case 3: { nm = "insertion of an rvalue"; trace("insert rvalue ", ix, "@", q); T x(k); c.insert(c.template begin<T>() + ql, std::move(x)); v.insert(v.begin() + ql, k); break; }
        case 4: { nm = "insertion of an rvalue"; trace("insert rvalue ", ix); T x(k); c.insert(std::move(x)); v.push_back(k); break; }
        case 5: { if constexpr (std::is_copy_constructible<T>::value) { nm = "insertion of an lvalue"; trace("insert lvalue ", ix, "@", q); const T x(k); c.insert(c.begin(typeid(T)) + ql, x); v.insert(v.begin() + ql, k); } break; }
        case 6: { if constexpr (std::is_copy_constructible<T>::value) { nm = "insertion of own element"; if (v.empty()) break; std::size_t f = src().draw((u32)v.size()); trace("insert own ", ix, " ", f, "->", q); c.insert(c.template begin<T>() + ql, c.template begin<T>()[(std::ptrdiff_t)f]); int kk = v[f]; v.insert(v.begin() + ql, kk); } break; }
        case 7: { if constexpr (std::is_copy_constructible<T>::value) { nm = "insertion of a range"; u32 n = src().draw(5); trace("insert ", n, " of ", ix, "@", q); std::vector<T> x; x.reserve(n); std::vector<int> ks; for (u32 i = 0; i < n; ++i) { x.emplace_back(k + (int)i); ks.push_back(k + (int)i); } if (src().draw(2)) { c.insert(c.template begin<T>() + ql, x.begin(), x.end()); v.insert(v.begin() + ql, ks.begin(), ks.end()); } else { c.insert(x.begin(), x.end()); v.insert(v.end(), ks.begin(), ks.end()); } } break; }
        case 8: case 9: { nm = "erasure"; if (v.empty()) break; q %= v.size(); trace("erase ", ix, "@", q); c.erase(c.template begin<T>() + (std::ptrdiff_t)q); v.erase(v.begin() + (std::ptrdiff_t)q); break; }
        case 10: { nm = "range erasure"; std::size_t e = q + src().draw((u32)(v.size() - q) + 1); trace("erase ", ix, "[", q, ",", e, ")"); c.erase(c.begin(typeid(T)) + ql, c.begin(typeid(T)) + (std::ptrdiff_t)e); v.erase(v.begin() + ql, v.begin() + (std::ptrdiff_t)e); break; }
        case 11: nm = "reserve"; trace("reserve ", ix); c.template reserve<T>(v.size() + src().draw(9)); break;
        default: nm = "shrink_to_fit"; trace("shrink"); c.shrink_to_fit(); break;
      }
    });
    check(s.c, s.s, s.al, nm); label(nm); unit();
  }
  void transfer() {
    Slot& a = *sl[src().draw((u32)sl.size())]; Slot& b = *sl[src().draw((u32)sl.size())]; if (&a == &b) return; const char* nm = "?"; bool any = !b.c.empty(); int nal = 1 + (int)src().draw(3);
    auto cp = [](Slot& d, const Slot& s) { for (int i = 0; i < 5; ++i) d.s[i] = s.s[i]; }; auto wipe = [&](Slot& s) { s.c.clear(); for (auto& v : s.s) v.clear(); };
    u32 op = src().draw(9); if (uncopyable(b.s) && (op == 0 || op == 2 || op == 4 || op == 7)) op = 1;
    switch (op) {
      case 0: { nm = "copy assignment"; trace("copy assign"); a.c = b.c; cp(a, b); if (any && a.al != b.al) nt = true; if (Tr::F & 1) a.al = b.al; break; }
      case 1: case 6: { nm = "move assignment"; trace("move assign"); if (any && a.al != b.al) nt = true; a.c = std::move(b.c); cp(a, b); if (Tr::F & 2) a.al = b.al; check(a.c, a.s, a.al, nm); wipe(b); break; }
      case 2: { nm = "copy construction"; trace("copy"); C d(b.c); check(d, b.s, Tr::F & 8 ? 0 : b.al, nm); if (any && (Tr::F & 8)) nt = true; break; }
      case 3: { nm = "move construction"; trace("move"); C d(std::move(b.c)); check(d, b.s, b.al, nm); b.c = std::move(d); break; }
      case 4: { nm = "allocator-extended copy construction"; trace("copy to ", nal); C d(b.c, Tr::template make<Value>(nal)); check(d, b.s, nal, nm); if (any && nal != b.al) nt = true; break; }
      case 5: { nm = "allocator-extended move construction"; trace("move to ", nal); C d(std::move(b.c), Tr::template make<Value>(nal)); check(d, b.s, nal, nm); if (any && nal != b.al) nt = true; wipe(b); break; }
      case 7: { nm = "insertion of another collection's range"; trace("range from another"); int w = (int)src().draw(3); if (a.c.size() > 150) break; if (any && a.al != b.al) nt = true;
        if (w == 0) { a.c.insert(b.c.begin(), b.c.end()); for (int i = 0; i < 5; ++i) a.s[i].insert(a.s[i].end(), b.s[i].begin(), b.s[i].end()); }
        else { int ix = (int)src().draw(3); typed(ix, [&](auto t) { using T = typename decltype(t)::type; if constexpr (std::is_copy_constructible<T>::value) { if (!b.c.template is_registered<T>()) return; if (w == 1) a.c.insert(b.c.cbegin(typeid(T)), b.c.cend(typeid(T))); else a.c.insert(b.c.template begin<T>(), b.c.template end<T>()); a.s[ix].insert(a.s[ix].end(), b.s[ix].begin(), b.s[ix].end()); } }); }
        break; }
      default: { nm = "swap"; if (!(Tr::F & 4) && a.al != b.al) break; trace("swap"); if (any && a.al != b.al) nt = true; a.c.swap(b.c); for (int i = 0; i < 5; ++i) a.s[i].swap(b.s[i]); if (Tr::F & 4) std::swap(a.al, b.al); }
    }
    check(a.c, a.s, a.al, nm); check(b.c, b.s, b.al, nm); label(nm); unit();
  }
  void go() {
    u32 n = 2 + src().draw(3); for (u32 i = 0; i < n; ++i) sl.push_back(std::make_unique<Slot>(1 + (int)src().draw(3)));
    u32 steps = 3 + src().size(40);
    for (u32 i = 0; i < steps; ++i) { if (src().draw(3)) element(*sl[src().draw((u32)sl.size())]); else transfer(); }
    std::size_t e = 0; for (auto& s : sl) e += s->c.size(); VP_CHECK(live == (long)e, live, " live elements, ", e, " in the collections");
    sl.clear(); check_problem("destruction"); if (nt) nontrivial();
  }
};
void run_case() {
  world().reset(); static bool once = (std::pmr::set_default_resource(res(0)), true); (void)once; live = 0; for (int i = 0; i < 4; ++i) res(i)->blocks.clear();
  switch (src().draw(3)) { case 0: trace("pmr"); label("pmr"); Run<Pmr>().go(); break; case 1: trace("scoped"); label("scoped"); Run<Sc<0>>().go(); break; default: trace("scoped propagating"); label("scoped propagating"); Run<Sc<7>>().go(); }
  VP_CHECK(live == 0, "destruction left ", live, " elements"); for (int i = 0; i < 4; ++i) VP_CHECK(res(i)->blocks.empty(), "blocks of allocator ", i, " were never returned");
}
}
