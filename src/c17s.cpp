// C17, in steps: what operations do besides element operations (index maintenance, searches, walks), counted as
// executed control-flow edges of the instrumented program rather than measured in time
#include "model.hpp"
#include "machine.hpp"
#include <boost/poly_collection/algorithm.hpp>
#include <cstdint>
static std::uint64_t vp_edges = 0;
extern "C" __attribute__((no_sanitize("coverage"))) void __sanitizer_cov_trace_pc_guard(std::uint32_t*) { ++vp_edges; }
extern "C" __attribute__((no_sanitize("coverage"))) void __sanitizer_cov_trace_pc_guard_init(std::uint32_t* b, std::uint32_t* e) { for (; b < e; ++b) *b = 1; }
namespace vp {
const char* const nontrivial_rule =
  "a case builds a collection with one to four segments of up to 12000 light elements and measures generated operations in executed control-flow edges (deterministic, not time) against the documented complexity: constant "
  "operations against a constant, operations at a position against a constant plus a multiple of the distance to the end of the segment and of the elements involved, operations on a range against a multiple of its length; "
  "non-trivial when some segment holds at least 3000 elements, more than any of the constants allows to walk";
#if MODEL == MODEL_BASE
#define LK int key() const override { return k; } int tid() const override { return id; }
#else
#define LK int key() const { return k; } int operator()(int x) const { return k + x; }
#endif
template <int I, int P> struct Lt final : Iface { static constexpr int id = I; int k; char pad[P]; explicit Lt(int k_) : k(k_) {} LK bool operator==(const Lt& x) const { return k == x.k; } };
template <int I> struct Ls final : Iface { static constexpr int id = I; int k; std::vector<int>* q = nullptr; explicit Ls(int k_) : k(k_) {} Ls(const Ls& x) : k(x.k) {} Ls(Ls&& x) noexcept : k(x.k) {} Ls& operator=(const Ls& x) { k = x.k; return *this; } ~Ls() { k = -1; } LK bool operator==(const Ls& x) const { return k == x.k; } };
template <int I> struct Lm final : Iface { static constexpr int id = I; int k; explicit Lm(int k_) : k(k_) {} Lm(const Lm& x) : k(x.k) {} Lm(Lm&& x) noexcept : k(x.k) {} ~Lm() { k = -1; } LK bool operator==(const Lm& x) const { return k == x.k; } }; // not assignable
using L = tlist<Lt<0, 4>, Lt<1, 40>, Ls<2>, Lm<3>>;
using C = Coll<>;
constexpr long FIX = 800;     // constant part: calls, dispatch, lookups; measured: up to 200
constexpr long SEG = 60;      // per segment
constexpr long EL = 40;        // per element that the operation may touch
static long segs(const C& c) { long n = 0; for (auto x : c.segment_traversal()) { (void)x; ++n; } return n; }
template <class F> void within(const C& c, const char* nm, long els, F&& f) {
  long ns = segs(c); std::uint64_t a = vp_edges; f(); std::uint64_t b = vp_edges;
  long lim = FIX + SEG * ns + EL * els;
  VP_CHECK((long)(b - a) <= lim, nm, ": ", (long)(b - a), " steps, bound ", lim, " for ", els, " elements involved (", c.size(), " elements in ", ns, " segments)");
  unit(); label(nm);
}
static volatile long sink;
template <class T> void one(C& c) {
  long n = (long)c.template size<T>();
  auto dist = [&] { return (long)src().draw((u32)std::min<long>(n, 12) + 1); };
  auto room = [&] { if ((long)c.template capacity<T>() == n) c.template reserve<T>((std::size_t)n + 1 + src().draw(50)); };
  int k = (int)src().draw(50);
  auto op = src().draw(17);
  trace("op ", op, " ", typeid(T).name(), "(", n, ")");
  switch (op) {
    case 0: { // at the end, with capacity
      room(); T x(k); int w = (int)src().draw(9); auto it = c.end(); auto b = c.begin(); trace("way ", w);
      bool hint_here = n && w == 5; long d = 0; if (hint_here) d = n; // (hint: the first element of the collection might belong to this segment)
      within(c, "insertion at the end", d, [&] { switch (w) {
        case 0: c.template emplace<T>(k); break; case 1: c.insert(x); break; case 2: c.insert(std::move(x)); break; case 3: { const auto& y = iface_of(x); c.insert(y); break; }
        case 4: c.template emplace_hint<T>(it, k); break; case 5: c.insert(b, x); break; case 6: c.emplace_pos(c.template end<T>(), k); break;
        case 7: c.template emplace_pos<T>(c.end(typeid(T)), k); break; default: c.insert(c.template cend<T>(), x); } });
      break;
    }
    case 1: case 2: { // near the end, with capacity
      room(); long d = dist(); T x(k); int w = (int)src().draw(6); trace("d ", d, " way ", w);
      auto p = c.template end<T>() - d; auto q = c.cend(typeid(T)) - d; auto g = c.end(); if (w == 5) { for (g = c.begin(); g != c.end(); ++g) if (info_of(*g) == typeid(T)) break; if (g != c.end()) std::advance(g, n - d); if (d == 0) { g = c.end(); } }
      within(c, "insertion near the end", d, [&] { switch (w) { case 0: c.emplace_pos(p, k); break; case 1: c.insert(p, x); break; case 2: c.template emplace_pos<T>(q, k); break; case 3: c.insert(q, x); break; case 4: c.insert(p, std::move(x)); break; default: c.insert(g, x); } });
      break;
    }
    case 3: case 4: { // erasure near the end
      if (!n) return; long d = 1 + (long)src().draw((u32)std::min<long>(n, 12)), m = 1 + (long)src().draw((u32)d); if (src().draw(2)) m = 1; int w = (int)src().draw(6); trace("d ", d, " m ", m, " way ", w);
      auto p = c.template end<T>() - d; auto q = c.cend(typeid(T)) - d; auto g = c.end(); if (w == 4 || w == 5) { for (g = c.begin(); info_of(*g) != typeid(T); ++g); std::advance(g, n - d); } auto h = g; if (w == 5) std::advance(h, m);
      within(c, "erasure near the end", d, [&] { switch (w) { case 0: c.erase(p); break; case 1: c.erase(p, p + m); break; case 2: c.erase(q); break; case 3: c.erase(q, q + m); break; case 4: c.erase(g); break; default: c.erase(g, h); } });
      break;
    }
    case 5: { // observers
      const C& cc = c;
      within(c, "observers", 0, [&] { long s = 0; s += (long)cc.template size<T>() + (long)cc.size(typeid(T)) + (long)cc.template capacity<T>() + (long)cc.capacity(typeid(T)) + (long)cc.max_size(typeid(T)) + (long)cc.template max_size<T>() + cc.template empty<T>() + cc.empty(typeid(T)) + cc.is_registered(typeid(T)) + cc.template is_registered<T>(); sink = s; });
      within(c, "size of the collection", 0, [&] { sink = (long)cc.size() + cc.empty(); });
      break;
    }
    case 6: { // iterators
      const C& cc = c;
      within(c, "iterators", 0, [&] { auto a = c.template begin<T>(); auto b = c.template end<T>(); auto x = cc.begin(typeid(T)); auto y = cc.end(typeid(T)); sink = (b - a) + (y - x) + (a < b) + (x == y); a += n / 2; x += n / 2; sink = (b - a) + (y - x); if (n / 2 < n) { sink = a->key() + key_of(*x) + a[0].key() + key_of(x[0]); ++a; ++x; --a; --x; } auto s = cc.template segment<T>(); sink = s.end() - s.begin(); auto t = c.segment(typeid(T)); sink = t.end() - t.begin(); });
      within(c, "global iterators", 0, [&] { auto a = cc.begin(); auto b = cc.end(); sink = a == b; if (a != b) { sink = key_of(*a); ++a; sink = a == b; } (void)c.begin(); (void)c.end(); });
      break;
    }
    case 7: { // reserve within capacity
      std::size_t m = src().draw((u32)c.template capacity<T>() + 1); bool ty = src().draw(2);
      within(c, "reserve within capacity", 0, [&] { if (ty) c.template reserve<T>(m); else c.reserve(typeid(T), m); }); break;
    }
    case 8: { // moves and swaps
      int w = (int)src().draw(5); C d; C e; if (src().draw(2)) { d.template emplace<T>(1); e.template emplace<T>(2); e.clear(); }
      long dn = (long)d.size(); trace("way ", w);
      within(c, "move or swap", dn, [&] { switch (w) { case 0: { C f(std::move(c)); c.swap(f); break; } case 1: c.swap(e); c.swap(e); break; case 2: d = std::move(c); c.swap(d); break; case 3: { C f(std::move(c), d.get_allocator()); swap(c, f); break; } default: { C f(std::move(c)); c = std::move(f); } } });
      break;
    }
    case 9: { // ranges appended, with capacity
      long m = (long)src().draw(20); std::vector<T> v; for (long i = 0; i < m; ++i) v.emplace_back((int)i); c.template reserve<T>((std::size_t)(n + m)); C o; o.insert(v.begin(), v.end()); o.template register_types<T>(); int w = (int)src().draw(4); trace("m ", m, " way ", w);
      within(c, "ranges appended", 8 * m, [&] { switch (w) { case 0: c.insert(v.begin(), v.end()); break; case 1: c.insert(o.begin(), o.end()); break; case 2: c.insert(o.cbegin(typeid(T)), o.cend(typeid(T))); break; default: c.insert(o.template begin<T>(), o.template end<T>()); } });
      break;
    }
    case 10: { // ranges near the end, with capacity: no more than the element-wise equivalent
      long m = (long)src().draw(12), d = dist(); std::vector<T> v; for (long i = 0; i < m; ++i) v.emplace_back((int)i); c.template reserve<T>((std::size_t)(n + m)); C o; o.template register_types<T>(); o.insert(v.begin(), v.end()); int w = (int)src().draw(4); trace("m ", m, " d ", d, " way ", w);
      auto p = c.template end<T>() - d; auto q = c.cend(typeid(T)) - d;
      within(c, "range near the end", (m + 1) * (d + m + 4), [&] { switch (w) { case 0: c.insert(p, v.begin(), v.end()); break; case 1: c.insert(q, o.begin(typeid(T)), o.end(typeid(T))); break; case 2: c.insert(p, o.begin(), o.end()); break; default: c.insert(p, o.template begin<T>(), o.template end<T>()); } });
      break;
    }
    case 11: { // a range erased by global iterators
      long tot = (long)c.size(); if (!tot) return; long a = src().draw((u32)tot), b = a + src().draw((u32)std::min<long>(tot - a, 3000) + 1);
      auto f = c.begin(); std::advance(f, a); auto l = f; std::advance(l, b - a); long tail = 0;
      if (l != c.end()) { const std::type_info& ti = info_of(*l); const void* ad = addr_of(*l); auto e = c.cend(ti); for (auto i = c.cbegin(ti); i != e; ++i) if (addr_of(*i) == ad) { tail = e - i; break; } }
      if (tail > 400) return;
      trace("[", a, ",", b, ")/", tot);
      within(c, "global range erasure", (b - a) + tail, [&] { c.erase(f, l); }); break;
    }
    case 12: { // whole-segment and whole-collection operations: linear
      long tot = (long)c.size(); int w = (int)src().draw(7); trace("way ", w); C d; if (w == 1) d.template emplace<T>(1);
      within(c, "linear operation", (w <= 3 ? 2 * tot : 2 * n) + (long)d.size(), [&] { switch (w) { case 0: { C e(c); sink = (long)e.size(); break; } case 1: d = c; break; case 2: sink = c == c; break; case 3: c.shrink_to_fit(); break; case 4: c.template shrink_to_fit<T>(); break; case 5: c.template reserve<T>((std::size_t)n * 2 + 1); break; default: c.template clear<T>(); } });
      break;
    }
    case 13: case 14: { // algorithms on a short range of a long collection
      long tot = (long)c.size(); long a = src().draw((u32)tot + 1), m = src().draw((u32)std::min<long>(tot - a, 20) + 1); auto f = c.begin(); std::advance(f, a); auto l = f; std::advance(l, m); int w = (int)src().draw(8); trace("[", a, "+", m, ") way ", w);
      const C& cc = c; (void)cc; namespace pc = boost::poly_collection; long s = 0; auto no = [](const auto&) { return false; }; auto yes = [](const auto&) { return true; };
      within(c, "algorithm on a short range", 2 * m, [&] { switch (w) { case 0: pc::for_each(f, l, [&](const auto&) { ++s; }); break; case 1: s = pc::count_if<T>(f, l, yes); break; case 2: s = pc::find_if(f, l, no) == l; break; case 3: s = pc::all_of<T>(f, l, yes); break; case 4: s = pc::none_of(f, l, no); break; case 5: s = pc::any_of(f, l, no); break; case 6: pc::for_each<Lt<0, 4>, Lt<1, 40>, Ls<2>, Lm<3>>(f, l, [&](const auto&) { ++s; }); break; default: s = pc::for_each_n(f, m, [&](const auto&) { ++s; }) == l; } sink = s; });
      break;
    }
    case 15: { // traversal
      long tot = (long)c.size(); const C& cc = c; int w = (int)src().draw(4);
      within(c, "traversal", tot, [&] { long s = 0; if (w == 0) for (const auto& x : cc) s += key_of(x); else if (w == 1) for (auto sg : cc.segment_traversal()) for (const auto& x : sg) s += key_of(x); else if (w == 2) for (const auto& x : cc.template segment<T>()) s += x.key(); else for (auto& x : c.segment(typeid(T))) s += key_of(x); sink = s; });
      break;
    }
    default: { // registration
      within(c, "registration", 0, [&] { c.template register_types<T>(); c.template register_types<Lt<7, 4>, Lt<8, 4>>(); }); break;
    }
  }
}
void run_case() {
  C c; bool big = false; u32 ns = 1 + src().draw(4);
  for (u32 i = 0; i < ns; ++i) with_type(L{}, (int)src().draw(L::size), [&](auto t) {
    using T = typename decltype(t)::type; long n = src().chance(3, 4) ? 3000 + (long)src().draw(3000) : (long)src().draw(40); if (src().chance(1, 10)) n += 5000; if ((long)c.size() > 9000) n = std::min<long>(n, 100);
    if (src().draw(2)) c.template reserve<T>((std::size_t)n); for (long j = 0; j < n; ++j) c.template emplace<T>((int)(j % 50)); trace("fill ", typeid(T).name(), " ", n); if (n >= 3000) big = true; });
  u32 ops = 1 + src().draw(6);
  for (u32 i = 0; i < ops; ++i) with_type(L{}, (int)src().draw(L::size), [&](auto t) { using T = typename decltype(t)::type; c.template register_types<T>(); one<T>(c); });
  if (big) nontrivial();
}
}
