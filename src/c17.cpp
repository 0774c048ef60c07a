// C17: costs of operations, in element operations and allocations
#include "multi.hpp"
#if MODEL != MODEL_BASE
#endif
namespace vp {
const char* const nontrivial_rule =
  "a case builds a collection with a generated number of elements (up to 800 per segment) in several segments and measures one or more generated operations in element operations (value constructions, copies, moves, "
  "assignments, destructions, comparisons) and allocations against linear bounds with generous constants; non-trivial when the measured segment or range has at least 32 elements";
using A = Al<Value, 7>;
using L = tlist<T0, T1, T3, T5, T6, Tn<2>, Tn<6>>;
using C = Coll<A>;
struct Cost { long val, copy, move, assign, dtor, eq, alloc; long moves() const { return copy + move + assign; } long all() const { return val + copy + move + assign + dtor; } };
static Cost now() { auto& w = world(); return {(long)w.n_value, (long)w.n_copy, (long)w.n_move, (long)w.n_assign, (long)w.n_dtor, (long)w.n_eq, (long)w.n_alloc}; }
template <class F> Cost cost(F&& f) { Cost a = now(); f(); Cost b = now(); return {b.val - a.val, b.copy - a.copy, b.move - a.move, b.assign - a.assign, b.dtor - a.dtor, b.eq - a.eq, b.alloc - a.alloc}; }
static void bound(long got, long limit, const char* op, const char* what, long n) {
  VP_CHECK(got <= limit, op, ": ", got, " ", what, ", bound ", limit, " (size ", n, ")");
  unit();
}
static int g_key = 1;
template <class T> void fill(C& c, std::size_t n) { for (std::size_t i = 0; i < n; ++i) c.template emplace<T>(g_key++); }
static long lg(long n) { long r = 0; while (n > 0) { ++r; n >>= 1; } return r; }
static std::size_t draw_n() { u32 k = src().draw(4); return k == 0 ? src().draw(8) : k == 1 ? 32 + src().draw(64) : k == 2 ? 100 + src().draw(200) : 300 + src().draw(500); }

template <class T> void one(C& c) {
  int op = (int)src().draw(17);
  std::size_t n0 = c.template is_registered<T>() ? c.template size<T>() : 0;
  long n = (long)n0;
  const char* nm = "?";
  std::size_t total = c.size();
  switch (op) {
    case 0: case 1: { // append one by one
      nm = "appending"; std::size_t m = draw_n(); long lm = (long)m;
      int w = (int)src().draw(5);
      trace(nm, " ", tname(T::id), " x", m, " to ", n, " way ", w);
      Cost k = cost([&] { for (std::size_t i = 0; i < m; ++i) {
        if (w == 0) c.template emplace<T>(g_key++);
        else if (w == 1) c.insert(T(g_key++));
        else if (w == 2) { T x(g_key++); c.insert(static_cast<const T&>(x)); }
        else if (w == 3) { T x(g_key++); if (c.template is_registered<T>()) { const auto& y = iface_of(x); c.insert(y); } else c.insert(x); }
        else c.template emplace_hint<T>(c.end(), g_key++);
      } });
      bound(k.moves(), 8 * lm + 4 * n + 16, nm, "copies, moves and assignments", lm);
      bound(k.dtor, 12 * lm + 4 * n + 16, nm, "destructions", lm);
      bound(k.alloc, 12 * lg(lm + n) + 24, nm, "allocations", lm);
      if (m >= 32) nontrivial(); break;
    }
    case 2: { // append within reserved capacity
      nm = "appending within capacity"; std::size_t m = draw_n();
      trace(nm, " ", tname(T::id), " x", m);
      c.template reserve<T>(n0 + m);
      Cost k = cost([&] { for (std::size_t i = 0; i < m; ++i) c.template emplace<T>(g_key++); });
      bound(k.moves(), 2 * (long)m, nm, "copies, moves and assignments", (long)m); bound(k.alloc, 0, nm, "allocations", (long)m);
      if (m >= 32) nontrivial(); break;
    }
    case 3: case 4: { // insertion at a position
      nm = "insertion at a position"; if (!c.template is_registered<T>()) return;
      std::size_t p = src().draw((u32)n0 + 1); if (src().draw(2)) p = n0 - src().draw((u32)std::min<std::size_t>(n0, 6) + 1);
      bool cap = c.template capacity<T>() > n0; int w = (int)src().draw(4);
      trace(nm, " ", tname(T::id), "@", p, "/", n, cap ? "" : " full");
      Cost k = cost([&] {
        auto d = (std::ptrdiff_t)p;
        if (w == 0) c.template emplace_pos<T>(c.begin(typeid(T)) + d, g_key++);
        else if (w == 1) c.emplace_pos(c.template begin<T>() + d, g_key++);
        else if (w == 2) c.insert(c.template cbegin<T>() + d, T(g_key++));
        else { T x(g_key++); c.insert(c.cbegin(typeid(T)) + d, x); }
      });
      long dist = cap ? n - (long)p : n;
      bound(k.moves(), 4 * dist + 10, nm, "copies, moves and assignments", dist); bound(k.dtor, 4 * dist + 10, nm, "destructions", dist); bound(k.alloc, cap ? 2 : 8, nm, "allocations", dist);
      if (n >= 32) nontrivial(); break;
    }
    case 5: case 6: { // erasure
      nm = "erasure"; if (!n) return;
      std::size_t a = src().draw((u32)n0), b = a + src().draw((u32)(n0 - a) + 1); if (src().draw(2)) b = std::min(n0, a + 1);
      if (src().draw(3) == 0) { b = n0; a = n0 - src().draw((u32)std::min<std::size_t>(n0, 4) + 1); }
      trace(nm, " ", tname(T::id), "[", a, ",", b, ")/", n);
      Cost k = cost([&] {
        auto f = c.template begin<T>() + (std::ptrdiff_t)a; auto l = c.template begin<T>() + (std::ptrdiff_t)b;
        if (b == a + 1 && src().draw(2)) c.erase(f); else if (src().draw(2)) c.erase(f, l); else c.erase(c.begin(typeid(T)) + (std::ptrdiff_t)a, c.begin(typeid(T)) + (std::ptrdiff_t)b);
      });
      long tail = n - (long)b, gone = (long)(b - a);
      bound(k.moves(), 3 * tail + 4, nm, "copies, moves and assignments", tail); bound(k.dtor, gone + 3 * tail + 4, nm, "destructions", gone); bound(k.alloc, 0, nm, "allocations", gone);
      if (n >= 32) nontrivial(); break;
    }
    case 7: { // global range erasure
      nm = "global range erasure"; if (!total) return;
      std::size_t a = src().draw((u32)total), b = a + src().draw((u32)(total - a) + 1);
      auto f = c.begin(); std::advance(f, (std::ptrdiff_t)a); auto l = f; std::advance(l, (std::ptrdiff_t)(b - a));
      long tail = 0; if (l != c.end()) { const std::type_info& ti = info_of(*l); auto e = c.cend(ti); auto i = c.cbegin(ti); const void* ad = addr_of(*l); while (i != e && addr_of(*i) != ad) ++i; tail = (long)(e - i); }
      trace(nm, " [", a, ",", b, ")/", total);
      Cost k = cost([&] { c.erase(f, l); });
      bound(k.moves(), 3 * tail + 4, nm, "copies, moves and assignments", tail); bound(k.dtor, (long)(b - a) + 3 * tail + 4, nm, "destructions", (long)(b - a));
      if (b - a >= 32) nontrivial(); break;
    }
    case 8: { // ranges appended again and again
      nm = "appending ranges"; std::size_t m = 1 + draw_n() / 2, rl = 1 + src().draw(6); long lm = (long)m;
      C o(A(c.get_allocator())); fill<T>(o, rl);
      std::vector<int> src_v; std::vector<T> v; v.reserve(rl); for (std::size_t i = 0; i < rl; ++i) v.emplace_back(g_key++);
      int w = (int)src().draw(4);
      trace(nm, " ", tname(T::id), " ", rl, " x", m, " way ", w);
      Cost k = cost([&] { for (std::size_t i = 0; i < m; ++i) { if (w == 0) c.insert(o.begin(), o.end()); else if (w == 1) c.insert(o.begin(typeid(T)), o.end(typeid(T))); else if (w == 2) c.insert(o.template cbegin<T>(), o.template cend<T>()); else c.insert(v.begin(), v.end()); } });
      long tot = lm * (long)rl;
      bound(k.moves(), 10 * tot + 4 * n + 16, nm, "copies, moves and assignments", tot); bound(k.alloc, 12 * lg(tot + n) + 24, nm, "allocations", tot);
      if (tot >= 32) nontrivial(); break;
    }
    case 9: { // a range at a local position: at most one positioned insertion per element
      nm = "range insertion at a position"; if (!c.template is_registered<T>()) return;
      std::size_t m = src().draw(2) ? src().draw(8) : draw_n() / 4, p = n0 - src().draw((u32)std::min<std::size_t>(n0, 40) + 1); std::vector<T> v; v.reserve(m); for (std::size_t i = 0; i < m; ++i) v.emplace_back(g_key++);
      long dist = n - (long)p, lm = (long)m;
      trace(nm, " ", tname(T::id), " x", m, "@", p, "/", n);
      Cost k = cost([&] { c.insert(c.template begin<T>() + (std::ptrdiff_t)p, v.begin(), v.end()); });
      bound(k.moves(), 4 * lm * dist + 8 * lm + 4 * n + 16, nm, "copies, moves and assignments", lm * dist); bound(k.alloc, 2 * lm + 12 * lg(lm + n) + 24, nm, "allocations", lm);
      if (n >= 32 && m) nontrivial(); break;
    }
    case 10: { // copies
      nm = "copy"; trace(nm, " of ", total);
      C d(c.get_allocator()); if (src().draw(2)) { C e(c); d.swap(e); d.template emplace<T>(g_key++); d.clear(); }
      int w = (int)src().draw(3); long dn = (long)d.size();
      Cost k = cost([&] { if (w == 0) { C e(c); } else if (w == 1) d = c; else { C e(c, c.get_allocator()); } });
      bound(k.copy, (long)total, nm, "copies", (long)total); bound(k.moves(), 3 * (long)total + 8, nm, "copies and moves", (long)total); bound(k.dtor, 4 * (long)total + dn + 8, nm, "destructions", (long)total);
      if (total >= 32) nontrivial(); break;
    }
    case 11: { // moves and swaps with equal allocators do not touch elements
      nm = "move or swap"; trace(nm, " of ", total);
      int w = (int)src().draw(6); C d(c.get_allocator()); if (src().draw(2)) fill<T>(d, src().draw(40));
      long dn = (long)d.size();
      Cost k = cost([&] {
        if (w == 0) { C e(std::move(c)); c = std::move(e); }
        else if (w == 1) { d.swap(c); }
        else if (w == 2) { using std::swap; swap(c, d); swap(d, c); }
        else if (w == 3) { C e(std::move(c), d.get_allocator()); c.swap(e); }
        else if (w == 4) { d = std::move(c); }
        else { C e(std::move(c)); d = std::move(e); }
      });
      if (w == 1 || w >= 4) c.swap(d);
      bound(k.moves(), 0, nm, "element copies, moves or assignments", (long)total); bound(k.val, 0, nm, "element constructions", (long)total); bound(k.dtor, w >= 4 ? dn : 0, nm, "element destructions", (long)total);
      if (w == 1 || w >= 4) VP_CHECK(c.size() == total, "move or swap lost elements");
      if (total >= 32) nontrivial(); break;
    }
    case 12: { nm = "clear of a segment"; if (!c.template is_registered<T>()) return; trace(nm, " ", n); Cost k = cost([&] { if (src().draw(2)) c.template clear<T>(); else c.clear(typeid(T)); }); bound(k.dtor, n, nm, "destructions", n); bound(k.moves() + k.val, 0, nm, "other element operations", n); if (n >= 32) nontrivial(); break; }
    case 13: { nm = "reserve/shrink_to_fit"; if (!c.template is_registered<T>()) return; int w = (int)src().draw(3); trace(nm, " ", w);
      std::size_t m = n0 + src().draw(100);
      Cost k = cost([&] { if (w == 0) c.template reserve<T>(m); else if (w == 1) c.reserve(typeid(T), m); else c.template shrink_to_fit<T>(); });
      bound(k.moves(), 2 * n + 4, nm, "copies and moves", n); bound(k.alloc, 8, nm, "allocations", n); if (n >= 32) nontrivial(); break; }
    case 14: { // observers touch no element
      nm = "observers"; const C& cc = c; trace(nm);
      Cost k = cost([&] {
        volatile std::size_t s = cc.size(); (void)s; (void)cc.empty(); (void)cc.begin(); (void)cc.end(); (void)cc.is_registered(typeid(T)); for (auto x : cc.segment_traversal()) { (void)x.begin(); (void)x.end(); (void)cc.size(x.type_info()); (void)cc.capacity(x.type_info()); }
        std::size_t t = 0; for (auto i = cc.begin(); i != cc.end(); ++i) ++t; for (auto i = c.begin(); i != c.end(); ++i) ++t; });
      bound(k.all() + k.eq, 0, nm, "element operations", (long)total); bound(k.alloc, 0, nm, "allocations", (long)total); break;
    }
    case 15: { // comparison
      nm = "comparison"; C d(c); bool tweak = src().draw(2); if (tweak) d.template emplace<T>(1); trace(nm, " of ", total, tweak ? " tweaked" : "");
      bool r = false, thrown = false; Cost k = cost([&] { try { r = src().draw(2) ? c == d : !(d != c); } catch (const std::exception&) { thrown = true; } }); // types without equality throw
      if (thrown) break;
      VP_CHECK(r == !tweak, "comparison result"); bound(k.eq, (long)total + 8, nm, "comparisons", (long)total); bound(k.all(), 0, nm, "other element operations", (long)total); bound(k.alloc, 0, nm, "allocations", (long)total);
      if (total >= 32) nontrivial(); break;
    }
    default: { // registration of a type does not touch elements
      nm = "registration"; trace(nm); Cost k = cost([&] { c.template register_types<T, Tn<9>, Tn<10>, Tn<11>>(); c.template register_types<Tn<12>, Tn<13>>(); });
      bound(k.all(), 0, nm, "element operations", (long)total);
    }
  }
  label(nm);
}
void run_case() {
  world().reset(); g_key = 1;
  {
    C c;
    // other segments, whose elements must not be touched
    u32 segs = src().draw(4);
    for (u32 i = 0; i < segs; ++i) with_type(L{}, (int)src().draw(L::size), [&](auto t) { using T = typename decltype(t)::type; std::size_t n = draw_n() / 2; trace("fill ", tname(T::id), " ", n); fill<T>(c, n); });
    u32 ops = 1 + src().draw(6);
    for (u32 i = 0; i < ops; ++i) {
      if (c.size() > 4000) break;
      with_type(L{}, (int)src().draw(L::size), [&](auto t) {
        using T = typename decltype(t)::type;
        one<T>(c);
      });
      check_problem("costs");
    }
  }
  check_no_leaks();
}
}
