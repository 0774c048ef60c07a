// C09: equality
#include "multi.hpp"
namespace vp {
const char* const nontrivial_rule =
  "a case builds two collections by independent generated histories (or one from the other by a generated mutation: element replaced, appended, dropped, swapped, moved to another type, "
  "empty type registered, re-registration in another order, capacity changed) with few distinct keys and compares ==/!= in all directions with the reference; one case in six does so with plain values whose == "
  "is not that of their representation (padding, ignored members, signed zeros, NaN, coarser or empty relations); "
  "non-trivial when both collections hold elements of at least two types";
#ifdef VP_AL
using A = Al<Value, 0>;
#else
using A = std::allocator<Value>;
#endif
using L = tlist<T0, T1, T2, T4, T5, T6, Tn<1>, Tn<2>>;
using Mach = M<A, L>;
using C = Mach::C;

static void step(Mach& m) {
  if (src().chance(1, 120)) { m.crowd(false); return; }
  m.pick_type([&](auto t) {
    using T = typename decltype(t)::type;
    if (m.r.size() < 200 && src().chance(1, 60)) { m.template surge<T>(20, 120); return; }
    switch (src().draw(9)) {
      case 0: case 1: case 2: m.template insert_end<T>(W_RVALUE); break;
      case 3: m.template insert_hint<T>(W_EMPLACE1); break;
      case 4: m.template reg<T>(); break;
      case 5: m.template clear_seg<T>(); break;
      case 6: m.erase_global(); break;
      case 7: m.cap_op(); break;
      default: m.template insert_local<T>(W_EMPLACE1); break;
    }
  });
}
static bool has_nan(const Ref& r) { for (auto& p : r.seg) for (int k : p.second) if (k == world().nan_key) return true; return false; }
static void compare(Mach& a, Mach& b) {
  bool na_ = has_nan(a.r), nb_ = has_nan(b.r);
  bool e = same_elements(a.r, b.r) && !na_;
  const C& x = a.c; const C& y = b.c;
  bool r[4] = {x == y, y == x, !(x != y), !(y != x)};
  for (int i = 0; i < 4; ++i)
    VP_CHECK(r[i] == e, (i & 1) ? "(reversed) " : "", i < 2 ? "==" : "!=", " says ", r[i] ? "equal" : "different", " for ", a.r.str(), " and ", b.r.str());
  VP_CHECK((x == y) == e && (a.c == b.c) == e, "== is not stable");
  label(e ? "equal" : "different");
  bool same_types = true; for (auto& p : a.r.seg) same_types = same_types && b.r.reg(p.first);
  if (e && (!same_types || a.r.seg.size() != b.r.seg.size())) label("equal_with_different_empty_segments");
  if (e && seg_order(x) != seg_order(y)) label("equal_in_different_segment_order");
  int na = 0, nb = 0;
  for (auto& p : a.r.seg) na += !p.second.empty();
  for (auto& p : b.r.seg) nb += !p.second.empty();
  if (na >= 2 && nb >= 2) nontrivial();
  unit(4);
  check_equal<L>(a.c, a.r, "comparison"); check_equal<L>(b.c, b.r, "comparison");
  VP_CHECK((x == x) == !na_ && (x != x) == na_ && (y == y) == !nb_ && (y != y) == nb_, "a collection compared with itself: ", a.r.str(), " ", b.r.str(), na_ || nb_ ? " (has elements not equal to themselves)" : "");
  if (na_) label("self_comparison_with_non_reflexive_elements");
}
// rebuilds b as a collection with a's elements, through another history
static void rebuild(Mach& a, Mach& b) {
  std::vector<int> order;
  for (auto& p : a.r.seg) order.push_back(p.first);
  for (std::size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[src().draw((u32)i)]);
  for (int t : order) {
    std::vector<int> ks = a.r.seg[t];
    if (ks.empty() && src().chance(1, 2)) continue;
    for_types(L{}, [&](auto tg) {
      using T = typename decltype(tg)::type;
      if (T::id != t) return;
      if (ks.empty()) { b.c.template register_types<T>(); b.r.seg[t]; return; }
      if (src().chance(1, 4)) b.c.template reserve<T>(ks.size() + src().draw(9));
      // front part last, so that the addresses and capacities differ
      std::size_t cut = src().draw((u32)ks.size() + 1);
      for (std::size_t i = cut; i < ks.size(); ++i) b.c.template emplace<T>(ks[i]);
      b.c.template register_types<T>();
      for (std::size_t i = 0; i < cut; ++i) b.c.emplace_pos(b.c.template begin<T>() + i, ks[i]);
      b.r.seg[t] = ks;
    });
  }
  trace("b := rebuilt with a's elements");
  check_equal<L>(b.c, b.r, "rebuild");
}
// one small change
static void tweak(Mach& m) {
  switch (src().draw(6)) {
    case 0: step(m); break;
    case 1: { // replace one element's key
      auto g = m.global(); if (g.size() < 2) return;
      SegPos p = g[src().draw((u32)g.size() - 1)];
      for_types(L{}, [&](auto tg) {
        using T = typename decltype(tg)::type; if (T::id != p.tid) return;
        int k = m.new_key();
        trace("replace ", tname(T::id), "[", p.idx, "] by ", k);
        auto it = m.c.erase(m.c.template begin<T>() + p.idx); m.c.emplace_pos(it, k);
        m.r.seg[p.tid][p.idx] = k;
      });
      break;
    }
    case 2: case 3: { // exchange two neighbours of a segment
      auto g = m.global(); if (g.size() < 3) return;
      SegPos p = g[src().draw((u32)g.size() - 1)];
      auto& ks = m.r.seg[p.tid];
      if (ks.size() < 2) return;
      std::size_t i = p.idx % (ks.size() - 1);
      for_types(L{}, [&](auto tg) {
        using T = typename decltype(tg)::type; if (T::id != p.tid) return;
        trace("exchange ", tname(T::id), "[", i, "] with its neighbour");
        int k = ks[i + 1];
        m.c.erase(m.c.template begin<T>() + i + 1); m.c.emplace_pos(m.c.template begin<T>() + i, k);
        std::swap(ks[i], ks[i + 1]);
      });
      break;
    }
    case 4: { // move the last element of a type to another one
      int j = (int)src().draw(L::size); int from = -1;
      for (auto& p : m.r.seg) if (!p.second.empty()) from = p.first;
      if (from < 0) return;
      int k = m.r.seg[from].back();
      for_types(L{}, [&](auto tg) { using T = typename decltype(tg)::type; if (T::id == from) m.c.erase(m.c.template end<T>() - 1); });
      m.r.seg[from].pop_back();
      with_type(L{}, j, [&](auto tg) { using T = typename decltype(tg)::type; trace("move last ", tname(from), " to ", tname(T::id)); m.c.template emplace<T>(k); m.r.seg[T::id].push_back(k); });
      break;
    }
    default: m.pick_type([&](auto t) { using T = typename decltype(t)::type; m.template reg<T>(); });
  }
  check_equal<L>(m.c, m.r, "tweak");
}

// ---- plain values: equality is the elements' own ==, whatever their bytes ----
namespace plain {
#if MODEL == MODEL_BASE
struct XB { virtual ~XB() = default; };
using C = boost::base_collection<XB>;
using Top = XB;
#elif MODEL == MODEL_FUNC
struct Top {};
using C = boost::function_collection<int(int)>;
#else
struct Top {};
using C = boost::any_collection<boost::mpl::vector<boost::type_erasure::copy_constructible<>, boost::type_erasure::typeid_<>, boost::type_erasure::relaxed>>;
#endif
// each: a key in [0,6), "noise" which may take part in the representation but not in ==
struct Part : Top { int k; int noise; Part(int k_, int n) : k(k_), noise(n) {} int operator()(int) const { return k; } bool operator==(const Part& x) const { return k == x.k; } };          // part of the object only
struct Pad : Top { char c; double d; Pad(int k_, int n) : c((char)k_), d(n & 1 ? 1.5 : 2.5) {} int operator()(int) const { return c; } bool operator==(const Pad& x) const { return c == x.c && d == x.d; } }; // padding
struct Zero : Top { double d; Zero(int k_, int n) : d(k_ == 0 ? (n & 1 ? -0.0 : 0.0) : k_ == 5 ? __builtin_nan("") : k_) {} int operator()(int) const { return (int)d; } bool operator==(const Zero& x) const { return d == x.d; } };
struct Never : Top { int k; Never(int k_, int) : k(k_) {} int operator()(int) const { return k; } bool operator==(const Never&) const { return false; } };
struct Always : Top { int k, n; Always(int k_, int n_) : k(k_), n(n_) {} int operator()(int) const { return k; } bool operator==(const Always&) const { return true; } };
struct Same : Top { int k; Same(int k_, int) : k(k_) {} int operator()(int) const { return k; } bool operator==(const Same& x) const { return k == x.k; } };
struct Free : Top { unsigned char k; unsigned char n; Free(int k_, int n_) : k((unsigned char)k_), n((unsigned char)n_) {} int operator()(int) const { return k; } };
inline bool operator==(const Free& x, const Free& y) { return (x.k & 3) == (y.k & 3); }                                                                                       // an equivalence coarser than identity
struct Empty : Top { Empty(int, int) {} int operator()(int) const { return 0; } bool operator==(const Empty&) const { return true; } };
template <class T> T make(int k, int n) { return T(k, n); }
template <class T> bool eqv(const T& x, const T& y) { return x == y; }
#if MODEL == MODEL_ANY
template <> double make<double>(int k, int n) { return Zero(k, n).d; }
template <> float make<float>(int k, int n) { return (float)Zero(k, n).d; }
template <> int make<int>(int k, int) { return k; }
template <> bool make<bool>(int k, int) { return k & 1; }
template <> const char* make<const char*>(int k, int) { static const char* const t[] = {"a", "b", "c", "d", "e", "f"}; return t[k]; }
template <> std::string make<std::string>(int k, int n) { std::string s(n & 1 ? 2 : 40, 'x'); s.reserve((std::size_t)n * 8); s.assign((std::size_t)k * 7, 'y'); return s; }
using L = tlist<Part, Pad, Zero, Never, Always, Same, Free, Empty, double, float, int, bool, const char*, std::string>;
#elif MODEL == MODEL_FUNC
static int f0(int x) { return x; } static int f1(int x) { return x + 1; } static int f2(int x) { return x + 2; }
using Fp = int (*)(int);
template <> Fp make<Fp>(int k, int) { static const Fp t[] = {f0, f1, f2, f0, f1, f2}; return t[k]; }
using L = tlist<Part, Pad, Zero, Never, Always, Same, Free, Empty, Fp>;
#else
using L = tlist<Part, Pad, Zero, Never, Always, Same, Free, Empty>;
#endif
template <class T> struct Row { std::vector<T> v[2]; };
template <class X> struct Rows; template <class... Ts> struct Rows<tlist<Ts...>> : Row<Ts>... {};
template <class T> void put(C& c, std::vector<T>& v, T x) {
  std::size_t p = v.size() < 4 && src().chance(1, 12) ? src().draw((u32)v.size() + 1) : v.size();
  if (p == v.size()) { if (src().draw(2)) c.insert(x); else c.template emplace<T>(x); }
  else c.insert(c.template begin<T>() + (std::ptrdiff_t)p, x);
  std::vector<T> w; for (std::size_t i = 0; i < v.size(); ++i) { if (i == p) w.push_back(x); w.push_back(v[i]); } if (p == v.size()) w.push_back(x);
  v.swap(w);
}
static void run() {
  C c[2]; Rows<L> rows;
  int kinds = 0;
  u32 nt = 1 + src().draw(4);
  for (u32 j = 0; j < nt; ++j) with_type(L{}, (int)src().draw(L::size), [&](auto tg) {
    using T = typename decltype(tg)::type; auto& r = static_cast<Row<T>&>(rows);
    u32 n = src().chance(1, 10) ? 60 + src().draw(80) : src().draw(6);
    std::string ks;
    for (u32 i = 0; i < n; ++i) { int k = src().chance(1, 12) ? 5 : (int)src().draw(5); int na = (int)src().draw(4), nb = (int)src().draw(4); ks += std::to_string(k) + "/" + std::to_string(na) + "," + std::to_string(nb) + " ";
      put<T>(c[0], r.v[0], make<T>(k, na)); // same keys in both unless changed below; representations may differ
      c[1].template register_types<T>(); T y = make<T>(k, nb); r.v[1].push_back(y); c[1].insert(y); }
    if (n && src().chance(1, 5)) { put<T>(c[1], r.v[1], make<T>((int)src().draw(5), 0)); ks += "+1"; }
    if (src().chance(1, 12)) c[0].template reserve<T>(100 + n);
    trace("plain ", typeid(T).name(), " ", ks);
    if (n) ++kinds;
  });
  for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) {
    bool e = true;
    for_types(L{}, [&](auto tg) { using T = typename decltype(tg)::type; auto& r = static_cast<Row<T>&>(rows); auto& x = r.v[i]; auto& y = r.v[j];
      if (x.size() != y.size()) { e = false; return; } for (std::size_t k = 0; k < x.size(); ++k) if (!eqv<T>(x[k], y[k])) e = false; });
    const C& x = c[i]; const C& y = c[j];
    VP_CHECK((x == y) == e && (x != y) == !e, "plain values: ", i, i == j ? " compared with itself" : " compared with the other", " says ", (x == y) ? "equal" : "different", ", the elements say ", e ? "equal" : "different");
    label(e ? "plain_equal" : "plain_different"); unit(2);
    C z(x); VP_CHECK((z == y) == e && (y == z) == [&] { bool f = true; for_types(L{}, [&](auto tg) { using T = typename decltype(tg)::type; auto& r = static_cast<Row<T>&>(rows); auto& p = r.v[j]; auto& q = r.v[i]; if (p.size() != q.size()) { f = false; return; } for (std::size_t k = 0; k < p.size(); ++k) if (!eqv<T>(p[k], q[k])) f = false; }); return f; }(), "plain values: a copy compares differently");
  }
  if (kinds >= 2) nontrivial();
}
}
void run_case() {
  world().reset();
  if (src().chance(1, 6)) { plain::run(); return; }
  {
    Mach a, b;
    a.dup_keys = b.dup_keys = true;
    if (src().chance(1, 4)) world().nan_key = 3;
    u32 n = src().size(30);
    for (u32 i = 0; i < n; ++i) step(a);
    if (src().chance(1, 4)) { u32 k = src().size(30); for (u32 i = 0; i < k; ++i) step(b); }
    else rebuild(a, b);
    compare(a, b);
    while (src().more(6)) { if (src().draw(2)) tweak(a); else tweak(b); compare(a, b); }
  }
  check_no_leaks();
}
}
