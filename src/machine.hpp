// Stateful machine: a collection driven side by side with a reference model.
#ifndef VP_MACHINE_HPP
#define VP_MACHINE_HPP
#include "model.hpp"
#include <algorithm>
#include <iterator>

namespace vp {

template <class T> Value& as_value_base(T& x);
#if MODEL == MODEL_BASE
template <class T> const Iface& iface_of(const T& x) { return x; }
template <class T> Iface& iface_of_mut(T& x) { return x; }
#else
template <class T> Value iface_of(const T& x) { return Value{const_cast<T&>(x)}; }
template <class T> Value iface_of_mut(T& x) { return Value{x}; }
#endif

// how an element reaches the collection
enum Way { W_EMPLACE1, W_EMPLACE2, W_RVALUE, W_CONST, W_LVALUE, W_IFACE_CONST, W_IFACE_MOVE, W_COUNT };
inline const char* way_name(int w) {
  static const char* n[] = {"emplace", "emplace2", "T&&", "const T&", "T&", "const value_type&", "value_type&&"};
  return n[w];
}

struct SegInfoView { int tid; std::size_t size; };

template <class A, class L> struct M {
  using C = Coll<A>;
  using iterator = typename C::iterator;
  using const_iterator = typename C::const_iterator;
  C c;
  Ref r;
  int next_key = 1;
  bool dup_keys = false;
  bool quiet = false;

  M() {}
  explicit M(const A& al) : c(al) {}
  explicit M(C&& x) : c(std::move(x)) {}

  int new_key() { return dup_keys ? (int)src().draw(3) + 1 : next_key++; }

  // ---- geometry ------------------------------------------------------------
  std::vector<SegPos> global() const {
    std::vector<SegPos> g;
    for (int t : seg_order(c)) {
      auto it = r.seg.find(t);
      if (it == r.seg.end()) fail("segment of a type that was never registered: ", tname(t));
      for (std::size_t i = 0; i < it->second.size(); ++i) g.push_back({t, i});
    }
    g.push_back({-1, 0});
    return g;
  }
  std::size_t gpos(int tid, std::size_t idx) const {   // global position of an element
    std::size_t p = 0;
    for (int t : seg_order(c)) { if (t == tid) return p + idx; p += r.seg.at(t).size(); }
    fail("segment not found: ", tname(tid));
  }
  iterator at(std::size_t p) { auto it = c.begin(); while (p--) { VP_CHECK(it != c.end(), "traversal stops early"); ++it; } return it; }
  const_iterator cat_(std::size_t p) const { auto it = c.begin(); while (p--) { VP_CHECK(it != c.end(), "traversal stops early"); ++it; } return it; }

  void check_global_it(const char* op, const_iterator it, std::size_t p) {
    std::size_t n = r.size();
    VP_CHECK(p <= n, "internal");
    const_iterator e = cat_(p);
    VP_CHECK(it == e, op, ": returned iterator is not at global position ", p, " of ", n);
    VP_CHECK(!(it != e), op, ": inconsistent iterator comparison");
    std::size_t left = 0;
    for (const C& cc = c; it != cc.end(); ++it) {
      VP_CHECK(left < n - p, op, ": walking on from the returned iterator overruns the collection");
      VP_CHECK(addr_of(*it) == addr_of(*e), op, ": walking on from the returned iterator visits the wrong element");
      ++left; ++e;
    }
    VP_CHECK(left == n - p, op, ": walking on from the returned iterator visits ", left, " elements, expected ", n - p);
  }
  template <class T> void check_new_global(const char* op, iterator it, std::size_t idx, int k) {
    VP_CHECK(it != c.end(), op, ": returned end()");
    VP_CHECK(key_of(*it) == k, op, ": returned iterator designates key ", key_of(*it), " expected ", k);
    check_global_it(op, it, gpos(T::id, idx));
  }
  template <class T, class It> void check_local_it(const char* op, It it, std::size_t idx) {
    VP_CHECK(it - lbegin<T>(it) == (std::ptrdiff_t)idx, op, ": returned local iterator at offset ", it - lbegin<T>(it), " expected ", idx);
    VP_CHECK(lend<T>(it) - it == (std::ptrdiff_t)(r.seg[T::id].size() - idx), op, ": returned local iterator at wrong distance from the end");
    if (idx < r.seg[T::id].size()) VP_CHECK(lkey(*it) == r.seg[T::id][idx], op, ": returned local iterator designates key ", lkey(*it), " expected ", r.seg[T::id][idx]);
  }
  template <class X> static auto lkey(const X& x) -> decltype(x.key()) { return x.key(); }
#if MODEL != MODEL_BASE
  static int lkey(const Value& x) { return key_of(x); }
#endif
  template <class T> typename C::local_base_iterator lbegin(typename C::local_base_iterator) { return c.begin(typeid(T)); }
  template <class T> typename C::local_base_iterator lend(typename C::local_base_iterator) { return c.end(typeid(T)); }
  template <class T> typename C::template local_iterator<T> lbegin(typename C::template local_iterator<T>) { return c.template begin<T>(); }
  template <class T> typename C::template local_iterator<T> lend(typename C::template local_iterator<T>) { return c.template end<T>(); }

  template <class T> void check(const char* op) {
    check_equal<L>(c, r, op);
    check_typed<T>(c, r, op);
  }
  void check_all(const char* op) {
    check_equal<L>(c, r, op);
    for_types(L{}, [&](auto t) { using T = typename decltype(t)::type; check_typed<T>(c, r, op); });
  }

  // ---- ways of providing an element ------------------------------------------
  template <class T> static int pick_way(bool registered, int force = -1) {
    int w = (int)src().draw(W_COUNT);
    if (force >= 0) w = force;
    if (!copyable<T>) { if (w == W_CONST || w == W_LVALUE || w == W_IFACE_CONST) w = W_RVALUE; }
    if (!registered && (w == W_IFACE_CONST || w == W_IFACE_MOVE)) w = W_RVALUE;
    return w;
  }
  // calls f(x) with x the element of key k, provided according to w (not for emplace)
  template <class T, class F> static void provide(int w, int k, F&& f) {
    T x(k);
    if (w == W_IFACE_MOVE) { f(std::move(iface_of_mut(x))); return; }
    if constexpr (copyable<T>) {
      if (w == W_CONST) { const T& y = x; f(y); VP_CHECK(x.key() == k, "lvalue argument modified by insertion"); return; }
      if (w == W_LVALUE) { f(x); VP_CHECK(x.key() == k, "lvalue argument modified by insertion"); return; }
      if (w == W_IFACE_CONST) {
#if MODEL == MODEL_BASE
        const Iface& y = x; f(y);
#else
        const Value y = iface_of_mut(x); f(y);
#endif
        VP_CHECK(x.key() == k, "lvalue argument modified by insertion"); return;
      }
    }
    f(std::move(x));
  }

  // ---- single element operations ----------------------------------------------
  template <class T> void insert_end(int force = -1) {
    int w = pick_way<T>(r.reg(T::id), force), k = new_key();
    trace("insert ", tname(T::id), " ", k, " as ", way_name(w));
    auto& ks = r.seg[T::id];
    ks.push_back(k);
    iterator it;
    if (w == W_EMPLACE1) it = c.template emplace<T>(k);
    else if (w == W_EMPLACE2) it = c.template emplace<T>(k - 5, 5);
    else provide<T>(w, k, [&](auto&& x) { it = c.insert(std::forward<decltype(x)>(x)); });
    label("insert_end");
    check_new_global<T>("insert", it, ks.size() - 1, k);
    check<T>("insert");
  }
  template <class T> void insert_hint(int force = -1) {
    auto g = global();
    // bias towards hints in T's own segment
    std::size_t p;
    if (r.reg(T::id) && !r.seg[T::id].empty() && src().chance(1, 2)) p = gpos(T::id, src().draw((u32)r.seg[T::id].size()));
    else p = src().draw((u32)g.size());
    bool konst = src().chance(1, 2);
    int w = pick_way<T>(r.reg(T::id), force), k = new_key();
    trace("insert ", tname(T::id), " ", k, " as ", way_name(w), " hint@", p, konst ? " const" : "");
    auto& ks = r.seg[T::id];
    std::size_t idx = g[p].tid == T::id ? g[p].idx : ks.size();
    if (g[p].tid == T::id) { label("hint_in_segment"); nontrivial(); } else label("hint_elsewhere");
    iterator h = at(p), it;
    const_iterator ch = h;
    if (w == W_EMPLACE1) it = konst ? c.template emplace_hint<T>(ch, k) : c.template emplace_hint<T>(h, k);
    else if (w == W_EMPLACE2) it = konst ? c.template emplace_hint<T>(ch, k - 5, 5) : c.template emplace_hint<T>(h, k - 5, 5);
    else provide<T>(w, k, [&](auto&& x) { if (konst) it = c.insert(ch, std::forward<decltype(x)>(x)); else it = c.insert(h, std::forward<decltype(x)>(x)); });
    ks.insert(ks.begin() + idx, k);
    check_new_global<T>("hinted insert", it, idx, k);
    check<T>("hinted insert");
  }
  template <class T> void insert_local(int force = -1) {
    if (!r.reg(T::id)) { insert_end<T>(force); return; }
    auto& ks = r.seg[T::id];
    std::size_t idx = src().draw((u32)ks.size() + 1);
    int kind = (int)src().draw(4);
    int w = pick_way<T>(true, force), k = new_key();
    trace("insert ", tname(T::id), " ", k, " as ", way_name(w), " local@", idx, " kind", kind);
    auto lb = c.begin(typeid(T)) + idx;
    auto lt = c.template begin<T>() + idx;
    typename C::const_local_base_iterator clb = lb;
    typename C::template const_local_iterator<T> clt = lt;
    typename C::local_base_iterator rb; typename C::template local_iterator<T> rt;
    if (idx < ks.size()) nontrivial();
    if (w == W_EMPLACE1) switch (kind) {
      case 0: rb = c.template emplace_pos<T>(lb, k); break;
      case 1: rb = c.template emplace_pos<T>(clb, k); break;
      case 2: rt = c.emplace_pos(lt, k); break;
      default: rt = c.emplace_pos(clt, k);
    } else if (w == W_EMPLACE2) switch (kind) {
      case 0: rb = c.template emplace_pos<T>(lb, k - 5, 5); break;
      case 1: rb = c.template emplace_pos<T>(clb, k - 5, 5); break;
      case 2: rt = c.emplace_pos(lt, k - 5, 5); break;
      default: rt = c.emplace_pos(clt, k - 5, 5);
    } else provide<T>(w, k, [&](auto&& x) {
      using X = decltype(x);
      switch (kind) {
        case 0: rb = c.insert(lb, std::forward<X>(x)); break;
        case 1: rb = c.insert(clb, std::forward<X>(x)); break;
        case 2: rt = c.insert(lt, std::forward<X>(x)); break;
        default: rt = c.insert(clt, std::forward<X>(x));
      }
    });
    ks.insert(ks.begin() + idx, k);
    label("insert_local");
    if (kind < 2) check_local_it<T>("local insert", rb, idx); else check_local_it<T>("local insert", rt, idx);
    check<T>("local insert");
  }
  void bulk() {
    u32 n = 1 + src().draw(src().chance(1, 8) ? 200 : 12);
    with_type(L{}, (int)src().draw(L::size), [&](auto t) {
      using T = typename decltype(t)::type;
      trace("bulk ", tname(T::id), " x", n);
      auto& ks = r.seg[T::id];
      for (u32 i = 0; i < n; ++i) { int k = new_key(); ks.push_back(k); c.template emplace<T>(k); }
      label("bulk");
      check<T>("bulk emplace");
    });
  }

  // many elements of one type at once, for what depends on the size of a segment
  template <class T> void surge(u32 lo, u32 hi) {
    u32 n = lo + src().draw(hi - lo + 1);
    if (src().chance(1, 16)) n *= 8;
    trace("surge ", tname(T::id), " x", n); label("surge");
    auto& ks = r.seg[T::id];
    for (u32 i = 0; i < n; ++i) { int k = new_key(); ks.push_back(k); c.template emplace<T>(k); }
    check<T>("surge");
  }

  // many registered types: up to (or past) the sizes at which the type map grows
  using Crowd = tlist<Tn<10>, Tn<11>, Tn<12>, Tn<13>, Tn<14>, Tn<15>, Tn<16>, Tn<17>, Tn<18>, Tn<19>, Tn<20>, Tn<21>>;
  void crowd(bool elements = true) {
    static const u32 at[] = {13, 13, 12, 14, 8, 20};
    u32 want = at[src().draw(6)], first = src().draw(Crowd::size); bool some = elements && src().draw(2);
    trace("register types up to ", want, some ? " with elements" : ""); label("crowd");
    for (u32 i = 0; i < (u32)Crowd::size && r.seg.size() < want; ++i) with_type(Crowd{}, (int)((first + i) % Crowd::size), [&](auto t) {
      using T = typename decltype(t)::type;
      if (r.reg(T::id)) return;
      if (some) { int k = new_key(); r.seg[T::id].push_back(k); c.template emplace<T>(k); } else { r.seg[T::id]; c.template register_types<T>(); }
    });
    check_equal<L>(c, r, "crowd");
  }

  // ---- erasure ------------------------------------------------------------------
  void erase_global() {
    auto g = global();
    if (g.size() < 2) return;
    std::size_t p = src().draw((u32)g.size() - 1);
    bool konst = src().chance(1, 2);
    trace("erase @", p);
    auto& ks = r.seg[g[p].tid];
    ks.erase(ks.begin() + g[p].idx);
    iterator it = at(p), ret;
    if (konst) ret = c.erase(const_iterator(it)); else ret = c.erase(it);
    label("erase_global"); nontrivial();
    check_global_it("erase", ret, p);
    check_equal<L>(c, r, "erase");
  }
  void erase_global_range() {
    auto g = global();
    std::size_t a = src().draw((u32)g.size()), b = a + src().draw((u32)(g.size() - a));
    if (src().chance(1, 10)) b = g.size() - 1;
    trace("erase [", a, ",", b, ")");
    bool multi = false;
    for (std::size_t i = b; i-- > a;) { auto& ks = r.seg[g[i].tid]; ks.erase(ks.begin() + g[i].idx); if (g[i].tid != g[a].tid) multi = true; }
    if (multi) label("erase_range_multi"); else label("erase_range_single");
    if (b > a) nontrivial();
    const_iterator f = at(a), l = at(b);
    iterator ret = c.erase(f, l);
    check_global_it("range erase", ret, a);
    check_equal<L>(c, r, "range erase");
  }
  template <class T> void erase_local() {
    if (!r.reg(T::id) || r.seg[T::id].empty()) return;
    auto& ks = r.seg[T::id];
    std::size_t idx = src().draw((u32)ks.size());
    int kind = (int)src().draw(4);
    trace("erase local ", tname(T::id), "@", idx, " kind", kind);
    auto lb = c.begin(typeid(T)) + idx;
    auto lt = c.template begin<T>() + idx;
    typename C::const_local_base_iterator clb = lb;
    typename C::template const_local_iterator<T> clt = lt;
    typename C::local_base_iterator rb; typename C::template local_iterator<T> rt;
    switch (kind) {
      case 0: rb = c.erase(lb); break;
      case 1: rb = c.erase(clb); break;
      case 2: rt = c.erase(lt); break;
      default: rt = c.erase(clt);
    }
    ks.erase(ks.begin() + idx);
    label("erase_local"); nontrivial();
    if (kind < 2) check_local_it<T>("local erase", rb, idx); else check_local_it<T>("local erase", rt, idx);
    check<T>("local erase");
  }
  template <class T> void erase_local_range() {
    if (!r.reg(T::id)) return;
    auto& ks = r.seg[T::id];
    std::size_t a = src().draw((u32)ks.size() + 1), b = a + src().draw((u32)(ks.size() - a) + 1);
    int kind = (int)src().draw(4);
    trace("erase local ", tname(T::id), "[", a, ",", b, ") kind", kind);
    auto lb = c.begin(typeid(T));
    auto lt = c.template begin<T>();
    typename C::const_local_base_iterator clb = lb;
    typename C::template const_local_iterator<T> clt = lt;
    typename C::local_base_iterator rb; typename C::template local_iterator<T> rt;
    switch (kind) {
      case 0: rb = c.erase(lb + a, lb + b); break;
      case 1: rb = c.erase(clb + a, clb + b); break;
      case 2: rt = c.erase(lt + a, lt + b); break;
      default: rt = c.erase(clt + a, clt + b);
    }
    ks.erase(ks.begin() + a, ks.begin() + b);
    label("erase_local_range"); if (b > a) nontrivial();
    if (kind < 2) check_local_it<T>("local range erase", rb, a); else check_local_it<T>("local range erase", rt, a);
    check<T>("local range erase");
  }
  void clear_all() {
    trace("clear");
    c.clear();
    for (auto& p : r.seg) p.second.clear();
    label("clear");
    check_all("clear");
  }
  template <class T> void clear_seg() {
    if (!r.reg(T::id)) return;
    bool typed = src().chance(1, 2);
    trace("clear ", tname(T::id), typed ? " typed" : "");
    if (typed) c.template clear<T>(); else c.clear(typeid(T));
    r.seg[T::id].clear();
    label("clear_segment");
    check<T>("segment clear");
  }
  template <class T> void reg() {
    trace("register ", tname(T::id));
    c.template register_types<T>();
    r.seg[T::id];
    label("register");
    check<T>("register_types");
  }
  // ---- capacity (contents must not change) ---------------------------------------
  void cap_op() {
    int n = (int)src().size(64);
    int kind = (int)src().draw(6);
    with_type(L{}, (int)src().draw(L::size), [&](auto t) {
      using T = typename decltype(t)::type;
      trace("capacity op ", kind, " ", tname(T::id), " ", n);
      switch (kind) {
        case 0: c.reserve(n); break;
        case 1: c.template reserve<T>(n); r.seg[T::id]; break;
        case 2: if (r.reg(T::id)) c.reserve(typeid(T), n); break;
        case 3: c.shrink_to_fit(); break;
        case 4: if (r.reg(T::id)) c.template shrink_to_fit<T>(); break;
        default: if (r.reg(T::id)) c.shrink_to_fit(typeid(T)); break;
      }
      label("capacity_op");
      check<T>("capacity operation");
    });
  }
  template <class F> void pick_type(F&& f) { with_type(L{}, (int)src().draw(L::size), std::forward<F>(f)); }
};

} // namespace vp
#endif
