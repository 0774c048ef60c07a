// C02: range insertion and range construction
#include "machine.hpp"
#include <forward_list>
#include <list>
#include <boost/iterator/indirect_iterator.hpp>
namespace vp {
const char* const nontrivial_rule =
  "a case builds a source and a destination collection and applies generated range insertions/constructions (source kind x "
  "hint/position kind x fill state); non-trivial when a range of at least two elements is inserted strictly inside a segment or spans several types";

using L = tlist<T0, T1, T2, T3, T4, T5>;
using A = std::allocator<Value>;
using Mach = M<A, L>;
using C = Mach::C;
using Items = std::vector<std::pair<int, int>>;   // (tid,key)

// strictly single-pass input iterator over a vector, yielding const T&
template <class T> struct InState { const std::vector<T>* v; std::size_t pos; };
template <class T> struct InIt {
  using iterator_category = std::input_iterator_tag;
  using value_type = T; using difference_type = std::ptrdiff_t; using pointer = const T*; using reference = const T&;
  InState<T>* s; std::size_t own;
  const T& operator*() const { if (own != s->pos) world().bad("input iterator used after another copy was incremented"); return (*s->v)[own]; }
  InIt& operator++() { if (own != s->pos) world().bad("input range traversed twice"); ++s->pos; ++own; return *this; }
  InIt operator++(int) { InIt r = *this; ++*this; return r; }
  bool operator==(const InIt& x) const { return own == x.own || (done() && x.done()); }
  bool operator!=(const InIt& x) const { return !(*this == x); }
  bool done() const { return own >= s->v->size(); }
};
// forward/input iterator generating prvalues T(k)
template <class T, class Cat> struct GenIt {
  using iterator_category = Cat;
  using value_type = T; using difference_type = std::ptrdiff_t; using pointer = const T*; using reference = T;
  const std::vector<int>* ks; std::size_t i;
  T operator*() const { return T((*ks)[i]); }
  GenIt& operator++() { ++i; return *this; }
  GenIt operator++(int) { GenIt r = *this; ++i; return r; }
  bool operator==(const GenIt& x) const { return i == x.i; }
  bool operator!=(const GenIt& x) const { return i != x.i; }
};

static void count_nt(const Items& items, bool inside) {
  bool multi = false;
  for (auto& p : items) if (p.first != items[0].first) multi = true;
  if (items.size() >= 2 && (inside || multi)) nontrivial();
}

// inserts [f,l), which provides `items`, at the end or with a hint, or constructs from it
template <class It> void put(Mach& m, It f, It l, const Items& items, bool autoreg, const char* kind) {
  bool need_reg = false;
  for (auto& p : items) if (!m.r.reg(p.first)) need_reg = true;
  if (need_reg && !autoreg) {   // make the types known first
    for_types(L{}, [&](auto t) { using T = typename decltype(t)::type; for (auto& p : items) if (p.first == T::id) { m.c.template register_types<T>(); m.r.seg[T::id]; } });
  }
  int mode = (int)src().draw(autoreg ? 4 : 3);
  if (mode == 3) {
    trace("construct from ", kind, " x", items.size());
    label(std::string("construct:") + kind);
    Mach n{C(f, l)};
    Ref e;
    for (auto& p : items) e.seg[p.first].push_back(p.second);
    // types of the source may or may not be registered beyond those with elements
    for (auto&& s : n.c.segment_traversal()) e.seg[tid_of_info(s.type_info())];
    n.r = e;
    check_equal<L>(n.c, n.r, "range construction");
    count_nt(items, false);
    if (src().chance(1, 2)) { m.c = std::move(n.c); m.r = n.r; check_equal<L>(m.c, m.r, "move assignment of constructed"); }
    return;
  }
  if (mode == 0) {
    trace("insert ", kind, " x", items.size());
    label(std::string("end:") + kind);
    m.c.insert(f, l);
    for (auto& p : items) m.r.seg[p.first].push_back(p.second);
    count_nt(items, false);
  } else {
    auto g = m.global();
    std::size_t p = src().draw((u32)g.size());
    if (!items.empty() && m.r.reg(items[0].first) && !m.r.seg[items[0].first].empty() && src().chance(2, 3))
      p = m.gpos(items[0].first, src().draw((u32)m.r.seg[items[0].first].size()));
    trace("insert ", kind, " x", items.size(), " hint@", p);
    label(std::string("hint:") + kind);
    if (mode == 1) m.c.insert(m.at(p), f, l); else m.c.insert(Mach::const_iterator(m.at(p)), f, l);
    std::size_t h = g[p].idx;
    bool inside = false;
    for (auto& q : items) {
      auto& ks = m.r.seg[q.first];
      if (q.first == g[p].tid) { ks.insert(ks.begin() + h, q.second); ++h; inside = true; }
      else ks.push_back(q.second);
    }
    count_nt(items, inside);
  }
  for (auto&& s : m.c.segment_traversal()) if (autoreg) m.r.seg[tid_of_info(s.type_info())];
  check_equal<L>(m.c, m.r, kind);
}

template <class T, class It> void put_local(Mach& m, It f, It l, const Items& items, const char* kind, bool base_ok) {
  if (!m.r.reg(T::id)) { m.c.template register_types<T>(); m.r.seg[T::id]; }
  auto& ks = m.r.seg[T::id];
  std::size_t idx = src().draw((u32)ks.size() + 1);
  int k = (int)src().draw(4);
  if (!base_ok) k = 2 + k % 2;
  trace("insert ", kind, " x", items.size(), " at local ", tname(T::id), "@", idx, " kind", k);
  label(std::string("local:") + kind);
  std::vector<int> v; for (auto& p : items) v.push_back(p.second);
  if (idx < ks.size() && v.size() >= 2) nontrivial();
  typename C::local_base_iterator rb; typename C::template local_iterator<T> rt;
  typename C::local_base_iterator lb = m.c.begin(typeid(T)) + idx;
  typename C::template local_iterator<T> lt = m.c.template begin<T>() + idx;
  using clb = typename C::const_local_base_iterator;
  using clt = typename C::template const_local_iterator<T>;
  if constexpr (!std::is_same<typename std::iterator_traits<It>::value_type, int>::value) {
    if (k == 0) rb = m.c.insert(lb, f, l);
    else if (k == 1) rb = m.c.insert(clb(lb), f, l);
  }
  if (k == 2) rt = m.c.insert(lt, f, l);
  else if (k == 3) rt = m.c.insert(clt(lt), f, l);
  ks.insert(ks.begin() + idx, v.begin(), v.end());
  if (k < 2) m.template check_local_it<T>(kind, rb, idx); else m.template check_local_it<T>(kind, rt, idx);
  m.template check<T>(kind);
}

template <class T> std::vector<T> fresh(Mach& m, Items& items, u32 max = 40) {
  std::vector<T> v;
  u32 n = src().chance(1, 20) ? 41 + src().draw(160) : src().size(max);
  v.reserve(n);
  for (u32 i = 0; i < n; ++i) { int k = m.new_key(); items.push_back({T::id, k}); v.emplace_back(k); }
  return v;
}

static Items items_of(const Mach& s, std::size_t a, std::size_t b) {
  auto g = s.global();
  Items r;
  for (; a < b; ++a) r.push_back({g[a].tid, s.r.seg.at(g[a].tid)[g[a].idx]});
  return r;
}

// source collection with copyable types only, plus the empty segments left by erasures
static void build(Mach& s, bool copyable_only) {
  u32 n = src().size(24);
  if (src().chance(1, 20)) s.pick_type([&](auto t) { using T = typename decltype(t)::type; if (!copyable_only || copyable<T>) s.template surge<T>(30, 150); });
  for (u32 i = 0; i < n; ++i)
    with_type(L{}, (int)src().draw(L::size), [&](auto t) {
      using T = typename decltype(t)::type;
      if (copyable_only && !copyable<T>) return;
      int k = s.new_key();
      s.c.template emplace<T>(k); s.r.seg[T::id].push_back(k);
    });
  if (src().chance(1, 3)) s.erase_global_range();
  if (src().chance(1, 4)) s.cap_op();
}

static void from_collection(Mach& m, Mach& s) {
  std::size_t n = s.r.size();
  std::size_t a = src().draw((u32)n + 1), b = a + src().draw((u32)(n - a) + 1);
  Items items = items_of(s, a, b);
  if (src().chance(1, 2)) put(m, s.at(a), s.at(b), items, true, "iterator");
  else put(m, s.cat_(a), s.cat_(b), items, true, "const_iterator");
  check_equal<L>(s.c, s.r, "source after insertion of its range");
}
template <class T> static void from_segment(Mach& m, Mach& s) {
  if (!s.r.reg(T::id)) return;
  auto& ks = s.r.seg[T::id];
  std::size_t n = ks.size(), a = src().draw((u32)n + 1), b = a + src().draw((u32)(n - a) + 1);
  Items items; for (std::size_t i = a; i < b; ++i) items.push_back({T::id, ks[i]});
  const C& cs = s.c;
  bool loc = src().chance(1, 3);
  switch (src().draw(4)) {
    case 0: { auto f = s.c.begin(typeid(T)); if (loc) put_local<T>(m, f + a, f + b, items, "local_base_iterator", true); else put(m, f + a, f + b, items, true, "local_base_iterator"); } break;
    case 1: { auto f = cs.begin(typeid(T)); if (loc) put_local<T>(m, f + a, f + b, items, "const_local_base_iterator", true); else put(m, f + a, f + b, items, true, "const_local_base_iterator"); } break;
    case 2: { auto f = s.c.template begin<T>(); if (loc) put_local<T>(m, f + a, f + b, items, "local_iterator", true); else put(m, f + a, f + b, items, true, "local_iterator"); } break;
    default: { auto f = cs.template begin<T>(); if (loc) put_local<T>(m, f + a, f + b, items, "const_local_iterator", true); else put(m, f + a, f + b, items, true, "const_local_iterator"); }
  }
  check_equal<L>(s.c, s.r, "source after insertion of its segment");
}
template <class T> static void external(Mach& m) {
  Items items;
  bool loc = src().chance(1, 3);
  int kind = (int)src().draw(7);
  if constexpr (!copyable<T>) {
    if (kind < 4) kind = 4;
  }
  if (kind == 4) {
    auto v = fresh<T>(m, items);
    auto f = std::make_move_iterator(v.begin()), l = std::make_move_iterator(v.end());
    if (loc) put_local<T>(m, f, l, items, "move_iterator", true); else put(m, f, l, items, true, "move_iterator");
    return;
  }
  if (kind == 5 || kind == 6) {
    std::vector<int> ks; u32 n = src().chance(1, 20) ? 21 + src().draw(120) : src().size(20);
    for (u32 i = 0; i < n; ++i) { ks.push_back(m.new_key()); items.push_back({T::id, ks.back()}); }
    if (kind == 5) {
      using It = GenIt<T, std::input_iterator_tag>;
      put(m, It{&ks, 0}, It{&ks, ks.size()}, items, true, "prvalue input");
    } else {   // construction from another type
      put_local<T>(m, ks.begin(), ks.end(), items, "int range", false);
    }
    return;
  }
  if constexpr (copyable<T>) {
    auto v = fresh<T>(m, items);
    if (kind == 0) {
      if (loc) put_local<T>(m, v.begin(), v.end(), items, "vector", true); else put(m, v.cbegin(), v.cend(), items, true, "vector");
    } else if (kind == 1) {
      std::forward_list<T> fl; auto p = fl.before_begin(); for (auto& x : v) p = fl.insert_after(p, x);
      if (loc) put_local<T>(m, fl.begin(), fl.end(), items, "forward_list", true); else put(m, fl.begin(), fl.end(), items, true, "forward_list");
    } else if (kind == 2) {
      const T* p = v.data();
      put(m, p, p + v.size(), items, true, "pointer");
    } else {
      InState<T> st{&v, 0};
      InIt<T> f{&st, 0}, l{&st, v.size()};
      if (loc) put_local<T>(m, f, l, items, "input", true); else put(m, f, l, items, true, "input");
      check_problem("input range");
      VP_CHECK(st.pos == v.size(), "input range consumed ", st.pos, " times, expected ", v.size());
    }
    std::size_t i = 0; for (auto& x : v) VP_CHECK(x.key() == items[i++].second, "source range modified by insertion");
  }
}
// ranges of interface references to external objects of mixed types
static void interface_range(Mach& m) {
  std::vector<T0> a; std::vector<T1> b; std::vector<T2> d; std::vector<T3> e; std::vector<T5> q;
  a.reserve(64); b.reserve(64); d.reserve(64); e.reserve(64); q.reserve(64);
  Items items; u32 n = src().size(24);
  int only = src().chance(1, 3) ? (int)src().draw(5) : -1;
#if MODEL == MODEL_BASE
  std::vector<Iface*> v;
#define VP_ADD(vec) { vec.emplace_back(k); v.push_back(&vec.back()); items.push_back({vec.back().id, k}); }
#else
  std::vector<Value> v;
#define VP_ADD(vec) { vec.emplace_back(k); v.push_back(Value{vec.back()}); items.push_back({vec.back().id, k}); }
#endif
  for (u32 i = 0; i < n; ++i) {
    int k = m.new_key();
    switch (only >= 0 ? only : (int)src().draw(5)) { case 0: VP_ADD(a) break; case 1: VP_ADD(b) break; case 2: VP_ADD(d) break; case 3: VP_ADD(e) break; default: VP_ADD(q) }
  }
#if MODEL == MODEL_BASE
  auto f = boost::make_indirect_iterator(v.begin()), l = boost::make_indirect_iterator(v.end());
#else
  auto f = v.cbegin(), l = v.cend();
#endif
  if (only >= 0 && src().chance(1, 2)) {
    static const int tids[] = {0, 1, 2, 3, 5};
    with_type(tlist<T0, T1, T2, T3, T5>{}, only, [&](auto t) { using T = typename decltype(t)::type; (void)tids; put_local<T>(m, f, l, items, "interface refs", true); });
  } else put(m, f, l, items, false, "interface refs");
}
#if MODEL == MODEL_BASE
// objects of a class derived from the segment's: constructed (sliced) into it
static void sliced(Mach& m) {
  Items items; auto v = fresh<Der>(m, items, 12);
  for (auto& p : items) p.first = Par::id;
  if (!m.r.reg(Par::id)) m.reg<Par>();
  auto& ks = m.r.seg[Par::id];
  std::size_t idx = src().draw((u32)ks.size() + 1);
  trace("insert Der range at local Par@", idx); label("local:sliced");
  auto it = m.c.insert(m.c.begin<Par>() + idx, v.begin(), v.end());
  std::size_t i = idx; for (auto& p : items) ks.insert(ks.begin() + i++, p.second);
  m.check_local_it<Par>("sliced", it, idx);
  m.check<Par>("sliced range");
}
#endif

void run_case() {
  world().reset();
  {
    Mach m, s;
    s.next_key = 10001;
    build(m, false); build(s, true);
    check_equal<L>(m.c, m.r, "build"); check_equal<L>(s.c, s.r, "build");
    int avg = src().chance(1, 5) ? 16 : 5;
    while (src().more(avg)) {
      switch (src().draw(7)) {
        case 0: from_collection(m, s); break;
        case 1: case 2: with_type(tlist<T0, T1, T3, T5>{}, (int)src().draw(4), [&](auto t) { using T = typename decltype(t)::type; from_segment<T>(m, s); }); break;
        case 3: case 4: with_type(tlist<T0, T1, T4, T5>{}, (int)src().draw(4), [&](auto t) { using T = typename decltype(t)::type; external<T>(m); }); break;
        case 5: interface_range(m); break;
        default:
#if MODEL == MODEL_BASE
          if (src().chance(1, 3)) { sliced(m); break; }
#endif
          if (src().chance(1, 2)) m.cap_op(); else m.erase_global_range();
      }
      if (m.r.size() > 600) m.clear_all();
    }
    m.check_all("final"); s.check_all("final source");
  }
  check_no_leaks();
}
}
