// C13: missing copy, equality or assignment operations
#include "multi.hpp"
namespace vp {
const char* const nontrivial_rule =
  "a case drives 2-3 collections mixing fully featured types with move-only, not comparable, not assignable and bare (nothrow move only) ones through generated insertions, erasures, copies, "
  "range insertions, comparisons and moves, predicting exactly which calls throw not_copy_constructible/not_equality_comparable and with which pinfo; non-trivial when such a call met a "
  "non-empty collection of at least two types";
using A = std::allocator<Value>;
using L = tlist<T0, T4, T7, T5, Bare, T4b, T6>;
using LI = tlist<T0, T4, T7, T5, Bare, T6>;    // T4b has its own routine
using Mach = M<A, L>;
using C = Mach::C;
template <class T> constexpr bool comparable = has_eq<T>::value;
static bool copyable_tid(int t) { bool r = true; for_types(L{}, [&](auto g) { using T = typename decltype(g)::type; if (T::id == t) r = copyable<T>; }); return r; }
static bool comparable_tid(int t) { bool r = true; for_types(L{}, [&](auto g) { using T = typename decltype(g)::type; if (T::id == t) r = comparable<T>; }); return r; }
static bool has_uncopyable(const Ref& r) { for (auto& p : r.seg) if (!p.second.empty() && !copyable_tid(p.first)) return true; return false; }
static int nonempty_types(const Ref& r) { int n = 0; for (auto& p : r.seg) n += !p.second.empty(); return n; }

static void full(Mach& m, const char* op) { check_views<L>(m.c, m.r); m.check_all(op); unit(); }
// elements as expected, registrations may only grow
static void settle(Mach& m, const Ref& e, const char* op) {
  check_problem(op);
  Ref o = observe(m.c);
  VP_CHECK(same_elements(o, e), op, ": holds ", o.str(), " expected ", e.str());
  for (auto& p : e.seg) VP_CHECK(o.reg(p.first), op, ": type ", tname(p.first), " is no longer registered");
  m.r = o; full(m, op);
}
// 0: no exception, 1: not_copy_constructible, 2: not_equality_comparable; t: type carried
template <class F> int attempt(int& t, const char* op, F&& f) {
  t = -1;
  try { f(); return 0; }
  catch (const boost::poly_collection::not_copy_constructible& e) { VP_CHECK(e.pinfo, op, ": null pinfo"); t = tid_of_info(*e.pinfo); return 1; }
  catch (const boost::poly_collection::not_equality_comparable& e) { VP_CHECK(e.pinfo, op, ": null pinfo"); t = tid_of_info(*e.pinfo); return 2; }
}
static void expect_copy_throw(int what, int t, const Ref& s, const char* op) {
  VP_CHECK(what == 1, op, ": does not throw not_copy_constructible for ", s.str());
  auto it = s.seg.find(t);
  VP_CHECK(it != s.seg.end() && !it->second.empty() && !copyable_tid(t), op, ": pinfo is ", tname(t), ", not a non-copyable type of an element to be copied");
  label("threw_not_copy_constructible");
  if (nonempty_types(s) > 1) nontrivial();
}

static std::vector<std::unique_ptr<Mach>>* S;
static int next_key = 1;

static void element_op(Mach& m) {
  m.next_key = next_key;
  with_type(LI{}, (int)src().draw(LI::size), [&](auto t) {
    using T = typename decltype(t)::type;
    if (m.r.size() < 200 && src().chance(1, 50)) { m.template surge<T>(20, 90); next_key = m.next_key; return; }
    switch (src().draw(14)) {
      case 0: case 1: case 2: m.template insert_end<T>(); break;
      case 3: case 4: m.template insert_hint<T>(); break;
      case 5: case 6: m.template insert_local<T>(); break;
      case 7: m.erase_global(); break;
      case 8: m.template erase_local<T>(); break;
      case 9: m.template erase_local_range<T>(); break;
      case 10: m.erase_global_range(); break;
      case 11: m.template clear_seg<T>(); break;
      case 12: m.template reg<T>(); break;
      default: {    // capacity, one type at a time
        int n = (int)src().size(40); trace("capacity ", tname(T::id), " ", n);
        if (src().draw(2)) { m.c.template reserve<T>(n); m.r.seg[T::id]; } else if (m.r.reg(T::id)) m.c.template shrink_to_fit<T>();
        m.template check<T>("capacity");
      }
    }
  });
  next_key = m.next_key;
}
// move-only with potentially throwing move
static void throwing_move_op(Mach& m) {
  using T = T4b;
  int what, t; int k = next_key++;
  bool reg = m.r.reg(T::id);
  std::size_t size = reg ? m.r.seg[T::id].size() : 0, cap = reg ? m.c.template capacity<T>() : 0;
  bool grows = size > 0 && size == cap;
  Ref e = m.r; e.seg[T::id];
  int op = (int)src().draw(6); std::size_t at = reg ? src().draw((u32)size + 1) : 0; u32 n = src().draw(12);
  const char* name = "?";
  bool relocates = grows;
  switch (op) {
    case 0: case 1: name = "emplace of a move-only type"; trace(name, " ", k); what = attempt(t, name, [&] { m.c.template emplace<T>(k); }); if (!what) e.seg[T::id].push_back(k); break;
    case 2: name = "insert of a move-only type"; trace(name, " ", k); what = attempt(t, name, [&] { m.c.insert(T(k)); }); if (!what) e.seg[T::id].push_back(k); break;
    case 3: if (!reg) return; name = "emplace_pos of a move-only type"; trace(name, " ", k, "@", at);
      what = attempt(t, name, [&] { m.c.emplace_pos(m.c.template begin<T>() + at, k); }); if (!what) e.seg[T::id].insert(e.seg[T::id].begin() + (long)at, k); break;
    case 4: name = "reserve of a move-only type"; trace(name, " ", n); what = attempt(t, name, [&] { m.c.template reserve<T>(n); }); relocates = size > 0 && n > cap; break;
    default: if (!reg || size == 0) return; name = "erase of a move-only type"; at = at % size; trace(name, " @", at);
      what = attempt(t, name, [&] { m.c.erase(m.c.template begin<T>() + at); }); if (!what) e.seg[T::id].erase(e.seg[T::id].begin() + (long)at); relocates = false; break;
  }
  if (what) {
    // known finding: growth of such a segment wants to copy
    VP_CHECK(what == 1 && t == T::id && relocates, name, ": throws although no copy is needed");
    label("known:moveonly-throwing-move-growth");
  }
  settle(m, e, name);
}
template <class T, class F> void const_ref_insert(Mach& m, const char* name, Ref e, F&& f) {
  T x(next_key++); int t;
  const int k = x.key();
  int what = attempt(t, name, [&] { f(x); });
  VP_CHECK(what == 1 && t == T::id, name, " of a non-copyable ", tname(T::id), what == 0 ? " does not throw" : " throws the wrong exception");
  VP_CHECK(x.key() == k, name, ": argument modified");
  label("threw_not_copy_constructible");
  if (nonempty_types(e) > 1) nontrivial();
  settle(m, e, name);
}
static void const_insert(Mach& m) {
  auto go = [&](auto tg) {
    using T = typename decltype(tg)::type;
    bool reg = m.r.reg(T::id);
    Ref e = m.r;
    auto g = m.global(); std::size_t p = src().draw((u32)g.size());
    std::size_t idx = reg ? src().draw((u32)m.r.seg[T::id].size() + 1) : 0;
    int op = (int)src().draw(7);
    trace("insert const ", tname(T::id), " op ", op);
    if (!reg && op >= 3) op = 0;
    switch (op) {
      case 0: const_ref_insert<T>(m, "insert(const T&)", e, [&](const T& x) { m.c.insert(x); }); break;
      case 1: const_ref_insert<T>(m, "insert(hint, const T&)", e, [&](const T& x) { m.c.insert(m.cat_(p), x); }); break;
      case 2: const_ref_insert<T>(m, "insert(T&)", e, [&](T& x) { m.c.insert(x); }); break;
      case 3: const_ref_insert<T>(m, "insert(const value_type&)", e, [&](T& x) { const auto& y = iface_of_mut(x); m.c.insert(y); }); break;
      case 4: const_ref_insert<T>(m, "insert(local_base, const T&)", e, [&](const T& x) { m.c.insert(m.c.begin(typeid(T)) + idx, x); }); break;
      case 5: const_ref_insert<T>(m, "insert(local, const T&)", e, [&](const T& x) { m.c.insert(m.c.template begin<T>() + idx, x); }); break;
      default: const_ref_insert<T>(m, "insert(hint, const value_type&)", e, [&](T& x) { const auto& y = iface_of_mut(x); m.c.insert(m.cat_(p), y); }); break;
    }
  };
  switch (src().draw(3)) { case 0: go(tag<T4>{}); break; case 1: go(tag<Bare>{}); break; default: go(tag<T4b>{}); }
}
// dest holds old plus a prefix of what the range has, per type
static void settle_partial(Mach& d, const Ref& old, const Ref& range, const char* op) {
  check_problem(op);
  Ref o = observe(d.c);
  for (auto& p : old.seg) VP_CHECK(o.reg(p.first), op, ": type ", tname(p.first), " is no longer registered");
  for (auto& p : o.seg) {
    std::vector<int> a = old.reg(p.first) ? old.seg.at(p.first) : std::vector<int>{}, b = range.reg(p.first) ? range.seg.at(p.first) : std::vector<int>{};
    VP_CHECK(p.second.size() >= a.size() && p.second.size() <= a.size() + b.size(), op, ": ", tname(p.first), " has ", p.second.size(), " elements, had ", a.size(), " and the range ", b.size());
    for (std::size_t i = 0; i < p.second.size(); ++i) VP_CHECK(p.second[i] == (i < a.size() ? a[i] : b[i - a.size()]), op, ": elements of ", tname(p.first), " are not the old ones plus some of the range");
  }
  d.r = o; full(d, op);
}
static void copy_op() {
  auto& s = *S;
  u32 i = src().draw((u32)s.size()), j = src().draw((u32)s.size());
  Mach &d = *s[i], &o = *s[j];
  Ref dr = d.r, orr = o.r; int t, what; bool bad = has_uncopyable(orr);
  switch (src().draw(6)) {
    case 0: {
      trace("copy construct from s", j, bad ? " (cannot)" : "");
      std::unique_ptr<C> n; what = attempt(t, "copy construction", [&] { n.reset(new C(static_cast<const C&>(o.c))); });
      if (bad) expect_copy_throw(what, t, orr, "copy construction");
      else { VP_CHECK(what == 0, "copy construction throws although no element is non-copyable: ", orr.str()); Mach m(std::move(*n)); settle(m, orr, "copy construction"); }
      settle(o, orr, "source of copy construction"); break;
    }
    case 1: {
      trace("copy construct with allocator from s", j, bad ? " (cannot)" : "");
      std::unique_ptr<C> n; what = attempt(t, "copy construction", [&] { n.reset(new C(static_cast<const C&>(o.c), A{})); });
      if (bad) expect_copy_throw(what, t, orr, "allocator-extended copy construction");
      else { VP_CHECK(what == 0, "allocator-extended copy construction throws although no element is non-copyable"); Mach m(std::move(*n)); settle(m, orr, "copy construction"); }
      settle(o, orr, "source of copy construction"); break;
    }
    case 2: {
      if (i == j) return;
      trace("s", i, " = s", j, bad ? " (cannot)" : "");
      what = attempt(t, "copy assignment", [&] { d.c = static_cast<const C&>(o.c); });
      if (bad) { expect_copy_throw(what, t, orr, "copy assignment"); d.r = observe(d.c); full(d, "destination of a failed copy assignment"); }
      else { VP_CHECK(what == 0, "copy assignment throws although no element is non-copyable"); settle(d, orr, "copy assignment"); }
      settle(o, orr, "source of copy assignment"); break;
    }
    case 3: {   // range of the other collection
      if (i == j) return;
      auto g = o.global(); std::size_t a = src().draw((u32)g.size()), b = a + src().draw((u32)(g.size() - a));
      if (b >= g.size()) b = g.size() - 1;
      Ref range; for (std::size_t x = a; x < b; ++x) range.seg[g[x].tid].push_back(orr.seg[g[x].tid][g[x].idx]);
      bool bb = has_uncopyable(range), cst = src().chance(1, 2), al = src().chance(1, 4);
      // growing a non-empty segment of T4b is the known finding, and every insertion of one throws anyway
      trace("insert [", a, ",", b, ") of s", j, " in s", i, bb ? " (cannot)" : "");
      std::unique_ptr<C> n;
      what = attempt(t, "range insertion", [&] {
        if (al) n.reset(new C(o.cat_(a), o.cat_(b)));
        else if (cst) d.c.insert(o.cat_(a), o.cat_(b)); else d.c.insert(o.at(a), o.at(b)); });
      if (bb) expect_copy_throw(what, t, range, al ? "range construction" : "range insertion");
      else VP_CHECK(what == 0, al ? "range construction" : "range insertion", " throws although no element of the range is non-copyable");
      if (al) { if (!bb) { Mach m(std::move(*n)); settle(m, range, "range construction"); } settle(d, dr, "bystander"); }
      else if (bb) settle_partial(d, dr, range, "failed range insertion");
      else { Ref e = dr; for (auto& p : range.seg) e.seg[p.first].insert(e.seg[p.first].end(), p.second.begin(), p.second.end()); settle(d, e, "range insertion"); }
      settle(o, orr, "source of range insertion"); break;
    }
    case 4: {   // local range
      if (i == j) return;
      with_type(L{}, (int)src().draw(L::size), [&](auto tg) {
        using T = typename decltype(tg)::type;
        if (!o.r.reg(T::id)) return;
        auto& ks = orr.seg[T::id]; std::size_t a = src().draw((u32)ks.size() + 1);
        Ref range; for (std::size_t x = a; x < ks.size(); ++x) range.seg[T::id].push_back(ks[x]);
        bool bb = has_uncopyable(range);
        trace("insert local range of ", tname(T::id), " of s", j, " in s", i, bb ? " (cannot)" : "");
        what = attempt(t, "local range insertion", [&] { d.c.insert(o.c.begin(typeid(T)) + a, o.c.end(typeid(T))); });
        if (bb) { expect_copy_throw(what, t, range, "local range insertion"); settle_partial(d, dr, range, "failed local range insertion"); }
        else { VP_CHECK(what == 0, "local range insertion throws although no element of the range is non-copyable"); Ref e = dr; for (auto& p : range.seg) e.seg[p.first].insert(e.seg[p.first].end(), p.second.begin(), p.second.end()); settle(d, e, "local range insertion"); }
        settle(o, orr, "source of local range insertion");
      });
      break;
    }
    default: {  // moving and swapping never need a copy
      if (i == j) return;
      int op = (int)src().draw(3); trace(op == 0 ? "move assign" : op == 1 ? "swap" : "move construct", " s", i, " s", j);
      what = attempt(t, "move", [&] { if (op == 0) d.c = std::move(o.c); else if (op == 1) d.c.swap(o.c); else { C n(std::move(o.c)); d.c = std::move(n); } });
      VP_CHECK(what == 0, "moving or swapping throws");
      settle(d, orr, "move"); if (op == 1) settle(o, dr, "swap"); else { o.r = observe(o.c); full(o, "moved-from"); }
    }
  }
}
static void compare_op() {
  auto& s = *S;
  u32 i = src().draw((u32)s.size()), j = src().draw((u32)s.size());
  Mach &a = *s[i], &b = *s[j];   // possibly the same collection
  Ref ar = a.r, br = b.r;
  bool noeq_equal = false, noeq_differ = false, eq_same = true;
  for (int t = 0; t < 64; ++t) {
    static const std::vector<int> none;
    auto ia = ar.seg.find(t), ib = br.seg.find(t);
    const auto& x = ia == ar.seg.end() ? none : ia->second; const auto& y = ib == br.seg.end() ? none : ib->second;
    if (comparable_tid(t)) { if (x != y) eq_same = false; }
    else if (x.size() != y.size()) noeq_differ = true;
    else if (!x.empty()) noeq_equal = true;
  }
  const C &x = a.c, &y = b.c;
  for (int form = 0; form < 4; ++form) {
    bool r = false; int t;
    trace("compare s", i, " s", j, " form ", form);
    int what = attempt(t, "comparison", [&] { r = form == 0 ? x == y : form == 1 ? y == x : form == 2 ? !(x != y) : !(y != x); });
    VP_CHECK(what != 1, "comparison throws not_copy_constructible");
    if (what == 2) {
      auto ia = ar.seg.find(t), ib = br.seg.find(t);
      VP_CHECK(!comparable_tid(t) && ia != ar.seg.end() && ib != br.seg.end() && !ia->second.empty() && !ib->second.empty(), "comparison: pinfo is ", tname(t), ", of which no two elements have to be compared");
      VP_CHECK(noeq_equal, "comparison throws not_equality_comparable although no two elements without operator== have to be compared: ", ar.str(), " ", br.str());
      label("threw_not_equality_comparable");
      if (nonempty_types(ar) > 1 && nonempty_types(br) > 1) nontrivial();
    } else {
      VP_CHECK(!(noeq_equal && !noeq_differ && eq_same), "comparison yields ", r, " although elements without operator== decide: ", ar.str(), " ", br.str());
      VP_CHECK(r == (eq_same && !noeq_differ && !noeq_equal), "comparison yields ", r ? "equal" : "different", ": ", ar.str(), " ", br.str());
      label(r ? "equal" : "different");
    }
  }
  settle(a, ar, "comparison"); settle(b, br, "comparison");
}
// makes s[j] like s[i], element by element
static void mirror() {
  auto& s = *S; u32 i = src().draw((u32)s.size()), j = (i + 1) % (u32)s.size();
  Mach &a = *s[i], &b = *s[j];
  trace("mirror s", i, " in s", j);
  b.c.clear(); for (auto& p : b.r.seg) p.second.clear();
  for_types(LI{}, [&](auto tg) { using T = typename decltype(tg)::type; if (a.r.reg(T::id)) for (int k : a.r.seg[T::id]) { b.c.template emplace<T>(k); b.r.seg[T::id].push_back(k); } });
  full(b, "mirror");
}
void run_case() {
  world().reset(); next_key = 1;
  {
    std::vector<std::unique_ptr<Mach>> s; S = &s;
    u32 n = 2 + src().draw(2);
    for (u32 i = 0; i < n; ++i) { s.emplace_back(new Mach); if (src().chance(1, 4)) s.back()->dup_keys = true; }
    while (src().more(14)) {
      switch (src().draw(12)) {
        case 0: case 1: case 2: case 3: element_op(*s[src().draw(n)]); break;
        case 4: throwing_move_op(*s[src().draw(n)]); break;
        case 5: case 6: const_insert(*s[src().draw(n)]); break;
        case 7: case 8: copy_op(); break;
        case 9: case 10: compare_op(); break;
        default: mirror(); compare_op();
      }
    }
  }
  check_no_leaks();
}
}
