// C10: exception safety, by enumeration of every fault point of generated operations on generated states
#include "multi.hpp"
#include <boost/iterator/indirect_iterator.hpp>
namespace vp {
const char* const nontrivial_rule =
  "a case is a generated pair of collections, one operation under test with generated arguments, and a generated continuation; the operation is repeated with an injected "
  "exception at its k-th allocation / element construction, copy, move, assignment, comparison / iterator access, for k=0,1,2,... until it completes (checked_points counts "
  "them); non-trivial when at least 3 fault points were exercised on a collection with elements";
#ifndef FSET
#define FSET 0
#endif
using A = Al<Value, FSET>;
using L = tlist<T0, T6, T4, T5>;
using L2 = tlist<T0, T6, T4, T5, Tn<1>, Tn<2>, Tn<3>, Tn<4>>;
using Mach = M<A, L2>;
using C = Mach::C;
static constexpr int F = FSET;

// forward or input iterator over a vector of elements, every dereference being a fault point
template <class T, class Cat> struct FIt {
  using iterator_category = Cat; using value_type = T; using difference_type = std::ptrdiff_t; using pointer = const T*; using reference = const T&;
  const T* p;
  reference operator*() const { world().tick(FK_ITER); return *p; }
  FIt& operator++() { ++p; return *this; }   // libstdc++'s uninitialized_copy leaks if this throws
  FIt operator++(int) { FIt r = *this; ++*this; return r; }
  bool operator==(const FIt& x) const { return p == x.p; }
  bool operator!=(const FIt& x) const { return p != x.p; }
};

struct Env {
  std::unique_ptr<Mach> m, o;
  long k = -1;                    // fault point, -1: none
  bool completed = false;
  // what the operation may affect
  int only_tid = -2;              // >=0: elements of other types must not change; -1: nothing may change on failure; -2: anything
  bool strong = false;            // elements unchanged on failure
  bool swallow = false;           // may complete in spite of the fault
  bool keeps_o = true;            // o must never change
  bool m_clobbered = false;
  std::string name;

  template <class G> void armed(G&& g) {
    struct D { ~D() { world().disarm(); } } d;
    if (k >= 0) world().arm(k, FK_ALL);
    g();
    completed = true;
  }
};

static void small_step(Mach& m, bool copyable_only) {
  int op = (int)src().draw(9);
  if (op >= 6) { if (op == 6) m.erase_global(); else if (op == 7) m.cap_op(); else { u32 z = src().draw(6); if (z == 5) m.clear_all(); else if (z == 4) m.crowd(); } return; }
  with_type(L{}, (int)src().draw(L::size), [&](auto t) {
    using T = typename decltype(t)::type;
    if (copyable_only && !copyable<T>) return;
    if (m.r.size() < 40 && src().chance(1, 150)) m.template surge<T>(20, 50);
    else if (op < 4) m.template insert_end<T>(W_RVALUE); else if (op == 4) m.template insert_hint<T>(W_EMPLACE1); else m.template reg<T>();
  });
}
static void build(Env& e) {
  int a = (int)src().draw(2), b = (int)src().draw(2);
  e.m.reset(new Mach(A(a))); e.o.reset(new Mach(A(b)));
  e.o->next_key = 1001;
  bool conly = src().chance(1, 2);
  u32 n = src().size(14), n2 = src().size(10);
  for (u32 i = 0; i < n; ++i) small_step(*e.m, conly);
  bool conly2 = src().chance(3, 4);
  for (u32 i = 0; i < n2; ++i) small_step(*e.o, conly2);
}
static bool has_move_only(const Ref& r) { auto it = r.seg.find(T4::id); return it != r.seg.end() && !it->second.empty(); }

// ---- operations under test: draws first, then the armed call -----------------
template <class T> void op_single(Env& e) {
  C& c = e.m->c; Ref& r = e.m->r;
  int where = (int)src().draw(3);    // end, hint, local
  int w = Mach::pick_way<T>(r.reg(T::id));
  int k = 5000;
  e.only_tid = T::id;
  if (where == 0) {
    e.name = cat("insert ", tname(T::id), " at the end as ", way_name(w)); e.strong = true;
    if (w == W_EMPLACE1) e.armed([&] { c.template emplace<T>(k); });
    else if (w == W_EMPLACE2) e.armed([&] { c.template emplace<T>(k - 5, 5); });
    else Mach::provide<T>(w, k, [&](auto&& x) { e.armed([&] { c.insert(std::forward<decltype(x)>(x)); }); });
  } else if (where == 1) {
    auto g = e.m->global(); std::size_t p = src().draw((u32)g.size());
    if (r.reg(T::id) && !r.seg[T::id].empty() && src().chance(1, 2)) p = e.m->gpos(T::id, src().draw((u32)r.seg[T::id].size()));
    e.name = cat("insert ", tname(T::id), " as ", way_name(w), " hint@", p); e.strong = g[p].tid != T::id;
    auto h = e.m->cat_(p);
    if (w == W_EMPLACE1 || w == W_EMPLACE2) e.armed([&] { c.template emplace_hint<T>(h, k); });
    else Mach::provide<T>(w, k, [&](auto&& x) { e.armed([&] { c.insert(h, std::forward<decltype(x)>(x)); }); });
  } else {
    if (!r.reg(T::id)) { e.m->template reg<T>(); }
    std::size_t n = r.seg[T::id].size(), idx = src().draw((u32)n + 1);
    bool typed = src().chance(1, 2);
    e.name = cat("insert ", tname(T::id), " as ", way_name(w), " local@", idx, typed ? " typed" : ""); e.strong = idx == n;
    auto lb = c.begin(typeid(T)) + idx; auto lt = c.template begin<T>() + idx;
    if (w == W_EMPLACE1 || w == W_EMPLACE2) e.armed([&] { if (typed) c.emplace_pos(lt, k); else c.template emplace_pos<T>(lb, k); });
    else Mach::provide<T>(w, k, [&](auto&& x) { e.armed([&] { if (typed) c.insert(lt, std::forward<decltype(x)>(x)); else c.insert(lb, std::forward<decltype(x)>(x)); }); });
  }
}
template <class T> void op_ext_range(Env& e) {
  if constexpr (copyable<T>) {
    C& c = e.m->c; Ref& r = e.m->r;
    std::vector<T> v; u32 n = 1 + src().size(6); v.reserve(n);
    for (u32 i = 0; i < n; ++i) v.emplace_back(6000 + (int)i);
    int cat_ = (int)src().draw(3), where = (int)src().draw(3);
    e.only_tid = T::id;
    e.name = cat("insert range of ", n, " ", tname(T::id), " category ", cat_, " where ", where);
    auto go = [&](auto f, auto l) {
      if (where == 0) e.armed([&] { c.insert(f, l); });
      else if (where == 1) { auto g = e.m->global(); auto h = e.m->cat_(src().draw((u32)g.size())); e.armed([&] { c.insert(h, f, l); }); }
      else {
        if (!r.reg(T::id)) e.m->template reg<T>();
        std::size_t idx = src().draw((u32)r.seg[T::id].size() + 1);
        if (src().chance(1, 2)) { auto p = c.template begin<T>() + idx; e.armed([&] { c.insert(p, f, l); }); }
        else { auto p = c.begin(typeid(T)) + idx; e.armed([&] { c.insert(p, f, l); }); }
      }
    };
    const T* d = v.data();
    if (cat_ == 0) go(v.cbegin(), v.cend());
    else if (cat_ == 1) go(FIt<T, std::forward_iterator_tag>{d}, FIt<T, std::forward_iterator_tag>{d + n});
    else go(FIt<T, std::input_iterator_tag>{d}, FIt<T, std::input_iterator_tag>{d + n});
    for (u32 i = 0; i < n; ++i) VP_CHECK(v[i].key() == 6000 + (int)i, "range insertion modified its source");
  }
}
static void op_coll_range(Env& e) {
  if (has_move_only(e.o->r)) return;
  C& c = e.m->c; const C& o = e.o->c;
  auto go = e.o->global(); std::size_t a = src().draw((u32)go.size()), b = a + src().draw((u32)(go.size() - a));
  auto f = static_cast<const Mach&>(*e.o).cat_(a), l = static_cast<const Mach&>(*e.o).cat_(b);
  int which = (int)src().draw(4);
  e.name = cat("insert ", b - a, " elements of another collection, way ", which);
  (void)o;
  if (which == 0) e.armed([&] { c.insert(f, l); });
  else if (which == 1) { auto g = e.m->global(); auto h = e.m->cat_(src().draw((u32)g.size())); e.armed([&] { c.insert(h, f, l); }); }
  else if (which == 2) { A al(e.o->c.get_allocator()); e.armed([&] { C x(f, l, al); }); e.only_tid = -1; }
  else {
    if (e.o->r.seg.empty()) return;
    auto it = e.o->r.seg.begin(); std::advance(it, src().draw((u32)e.o->r.seg.size()));
    for_types(L{}, [&](auto t) {
      using T = typename decltype(t)::type;
      if constexpr (copyable<T>) if (T::id == it->first) {
        e.only_tid = T::id;
        if (src().chance(1, 2)) e.armed([&] { c.insert(o.template begin<T>(), o.template end<T>()); });
        else e.armed([&] { c.insert(o.begin(typeid(T)), o.end(typeid(T))); });
      }
    });
  }
}
static void op_erase(Env& e) {
  C& c = e.m->c; auto g = e.m->global();
  if (g.size() < 2) return;
  int which = (int)src().draw(4);
  if (which == 0) {
    std::size_t p = src().draw((u32)g.size() - 1); e.only_tid = g[p].tid; e.name = cat("erase @", p);
    auto it = e.m->cat_(p); e.armed([&] { c.erase(it); });
  } else if (which == 1) {
    std::size_t a = src().draw((u32)g.size()), b = a + src().draw((u32)(g.size() - a)); e.name = cat("erase [", a, ",", b, ")");
    auto f = e.m->cat_(a), l = e.m->cat_(b); e.armed([&] { c.erase(f, l); });
  } else {
    std::size_t p = src().draw((u32)g.size() - 1); SegPos s = g[p]; e.only_tid = s.tid;
    std::size_t n = e.m->r.seg[s.tid].size(), len = which == 2 ? 1 : src().draw((u32)(n - s.idx) + 1);
    e.name = cat("erase local ", tname(s.tid), " [", s.idx, ",", s.idx + len, ")");
    bool typed = src().chance(1, 2);
    for_types(L{}, [&](auto t) {
      using T = typename decltype(t)::type; if (T::id != s.tid) return;
      auto lt = c.template begin<T>() + s.idx; auto lb = c.begin(typeid(T)) + s.idx;
      if (which == 2) e.armed([&] { if (typed) c.erase(lt); else c.erase(lb); });
      else e.armed([&] { if (typed) c.erase(lt, lt + len); else c.erase(lb, lb + len); });
    });
  }
}
static void op_capacity(Env& e) {
  C& c = e.m->c; int which = (int)src().draw(7); std::size_t n = src().draw(24);
  e.strong = true; e.name = cat("capacity operation ", which, " ", n);
  with_type(L{}, (int)src().draw(L::size), [&](auto t) {
    using T = typename decltype(t)::type;
    bool reg = e.m->r.reg(T::id);
    switch (which) {
      case 0: e.armed([&] { c.reserve(n); }); break;
      case 1: case 2: e.armed([&] { c.template reserve<T>(n); }); break;
      case 3: if (reg) e.armed([&] { c.reserve(typeid(T), n); }); break;
      case 4: e.swallow = true; e.armed([&] { c.shrink_to_fit(); }); break;
      case 5: e.swallow = true; if (reg) e.armed([&] { c.template shrink_to_fit<T>(); }); break;
      default: e.swallow = true; if (reg) e.armed([&] { c.shrink_to_fit(typeid(T)); }); break;
    }
  });
}
static void op_register(Env& e) {
  C& c = e.m->c; e.strong = true; e.name = "register types";
  switch (src().draw(4)) {
    case 0: e.armed([&] { c.template register_types<T0>(); }); break;
    case 1: e.armed([&] { c.template register_types<Tn<1>, T6, Tn<2>, T4>(); }); break;
    case 2: e.armed([&] { c.template register_types<Tn<1>>(); }); break;
    default: e.armed([&] { c.template register_types<Tn<1>, Tn<2>, Tn<3>, Tn<4>, T0, T6>(); }); break;
  }
}
static void op_transfer(Env& e) {
  C& c = e.m->c; C& o = e.o->c; const C& co = o;
  int which = (int)src().draw(9);
  if (which <= 3 && has_move_only(e.o->r)) which += 4;
  int al = (int)src().draw(3);
  switch (which) {
    case 0: e.name = "copy construction"; e.strong = true; e.armed([&] { C x(co); }); break;
    case 1: e.name = cat("copy construction with allocator ", al); e.strong = true; e.armed([&] { C x(co, A(al)); }); break;
    case 2: case 3: e.name = "copy assignment"; e.armed([&] { c = co; }); break;
    case 4: e.name = "move construction"; e.strong = true; e.keeps_o = false; e.armed([&] { C x(std::move(o)); }); break;
    case 5: e.name = cat("move construction with allocator ", al); e.strong = true; e.keeps_o = false; e.armed([&] { C x(std::move(o), A(al)); }); break;
    case 6: case 7: e.name = "move assignment"; e.keeps_o = false; e.armed([&] { c = std::move(o); }); break;
    default: {
      if (!(F & 4) && c.get_allocator() != o.get_allocator()) return;
      e.name = "swap"; e.keeps_o = false; e.armed([&] { c.swap(o); }); break;
    }
  }
}
static void op_compare(Env& e) {
  e.name = "comparison"; e.strong = true;
  // make the contents equal often
  if (!has_move_only(e.m->r) && src().chance(3, 4)) { e.o.reset(new Mach(C(e.m->c))); e.o->r = observe(e.o->c); }
  const C& x = e.m->c; const C& y = e.o->c;
  bool ne = src().chance(1, 2);
  e.armed([&] { bool b = ne ? x != y : x == y; (void)b; });
}
static void op_clear(Env& e) { e.name = "clear"; C& c = e.m->c; e.armed([&] { c.clear(); }); }

static void run_op(Env& e) {
  int kind = (int)src().draw(14);
  switch (kind) {
    case 0: case 1: case 2: case 3: case 4: with_type(L{}, (int)src().draw(L::size), [&](auto t) { op_single<typename decltype(t)::type>(e); }); break;
    case 5: case 6: with_type(tlist<T0, T6, T5>{}, (int)src().draw(3), [&](auto t) { op_ext_range<typename decltype(t)::type>(e); }); break;
    case 7: op_coll_range(e); break;
    case 8: op_erase(e); break;
    case 9: op_capacity(e); break;
    case 10: op_register(e); break;
    case 11: case 12: op_transfer(e); break;
    default: if (src().chance(1, 8)) op_clear(e); else op_compare(e);
  }
}
static void unchanged(const Ref& before, const Ref& after, const Env& e, const char* what) {
  VP_CHECK(same_elements(before, after), e.name, " failed at fault point ", e.k, " and changed ", what, ": had ", before.str(), " now ", after.str());
  for (auto& p : before.seg) VP_CHECK(after.reg(p.first), e.name, " failed and unregistered ", tname(p.first));
}
// one execution; returns true if the operation completed without the fault firing
static bool execute(Env& e, std::size_t s0, std::size_t s1, std::size_t s2, std::size_t s3) {
  world().reset();
  bool done = false;
  src().replaying(s0, s1, [&] { build(e); });
  e.completed = false; e.only_tid = -2; e.strong = e.swallow = false; e.keeps_o = true;
  bool threw = false;
  Ref bm, bo;
  src().replaying(s1, s2, [&] {
    // operations may adjust the state before arming (registration, equal copies): the reference is kept by the machine
    try { run_op(e); }
    catch (const Fault&) { threw = true; }
    catch (const std::bad_alloc&) { threw = true; }
  });
  bool fired = world().fired != 0;
  world().disarm();
  VP_CHECK(!threw || fired, e.name, ": threw although no fault was injected");
  check_problem(e.name.c_str());
  if (!fired) done = true;
  else {
    unit(); label(world().fired == FK_ALLOC ? "fault:allocation" : world().fired == FK_COPY ? "fault:copy" : world().fired == FK_MOVE ? "fault:move" :
                  world().fired == FK_ASSIGN ? "fault:assignment" : world().fired == FK_EQ ? "fault:comparison" : world().fired == FK_ITER ? "fault:iterator" : "fault:construction");
    VP_CHECK(threw || e.swallow, e.name, ": the exception thrown at fault point ", e.k, " was swallowed");
    bm = e.m->r; bo = e.o->r;
    Ref am = observe(e.m->c), ao = observe(e.o->c);
    if (e.strong || e.only_tid == -1) unchanged(bm, am, e, "the collection");
    else if (e.only_tid >= 0) {
      bm.seg.erase(e.only_tid); Ref x = am; x.seg.erase(e.only_tid);
      unchanged(bm, x, e, "elements of other types");
    }
    if (e.keeps_o) unchanged(bo, ao, e, "the other collection");
    for (auto& p : am.seg) for (int key : p.second) VP_CHECK(key != MOVED || e.only_tid == p.first || e.only_tid == -2, "moved-from element left behind");
    e.m->r = am; e.o->r = ao;
    check_views<L2>(e.m->c, e.m->r); check_views<L2>(e.o->c, e.o->r);
    e.m->check_all("after fault"); e.o->check_all("after fault");
  }
  // go on using both
  if (!done) {
    e.m->next_key = 20001; e.o->next_key = 30001;
    src().replaying(s2, s3, [&] { for (int i = 0; i < 4; ++i) small_step(src().draw(3) ? *e.m : *e.o, false); });
    check_views<L2>(e.m->c, e.m->r); check_views<L2>(e.o->c, e.o->r);
  }
  std::size_t n = e.m->c.size() + e.o->c.size();
  VP_CHECK(world().live.size() == n, e.name, " fault point ", e.k, ": ", world().live.size(), " elements alive, ", n, " in collections");
  e.m.reset(); e.o.reset();
  check_no_leaks();
  return done;
}
void run_case() {
  world().reset();
  std::size_t s0 = src().rec.size(), s1, s2, s3;
  bool nonempty, moveonly;
  {
    Env e;
    build(e); s1 = src().rec.size();
    trace("state ", e.m->r.str(), " other ", e.o->r.str(), " allocators ", e.m->c.get_allocator().id, ",", e.o->c.get_allocator().id);
    nonempty = !e.m->r.empty() || !e.o->r.empty(); moveonly = has_move_only(e.m->r);
    (void)moveonly;
    run_op(e); s2 = src().rec.size();
    trace("operation: ", e.name);
    label("op:" + e.name.substr(0, e.name.find_first_of(" @[0123456789")));
    e.m->r = observe(e.m->c); e.o->r = observe(e.o->c);
    for (int i = 0; i < 4; ++i) small_step(src().draw(3) ? *e.m : *e.o, false);
    s3 = src().rec.size();
  }
  check_no_leaks();
  bool tr = ctx().trace_on; ctx().trace_on = false;
  long k = 0;
  try {
    for (; k < 300; ++k) { Env e; e.k = k; if (execute(e, s0, s1, s2, s3)) break; }
  } catch (...) { ctx().trace_on = tr; trace("fault point ", k); throw; }
  ctx().trace_on = tr; trace(k, " fault points");
  if (k == 300) label("fault_points_capped");
  if (k >= 3 && nonempty) nontrivial();
}
}
