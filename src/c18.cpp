// C18: insertion of a collection's own elements
#include "views.hpp"
namespace vp {
const char* const nontrivial_rule =
  "a case is a generated history in which elements of the collection itself (concrete const/non-const reference, interface reference, reference to a member used as emplace argument) are inserted, "
  "hinted, positioned or emplaced into segments with and without spare capacity; non-trivial when a self-insertion hits a full segment or a position not after the source element";
using L = tlist<T0, T1, T2, T3, T5, T6, T7, Tn<3>, Tn<9>>;
template <class A> void go() {
  using Mach = M<A, L>;
  using C = typename Mach::C;
  Mach m;
  int avg = src().chance(1, 5) ? 30 : 10;
  {
    u32 n = 1 + src().draw(6);
    for (u32 i = 0; i < n; ++i) m.pick_type([&](auto t) { using T = typename decltype(t)::type; m.template insert_end<T>(W_EMPLACE1); });
    if (src().chance(1, 12)) m.pick_type([&](auto t) { using T = typename decltype(t)::type; m.template surge<T>(16, 140); });
  }
  while (src().more(avg)) {
    int op = (int)src().draw(10);
    if (op == 0) { m.pick_type([&](auto t) { using T = typename decltype(t)::type; m.template insert_end<T>(W_EMPLACE1); }); continue; }
    if (op == 1) { if (src().chance(1, 2)) m.erase_global(); else m.cap_op(); continue; }
    if (op == 2) { m.c.shrink_to_fit(); trace("shrink_to_fit"); continue; }
    auto g = m.global();
    if (g.size() < 2) continue;
    // the source element
    std::size_t sp = src().draw((u32)g.size() - 1);
    int st = g[sp].tid; std::size_t si = g[sp].idx;
    int key = m.r.seg[st][si];
    with_type(L{}, [&] { int i = 0, at = -1; for_types(L{}, [&](auto t) { using T = typename decltype(t)::type; if (T::id == st) at = i; ++i; }); return at; }(), [&](auto tg) {
      using T = typename decltype(tg)::type;
      auto& ks = m.r.seg[T::id];
      bool full = m.c.template capacity<T>() == ks.size();
      // 0 const T&, 1 T&, 2 const interface&, 3 interface&, 4 emplace(const T&), 5 emplace(member&), 6 emplace two members, 7 (base) reference to an intermediate class
      int how = (int)src().draw(8);
      // where: 0 end, 1 hint, 2 const hint, 3..6 local positions
      int where = (int)src().draw(7);
      T& x = *(m.c.template begin<T>() + (std::ptrdiff_t)si);
      const T& cx = x;
      auto gi = m.at(sp);
      auto&& ix = *gi;
      const auto& cix = ix;
      typename C::iterator git; typename C::local_base_iterator lb; typename C::template local_iterator<T> lt;
      std::size_t hp = src().draw((u32)g.size());
      if (where == 1 || where == 2) { if (src().chance(2, 3)) hp = m.gpos(T::id, src().draw((u32)ks.size())); }
      std::size_t idx = ks.size();
      if (where == 1 || where == 2) { if (g[hp].tid == T::id) idx = g[hp].idx; }
      else if (where >= 3) idx = src().draw((u32)ks.size() + 1);
      int expect = key;
      if (how == 6 && key > 1000000) how = 5;
      if (how == 6) expect = key + key;
      trace("self-insert ", tname(T::id), "[", si, "] how", how, " where", where, " idx", idx, full ? " full" : "");
      label(cat("how", how)); label(full ? "full" : "spare");
      if (full || idx <= si) nontrivial();
      typename C::iterator h = m.at(hp); typename C::const_iterator ch = h;
      typename C::local_base_iterator plb = m.c.begin(typeid(T)) + (std::ptrdiff_t)idx; typename C::const_local_base_iterator pclb = plb;
      typename C::template local_iterator<T> plt = m.c.template begin<T>() + (std::ptrdiff_t)idx; typename C::template const_local_iterator<T> pclt = plt;
      auto put = [&](auto& v) {
        switch (where) {
          case 0: git = m.c.insert(v); break;
          case 1: git = m.c.insert(h, v); break;
          case 2: git = m.c.insert(ch, v); break;
          case 3: lb = m.c.insert(plb, v); break;
          case 4: lb = m.c.insert(pclb, v); break;
          case 5: lt = m.c.insert(plt, v); break;
          default: lt = m.c.insert(pclt, v);
        }
      };
      auto emp = [&](auto&... v) {
        switch (where) {
          case 0: git = m.c.template emplace<T>(v...); break;
          case 1: git = m.c.template emplace_hint<T>(h, v...); break;
          case 2: git = m.c.template emplace_hint<T>(ch, v...); break;
          case 3: lb = m.c.template emplace_pos<T>(plb, v...); break;
          case 4: lb = m.c.template emplace_pos<T>(pclb, v...); break;
          case 5: lt = m.c.emplace_pos(plt, v...); break;
          default: lt = m.c.emplace_pos(pclt, v...);
        }
      };
      switch (how) {
        case 0: put(cx); break;
        case 1: put(x); break;
        case 2: put(cix); break;
        case 3: put(ix); break;
        case 4: emp(cx); break;
        case 5: emp(x.c.k); break;
        case 6: emp(x.c.k, x.c.k); break;
        default:
#if MODEL == MODEL_BASE
          if constexpr (std::is_base_of<Par, T>::value) { const Par& p = x; put(p); } else
#endif
          put(cx);
      }
      ks.insert(ks.begin() + (std::ptrdiff_t)idx, expect);
      if (where <= 2) m.template check_new_global<T>("self-insertion", git, idx, expect);
      else if (where <= 4) m.template check_local_it<T>("self-insertion", lb, idx);
      else m.template check_local_it<T>("self-insertion", lt, idx);
      m.check_all("self-insertion");
      unit();
    });
  }
  check_views<L>(m.c, m.r);
}
void run_case() {
  world().reset();
  if (src().chance(1, 4)) go<Al<Value, 0>>(); else go<std::allocator<Value>>();
  check_no_leaks();
}
}
