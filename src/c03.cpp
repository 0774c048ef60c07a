// C03: coherence of all traversal views, stability of segment order
#include "views.hpp"
namespace vp {
const char* const nontrivial_rule =
  "a case is a generated history over up to 12 types after each step of which all 20 or so traversal views are compared object by object; "
  "non-trivial when at some step at least two segments are non-empty and at least one is empty";
using L = tlist<T0, T1, T2, T3, T4, T6, Tn<0>, Tn<1>, Tn<2>, Tn<3>, Tn<4>, Tn<5>>;
using Mach = M<std::allocator<Value>, L>;
static std::vector<int> step(Mach& m, std::vector<int> before, bool stable_expected) {
  auto o = check_views<L>(m.c, m.r);
  if (src().chance(1, 3)) check_infos<L>(m.c, m.r);
  if (stable_expected && o.size() == before.size()) VP_CHECK(o == before, "segment order changed although no segment was created");
  std::size_t ne = 0; for (auto& p : m.r.seg) ne += !p.second.empty();
  if (ne >= 2 && ne < m.r.seg.size()) nontrivial();
  unit();
  return o;
}
static void sync(Mach& m) { for (auto&& s : m.c.segment_traversal()) m.r.seg[tid_of_info(s.type_info())]; }
void run_case() {
  world().reset();
  {
    Mach m;
    std::vector<int> order;
    order = step(m, order, true);
    int nt = 1 + (int)src().draw(L::size);
    int avg = src().chance(1, 6) ? 40 : 12;
    while (src().more(avg)) {
      bool stable = true;
      int op = (int)src().draw(14);
      int ti = (int)src().draw((u32)nt);
      if (op == 4) m.erase_global();
      else if (op == 5 || op == 6) m.erase_global_range();
      else if (op == 7) m.cap_op();
      else if (op == 8) { if (src().chance(1, 4)) m.clear_all(); }
      else if (op == 12) {   // replace contents: copy, move, swap, assign
        Mach n;
        u32 k = src().draw(4);
        for (u32 i = 0; i < k; ++i) n.pick_type([&](auto t) { using T = typename decltype(t)::type; if (copyable<T>) n.template insert_end<T>(W_EMPLACE1); });
        bool cp = true; for (auto& p : m.r.seg) if (p.first == T4::id && !p.second.empty()) cp = false;
        int w = (int)src().draw(4);
        trace("replace ", w); label("replace");
        if (w == 0) { m.c.swap(n.c); std::swap(m.r, n.r); }
        else if (w == 1) { m.c = n.c; m.r = n.r; sync(m); }
        else if (w == 2) { Mach::C x(std::move(m.c)); m.c = std::move(x); sync(m); }
        else if (cp) { Mach::C x(m.c); m.c.swap(x); sync(m); }
        stable = false;
      }
      else with_type(L{}, ti, [&](auto t) {
        using T = typename decltype(t)::type;
        if (op == 0 && m.r.size() < 400 && src().chance(1, 20)) { m.template surge<T>(20, 180); return; }
        switch (op) {
          case 0: case 1: case 2: m.template insert_end<T>(W_EMPLACE1); break;
          case 3: m.template insert_hint<T>(W_RVALUE); break;
          case 9: m.template erase_local_range<T>(); break;
          case 10: case 11: m.template clear_seg<T>(); break;
          default: m.template reg<T>(); break;
        }
      });
      order = step(m, order, stable);
    }
  }
  check_no_leaks();
}
}
