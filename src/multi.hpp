// Several collections with distinguishable allocators: copy, move, assignment, swap.
#ifndef VP_MULTI_HPP
#define VP_MULTI_HPP
#include "views.hpp"
namespace vp {

template <class A> struct AlTraits {            // std::allocator
  static constexpr int F = 16 + 2;              // always equal, POCMA
  static A make(int) { return A(); }
  static int id(const A&) { return 0; }
};
template <class T, int FF> struct AlTraits<Al<T, FF>> {
  static constexpr int F = FF;
  static Al<T, FF> make(int i) { return Al<T, FF>(i); }
  static int id(const Al<T, FF>& a) { return a.id; }
};

// what the collection actually holds, through segment_traversal
template <class C> Ref observe(const C& c) {
  Ref r; std::size_t n = 0;
  for (auto&& s : c.segment_traversal()) {
    int t = tid_of_info(s.type_info());
    VP_CHECK(!r.seg.count(t), "two segments of one type");
    auto& ks = r.seg[t];
    for (auto l = s.begin(); l != s.end(); ++l) { VP_CHECK(++n < 100000, "segment traversal does not end"); ks.push_back(key_of(*l)); }
  }
  return r;
}
inline bool same_elements(const Ref& a, const Ref& b) {
  for (auto& p : a.seg) { auto it = b.seg.find(p.first); if (it == b.seg.end() ? !p.second.empty() : it->second != p.second) return false; }
  for (auto& p : b.seg) if (!a.seg.count(p.first) && !p.second.empty()) return false;
  return true;
}

template <class A, class L> struct Multi {
  using Mach = M<A, L>;
  using C = typename Mach::C;
  using AT = AlTraits<A>;
  static constexpr int F = AT::F;
  std::vector<std::unique_ptr<Mach>> s;
  bool lifetimes = false;       // check the allocator side too
  int next_key = 1;

  explicit Multi(int n) { for (int i = 0; i < n; ++i) s.push_back(std::unique_ptr<Mach>(new Mach(AT::make(draw_id())))); }
  static int draw_id() { return (int)src().draw(3); }
  int id(const Mach& m) { return AT::id(m.c.get_allocator()); }
  static bool has_moveonly(const Ref& r) { for (auto& p : r.seg) if ((p.first == T4::id) && !p.second.empty()) return true; return false; }

  void full(Mach& m, const char* op) {
    check_views<L>(m.c, m.r);
    m.check_all(op);
    unit();
  }
  // expected: elements as in e, every type registered in e registered
  void settle(Mach& m, const Ref& e, const char* op) {
    check_problem(op);
    Ref o = observe(m.c);
    VP_CHECK(same_elements(o, e), op, ": holds ", o.str(), " expected ", e.str());
    for (auto& p : e.seg) VP_CHECK(o.reg(p.first), op, ": type ", tname(p.first), " is no longer registered");
    m.r = o;
    full(m, op);
  }
  // moved-from: valid, contents unspecified
  void settle_moved_from(Mach& m, const char* op) {
    m.r = observe(m.c);
    full(m, op);
    label(m.r.seg.empty() ? "moved_from_no_segments" : m.r.empty() ? "moved_from_empty" : "moved_from_nonempty");
  }
  void expect_id(Mach& m, int e, const char* op) {
    VP_CHECK(id(m) == e, op, ": get_allocator() is ", id(m), " expected ", e);
  }

  void mutate(Mach& m) {
    m.next_key = next_key;
    int op = (int)src().draw(10);
    if (op == 4) m.erase_global();
    else if (op == 5) m.erase_global_range();
    else if (op == 6) m.cap_op();
    else if (op == 7) { u32 z = src().draw(6); if (z == 5) m.clear_all(); else if (z == 4) { if constexpr (F == 7 || F == 8 || F == 14 || std::is_same<A, std::allocator<Value>>::value) m.crowd(); } }
    else m.pick_type([&](auto t) {
      using T = typename decltype(t)::type;
      if (op == 0 && m.r.size() < 300 && src().chance(1, 20)) { m.template surge<T>(20, 150); return; }
      switch (op) {
        case 0: case 1: case 2: m.template insert_end<T>(); break;
        case 3: m.template insert_hint<T>(W_RVALUE); break;
        case 8: m.template clear_seg<T>(); break;
        default: m.template reg<T>(); break;
      }
    });
    next_key = m.next_key;
  }

  void transfer() {
    u32 i = src().draw((u32)s.size()), j = src().draw((u32)s.size());
    int op = (int)src().draw(14);
    bool equal_al = (F & 16) || id(*s[i]) == id(*s[j]);
    Mach& d = *s[i]; Mach& o = *s[j];
    Ref dr = d.r, orr = o.r;
    int di = id(d), oi = id(o);
    const char* name = "?";
    bool nt = !orr.empty();
    if (op <= 2 || op == 5 || op == 10) if (has_moveonly(orr)) return;   // copying would throw (C13)
    switch (op) {
      case 0: {
        name = "copy construction"; trace("s", i, " := copy of s", j);
        std::unique_ptr<Mach> n(new Mach(C(static_cast<const C&>(o.c))));   // moved into place
        expect_id(*n, (F & 8) && !(F & 16) ? oi + 100 : oi, name);
        settle(*n, orr, name); settle(o, orr, "copy source");
        if (i != j) { s[i] = std::move(n); } break;
      }
      case 1: {
        int a = draw_id(); name = "allocator-extended copy construction"; trace("s", i, " := copy of s", j, " with allocator ", a);
        std::unique_ptr<Mach> n(new Mach(AT::make(0)));
        { C x(static_cast<const C&>(o.c), AT::make(a)); Mach t(std::move(x)); expect_id(t, (F & 16) ? 0 : a, name); settle(t, orr, name); n.reset(new Mach(std::move(t.c))); n->r = t.r; }
        settle(*n, orr, "move after copy"); settle(o, orr, "copy source");
        if (i != j) s[i] = std::move(n); break;
      }
      case 2: {
        name = "copy assignment"; trace("s", i, " = s", j);
        d.c = static_cast<const C&>(o.c);
        if (i == j) { settle(d, orr, "self copy assignment"); expect_id(d, di, name); break; }
        settle(d, orr, name); settle(o, orr, "copy assignment source");
        expect_id(d, (F & 1) ? oi : di, name); expect_id(o, oi, name); break;
      }
      case 3: {
        name = "move construction"; trace("s", i, " := move of s", j);
        std::unique_ptr<Mach> n(new Mach(std::move(o.c)));
        expect_id(*n, oi, name);
        settle(*n, orr, name); settle_moved_from(o, "moved-from source");
        if (i != j) s[i] = std::move(n); else s.push_back(std::move(n)); break;
      }
      case 4: {
        int a = draw_id(); name = "allocator-extended move construction"; trace("s", i, " := move of s", j, " with allocator ", a);
        C x(std::move(o.c), AT::make(a));
        std::unique_ptr<Mach> n(new Mach(std::move(x)));
        expect_id(*n, (F & 16) ? 0 : a, name);
        settle(*n, orr, name); settle_moved_from(o, "moved-from source");
        if (i != j) s[i] = std::move(n); else s.push_back(std::move(n)); break;
      }
      case 5: {
        name = "copy assignment from temporary copy";
        if (i == j) return; trace("s", i, " = copy(s", j, ")");
        { C x(o.c); d.c = x; settle(d, orr, name); expect_id(d, (F & 1) ? AT::id(x.get_allocator()) : di, name); }
        settle(d, orr, "copy after its source is gone"); settle(o, orr, name); break;
      }
      case 6: case 7: case 8: {
        if (i == j) return;
        name = "move assignment"; trace("s", i, " = move(s", j, ")");
        d.c = std::move(o.c);
        settle(d, orr, name); settle_moved_from(o, "move-assigned-from source");
        expect_id(d, (F & 2) ? oi : di, name); break;
      }
      case 9: case 10: {
        if (!equal_al && !(F & 4)) return;   // undefined
        name = "swap"; trace("swap s", i, " s", j);
        if (op == 9) d.c.swap(o.c); else { using std::swap; swap(d.c, o.c); }
        if (i == j) { settle(d, dr, "self swap"); break; }
        settle(d, orr, name); settle(o, dr, name);
        expect_id(d, (F & 4) ? oi : di, name); expect_id(o, (F & 4) ? di : oi, name);
        nt = nt || !dr.empty(); break;
      }
      case 12: case 13: {   // copies of the elements of another collection, with whatever allocator
        if (i == j || has_moveonly(orr) || d.r.size() + orr.size() > 200) return;
        Ref e = dr; int how = (int)src().draw(6); name = "range insertion";
        { int inL = 0, all = 0; for (auto& p : orr.seg) { if (!p.second.empty()) ++all; for_types(L{}, [&](auto tg) { using T = typename decltype(tg)::type; if (T::id == p.first && !p.second.empty()) ++inL; }); } if (inL != all && (how == 3 || how == 4)) how = 0; }
        trace("s", i, " += s", j, " how ", how);
        for (auto& p : orr.seg) if (!p.second.empty()) { auto& v = e.seg[p.first]; v.insert(v.end(), p.second.begin(), p.second.end()); }
        const C& oc = o.c;
        if (how == 0) d.c.insert(oc.begin(), oc.end());
        else if (how == 1) d.c.insert(d.c.cend(), o.c.begin(), o.c.end());
        else if (how == 2) for (auto x : oc.segment_traversal()) d.c.insert(x.begin(), x.end());
        else if (how == 3) for_types(L{}, [&](auto tg) { using T = typename decltype(tg)::type; if constexpr (copyable<T>) if (o.r.reg(T::id)) d.c.insert(oc.template begin<T>(), oc.template end<T>()); });
        else if (how == 4) for (auto& p : orr.seg) { if (!p.second.empty() && !d.r.reg(p.first)) { for_types(L{}, [&](auto tg) { using T = typename decltype(tg)::type; if (T::id == p.first) d.c.template register_types<T>(); }); } }
        if (how == 4) for (auto& x : oc) d.c.insert(x);
        if (how == 5) {   // range constructor
          int a = draw_id(); C n(oc.begin(), oc.end(), AT::make(a)); std::unique_ptr<Mach> m(new Mach(std::move(n))); name = "range construction";
          expect_id(*m, (F & 16) ? 0 : a, name);
          Ref f; for (auto& p : orr.seg) if (!p.second.empty()) f.seg[p.first] = p.second;
          settle(*m, f, name); settle(o, orr, name); s[i] = std::move(m); break;
        }
        settle(d, e, name); settle(o, orr, name); expect_id(d, di, name); expect_id(o, oi, name);
        break;
      }
      default: {   // destroy and start anew
        name = "destruction"; trace("renew s", i);
        s[i].reset(new Mach(AT::make(draw_id()))); nt = false; break;
      }
    }
    label(name); if (!equal_al) label(std::string("unequal:") + name);
    if (nt) nontrivial();
    while (s.size() > 4) s.pop_back();
    for (auto& m : s) full(*m, "bystander after transfer");
  }
  void run(int avg) {
    u32 pre = src().draw(8);
    for (auto& m : s) for (u32 i = 0; i < pre; ++i) mutate(*m);
    while (src().more((u32)avg)) {
      if (src().draw(2)) transfer(); else mutate(*s[src().draw((u32)s.size())]);
      if (lifetimes) {
        check_problem("allocator discipline");
        VP_CHECK(world().foreign_construct == 0 && world().foreign_destroy == 0, "Allocator::construct/destroy used on something other than an element");
        std::size_t n = 0; for (auto& m : s) n += m->r.size();
        VP_CHECK(world().live.size() == n, "tracked objects alive: ", world().live.size(), ", elements: ", n);
        if (!std::is_same<A, std::allocator<Value>>::value) {
          VP_CHECK(world().constructed.size() == n, "elements constructed through the allocator: ", world().constructed.size(), ", elements: ", n);
          // every block belongs to an allocator some collection has
          for (auto& b : world().blocks) { bool ok = false; for (auto& m : s) ok = ok || id(*m) == b.second.id; VP_CHECK(ok, "memory held through allocator ", b.second.id, ", which no collection has"); }
          check_ids();
        }
      }
    }
  }
  // all memory a collection acquires from now on comes from its own allocator
  void check_ids() {
    for (auto& m : s) {
      // each element lies in a block of the collection's own allocator
      for (auto& x : m->c) {
        const void* p = addr_of(x);
        bool ok = false;
        for (auto& b : world().blocks) { const char* q = static_cast<const char*>(b.first); if (p >= q && p < q + b.second.bytes) { ok = b.second.id == id(*m); break; } }
        VP_CHECK(ok, "an element lives in memory not obtained from its collection's allocator");
      }
    }
  }
};
} // namespace vp
#endif
