// C04: validity of references and iterators
#include "machine.hpp"
namespace vp {
const char* const nontrivial_rule =
  "a case is a generated history during which handles (references, global, local_base and local<T> iterators, end()) are held; after each "
  "operation every handle the documentation keeps valid is dereferenced, advanced and compared; non-trivial when at least one handle survives an "
  "in-capacity modification of its own segment or the registration of a further type";
using L = tlist<T0, T1, T3, T4, T6, Tn<3>>;
using Fill = tlist<Tn<0>, Tn<1>, Tn<2>, Tn<4>, Tn<5>, Tn<6>, Tn<7>, Tn<8>, Tn<9>, Tn<10>, Tn<11>, Tn<12>, Tn<13>, Tn<14>, Tn<15>, Tn<16>, Tn<17>, Tn<18>>;
using Mach = M<std::allocator<Value>, L>;
using C = Mach::C;

struct H {   // handle to an element, or to the end of a segment (idx==size at the time)
  int tid; std::size_t idx; int key; const void* addr; bool at_end;
  C::iterator g; C::const_iterator cg; C::local_base_iterator lb; C::const_local_base_iterator clb;
  std::function<const void*()> typed_deref; std::function<std::ptrdiff_t(C&)> typed_off; std::function<std::ptrdiff_t(C&)> typed_coff;
};
struct World4 {
  Mach m;
  std::vector<H> hs;
  C::iterator e0; C::const_iterator e1;
  std::map<int, std::size_t> caps;

  template <class T> void hold() {
    if (!m.r.reg(T::id)) return;
    auto& ks = m.r.seg[T::id];
    H h; h.tid = T::id; h.idx = src().draw((u32)ks.size() + 1); h.at_end = h.idx == ks.size();
    h.lb = m.c.begin(typeid(T)) + h.idx; h.clb = h.lb;
    auto lt = m.c.template begin<T>() + h.idx;
    typename C::template const_local_iterator<T> clt = lt;
    if (!h.at_end) {
      h.key = ks[h.idx]; h.addr = addr_of(*h.lb);
      h.g = m.at(m.gpos(T::id, h.idx)); h.cg = h.g;
      h.typed_deref = [lt] { return static_cast<const void*>(&*lt); };
    }
    h.typed_off = [lt](C& c) { return lt - c.template begin<T>(); };
    h.typed_coff = [clt](C& c) { return typename C::template const_local_iterator<T>(c.template end<T>()) - clt; };
    hs.push_back(h);
    trace("hold ", tname(T::id), "@", h.idx); label("hold");
  }
  std::size_t cap(int tid) { std::size_t r = 0; for_types(L{}, [&](auto t) { using T = typename decltype(t)::type; if (T::id == tid && m.r.reg(tid)) r = m.c.template capacity<T>(); }); return r; }

  // keep handles into tid below `from`; drop all of the segment when `all`
  void invalidate(int tid, std::size_t from, bool all) {
    std::vector<H> k;
    for (auto& h : hs) {
      if (h.tid != tid) { k.push_back(h); continue; }
      if (all || h.idx >= from) continue;
      k.push_back(h); nontrivial(); label("survives_in_capacity");
    }
    hs.swap(k);
  }
  void verify(const char* op) {
    check_problem(op);
    VP_CHECK(m.c.end() == e0 && m.c.cend() == e1, op, ": held end() no longer equals end()");
    std::vector<int> order = seg_order(m.c);
    // next element in global order
    Addrs_ all; std::map<std::pair<int, std::size_t>, std::size_t> at;
    for (auto s : m.c.segment_traversal()) { int t = tid_of_info(s.type_info()); std::size_t i = 0; for (auto l = s.begin(); l != s.end(); ++l, ++i) { at[{t, i}] = all.size(); all.push_back(addr_of(*l)); } }
    for (auto& h : hs) {
      auto& ks = m.r.seg[h.tid];
      const std::type_info& ti = *info(h.tid);
      VP_CHECK(h.lb - m.c.begin(ti) == (std::ptrdiff_t)h.idx, op, ": held local_base_iterator to ", tname(h.tid), "@", h.idx, " is now at ", h.lb - m.c.begin(ti));
      VP_CHECK(m.c.cend(ti) - h.clb == (std::ptrdiff_t)(ks.size() - h.idx), op, ": held const_local_base_iterator moved");
      VP_CHECK(h.typed_off(m.c) == (std::ptrdiff_t)h.idx, op, ": held local_iterator moved");
      VP_CHECK(h.typed_coff(m.c) == (std::ptrdiff_t)(ks.size() - h.idx), op, ": held const_local_iterator moved");
      unit();
      if (h.at_end) continue;
      VP_CHECK(addr_of(*(m.c.begin(ti) + h.idx)) == h.addr, op, ": element ", tname(h.tid), "@", h.idx, " changed its address");
      VP_CHECK(addr_of(*h.g) == h.addr && addr_of(*h.cg) == h.addr && addr_of(*h.lb) == h.addr && addr_of(*h.clb) == h.addr && h.typed_deref() == h.addr, op, ": a held iterator designates another object");
      VP_CHECK(key_of(*h.g) == h.key && ks[h.idx] == h.key, op, ": a held iterator designates another value");
      auto n = h.g; auto cn = h.cg; ++n; ++cn;
      std::size_t p = at[{h.tid, h.idx}];
      if (p + 1 < all.size()) VP_CHECK(n != m.c.end() && cn != m.c.cend() && addr_of(*n) == all[p + 1] && addr_of(*cn) == all[p + 1], op, ": advancing a held iterator reaches the wrong element");
      else VP_CHECK(n == m.c.end() && cn == m.c.cend(), op, ": advancing a held iterator to the last element does not reach end()");
      std::size_t left = 0; for (; n != m.c.end(); ++n) VP_CHECK(++left < all.size(), op, ": walking on from a held iterator does not end");
      VP_CHECK(left == all.size() - p - 1, op, ": walking on from a held iterator visits ", left, " elements, expected ", all.size() - p - 1);
    }
    check_problem(op);
  }
  using Addrs_ = std::vector<const void*>;
  static const std::type_info* info(int tid) { const std::type_info* r = nullptr; for_types(L{}, [&](auto t) { using T = typename decltype(t)::type; if (T::id == tid) r = &typeid(T); }); return r; }
};

void run_case() {
  world().reset();
  {
    World4 w; Mach& m = w.m;
    w.e0 = m.c.end(); w.e1 = m.c.cend();
    int nt = 1 + (int)src().draw(L::size);
    int avg = src().chance(1, 6) ? 60 : 20;
    int fill = 0;
    if (src().chance(2, 3)) {   // populated start, often with spare capacity
      for (int i = 0; i < nt; ++i) with_type(L{}, i, [&](auto t) {
        using T = typename decltype(t)::type;
        if (src().chance(1, 2)) { m.c.template reserve<T>(src().draw(16)); m.r.seg[T::id]; }
        for (u32 n = src().chance(1, 25) ? 40 + src().draw(200) : src().draw(7); n--;) { int k = m.new_key(); m.c.template emplace<T>(k); m.r.seg[T::id].push_back(k); }
        w.template hold<T>(); w.template hold<T>();
      });
      w.verify("build");
    }
    while (src().more(avg)) {
      int op = (int)src().draw(16);
      const char* name = "?";
      with_type(L{}, (int)src().draw((u32)nt), [&](auto t) {
        using T = typename decltype(t)::type;
        auto& ref = m.r;
        std::size_t n0 = ref.reg(T::id) ? ref.seg[T::id].size() : 0, c0 = w.cap(T::id);
        switch (op) {
          case 0: case 1: case 2: w.template hold<T>(); name = "hold"; break;
          case 3: case 4: {
            name = "insertion at the end";
            w.invalidate(T::id, n0, n0 + 1 > c0);
            m.template insert_end<T>(); break;
          }
          case 5: {
            if (!ref.reg(T::id)) break;
            name = "positioned insertion";
            // positioned at a drawn place through a hint
            std::size_t idx = src().draw((u32)n0 + 1); int k = m.new_key();
            trace("emplace_pos ", tname(T::id), "@", idx);
            w.invalidate(T::id, idx, n0 + 1 > c0);
            if (src().chance(1, 2)) m.c.template emplace_pos<T>(m.c.begin(typeid(T)) + idx, k); else m.c.insert(m.c.template begin<T>() + idx, T(k));
            ref.seg[T::id].insert(ref.seg[T::id].begin() + idx, k);
            break;
          }
          case 6: {
            name = "range insertion";
            std::size_t idx = src().draw((u32)n0 + 1), cnt = src().size(12);
            if (!ref.reg(T::id)) break;
            std::vector<T> v; v.reserve(cnt); std::vector<int> ks;
            for (std::size_t i = 0; i < cnt; ++i) { ks.push_back(m.new_key()); v.emplace_back(ks.back()); }
            trace("insert range ", tname(T::id), "@", idx, " x", cnt);
            if (cnt) w.invalidate(T::id, idx, n0 + cnt > c0);
            if (src().chance(1, 2) && idx < n0) m.c.insert(m.at(m.gpos(T::id, idx)), std::make_move_iterator(v.begin()), std::make_move_iterator(v.end()));
            else m.c.insert(m.c.template begin<T>() + idx, std::make_move_iterator(v.begin()), std::make_move_iterator(v.end()));
            ref.seg[T::id].insert(ref.seg[T::id].begin() + idx, ks.begin(), ks.end());
            break;
          }
          case 7: {
            name = "erasure";
            if (!n0) break;
            std::size_t idx = src().draw((u32)n0);
            trace("erase ", tname(T::id), "@", idx);
            w.invalidate(T::id, idx, false);
            switch (src().draw(5)) {
              case 0: m.c.erase(m.at(m.gpos(T::id, idx))); break;
              case 1: m.c.erase(m.c.begin(typeid(T)) + idx); break;
              case 2: m.c.erase(m.c.cbegin(typeid(T)) + idx); break;
              case 3: m.c.erase(m.c.template begin<T>() + idx); break;
              default: m.c.erase(m.c.template cbegin<T>() + idx);
            }
            ref.seg[T::id].erase(ref.seg[T::id].begin() + idx);
            break;
          }
          case 8: {
            name = "range erasure";
            auto g = m.global();
            std::size_t a = src().draw((u32)g.size()), b = a + src().draw((u32)(g.size() - a));
            int lk = 0;
            if (n0 && src().chance(1, 2)) { lk = 1 + (int)src().draw(4); a = m.gpos(T::id, src().draw((u32)n0)); b = a + src().draw((u32)(n0 - g[a].idx) + 1); }   // within one segment, through local iterators
            trace("erase [", a, ",", b, ") kind ", lk);
            auto f = m.at(a), l = m.at(b); std::ptrdiff_t la = lk ? (std::ptrdiff_t)g[a].idx : 0, lb = lk ? la + (std::ptrdiff_t)(b - a) : 0;
            for (std::size_t i = a; i < b; ++i) w.invalidate(g[i].tid, i == a || g[i].tid != g[i - 1].tid ? g[i].idx : std::size_t(-1), false);
            for (std::size_t i = b; i-- > a;) ref.seg[g[i].tid].erase(ref.seg[g[i].tid].begin() + g[i].idx);
            if (lk == 0) m.c.erase(f, l);
            else if (lk == 1) m.c.erase(m.c.begin(typeid(T)) + la, m.c.begin(typeid(T)) + lb);
            else if (lk == 2) m.c.erase(m.c.cbegin(typeid(T)) + la, m.c.cbegin(typeid(T)) + lb);
            else if (lk == 3) m.c.erase(m.c.template begin<T>() + la, m.c.template begin<T>() + lb);
            else m.c.erase(m.c.template cbegin<T>() + la, m.c.template cbegin<T>() + lb);
            break;
          }
          case 9: name = "clear of a segment"; if (ref.reg(T::id)) { w.invalidate(T::id, 0, true); m.template clear_seg<T>(); } break;
          case 10: {
            name = "reserve";
            if (!ref.reg(T::id)) break;
            std::size_t n = src().chance(1, 8) ? src().draw(300) : src().size(40);
            trace("reserve ", tname(T::id), " ", n);
            if (n > c0) w.invalidate(T::id, 0, true);
            if (src().chance(1, 2)) m.c.template reserve<T>(n); else m.c.reserve(typeid(T), n);
            break;
          }
          case 11: name = "shrink_to_fit"; if (ref.reg(T::id)) { trace("shrink ", tname(T::id)); w.invalidate(T::id, 0, true); m.c.template shrink_to_fit<T>(); } break;
          case 12: case 13: {
            name = "registration of another type";
            if (fill < Fill::size) {
              trace("register filler ", fill);
              with_type(Fill{}, fill, [&](auto f) { using F = typename decltype(f)::type; m.c.template register_types<F>(); m.r.seg[F::id]; });
              ++fill; if (!w.hs.empty()) { nontrivial(); label("survives_registration"); }
            } else m.template reg<T>();
            break;
          }
          case 14: {
            name = "lookups";
            const C& cc = m.c;
            (void)cc.is_registered(typeid(T)); (void)m.c.is_registered(typeid(int)); Mach::C copy; copy.register_types<T0>();
            break;
          }
          default: {   // elements stay where they are on swap and move
            name = "swap/move";
            std::vector<const void*> before, after;
            for (auto& x : m.c) before.push_back(addr_of(x));
            C other; int k = (int)src().draw(4);
            trace("swap/move ", k);
            if (k == 0) { other.template emplace<T0>(m.new_key()); m.c.swap(other); for (auto& x : other) after.push_back(addr_of(x)); m.c.swap(other); }
            else if (k == 1) { C y(std::move(m.c)); for (auto& x : y) after.push_back(addr_of(x)); m.c = std::move(y); }
            else if (k == 2) { other = std::move(m.c); for (auto& x : other) after.push_back(addr_of(x)); m.c = std::move(other); }
            else { C y(std::move(m.c)); C z; swap(y, z); for (auto& x : z) after.push_back(addr_of(x)); swap(m.c, z); }
            std::sort(before.begin(), before.end()); std::sort(after.begin(), after.end());
            VP_CHECK(before == after, "swap or move changed the place of elements");
            after.clear(); for (auto& x : m.c) after.push_back(addr_of(x)); std::sort(after.begin(), after.end());
            VP_CHECK(before == after, "swap or move back changed the place of elements");
            // documentation is silent on iterators here: only references are followed, take iterators anew
            w.hs.clear(); w.e0 = m.c.end(); w.e1 = m.c.cend();
            for (auto&& s : m.c.segment_traversal()) m.r.seg[tid_of_info(s.type_info())];
            label("swap_move");
          }
        }
      });
      w.verify(name);
      check_equal<L>(m.c, m.r, name);
      if (w.hs.size() > 24) w.hs.erase(w.hs.begin(), w.hs.begin() + 12);
    }
  }
  check_no_leaks();
}
}
