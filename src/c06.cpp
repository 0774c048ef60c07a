// C06: capacity operations
#include "machine.hpp"
#include <stdexcept>
namespace vp {
const char* const nontrivial_rule =
  "a case is a generated history of reserve/shrink_to_fit/insert/erase/clear calls, with an allocator of generated max_size, checking capacities, "
  "addresses, allocations and contents around each call; non-trivial when some reserve exceeds the current capacity of a non-empty segment or max_size";

static std::size_t g_max = 1000000;
template <class T> struct CapAl {
  using value_type = T;
  using is_always_equal = std::true_type;
  CapAl() = default;
  template <class U> CapAl(const CapAl<U>&) noexcept {}
  T* allocate(std::size_t n) {
    ++world().n_alloc;
    if (n > 100000) throw std::bad_alloc();   // never try to obtain huge blocks
    return static_cast<T*>(alignof(T) > alignof(std::max_align_t) ? ::operator new(n * sizeof(T), std::align_val_t(alignof(T))) : ::operator new(n * sizeof(T)));
  }
  void deallocate(T* p, std::size_t) noexcept { if (alignof(T) > alignof(std::max_align_t)) ::operator delete(p, std::align_val_t(alignof(T))); else ::operator delete(p); }
  std::size_t max_size() const noexcept { return g_max; }
  template <class U> friend bool operator==(const CapAl&, const CapAl<U>&) noexcept { return true; }
  template <class U> friend bool operator!=(const CapAl&, const CapAl<U>&) noexcept { return false; }
};
using L = tlist<T0, T1, T3, T4, T6>;
using A = CapAl<Value>;
using Mach = M<A, L>;
using C = Mach::C;

template <class T> std::vector<const void*> addrs(C& c) {
  std::vector<const void*> r;
  if (c.is_registered(typeid(T))) for (auto& x : c.segment(typeid(T))) r.push_back(addr_of(x));
  return r;
}
struct Snap { std::map<int, std::size_t> cap; };
static std::size_t cap_of(C& c, int tid) {
  std::size_t r = 0;
  for_types(L{}, [&](auto t) { using T = typename decltype(t)::type; if (T::id == tid) {
    const C& cc = c; r = cc.template capacity<T>();
    VP_CHECK(r == cc.capacity(typeid(T)), "capacity<T>() and capacity(info) differ");
  } });
  return r;
}
static void invariants(Mach& m, const char* op) {
  const C& cc = m.c;
  for_types(L{}, [&](auto t) {
    using T = typename decltype(t)::type;
    if (!m.r.reg(T::id)) return;
    std::size_t cp = cap_of(m.c, T::id), ms = cc.template max_size<T>();
    VP_CHECK(ms == cc.max_size(typeid(T)), op, ": max_size<T>() and max_size(info) differ");
    VP_CHECK(cp >= cc.template size<T>(), op, ": capacity ", cp, " below size ", cc.template size<T>(), " for ", tname(T::id));
    VP_CHECK(cc.template size<T>() <= ms, op, ": size exceeds max_size for ", tname(T::id));
  });
  check_equal<L>(m.c, m.r, op);
  unit();
}
static Snap snap(Mach& m) { Snap s; for (auto& p : m.r.seg) s.cap[p.first] = cap_of(m.c, p.first); return s; }
static void others_same(Mach& m, const Snap& s, int except, const char* op) {
  for (auto& p : s.cap) if (p.first != except) VP_CHECK(cap_of(m.c, p.first) == p.second, op, ": capacity of another segment (", tname(p.first), ") changed");
}

template <class T> void reserve_one(Mach& m) {
  bool was = m.r.reg(T::id);
  std::size_t n, sz = was ? m.r.seg[T::id].size() : 0, c0 = was ? cap_of(m.c, T::id) : 0;
  std::size_t ms = was ? m.c.template max_size<T>() : 0;
  switch (src().draw(8)) {
    case 0: n = 0; break;
    case 1: n = sz; break;
    case 2: n = c0 ? c0 - 1 : 0; break;
    case 3: n = c0; break;
    case 4: n = c0 + 1; break;
    case 5: n = src().draw(src().chance(1, 4) ? 400 : 60); break;
    case 6: n = was ? ms + 1 + (src().chance(1, 2) ? 0 : src().draw(5)) : 3; break;
    default: n = was ? (src().chance(1, 3) ? std::size_t(-1) : src().chance(1, 2) ? std::size_t(-1) / 2 : ms) : 5;
  }
  if (was && n <= ms && n > 5000) n = 5000 < ms ? 5000 : ms;
  bool typed = !was || src().chance(1, 2);
  trace("reserve ", tname(T::id), " ", n, typed ? " typed" : " info");
  Snap s = snap(m);
  auto a0 = addrs<T>(m.c);
  u64 al0 = world().n_alloc, mv0 = world().n_move + world().n_copy;
  bool le = false;
  try { if (typed) m.c.template reserve<T>(n); else m.c.reserve(typeid(T), n); }
  catch (const std::length_error&) { le = true; }
  m.r.seg[T::id];
  ms = m.c.template max_size<T>();
  VP_CHECK(le == (n > ms), "reserve(", n, ") with max_size ", ms, le ? " threw" : " did not throw", " std::length_error");
  std::size_t c1 = cap_of(m.c, T::id);
  if (le) {
    label("length_error"); nontrivial();
    if (was) VP_CHECK(c1 == c0 && addrs<T>(m.c) == a0, "failed reserve changed the segment");
  } else {
    VP_CHECK(c1 >= n, "capacity ", c1, " after reserve(", n, ")");
    VP_CHECK(c1 >= c0, "reserve decreased the capacity");
    if (was && n <= c0) {
      VP_CHECK(c1 == c0, "reserve(", n, ") within capacity ", c0, " changed it to ", c1);
      VP_CHECK(addrs<T>(m.c) == a0 && world().n_alloc == al0 && world().n_move + world().n_copy == mv0, "reserve within capacity reallocated");
      label("reserve_within");
    } else { label("reserve_grow"); if (sz) nontrivial(); }
  }
  others_same(m, s, T::id, "reserve");
  invariants(m, "reserve");
  // insertions up to the capacity do not reallocate
  if (!le && c1 < 80 && src().chance(1, 2)) {
    auto a = addrs<T>(m.c);
    u64 al = world().n_alloc;
    trace("fill ", tname(T::id), " up to capacity ", c1);
    while (m.r.seg[T::id].size() < c1) { int k = m.new_key(); m.r.seg[T::id].push_back(k); if (k % 2) m.c.template emplace<T>(k); else m.c.insert(T(k)); }
    auto b = addrs<T>(m.c);
    VP_CHECK(std::equal(a.begin(), a.end(), b.begin()), "insertion within capacity moved elements of ", tname(T::id));
    VP_CHECK(world().n_alloc == al, "insertion within capacity allocated");
    VP_CHECK(cap_of(m.c, T::id) == c1, "insertion within capacity changed it");
    label("fill_to_capacity");
    invariants(m, "fill");
  }
}
static void reserve_all(Mach& m) {
  std::size_t n = src().draw(40);
  if (src().chance(1, 12)) n = std::size_t(-1) / (1 + src().draw(3));
  Snap s = snap(m);
  trace("reserve all ", n);
  bool le = false, expect = false;
  for_types(L{}, [&](auto t) { using T = typename decltype(t)::type; if (m.r.reg(T::id) && n > m.c.template max_size<T>()) expect = true; });
  try { m.c.reserve(n); } catch (const std::length_error&) { le = true; }
  VP_CHECK(le == expect, "reserve of all segments", le ? " threw" : " did not throw");
  for (auto& p : s.cap) {
    if (!le) VP_CHECK(cap_of(m.c, p.first) >= n, "reserve(n) left a capacity below n for ", tname(p.first));
    VP_CHECK(cap_of(m.c, p.first) >= p.second, "reserve(n) decreased a capacity");
    if (!le && n <= p.second) VP_CHECK(cap_of(m.c, p.first) == p.second, "reserve(n) within capacity changed it");
  }
  label(le ? "length_error" : "reserve_all");
  invariants(m, "reserve(n)");
}
static void shrink(Mach& m) {
  Snap s = snap(m);
  int kind = (int)src().draw(3);
  if (kind == 0) {
    trace("shrink all"); m.c.shrink_to_fit();
    // same as shrinking each of the segments: doing so now changes nothing
    Snap all = snap(m);
    for (auto& p : all.cap) {
      for_types(L{}, [&](auto t) { using T = typename decltype(t)::type; if (T::id == p.first) m.c.shrink_to_fit(typeid(T)); });
      VP_CHECK(cap_of(m.c, p.first) == p.second, "shrink_to_fit() leaves capacity ", p.second, " for ", tname(p.first), " where shrink_to_fit(info) leaves ", cap_of(m.c, p.first));
    }
    for (auto& p : s.cap) VP_CHECK(cap_of(m.c, p.first) <= (p.second > 1 ? p.second : 1), "shrink_to_fit increased a capacity");
  } else m.pick_type([&](auto t) {
    using T = typename decltype(t)::type;
    if (!m.r.reg(T::id)) return;
    trace("shrink ", tname(T::id));
    if (kind == 1) m.c.template shrink_to_fit<T>(); else m.c.shrink_to_fit(typeid(T));
    VP_CHECK(cap_of(m.c, T::id) <= (s.cap[T::id] > 1 ? s.cap[T::id] : 1), "shrink_to_fit increased the capacity");
    others_same(m, s, T::id, "shrink_to_fit");
    // unused capacity is given back (std::vector does)
    VP_CHECK(cap_of(m.c, T::id) <= std::max<std::size_t>(1, m.r.seg[T::id].size()), "shrink_to_fit leaves capacity ", cap_of(m.c, T::id), " for ", m.r.seg[T::id].size(), " elements of ", tname(T::id));
  });
  label("shrink");
  invariants(m, "shrink_to_fit");
}
// grow a segment to (near) its max_size, and past it
template <class T> void saturate(Mach& m) {
  if (g_max > 200) return;
  m.template reg<T>();
  std::size_t ms = m.c.template max_size<T>();
  trace("saturate ", tname(T::id), " max_size ", ms);
  auto& ks = m.r.seg[T::id];
  while (ks.size() < ms) { int k = m.new_key(); ks.push_back(k); if (src().chance(1, 4)) m.c.template emplace_pos<T>(m.c.end(typeid(T)), k); else m.c.template emplace<T>(k); }
  invariants(m, "saturate");
  bool le = false;
  std::size_t c0 = cap_of(m.c, T::id);
  if (c0 <= ms) {
    try { m.c.template emplace<T>(m.new_key()); } catch (const std::length_error&) { le = true; }
    VP_CHECK(le, "insertion beyond max_size did not throw std::length_error");
    label("insert_beyond_max"); nontrivial();
    invariants(m, "insertion beyond max_size");
  }
}
void run_case() {
  world().reset();
  g_max = 1000000;
  if (src().chance(1, 2)) g_max = 4 + src().draw(60);
  {
    Mach m;
    int avg = src().chance(1, 6) ? 50 : 16;
    trace("allocator max_size ", g_max);
    auto room = [&](int extra) { return m.r.size() + extra < g_max / 2 || g_max > 100000; };
    while (src().more(avg)) {
      int op = (int)src().draw(12);
      try {
        m.pick_type([&](auto t) {
          using T = typename decltype(t)::type;
          switch (op) {
            case 0: case 1: case 2: reserve_one<T>(m); break;
            case 3: reserve_all(m); break;
            case 4: shrink(m); break;
            case 5: case 6: if (room(1)) m.template insert_end<T>(); break;
            case 7: if (room(1)) m.template insert_local<T>(); break;
            case 8: m.erase_global_range(); break;
            case 9: m.template clear_seg<T>(); break;
            case 10: if (src().chance(1, 3)) saturate<T>(m); break;
            default: m.erase_global();
          }
        });
      } catch (const std::bad_alloc&) { fail("attempt to allocate a huge block"); }
      invariants(m, "step");
    }
  }
  check_no_leaks();
}
}
