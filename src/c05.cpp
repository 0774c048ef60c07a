// C05: type registration and unregistered_type
#include "machine.hpp"
#include <boost/poly_collection/exception.hpp>
namespace vp {
const char* const nontrivial_rule =
  "a case registers a generated subset of 38 types in generated order and ways, interleaved with element operations, lookups of every type and calls of every "
  "per-type operation on unregistered types; non-trivial when at least one call threw unregistered_type with elements present and at least 3 types registered";
using A = std::allocator<Value>;
using L = tlist<T0, T1, T2, T3, T4, T7, Tn<0>, Tn<1>, Tn<2>, Tn<3>, Tn<4>, Tn<5>, Tn<6>, Tn<7>, Tn<8>, Tn<9>, Tn<10>, Tn<11>>;
// registered all together now and then: past the sizes at which the type map grows
using Crowd = tlist<Tn<12>, Tn<13>, Tn<14>, Tn<15>, Tn<16>, Tn<17>, Tn<18>, Tn<19>, Tn<20>, Tn<21>, Tn<22>, Tn<23>, Tn<24>, Tn<25>, Tn<26>, Tn<27>, Tn<28>, Tn<29>, Tn<30>, Tn<31>>;
using Typed = tlist<T0, T1, T2, T3, T4, T7, Tn<2>, Tn<9>>;
using C = Coll<A>;
namespace pc = boost::poly_collection;

struct St {
  C c; Ref r; int key = 1;
  void one(int tid, const std::type_info& ti, bool typed) {
    const C& cc = c;
    bool e = r.reg(tid);
    VP_CHECK(cc.is_registered(ti) == e, "is_registered(info) is ", !e, " for ", tname(tid));
    VP_CHECK(typed == e, "is_registered<T> is ", !e, " for ", tname(tid));
    if (e) VP_CHECK(cc.size(ti) == r.seg[tid].size(), "size(info) wrong for ", tname(tid));
  }
  void lookups() {
    for_types(L{}, [&](auto t) {
      using T = typename decltype(t)::type;
      one(T::id, typeid(T), c.template is_registered<T>());
    });
    for_types(Crowd{}, [&](auto t) { using T = typename decltype(t)::type; one(T::id, typeid(T), c.template is_registered<T>()); });
    check_equal<L>(c, r, "after lookups");
    unit();
  }
  void crowd() {
    u32 n = 1 + src().draw(Crowd::size), first = src().draw(Crowd::size), some = src().draw(2);
    trace("register ", n, " more types", some ? " with elements" : ""); label("crowd");
    for (u32 i = 0; i < n; ++i) with_type(Crowd{}, (int)((first + i) % Crowd::size), [&](auto t) {
      using T = typename decltype(t)::type;
      if (some) { c.template emplace<T>(key); r.seg[T::id].push_back(key++); } else { c.template register_types<T>(); r.seg[T::id]; }
      one(T::id, typeid(T), c.template is_registered<T>());
    });
    lookups();
  }
};

static void expect_unregistered(St& s, const char* op, int tid, const std::type_info& ti, const std::function<void()>& f) {
  bool thrown = false;
  try { f(); }
  catch (const pc::unregistered_type& e) {
    thrown = true;
    VP_CHECK(e.pinfo && *e.pinfo == ti, op, ": unregistered_type carries another type than ", tname(tid));
    VP_CHECK(dynamic_cast<const std::logic_error*>(&e) != nullptr, op, ": unregistered_type is not a std::logic_error");
  }
  VP_CHECK(thrown, op, " on unregistered ", tname(tid), " did not throw unregistered_type");
  check_equal<L>(s.c, s.r, op);
  VP_CHECK(!s.c.is_registered(ti), op, " registered the type in spite of throwing");
  label(std::string("throw:") + op);
  if (!s.r.empty() && s.r.seg.size() >= 3) nontrivial();
}
#define VP_UNREG(expr) expect_unregistered(s, #expr, tid, ti, [&] { (void)(expr); })

// all operations taking a type_info
static void unreg_info(St& s, u32 which, int tid, const std::type_info& ti) {
  C& c = s.c; const C& cc = c;
  trace("unregistered info op ", which, " on ", tname(tid));
  switch (which) {
    case 0: VP_UNREG(c.begin(ti)); break;
    case 1: VP_UNREG(c.end(ti)); break;
    case 2: VP_UNREG(cc.begin(ti)); break;
    case 3: VP_UNREG(cc.end(ti)); break;
    case 4: VP_UNREG(cc.cbegin(ti)); break;
    case 5: VP_UNREG(cc.cend(ti)); break;
    case 6: VP_UNREG(c.segment(ti)); break;
    case 7: VP_UNREG(cc.segment(ti)); break;
    case 8: VP_UNREG(cc.empty(ti)); break;
    case 9: VP_UNREG(cc.size(ti)); break;
    case 10: VP_UNREG(cc.max_size(ti)); break;
    case 11: VP_UNREG(cc.capacity(ti)); break;
    case 12: VP_UNREG(c.reserve(ti, 10)); break;
    case 13: VP_UNREG(c.shrink_to_fit(ti)); break;
    default: VP_UNREG(c.clear(ti)); break;
  }
}
template <class T> void unreg_typed(St& s, u32 which) {
  C& c = s.c; const C& cc = c; const std::type_info& ti = typeid(T); const int tid = T::id;
  trace("unregistered typed op ", which, " on ", tname(T::id));
  switch (which) {
    case 0: VP_UNREG(c.template begin<T>()); break;
    case 1: VP_UNREG(c.template end<T>()); break;
    case 2: VP_UNREG(cc.template begin<T>()); break;
    case 3: VP_UNREG(cc.template end<T>()); break;
    case 4: VP_UNREG(cc.template cbegin<T>()); break;
    case 5: VP_UNREG(cc.template cend<T>()); break;
    case 6: VP_UNREG(c.template segment<T>()); break;
    case 7: VP_UNREG(cc.template segment<T>()); break;
    case 8: VP_UNREG(cc.template empty<T>()); break;
    case 9: VP_UNREG(cc.template size<T>()); break;
    case 10: VP_UNREG(cc.template max_size<T>()); break;
    case 11: VP_UNREG(cc.template capacity<T>()); break;
    case 12: VP_UNREG(c.template shrink_to_fit<T>()); break;
    default: VP_UNREG(c.template clear<T>()); break;
  }
}
// insertion of objects through references whose static type is not the dynamic one
template <class T> void unreg_insert(St& s) {
  C& c = s.c; const std::type_info& ti = typeid(T); const int tid = T::id;
  T x(s.key);
  u32 which = src().draw(5);
  trace("insert unregistered ", tname(T::id), " by interface, ", which);
  bool done = false;
#if MODEL == MODEL_BASE
  const Iface& ci = x; Iface& mi = x;
#define VP_MV std::move(mi)
#else
  Value vi{x}; const Value& ci = vi;
#define VP_MV std::move(vi)
#endif
  switch (which) {
    case 0: VP_UNREG(c.insert(ci)); break;
    case 1: VP_UNREG(c.insert(VP_MV)); break;
    case 2: VP_UNREG(c.insert(c.begin(), ci)); break;
    case 3: VP_UNREG(c.insert(c.cend(), VP_MV)); break;
    default: {
#if MODEL == MODEL_BASE
      const Iface* p = &x; struct It { using iterator_category = std::forward_iterator_tag; using value_type = Iface; using difference_type = std::ptrdiff_t; using pointer = const Iface*; using reference = const Iface&;
        const Iface* p; int n; reference operator*() const { return *p; } It& operator++() { ++n; return *this; } bool operator==(const It& o) const { return n == o.n; } bool operator!=(const It& o) const { return n != o.n; } };
      VP_UNREG(c.insert(It{p, 0}, It{p, 1}));
#else
      std::vector<Value> v{vi};
      VP_UNREG(c.insert(v.begin(), v.end()));
#endif
    }
  }
  VP_CHECK(x.key() == s.key, "failed insertion modified its argument");
}
#if MODEL == MODEL_BASE
// object of a derived class through a reference to its acceptable, non-terminal base
static void unreg_derived(St& s) {
  const int tid = Der::id; const std::type_info& ti = typeid(Der);
  C& c = s.c; Der x(s.key); Par& p = x; const Par& cp = x;
  trace("insert Der as Par&");
  switch (src().draw(4)) {
    case 0: VP_UNREG(c.insert(cp)); break;
    case 1: VP_UNREG(c.insert(std::move(p))); break;
    case 2: VP_UNREG(c.insert(c.begin(), cp)); break;
    default: VP_UNREG(c.insert(c.cbegin(), std::move(p)));
  }
  VP_CHECK(x.key() == s.key, "failed insertion modified its argument");
}
#endif
// ranges from another collection register their types as needed
template <class T> void import(St& s) {
  C o; int n = (int)src().draw(4);
  o.template register_types<T>();
  for (int i = 0; i < n; ++i) o.template emplace<T>(s.key + i);
  u32 which = src().draw(6);
  trace("import ", tname(T::id), " x", n, " by ", which);
  const C& co = o;
  switch (which) {
    case 0: s.c.insert(o.begin(), o.end()); break;
    case 1: s.c.insert(co.begin(), co.end()); break;
    case 2: s.c.insert(o.begin(typeid(T)), o.end(typeid(T))); break;
    case 3: s.c.insert(co.template begin<T>(), co.template end<T>()); break;
    case 4: s.c.insert(s.c.begin(), o.begin(), o.end()); break;
    default: s.c.insert(s.c.begin(), o.template begin<T>(), o.template end<T>()); break;
  }
  // hinted imports go before begin() when that is in T's segment, which is then first
  std::vector<int> ks; for (int i = 0; i < n; ++i) ks.push_back(s.key + i);
  if (n) {
    auto& d = s.r.seg[T::id];
    bool front = false;
    if (which >= 4 && !d.empty()) { for (int t : seg_order(s.c)) { if (s.r.seg[t].empty()) continue; front = t == T::id; break; } }
    d.insert(front ? d.begin() : d.end(), ks.begin(), ks.end());
  }
  s.key += n;
  label("import");
}

void run_case() {
  world().reset();
  {
    St s;
    s.lookups();
    bool few = src().chance(1, 2);
    int nt = few ? 4 : L::size;
    int base = few ? (int)src().draw(L::size - 4) : 0;
    int avg = few ? 20 : 60;
    while (src().more(avg)) {
      if (src().chance(1, 100)) s.crowd();
      int op = (int)src().draw(12);
      int ti = base + (int)src().draw((u32)nt);
      if (op < 5) with_type(L{}, ti, [&](auto t) {
        using T = typename decltype(t)::type;
        trace("register way ", op, " ", tname(T::id));
        label(op == 0 ? "register_types" : op == 1 ? "reserve<T>" : op == 2 ? "emplace" : op == 3 ? "insert" : "register several");
        if (op == 0) { s.c.template register_types<T>(); s.r.seg[T::id]; }
        else if (op == 1) { s.c.template reserve<T>(src().draw(4)); s.r.seg[T::id]; }
        else if (op == 2) { s.c.template emplace<T>(s.key); s.r.seg[T::id].push_back(s.key++); }
        else if (op == 3) { s.c.insert(T(s.key)); s.r.seg[T::id].push_back(s.key++); }
        else { s.c.template register_types<T, Tn<0>, T>(); s.r.seg[T::id]; s.r.seg[Tn<0>::id]; }
      });
      else if (op < 8) {
        int j = (int)src().draw((u32)nt) + base; u32 w = src().draw(15);
        with_type(L{}, j, [&](auto t) { using T = typename decltype(t)::type; if (!s.r.reg(T::id)) unreg_info(s, w, T::id, typeid(T)); });
      } else if (op < 10) {
        u32 w = src().draw(14);
        with_type(Typed{}, (int)src().draw(Typed::size), [&](auto t) {
          using T = typename decltype(t)::type;
          if (s.r.reg(T::id)) { if (copyable<T>) import<T>(s); return; }
          if (src().chance(1, 3)) unreg_insert<T>(s); else unreg_typed<T>(s, w);
        });
      } else if (op == 10) {
#if MODEL == MODEL_BASE
        if (!s.r.reg(Der::id) && src().chance(1, 2)) { unreg_derived(s); }
        else
#endif
        with_type(Typed{}, (int)src().draw(Typed::size), [&](auto t) { using T = typename decltype(t)::type; if (copyable<T>) import<T>(s); });
        for (auto&& g : s.c.segment_traversal()) s.r.seg[tid_of_info(g.type_info())];
      } else s.lookups();
      check_equal<L>(s.c, s.r, "step");
    }
    s.lookups();
    // registered types survive copying, with their elements
    bool cp = true; for (auto& p : s.r.seg) if (p.first == T4::id && !p.second.empty()) cp = false;
    if (cp && src().chance(1, 3)) {
      trace("copy");
      St d; d.c = s.c; d.r = s.r; for (auto&& g : d.c.segment_traversal()) d.r.seg[tid_of_info(g.type_info())];
      d.lookups(); s.lookups();
    }
  }
  check_no_leaks();
}
}
