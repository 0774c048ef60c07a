// C19: several equal std::type_info objects for one type
#include "multi.hpp"
namespace vp {
const char* const nontrivial_rule =
  "a case drives 2-4 collections through generated per-type operations in which the type is named by one of up to 48 equal std::type_info objects (the compiler's own or a fabricated one, with the name "
  "shared or copied), interleaved with registrations, element operations, copies, moves and swaps; non-trivial when a type with elements is looked up through at least three different objects, "
  "one of them also used before a transfer or a registration";
// objects that compare equal to typeid(T) and hash alike, at other addresses, of static lifetime
struct Aliases {
  std::map<int, std::vector<const std::type_info*>> v;
  template <class T> void add() {
    const std::type_info& ti = typeid(T);
    auto& w = v[T::id];
    w.push_back(&ti);
    for (int i = 0; i < 47; ++i) {
      void* p = std::malloc(64);
      std::memcpy(p, (const void*)&ti, sizeof(std::type_info));
      if (i % 2) {      // { vptr, name }
        char* n = static_cast<char*>(std::malloc(std::strlen(ti.name()) + 1)); std::strcpy(n, ti.name());
        std::memcpy(static_cast<char*>(p) + sizeof(void*), &n, sizeof n);
      }
      const std::type_info* q = static_cast<const std::type_info*>(p);
      if (!(*q == ti) || q->hash_code() != ti.hash_code()) std::abort();   // not the Itanium ABI
      w.push_back(q);
    }
  }
};
template <class L> Aliases& aliases() { static Aliases* a = [] { auto* x = new Aliases; for_types(L{}, [&](auto t) { using T = typename decltype(t)::type; x->add<T>(); }); return x; }(); return *a; }

template <class A, class L> struct X : Multi<A, L> {
  using B = Multi<A, L>; using Mach = typename B::Mach; using C = typename B::C;
  u32 spread;
  std::map<int, std::map<const std::type_info*, int>> used;   // type -> object -> epoch of first use
  int epoch = 0;
  X(int n, u32 sp) : B(n), spread(sp) {}
  const std::type_info& al(int tid) {
    const auto& v = aliases<L>().v[tid];
    const std::type_info* p = v[src().draw(spread)];
    return *p;
  }
  void note(Mach& m, int tid, const std::type_info* p) {
    used[tid].emplace(p, epoch);
    if (used[tid].size() >= 3 && !m.r.seg[tid].empty() && used[tid].begin()->second < epoch) nontrivial();
  }
  template <class T> void lookup(Mach& m, const std::type_info& ti, const char* when) {
    bool reg = m.r.reg(T::id);
    C& c = m.c; const C& cc = c;
    int how = (int)src().draw(8);
    trace("lookup ", tname(T::id), " through object ", (&ti == &typeid(T) ? "own" : "alias"), " how", how);
    if (how & 1) VP_CHECK(cc.is_registered(ti) == reg, when, ": is_registered(alias) is wrong for ", tname(T::id));
    if (!reg) {
      bool thrown = false;
      try {
        switch (how) { case 0: c.begin(ti); break; case 1: cc.begin(ti); break; case 2: c.segment(ti); break; case 3: cc.size(ti); break; case 4: c.reserve(ti, 3); break; case 5: c.clear(ti); break; case 6: cc.capacity(ti); break; default: c.end(ti); }
      } catch (const boost::poly_collection::unregistered_type& e) { thrown = true; VP_CHECK(e.pinfo && *e.pinfo == typeid(T), "pinfo"); }
      VP_CHECK(thrown, when, ": operation through an alias of unregistered ", tname(T::id), " did not throw");
      label("alias_unregistered");
      return;
    }
    const auto& ks = m.r.seg[T::id];
    label("alias_lookup");
    switch (how) {
      case 0: { VP_CHECK(c.begin(ti) == c.begin(typeid(T)) && c.end(ti) == c.end(typeid(T)), when, ": begin/end(alias) designate another segment"); break; }
      case 1: { VP_CHECK(cc.cbegin(ti) == cc.cbegin(typeid(T)) && cc.end(ti) == cc.end(typeid(T)), when, ": cbegin/cend(alias) designate another segment"); break; }
      case 2: { auto s = c.segment(ti); VP_CHECK(s.template begin<T>() == c.template begin<T>() && s.template end<T>() == c.template end<T>() && s.type_info() == typeid(T), when, ": segment(alias) is another segment"); break; }
      case 3: VP_CHECK(cc.size(ti) == ks.size() && cc.empty(ti) == ks.empty(), when, ": size(alias)/empty(alias)"); break;
      case 4: VP_CHECK(cc.capacity(ti) == cc.template capacity<T>() && cc.max_size(ti) == cc.template max_size<T>(), when, ": capacity(alias)"); break;
      case 5: { std::size_t i = 0; for (auto it = c.begin(ti); it != c.end(ti); ++it, ++i) VP_CHECK(i < ks.size() && key_of(*it) == ks[i], when, ": elements through alias"); VP_CHECK(i == ks.size(), when, ": too few elements through alias"); break; }
      case 6: { auto s = cc.segment(ti); std::size_t i = 0; for (auto it = s.begin(); it != s.end(); ++it, ++i) VP_CHECK(i < ks.size() && key_of(*it) == ks[i], when, ": elements through alias"); VP_CHECK(i == ks.size(), when, ": too few elements through alias"); break; }
      default: VP_CHECK(c.is_registered(ti), when, ": is_registered(alias)");
    }
    note(m, T::id, &ti);
    unit();
  }
  template <class T> void modify(Mach& m, const std::type_info& ti) {
    if (!m.r.reg(T::id)) { lookup<T>(m, ti, "before registration"); return; }
    C& c = m.c; auto& ks = m.r.seg[T::id];
    int how = (int)src().draw(6);
    trace("modify ", tname(T::id), " through alias how", how);
    label("alias_modify");
    switch (how) {
      case 0: { std::size_t n = src().size(40); c.reserve(ti, n); VP_CHECK(c.template capacity<T>() >= n, "reserve(alias) did not reserve in the segment of ", tname(T::id)); break; }
      case 1: c.shrink_to_fit(ti); break;
      case 2: c.clear(ti); ks.clear(); break;
      case 3: { std::size_t i = src().draw((u32)ks.size() + 1); int k = m.new_key(); c.template emplace_pos<T>(c.begin(ti) + (std::ptrdiff_t)i, k); ks.insert(ks.begin() + (std::ptrdiff_t)i, k); break; }
      case 4: if (!ks.empty()) { std::size_t i = src().draw((u32)ks.size()); c.erase(c.begin(ti) + (std::ptrdiff_t)i); ks.erase(ks.begin() + (std::ptrdiff_t)i); } break;
      default: { std::size_t i = src().draw((u32)ks.size() + 1); c.erase(c.begin(ti) + (std::ptrdiff_t)i, c.end(ti)); ks.resize(i); }
    }
    note(m, T::id, &ti);
    m.template check<T>("modification through an alias");
  }
  void run2() {
    while (src().more(src().chance(1, 3) ? 40 : 14)) {
      int op = (int)src().draw(12);
      Mach& m = *this->s[src().draw((u32)this->s.size())];
      if (op == 0) { this->transfer(); ++epoch; }
      else if (op <= 2) { this->mutate(m); ++epoch; }
      else if (op <= 4) m.pick_type([&](auto t) { using T = typename decltype(t)::type; this->template modify<T>(m, al(T::id)); });
      else if (op == 5) { // the whole list, each type through an object
        for_types(L{}, [&](auto t) { using T = typename decltype(t)::type; this->template lookup<T>(m, al(T::id), "sweep"); });
      } else { // a burst on one type in one or more collections
        m.pick_type([&](auto t) {
          using T = typename decltype(t)::type;
          u32 n = 1 + src().draw(4);
          for (u32 i = 0; i < n; ++i) { const std::type_info& ti = al(T::id); for (auto& q : this->s) this->template lookup<T>(*q, ti, "burst"); }
        });
      }
    }
    // finally every collection, every type, several objects
    for (auto& q : this->s) { for_types(L{}, [&](auto t) { using T = typename decltype(t)::type; this->template lookup<T>(*q, al(T::id), "final"); this->template lookup<T>(*q, al(T::id), "final"); }); this->full(*q, "final"); }
  }
};
void run_case() {
  world().reset();
  {
    u32 spread = src().chance(1, 4) ? 48 : 2 + src().draw(6);
    using LA = tlist<T0, T1, T4, Tn<1>, Tn<2>, Tn<3>, Tn<4>, Tn<5>, Tn<6>, Tn<7>, Tn<8>, Tn<9>, Tn<10>, Tn<11>>;
    using LB = tlist<T0, T1, Tn<1>, Tn<2>>;
    switch (src().draw(4)) {
      case 0: { X<Al<Value, 0>, LB> x(2, spread); x.run2(); break; }
      case 1: { X<Al<Value, 7>, LB> x(2, spread); x.run2(); break; }
      case 2: { X<std::allocator<Value>, LB> x(2, spread); x.run2(); break; }
      default: { X<std::allocator<Value>, LA> x(2, spread); x.run2(); }
    }
  }
  check_no_leaks();
}
}
