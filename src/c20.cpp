// C20: value categories: what is moved, what is copied, how arguments are forwarded
#include "machine.hpp"
#include <boost/poly_collection/algorithm.hpp>
#include <memory>
namespace vp {
const char* const nontrivial_rule =
  "a case builds a collection and performs generated insertions (every overload, argument as T&, const T&, T&&, const T&&, interface lvalue, const lvalue or rvalue), emplacements (every overload, argument lists of generated "
  "value categories), range insertions (lvalue, const and move iterators, iterators of another collection) and whole-collection copies and moves of elements that record how they were made; non-trivial when an "
  "operation acts on a segment that already holds elements or grows it";
struct sig_t {};
template <class A> constexpr char cat_of() { return std::is_lvalue_reference<A>::value ? (std::is_const<typename std::remove_reference<A>::type>::value ? 'c' : 'l') : (std::is_const<typename std::remove_reference<A>::type>::value ? 'k' : 'r'); }
struct Arg { int v; bool gone = false; explicit Arg(int v_) : v(v_) {} Arg(const Arg& x) : v(x.v) {} Arg(Arg&& x) : v(x.v) { x.gone = true; } };
static std::string g_err;
struct Life {
  int k = 0, copies = 0, moves = 0, sum = 0; bool gone = false; std::string sig;
  explicit Life(int k_) : k(k_) {}
  Life(const Life& x) : k(x.k), copies(x.copies + 1), moves(x.moves), sum(x.sum), sig(x.sig) { if (x.gone) g_err = "copied from a moved-from object"; }
  Life(Life&& x) noexcept : k(x.k), copies(x.copies), moves(x.moves + 1), sum(x.sum), sig(std::move(x.sig)) { if (x.gone) g_err = "moved from a moved-from object"; x.gone = true; x.k = -1; }
  Life& operator=(const Life& x) { if (x.gone) g_err = "assigned from a moved-from object"; k = x.k; copies = x.copies + 1; moves = x.moves; sum = x.sum; sig = x.sig; gone = false; return *this; }
  Life& operator=(Life&& x) noexcept { if (x.gone) g_err = "move-assigned from a moved-from object"; k = x.k; copies = x.copies; moves = x.moves + 1; sum = x.sum; sig = std::move(x.sig); gone = false; x.gone = true; x.k = -1; return *this; }
  template <class A> void take(A&& a) { sig += cat_of<A&&>(); Arg t(std::forward<A>(a)); sum += t.v; }
};
#if MODEL == MODEL_BASE
#define EK(n) static constexpr int id = n; int key() const override { return l.k; } int tid() const override { return n; }
#else
#define EK(n) static constexpr int id = n; int key() const { return l.k; } int operator()(int x) const { return l.k + x; }
#endif
// a plain type, one that cannot be assigned, one whose constructor template accepts anything, one whose lvalue and const copies differ
struct Ea final : Iface { Life l; explicit Ea(int k) : l(k) {} template <class... A> Ea(sig_t, int k, A&&... a) : l(k) { (l.take(std::forward<A>(a)), ...); } EK(0) };
struct Eb final : Iface { Life l; char pad[60]; explicit Eb(int k) : l(k) {} template <class... A> Eb(sig_t, int k, A&&... a) : l(k) { (l.take(std::forward<A>(a)), ...); } Eb(const Eb&) = default; Eb(Eb&&) = default; Eb& operator=(const Eb&) = delete; EK(1) };
struct Ec final : Iface { Life l; explicit Ec(int k) : l(k) {} template <class U> explicit Ec(U&&) : l(-7) { l.sig = "greedy"; } template <class... A> Ec(sig_t, int k, A&&... a) : l(k) { (l.take(std::forward<A>(a)), ...); } Ec(const Ec&) = default; Ec(Ec&&) = default; Ec& operator=(const Ec&) = default; Ec& operator=(Ec&&) = default; EK(2) };
struct Ed : Iface { Life l; explicit Ed(int k) : l(k) {} template <class... A> Ed(sig_t, int k, A&&... a) : l(k) { (l.take(std::forward<A>(a)), ...); } EK(3) };
struct Ee : Ed { using Ed::Ed; double d = 1;
#if MODEL == MODEL_BASE
  int tid() const override { return 4; }
#endif
  static constexpr int id = 4; };
// moves may throw: growth may copy it, insertion of an rvalue still moves
struct Ef final : Iface { Life l; explicit Ef(int k) : l(k) {} template <class... A> Ef(sig_t, int k, A&&... a) : l(k) { (l.take(std::forward<A>(a)), ...); } Ef(const Ef&) = default; Ef(Ef&& x) noexcept(false) : l(std::move(x.l)) {} Ef& operator=(const Ef&) = default; Ef& operator=(Ef&& x) noexcept(false) { l = std::move(x.l); return *this; } EK(5) };
using L = tlist<Ea, Eb, Ed, Ee, Ec, Ef>;
using C = Coll<>;

static void err(const char* op) { VP_CHECK(g_err.empty(), op, ": an element was ", g_err); }
struct Snap { std::map<const std::type_info*, std::vector<Life>> s; };
template <class T> std::vector<const Life*> lives(const C& c) { std::vector<const Life*> r; if (c.template is_registered<T>()) for (auto& x : c.template segment<T>()) r.push_back(&x.l); return r; }
// model: per type, keys and copy counts
struct Mod { std::map<int, std::vector<std::pair<int, int>>> s; };
static Mod read(const C& c) { Mod m; for_types(L{}, [&](auto t) { using T = typename decltype(t)::type; for (auto* p : lives<T>(c)) m.s[T::id].push_back({p->k, p->copies}); }); return m; }
static void expect(const C& c, const Mod& m, const char* op) {
  err(op);
  for_types(L{}, [&](auto t) { using T = typename decltype(t)::type;
    auto v = lives<T>(c); auto it = m.s.find(T::id); std::size_t n = it == m.s.end() ? 0 : it->second.size();
    VP_CHECK(v.size() == n, op, ": segment ", T::id, " holds ", v.size(), " elements, expected ", n);
    for (std::size_t i = 0; i < n; ++i) {
      VP_CHECK(!v[i]->gone, op, ": element ", i, " of segment ", T::id, " was moved from");
      VP_CHECK(v[i]->k == it->second[i].first, op, ": element ", i, " of segment ", T::id, " has key ", v[i]->k, ", expected ", it->second[i].first);
      if (T::id == 5) VP_CHECK(v[i]->copies >= it->second[i].second, op, ": element ", i, " was not copied");
      else VP_CHECK(v[i]->copies == it->second[i].second, op, ": element ", i, " of segment ", T::id, " is the result of ", v[i]->copies, " copies, expected ", it->second[i].second);
    } });
}
static int g_key;
enum { X_LV, X_CLV, X_RV, X_CRV, X_ILV, X_ICLV, X_IRV, X_COUNT };
static const char* xname(int w) { static const char* n[] = {"T&", "const T&", "T&&", "const T&&", "value_type&", "const value_type&", "value_type&&"}; return n[w]; }
template <class T, class F> void give(T& x, int w, F&& f) {
  switch (w) {
    case X_LV: f(x); break; case X_CLV: f(static_cast<const T&>(x)); break; case X_RV: f(std::move(x)); break; case X_CRV: f(static_cast<const T&&>(x)); break;
#if MODEL == MODEL_BASE
    case X_ILV: f(static_cast<Iface&>(x)); break; case X_ICLV: f(static_cast<const Iface&>(x)); break; default: f(std::move(static_cast<Iface&>(x)));
#else
    case X_ILV: { Value y{x}; f(y); break; } case X_ICLV: { const Value y{x}; f(y); break; } default: { Value y{x}; f(std::move(y)); }
#endif
  }
}
// hint to some position of the collection, global position p
static C::iterator at(C& c, std::size_t p) { auto it = c.begin(); while (p--) ++it; return it; }
// where a hinted insertion of type tid goes
template <class T> std::size_t hinted(C& c, C::iterator it) { std::size_t n = c.template size<T>(); if (it == c.end() || info_of(*it) != typeid(T)) return n; const void* a = addr_of(*it); std::size_t i = 0; for (auto& x : c.template segment<T>()) { if (static_cast<const void*>(&x) == a) return i; ++i; } return n; }

template <class T> void do_insert(C& c) {
  Mod m = read(c); c.template register_types<T>(); std::size_t n = c.template size<T>();
  int w = (int)src().draw(X_COUNT), where = (int)src().draw(5), k = g_key++; bool konst = src().draw(2);
  T x(k); auto& v = m.s[T::id]; std::size_t p = n;
  std::size_t q = src().draw((u32)n + 1), gp = src().draw((u32)c.size() + 1);
  trace("insert ", T::id, " as ", xname(w), " overload ", where, konst ? " const" : "");
  auto hint = at(c, gp);
  if (where == 1) p = hinted<T>(c, hint); else if (where >= 2) p = q;
  give(x, w, [&](auto&& y) {
    using Y = decltype(y);
    switch (where) {
      case 0: c.insert(std::forward<Y>(y)); break;
      case 1: if (konst) c.insert(C::const_iterator(hint), std::forward<Y>(y)); else c.insert(hint, std::forward<Y>(y)); break;
      case 2: if (konst) c.insert(c.cbegin(typeid(T)) + q, std::forward<Y>(y)); else c.insert(c.begin(typeid(T)) + q, std::forward<Y>(y)); break;
      default: if (konst) c.insert(c.template cbegin<T>() + q, std::forward<Y>(y)); else c.insert(c.template begin<T>() + q, std::forward<Y>(y)); break;
    }
  });
  bool mv = w == X_RV || w == X_IRV;
  v.insert(v.begin() + (std::ptrdiff_t)p, {k, mv ? 0 : 1});
  expect(c, m, "insertion");
  { int cp = (c.template begin<T>() + (std::ptrdiff_t)p)->l.copies; VP_CHECK(cp == (mv ? 0 : 1), "insertion of ", xname(w), " made ", cp, " copies"); }
  if (mv) VP_CHECK(x.l.gone, "insertion of ", xname(w), " did not move from its argument");
  else VP_CHECK(!x.l.gone && x.l.k == k && x.l.copies == 0 && x.l.moves == 0, "insertion of ", xname(w), " changed its argument");
  label("insert"); if (n) nontrivial(); unit();
}
template <class T, class... A> void do_emplace_with(C& c, const char* sig, int sum, A&&... a) {
  Mod m = read(c); c.template register_types<T>(); std::size_t n = c.template size<T>(); int where = (int)src().draw(5), k = g_key++; auto& v = m.s[T::id]; std::size_t p = n, q = src().draw((u32)n + 1), gp = src().draw((u32)c.size() + 1);
  trace("emplace ", T::id, " (", sig, ") overload ", where);
  auto hint = at(c, gp);
  if (where == 1) p = hinted<T>(c, hint); else if (where >= 2) p = q;
  switch (where) {
    case 0: c.template emplace<T>(sig_t{}, k, std::forward<A>(a)...); break;
    case 1: c.template emplace_hint<T>(hint, sig_t{}, k, std::forward<A>(a)...); break;
    case 2: c.template emplace_pos<T>(c.begin(typeid(T)) + q, sig_t{}, k, std::forward<A>(a)...); break;
    case 3: c.template emplace_pos<T>(c.cbegin(typeid(T)) + q, sig_t{}, k, std::forward<A>(a)...); break;
    default: c.emplace_pos(c.template begin<T>() + q, sig_t{}, k, std::forward<A>(a)...); break;
  }
  v.insert(v.begin() + (std::ptrdiff_t)p, {k, 0});
  expect(c, m, "emplacement");
  const Life& l = (c.template begin<T>() + (std::ptrdiff_t)p)->l;
  VP_CHECK(l.copies == 0, "emplacement copied the new element");
  VP_CHECK(l.sig == sig, "emplacement forwarded its arguments as '", l.sig, "', given '", sig, "'");
  VP_CHECK(l.sum == sum, "emplacement passed other arguments: sum ", l.sum, " expected ", sum);
  label("emplace"); if (n) nontrivial(); unit();
}
template <class T> void do_emplace(C& c) {
  Arg a(1), b(20), d(300), e(4000); const Arg ca(50000);
  switch (src().draw(9)) {
    case 0: do_emplace_with<T>(c, "", 0); break;
    case 1: do_emplace_with<T>(c, "l", 1, a); break;
    case 2: do_emplace_with<T>(c, "c", 50000, ca); break;
    case 3: do_emplace_with<T>(c, "r", 1, std::move(a)); VP_CHECK(a.gone, "rvalue argument of emplace was not moved from"); break;
    case 4: do_emplace_with<T>(c, "k", 50000, std::move(ca)); break;
    case 5: do_emplace_with<T>(c, "lr", 21, a, std::move(b)); VP_CHECK(b.gone, "rvalue argument of emplace was not moved from"); break;
    case 6: do_emplace_with<T>(c, "rlc", 50021, std::move(a), b, ca); break;
    case 7: do_emplace_with<T>(c, "clrk", 50000 + 20 + 300 + 50000, ca, b, std::move(d), std::move(ca)); break;
    default: do_emplace_with<T>(c, "lrlrc", 1 + 20 + 300 + 4000 + 50000, a, std::move(b), d, std::move(e), ca); break;
  }
  if (a.gone) label("moved_argument");
  VP_CHECK(!ca.gone, "const argument changed");
}
// ranges: from a vector or from another collection
template <class T> void do_range(C& c) {
  Mod m = read(c); c.template register_types<T>(); std::size_t n = c.template size<T>(); u32 len = src().draw(6); if (src().chance(1, 20)) len += 40;
  int from = (int)src().draw(9), where = (int)src().draw(4);
  C o; std::vector<T> v; v.reserve(len); int k0 = g_key; o.template register_types<T>();
  for (u32 i = 0; i < len; ++i) { if (from <= 2) v.emplace_back(g_key++); else o.template emplace<T>(g_key++); }
  std::size_t q = src().draw((u32)n + 1), gp = src().draw((u32)c.size() + 1), p = n; auto hint = at(c, gp);
  bool mv = from == 2 || from == 7 || from == 8;
  if (mv && where >= 2) where -= 2;  // at local positions the elements are documented to be copy constructed
  if (where == 1) p = hinted<T>(c, hint); else if (where >= 2) p = q;
  trace("range of ", len, " ", T::id, " from ", from, " overload ", where);
  auto put = [&](auto f, auto l) {
    switch (where) { case 0: c.insert(f, l); break; case 1: c.insert(hint, f, l); break; case 2: c.insert(c.template begin<T>() + q, f, l); break; default: if constexpr (!std::is_same<decltype(f), typename std::vector<T>::const_iterator>::value) c.insert(c.begin(typeid(T)) + q, f, l); else c.insert(c.cbegin(typeid(T)) + q, f, l); }
  };
  const C& co = o; const std::vector<T>& cv = v;
  switch (from) {
    case 0: put(v.begin(), v.end()); break; case 1: put(cv.begin(), cv.end()); break;
    case 2: if (where == 0) c.insert(std::make_move_iterator(v.begin()), std::make_move_iterator(v.end())); else c.insert(hint, std::make_move_iterator(v.begin()), std::make_move_iterator(v.end())); break;
    case 3: put(o.begin(), o.end()); break; case 4: put(co.begin(), co.end()); break; case 5: put(o.begin(typeid(T)), o.end(typeid(T))); break; case 6: put(o.template begin<T>(), o.template end<T>()); break;
    case 7: if (where == 0) c.insert(std::make_move_iterator(o.template begin<T>()), std::make_move_iterator(o.template end<T>())); else c.insert(hint, std::make_move_iterator(o.template begin<T>()), std::make_move_iterator(o.template end<T>())); break;
    default: if (where == 0) c.insert(std::make_move_iterator(o.begin(typeid(T))), std::make_move_iterator(o.end(typeid(T)))); else c.insert(hint, std::make_move_iterator(o.begin(typeid(T))), std::make_move_iterator(o.end(typeid(T)))); break;
  }
  auto& mvv = m.s[T::id]; for (u32 i = 0; i < len; ++i) mvv.insert(mvv.begin() + (std::ptrdiff_t)(p + i), {k0 + (int)i, mv ? 0 : 1});
  expect(c, m, "range insertion");
  for (u32 i = 0; i < len; ++i) { const Life& l = from <= 2 ? v[i].l : (o.template begin<T>() + i)->l; if (mv) VP_CHECK(l.gone, "range insertion of rvalues did not move from element ", i); else VP_CHECK(!l.gone && l.k == k0 + (int)i && (T::id == 5 || l.copies == 0), "range insertion changed element ", i, " of its source"); }
  label(mv ? "range_moved" : "range_copied"); if (n && len) nontrivial(); unit();
}
static void whole(C& c) {
  Mod m = read(c), m2 = m; for (auto& p : m2.s) for (auto& e : p.second) ++e.second;
  int w = (int)src().draw(7); trace("whole ", w);
  switch (w) {
    case 0: { C d(static_cast<const C&>(c)); expect(d, m2, "copy construction"); break; }
    case 1: { C d(c); expect(d, m2, "copy construction from a non-const lvalue"); break; }
    case 2: { C d(c, c.get_allocator()); expect(d, m2, "allocator-extended copy construction"); break; }
    case 3: { C d; d.emplace<Ea>(-5); d = c; expect(d, m2, "copy assignment"); break; }
    case 4: { C d(std::move(c)); expect(d, m, "move construction"); c = std::move(d); break; }
    case 5: { C d; d.emplace<Ed>(-5); d = std::move(c); expect(d, m, "move assignment"); c.swap(d); break; }
    default: { const C cc(c); C d(std::move(cc)); m = m2; for (auto& p : m2.s) for (auto& e : p.second) ++e.second; expect(d, m2, "construction from a const rvalue"); m = read(c); break; }
  }
  expect(c, m, "whole-collection operation (source)"); label("whole"); unit();
}
// algorithms hand out references to the very elements: nothing is copied or moved
static void algs(C& c) {
  namespace pc = boost::poly_collection; Mod m = read(c); trace("algorithms"); std::size_t n = 0;
  pc::for_each(c.begin(), c.end(), [&](const auto&) { ++n; }); pc::for_each<Ea, Eb>(c.begin(), c.end(), [&](auto& x) { (void)x; ++n; }); pc::count_if<Ed>(c.cbegin(), c.cend(), [](const auto&) { return true; }); (void)pc::find_if<Ee, Ea>(c.begin(), c.end(), [](const auto&) { return false; });
  std::vector<int> out; pc::transform<Ea>(c.begin(), c.end(), std::back_inserter(out), [](const auto&) { return 1; }); VP_CHECK(out.size() == c.size() && n == 2 * c.size(), "algorithm calls");
  expect(c, m, "algorithms"); unit();
}
static void other(C& c) {
  Mod m = read(c);
  with_type(L{}, (int)src().draw(L::size), [&](auto t) { using T = typename decltype(t)::type; if (!c.template is_registered<T>()) return; auto& v = m.s[T::id]; std::size_t n = v.size();
    switch (src().draw(6)) {
      case 0: trace("reserve ", T::id); c.template reserve<T>(n + src().draw(20)); break;
      case 1: trace("shrink ", T::id); c.shrink_to_fit(); break;
      case 2: case 3: { if (!n) return; std::size_t q = src().draw((u32)n); trace("erase ", T::id, "@", q); c.erase(c.template begin<T>() + q); v.erase(v.begin() + (std::ptrdiff_t)q); break; }
      case 4: { std::size_t a = src().draw((u32)n + 1), b = a + src().draw((u32)(n - a) + 1); trace("erase ", T::id, "[", a, ",", b, ")"); c.erase(c.begin(typeid(T)) + a, c.begin(typeid(T)) + b); v.erase(v.begin() + (std::ptrdiff_t)a, v.begin() + (std::ptrdiff_t)b); break; }
      default: trace("clear ", T::id); if (src().draw(2)) { c.template clear<T>(); v.clear(); } break;
    } });
  expect(c, m, "capacity operation or erasure"); unit();
}
#if MODEL == MODEL_FUNC
// call through the collection's value type: arguments and results pass as through a direct call
struct Tk { int v; int copies = 0; bool gone = false; explicit Tk(int x) : v(x) {} Tk(const Tk& x) : v(x.v), copies(x.copies + 1) {} Tk(Tk&& x) noexcept : v(x.v), copies(x.copies) { x.gone = true; } };
struct FA { int k; Tk operator()(Tk a, Tk& b, const Tk& c, Tk&& d) { if (&b != pb || &c != pc || &d != pd) bad = true; b.v += k; Tk r(a.v + b.v + c.v + d.v); r.copies = a.copies; return r; } static const Tk *pb, *pc, *pd; static bool bad; };
const Tk *FA::pb, *FA::pc, *FA::pd; bool FA::bad = false;
struct FB { long pad[9]; int k; Tk operator()(const Tk& a, Tk& b, const Tk& c, Tk&& d) const { if (&b != FA::pb || &c != FA::pc || &d != FA::pd) FA::bad = true; b.v += k; Tk r(a.v + b.v + c.v + d.v); r.copies = a.copies; return r; } FB(int k_) : k(k_) {} };
struct FR { int x; int& operator()() { return x; } }; struct FR2 { mutable int x; int& operator()() const { return x; } };
static void calls() {
  using F = boost::function_collection<Tk(Tk, Tk&, const Tk&, Tk&&)>; F f; int ka = (int)src().draw(9), kb = (int)src().draw(9); bool lv = src().draw(2); u32 na = 1 + src().draw(3), nb = src().draw(3);
  trace("calls ", na, ",", nb, lv ? " lvalue" : " rvalue"); for (u32 i = 0; i < na; ++i) f.insert(FA{ka}); for (u32 i = 0; i < nb; ++i) f.insert(FB{kb});
  FA::bad = false;
  for (auto& g : f) {
    Tk a(1), b(10), c(100), d(1000); FA::pb = &b; FA::pc = &c; FA::pd = &d; int k = g.target_type() == typeid(FA) ? ka : kb;
    Tk r = lv ? g(a, b, c, std::move(d)) : g(std::move(a), b, c, std::move(d));
    VP_CHECK(r.v == 1111 + k && b.v == 10 + k, "call through function_collection: wrong result"); VP_CHECK(!FA::bad, "call through function_collection: a reference argument refers to another object");
    VP_CHECK(r.copies == (lv ? 1 : 0), "call through function_collection: by-value argument copied ", r.copies, " times"); VP_CHECK(!d.gone && !b.gone, "call through function_collection: argument moved from"); unit();
  }
  boost::function_collection<int&()> h; h.insert(FR{5}); h.insert(FR2{6}); for (auto& g : h) { int& x = g(); x += 7; VP_CHECK(&g() == &x && g() == x, "call through function_collection: result refers to another object"); }
  VP_CHECK(h.begin<FR>()->x == 12 && h.begin<FR2>()->x == 13, "call through function_collection: result not bound to the element");
  boost::function_collection<std::unique_ptr<int>(std::unique_ptr<int>)> u; u.insert([](std::unique_ptr<int> p) { ++*p; return p; }); std::unique_ptr<int> p(new int(1)); int* raw = p.get(); for (auto& g : u) p = g(std::move(p)); VP_CHECK(p.get() == raw && *p == 2, "call with move-only argument and result");
  boost::function_collection<void(int)> vv; static int hits; hits = 0; vv.insert([](int x) { hits += x; return x; }); vv.insert([](long x) { hits += (int)x; return std::string("discarded"); }); for (auto& g : vv) g(3); VP_CHECK(hits == 6, "call with discarded result");
  label("calls"); nontrivial();
}
#endif
void run_case() {
  g_err.clear(); g_key = 1;
#if MODEL == MODEL_FUNC
  if (src().chance(1, 12)) { calls(); return; }
#endif
  C c; u32 n = 1 + src().size(24);
  for (u32 i = 0; i < n; ++i) {
    u32 op = src().draw(12);
    if (op == 9) whole(c); else if (op == 10) algs(c); else if (op == 11) other(c);
    else with_type(L{}, (int)src().draw(L::size), [&](auto t) { using T = typename decltype(t)::type; if (op < 4) do_insert<T>(c); else if (op < 7) do_emplace<T>(c); else do_range<T>(c); });
  }
}
}
