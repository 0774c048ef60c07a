// C16: concurrent const access (built with ThreadSanitizer)
#include "engine.hpp"
#include <atomic>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <string>
#include <system_error>
#include <thread>
#include <vector>
#define MODEL_BASE 0
#define MODEL_FUNC 1
#define MODEL_ANY 2
#include <boost/poly_collection/algorithm.hpp>
#include <boost/poly_collection/exception.hpp>
#if MODEL == MODEL_BASE
#include <boost/poly_collection/base_collection.hpp>
#elif MODEL == MODEL_FUNC
#include <boost/poly_collection/function_collection.hpp>
#else
#include <boost/poly_collection/any_collection.hpp>
#include <boost/type_erasure/any.hpp>
#include <boost/type_erasure/builtin.hpp>
#include <boost/type_erasure/callable.hpp>
#include <boost/type_erasure/typeid_of.hpp>
#include <boost/mpl/vector.hpp>
#endif
namespace vp {
const char* const nontrivial_rule =
  "a case builds 2-3 collections with generated contents and lookup history (through several equal type_info objects) and lets 2-4 threads run generated programs of const operations on them (lookups by type, traversals, comparisons, copies, algorithms, "
  "insertion from them) and of modifying operations on collections of their own, under ThreadSanitizer; every result is compared with the one obtained by running the program alone; "
  "non-trivial when at least two threads read the same non-empty collection";
// plain element types: no global bookkeeping, so that nothing but the library synchronizes or races
struct I {
  virtual ~I() = default;
  virtual int operator()(int x) const = 0;
};
template <int N>
struct P
#if MODEL == MODEL_BASE
: I
#endif
{
  static constexpr int id = N;
  int k; std::string s;
  explicit P(int k = 0) : k(k), s(N % 2 ? std::string(24 + N, (char)('a' + (k & 15))) : std::string()) {}
  int operator()(int x) const { return k * 16 + N + x + (int)s.size(); }
  friend bool operator==(const P& a, const P& b) { return a.k == b.k && a.s == b.s; }
};
#if MODEL == MODEL_BASE
using C = boost::base_collection<I>;
using V = I;
#elif MODEL == MODEL_FUNC
using C = boost::function_collection<int(int)>;
using V = C::value_type;
#else
using C = boost::any_collection<boost::mpl::vector<boost::type_erasure::callable<int(int), const boost::type_erasure::_self>, boost::type_erasure::typeid_<>>>;
using V = C::value_type;
#endif
constexpr int NT = 6;
template <class F> void with(int t, F f) {
  switch (t) { case 0: f((P<0>*)0); break; case 1: f((P<1>*)0); break; case 2: f((P<2>*)0); break; case 3: f((P<3>*)0); break; case 4: f((P<4>*)0); break; default: f((P<5>*)0); }
}
// the type_info object of each type, and a few others equal to it (as in programs made of several modules)
constexpr int NI = 4;
struct Infos {
  const std::type_info* a[NT][NI];
  Infos() {
    const std::type_info* own[] = {&typeid(P<0>), &typeid(P<1>), &typeid(P<2>), &typeid(P<3>), &typeid(P<4>), &typeid(P<5>)};
    for (int t = 0; t < NT; ++t) { a[t][0] = own[t]; for (int i = 1; i < NI; ++i) { void* p = std::malloc(64); std::memcpy(p, (const void*)own[t], sizeof(std::type_info)); a[t][i] = static_cast<const std::type_info*>(p); } }
  }
};
static const Infos infos;
static const std::type_info& info(int t, int a = 0) { return *infos.a[t][a % NI]; }
struct Dig { unsigned long long h = 1469598103934665603ull; void operator()(unsigned long long v) { h = (h ^ v) * 1099511628211ull; } };
struct Op { int code, coll, coll2, t, t2, a; };
struct Prog { std::vector<Op> ops; };

// order-independent over segments (their order is unspecified), order-dependent within a segment
static unsigned long long seg_digest(const C& c) {
  unsigned long long s = 0;
  for (auto x : c.segment_traversal()) { Dig d; d(x.type_info().hash_code()); for (auto& e : x) d((unsigned)e(0)); s += d.h; }
  return s;
}
static unsigned long long bag(const C& c) { unsigned long long s = 0; for (auto& e : c) s += (unsigned)e(1) * 2654435761u; return s; }

static unsigned long long const_op(const std::vector<C>& sh, const Op& o) {
  const C& c = sh[(std::size_t)o.coll]; const C& d = sh[(std::size_t)o.coll2];
  Dig g; g(o.code);
  auto guarded = [&](auto f) { try { f(); } catch (const boost::poly_collection::unregistered_type&) { g(777); } };
  switch (o.code) {
    case 0: g(c.is_registered(info(o.t, o.a))); g(c.is_registered(info(o.t2, o.a / NI))); with(o.t, [&](auto* p) { using T = std::remove_pointer_t<decltype(p)>; g(c.is_registered<T>()); }); break;
    case 1: guarded([&] { g(c.size(info(o.t, o.a))); g(c.empty(info(o.t, o.a))); g(c.capacity(info(o.t, o.a)) >= c.size(info(o.t, o.a))); g(c.max_size(info(o.t, o.a)) > 0); }); break;
    case 2: guarded([&] { with(o.t, [&](auto* p) { using T = std::remove_pointer_t<decltype(p)>; g(c.size<T>()); g(c.empty<T>()); g(c.capacity<T>() >= c.size<T>()); g(c.max_size<T>() > 0); }); }); break;
    case 3: g(bag(c)); g(c.size()); g(c.empty()); break;
    case 4: guarded([&] { for (auto i = c.begin(info(o.t, o.a)); i != c.end(info(o.t, o.a)); ++i) g((unsigned)(*i)(2)); }); break;
    case 5: guarded([&] { with(o.t, [&](auto* p) { using T = std::remove_pointer_t<decltype(p)>; for (auto i = c.template cbegin<T>(); i != c.template cend<T>(); ++i) g((unsigned)i->k); }); }); break;
    case 6: g(seg_digest(c)); break;
    case 7: guarded([&] { auto s = c.segment(info(o.t, o.a)); g((unsigned long long)(s.end() - s.begin())); for (auto& e : s) g((unsigned)e(3)); }); break;
    case 8: guarded([&] { with(o.t, [&](auto* p) { using T = std::remove_pointer_t<decltype(p)>; auto s = c.template segment<T>(); for (auto& e : s) g((unsigned)e.k); }); }); break;
    case 9: g(c == d); g(c != d); g(c == c); break;
    case 10: { C e(c); g(seg_digest(e)); g(e == c); with(o.t, [&](auto* p) { using T = std::remove_pointer_t<decltype(p)>; e.template emplace<T>(o.a); }); e.clear(info(o.t, o.a)); g(seg_digest(e)); break; }
    case 11: { C e(d); e = c; g(seg_digest(e)); g(e.size()); break; }
    case 12: { unsigned long long s = 0; boost::poly_collection::for_each<P<0>, P<3>>(c.begin(), c.end(), [&](const auto& x) { s += (unsigned)x(4); }); g(s); break; }
    case 13: g((unsigned long long)boost::poly_collection::count_if(c.begin(), c.end(), [&](const auto& x) { return x(0) % 3 == o.a % 3; }));
             g((unsigned long long)boost::poly_collection::count_if<P<1>, P<2>, P<4>>(c.begin(), c.end(), [&](const auto& x) { return x(0) % 3 == o.a % 3; })); break;
    case 14: { auto i = boost::poly_collection::find_if<P<5>>(c.begin(), c.end(), [&](const auto& x) { return x(0) == o.a; }); g(i == c.end()); if (i != c.end()) g((unsigned)(*i)(0)); break; }
    case 15: { C e; e.insert(c.begin(), c.end()); g(seg_digest(e)); with(o.t, [&](auto* p) { using T = std::remove_pointer_t<decltype(p)>; if (c.template is_registered<T>()) { e.insert(c.template begin<T>(), c.template end<T>()); e.insert(c.begin(typeid(T)), c.end(typeid(T))); } }); g(seg_digest(e)); break; }
    case 16: { C e(c, c.get_allocator()); C f(std::move(e)); g(seg_digest(f)); swap(e, f); g(e.size()); g(f.size()); break; }
    case 17: { auto i = c.begin(), e = c.end(); std::vector<int> v; boost::poly_collection::transform<P<2>>(i, e, std::back_inserter(v), [](const auto& x) { return x(0); }); g(v.size()); unsigned long long s = 0; for (int x : v) s += (unsigned)x; g(s); break; }
    default: { // insertion of the elements of a shared collection by interface reference
      C e(c); for (auto& x : c) if ((x(0) + o.a) % 4 == 0) e.insert(x); g(seg_digest(e)); break; }
  }
  return g.h;
}
static unsigned long long own_op(std::vector<C>& own, const std::vector<C>& sh, const Op& o) {
  C& c = own[(std::size_t)o.coll % own.size()]; C& d = own[(std::size_t)o.coll2 % own.size()];
  Dig g; g(o.code);
  auto guarded = [&](auto f) { try { f(); } catch (const boost::poly_collection::unregistered_type&) { g(777); } };
  switch (o.code) {
    case 0: with(o.t, [&](auto* p) { using T = std::remove_pointer_t<decltype(p)>; c.template emplace<T>(o.a); }); break;
    case 1: with(o.t, [&](auto* p) { using T = std::remove_pointer_t<decltype(p)>; for (int i = 0; i < o.a % 12; ++i) c.insert(T(i)); }); break;
    case 2: with(o.t, [&](auto* p) { using T = std::remove_pointer_t<decltype(p)>; c.template register_types<T>(); c.template reserve<T>((std::size_t)o.a % 40); }); break;
    case 3: guarded([&] { c.clear(info(o.t, o.a)); }); break;
    case 4: guarded([&] { if (!c.empty(info(o.t, o.a))) c.erase(c.begin(info(o.t, o.a)) + o.a % (int)c.size(info(o.t, o.a))); }); break;
    case 5: c = sh[(std::size_t)o.coll2 % sh.size()]; break;
    case 6: c.swap(d); break;
    case 7: if (&c != &d) c = std::move(d), d.clear(); break;
    case 8: c.shrink_to_fit(); break;
    case 9: c.reserve((std::size_t)o.a % 20); break;
    case 10: c.clear(); break;
    case 11: guarded([&] { with(o.t, [&](auto* p) { using T = std::remove_pointer_t<decltype(p)>; for (auto& x : c.template segment<T>()) x.k += o.a; }); }); break;
    case 12: c.insert(sh[(std::size_t)o.coll2 % sh.size()].begin(), sh[(std::size_t)o.coll2 % sh.size()].end()); break;
    case 13: { C e(d); c = std::move(e); break; }
    default: guarded([&] { g(c.size(info(o.t, o.a))); }); g(c == d);
  }
  g(seg_digest(c));
  return g.h;
}
static void run_prog(const Prog& p, const std::vector<C>& sh, std::vector<C>& own, std::vector<unsigned long long>& out) {
  for (const Op& o : p.ops) {
    out.push_back(o.code < 100 ? const_op(sh, o) : own_op(own, sh, Op{o.code - 100, o.coll, o.coll2, o.t, o.t2, o.a}));
    if (own[0].size() > 3000) own[0].clear();
  }
}
void run_case() {
  int nsh = 2 + (int)src().draw(2);
  std::vector<C> sh((std::size_t)nsh), twin;
  int next = 1;
  // generated contents and history of lookups, so that caches are in generated states
  for (int i = 0; i < nsh; ++i) {
    C& c = sh[(std::size_t)i];
    if (i && src().draw(3) == 0) { c = sh[0]; trace("copy 0"); }
    int n = (int)src().draw(8);
    for (int k = 0; k < n; ++k) {
      int t = (int)src().draw(NT), m = (int)src().draw(6), w = (int)src().draw(5);
      with(t, [&](auto* p) {
        using T = std::remove_pointer_t<decltype(p)>;
        if (w == 0) { trace("register P", t); c.register_types<T>(); }
        else if (w == 1) { if (c.is_registered<T>() && c.size<T>()) { trace("erase P", t); c.erase(c.begin<T>()); } }
        else if (w == 2) { trace("lookup P", t); try { (void)c.size(typeid(T)); (void)c.begin<T>(); (void)c.begin(info(t, m)); } catch (...) {} }
        else { trace("add P", t, " x", m); for (int j = 0; j < m; ++j) c.emplace<T>(next++ % 50); }
      });
    }
  }
  int nth = 2 + (int)src().draw(3);
  std::vector<Prog> progs((std::size_t)nth);
  std::vector<std::vector<int>> readers((std::size_t)nsh);
  for (int t = 0; t < nth; ++t) {
    int n = 1 + (int)src().draw(8);
    for (int k = 0; k < n; ++k) {
      bool own = src().draw(4) == 0;
      Op o; o.code = own ? 100 + (int)src().draw(15) : (int)src().draw(19);
      o.coll = (int)src().draw((u32)nsh); o.coll2 = (int)src().draw((u32)nsh); o.t = (int)src().draw(NT); o.t2 = (int)src().draw(NT); o.a = (int)src().draw(100);
      progs[(std::size_t)t].ops.push_back(o);
      trace("T", t, ":op", o.code, "(", o.coll, ",", o.coll2, ",P", o.t, ",P", o.t2, ",", o.a, ")");
      label(own ? std::string("own") + std::to_string(o.code - 100) : std::string("const") + std::to_string(o.code));
      if (!own && !sh[(std::size_t)o.coll].empty()) readers[(std::size_t)o.coll].push_back(t);
    }
  }
  for (auto& r : readers) for (int t : r) if (t != r[0]) nontrivial();
  std::vector<std::vector<unsigned long long>> con((std::size_t)nth), seq((std::size_t)nth);
  std::vector<std::string> err((std::size_t)nth);
  {
    std::atomic<int> ready(0);
    std::vector<std::thread> th;
    const std::vector<C>& csh = sh;
    bool started = true;
    try { for (int t = 0; t < nth; ++t) th.emplace_back([&, t] {
      std::vector<C> own(2);
      ready.fetch_add(1, std::memory_order_relaxed);
      while (ready.load(std::memory_order_relaxed) < nth) std::this_thread::yield();
      try { run_prog(progs[(std::size_t)t], csh, own, con[(std::size_t)t]); } catch (const std::exception& e) { err[(std::size_t)t] = e.what(); }
    }); } catch (const std::system_error&) { started = false; ready = nth; }   // the machine is out of threads
    for (auto& x : th) x.join();
    if (!started) return;
  }
  // the same programs, one after another
  for (int t = 0; t < nth; ++t) {
    VP_CHECK(err[(std::size_t)t].empty(), "thread ", t, " ended with exception: ", err[(std::size_t)t]);
    std::vector<C> own(2);
    run_prog(progs[(std::size_t)t], sh, own, seq[(std::size_t)t]);
    VP_CHECK(seq[(std::size_t)t].size() == con[(std::size_t)t].size(), "thread ", t, " performed ", con[(std::size_t)t].size(), " operations");
    for (std::size_t k = 0; k < seq[(std::size_t)t].size(); ++k) {
      VP_CHECK(seq[(std::size_t)t][k] == con[(std::size_t)t][k], "thread ", t, ", operation ", k, " (", progs[(std::size_t)t].ops[k].code, "): result differs from the one obtained alone");
      unit();
    }
  }
}
}
