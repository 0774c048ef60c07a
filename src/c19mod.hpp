// C19, two modules: the same operations compiled into the executable and into a dynamically loaded module, each with
// type_info objects (and code) of its own for the same element types
#ifndef VP_C19MOD_HPP
#define VP_C19MOD_HPP
#include <cstdlib>
#include <map>
#include <string>
#include <typeinfo>
#include <utility>
#include <vector>
#define MODEL_BASE 0
#define MODEL_FUNC 1
#define MODEL_ANY 2
#include <boost/poly_collection/algorithm.hpp>
#include <boost/poly_collection/exception.hpp>
#if MODEL == MODEL_BASE
#include <boost/poly_collection/base_collection.hpp>
#elif MODEL == MODEL_FUNC
#include <boost/poly_collection/function_collection.hpp>
#else
#include <boost/poly_collection/any_collection.hpp>
#include <boost/type_erasure/any.hpp>
#include <boost/type_erasure/any_cast.hpp>
#include <boost/type_erasure/builtin.hpp>
#include <boost/type_erasure/callable.hpp>
#include <boost/type_erasure/typeid_of.hpp>
#include <boost/mpl/vector.hpp>
#endif
namespace m19 {
struct I { virtual ~I() = default; virtual int operator()(int x) const = 0; };
template <int N> struct P
#if MODEL == MODEL_BASE
: I
#endif
{
  static constexpr int id = N;
  int k; std::string s;
  explicit P(int k = 0) : k(k), s((std::size_t)(N % 2 ? 24 + N : N), 'a') {}
  int operator()(int x) const { return k * 8 + N + x + (s == std::string((std::size_t)(N % 2 ? 24 + N : N), 'a') ? 0 : 1000000); }
  friend bool operator==(const P& a, const P& b) { return a.k == b.k && a.s == b.s; }
};
template <int N> struct F final : P<N> { using P<N>::P; friend bool operator==(const F& a, const F& b) { return a.k == b.k; } };
constexpr int NT = 5;
template <int N> struct pick { using type = P<N>; };
template <> struct pick<3> { using type = F<3>; };
template <> struct pick<4> { using type = F<4>; };
template <int N> using T = typename pick<N>::type;
#if MODEL == MODEL_BASE
using C = boost::base_collection<I>;
#elif MODEL == MODEL_FUNC
using C = boost::function_collection<int(int)>;
#else
using C = boost::any_collection<boost::mpl::vector<boost::type_erasure::callable<int(int), const boost::type_erasure::_self>, boost::type_erasure::typeid_<>>>;
#endif
using V = C::value_type;
using Contents = std::map<int, std::vector<int>>;          // type -> keys, for the registered types; type -1: not recognized
struct Seen { int tid; int key; bool typed; };
struct Ops {
  void (*reg)(C&, int); void (*emplace)(C&, int, int, int how); void (*insert_all)(C&, const C&); void (*insert_elems)(C&, const C&, int);
  void (*insert_seg)(C&, const C&, int, int how);
  void (*erase)(C&, int, std::size_t); void (*clear)(C&, int, int how); void (*reserve)(C&, int, std::size_t, int how); void (*assign)(C&, C&, int how);
  Contents (*observe)(const C&); std::vector<int> (*read)(C&, int, int how, bool& thrown); bool (*equal)(const C&, const C&);
  std::vector<Seen> (*restitute)(C&, int how); const std::type_info& (*info)(int); int (*probe)(const C&, int);
};
template <class G> void with(int t, G g) { switch (t) { case 0: g((T<0>*)0); break; case 1: g((T<1>*)0); break; case 2: g((T<2>*)0); break; case 3: g((T<3>*)0); break; default: g((T<4>*)0); } }
#define M19(t) with(t, [&](auto* p19) { using X = std::remove_pointer_t<decltype(p19)>;
static const std::type_info& info(int t) { const std::type_info* r = nullptr; M19(t) r = &typeid(X); }); return *r; }
static void reg(C& c, int t) { M19(t) c.template register_types<X>(); }); }
static void emplace(C& c, int t, int k, int how) {
  M19(t)
    switch (how) {
      case 0: c.template emplace<X>(k); break;
      case 1: c.insert(X(k)); break;
      case 2: { const X x(k); c.insert(x); break; }
      case 3: c.template emplace_hint<X>(c.cend(), k); break;
      case 4: if (c.template is_registered<X>()) c.template emplace_pos<X>(c.cend(typeid(X)), k); else c.template emplace<X>(k); break;
      case 5: { std::vector<X> v; v.emplace_back(k); c.insert(v.begin(), v.end()); break; }
      default: if (c.template is_registered<X>()) c.emplace_pos(c.template cend<X>(), k); else c.template emplace<X>(k);
    }
  });
}
static void insert_all(C& c, const C& d) { c.insert(d.begin(), d.end()); }
static void insert_elems(C& c, const C& d, int how) {   // element by element, through the interface; types must be registered
  for (auto& x : d) { if (how) c.insert(c.cend(), x); else c.insert(x); }
}
static void insert_seg(C& c, const C& d, int t, int how) { M19(t) if (how) c.insert(d.template begin<X>(), d.template end<X>()); else c.insert(d.begin(typeid(X)), d.end(typeid(X))); }); }
static void erase(C& c, int t, std::size_t i) { M19(t) c.erase(c.begin(typeid(X)) + (std::ptrdiff_t)i); }); }
static void clear(C& c, int t, int how) { M19(t) if (how) c.template clear<X>(); else c.clear(typeid(X)); }); }
static void reserve(C& c, int t, std::size_t n, int how) { M19(t) if (how) c.template reserve<X>(n); else c.reserve(typeid(X), n); }); }
static void assign(C& c, C& d, int how) { switch (how) { case 0: c = d; break; case 1: c.swap(d); break; case 2: { C e(d); c = std::move(e); break; } default: { C e(std::move(c)); c = std::move(e); } } }
static int tid_of(const std::type_info& ti) { for (int t = 0; t < NT; ++t) if (info(t) == ti) return t; return -1; }
static Contents observe(const C& c) {
  Contents r;
  for (auto s : c.segment_traversal()) { auto& v = r[tid_of(s.type_info())]; for (auto& x : s) v.push_back(x(0)); }
  return r;
}
static std::vector<int> read(C& c, int t, int how, bool& thrown) {
  std::vector<int> r; const C& cc = c; thrown = false;
  try {
    M19(t)
      switch (how) {
        case 0: for (auto i = c.begin(typeid(X)); i != c.end(typeid(X)); ++i) r.push_back((*i)(0)); break;
        case 1: for (auto i = cc.template begin<X>(); i != cc.template end<X>(); ++i) r.push_back((*i)(0)); break;
        case 2: for (auto& x : c.template segment<X>()) r.push_back(x(0)); break;
        case 3: for (auto& x : cc.segment(typeid(X))) r.push_back(x(0)); break;
        case 4: { auto s = c.segment(typeid(X)); auto e = s.template end<X>(); for (auto i = s.template begin<X>(); i != e; ++i) r.push_back((*i)(0)); break; }
        case 5: { std::size_t n = cc.size(typeid(X)); if (n != cc.template size<X>()) std::abort(); auto i = c.template begin<X>(); for (std::size_t j = 0; j < n; ++j) r.push_back(i[(std::ptrdiff_t)j](0)); break; }
        default: for (auto i = c.begin(); i != c.end(); ++i) {
#if MODEL == MODEL_BASE
            if (typeid(*i) == typeid(X)) r.push_back(static_cast<X&>(*i)(0));
#elif MODEL == MODEL_FUNC
            if (auto* q = i->template target<X>()) r.push_back((*q)(0));
#else
            if (auto* q = boost::type_erasure::any_cast<X*>(&*i)) r.push_back((*q)(0));
#endif
          }
          if (!c.template is_registered<X>()) thrown = true;
      }
    });
  } catch (const boost::poly_collection::unregistered_type& e) { thrown = e.pinfo && *e.pinfo == info(t); if (!thrown) r.push_back(-1); }
  return r;
}
static bool equal(const C& c, const C& d) { return c == d && !(c != d); }
struct See {
  std::vector<Seen>* v;
  template <class X, typename std::enable_if<!std::is_same<X, V>::value>::type* = nullptr> void operator()(const X& x) const { v->push_back({X::id, x(0), true}); }
  void operator()(const V& x) const { v->push_back({-1, x(0), false}); }
  template <class X> bool test(const X& x) const { (*this)(x); return true; }
};
static std::vector<Seen> restitute(C& c, int how) {      // T0, T2 and T4 are restituted
  std::vector<Seen> v; See s{&v};
  namespace pc = boost::poly_collection;
  switch (how) {
    case 0: pc::for_each<T<0>, T<2>, T<4>>(c.begin(), c.end(), s); break;
    case 1: pc::for_each<T<0>, T<2>, T<4>>(c.cbegin(), c.cend(), s); break;
    case 2: pc::for_each_n<T<0>, T<2>, T<4>>(c.begin(), c.size(), s); break;
    case 3: pc::all_of<T<0>, T<2>, T<4>>(c.begin(), c.end(), [&](const auto& x) { return s.test(x); }); break;
    case 4: pc::count_if<T<0>, T<2>, T<4>>(c.begin(), c.end(), [&](const auto& x) { return s.test(x); }); break;
    default: { std::vector<int> o; pc::transform<T<0>, T<2>, T<4>>(c.begin(), c.end(), std::back_inserter(o), [&](const auto& x) { s(x); return 0; }); }
  }
  return v;
}
static int probe(const C& c, int t) { int r = 0; M19(t) r = (int)c.is_registered(typeid(X)) * 2 + (int)c.template is_registered<X>(); }); return r; }
inline const Ops& ops() {
  static const Ops o = {reg, emplace, insert_all, insert_elems, insert_seg, erase, clear, reserve, assign, observe, read, equal, restitute, info, probe};
  return o;
}
}
#endif
