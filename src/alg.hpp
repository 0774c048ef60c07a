// C11/C12: poly_collection algorithms against the std ones, with and without type restitution.
// GROUP selects the algorithms (0: unary non-modifying, 1: binary non-modifying, 2: modifying)
#ifndef VP_ALG_HPP
#define VP_ALG_HPP
#include "views.hpp"
#include <boost/poly_collection/algorithm.hpp>
#include <cmath>
#include <forward_list>
#include <random>
#include <unordered_map>
namespace vp {
namespace pc = boost::poly_collection;
using A = std::allocator<Value>;
using LA = tlist<T0, T1, T2, T3, T6, T4>;
using Mach = M<A, LA>;
using C = Mach::C;

struct KV { int k; };                       // value compared with elements by class
struct KK { int k; };                       // value compared with elements by key
struct Ev {
  int what; const void* a; const void* b; int sa; bool ca; int sb; int key;
};
enum { E_PRED, E_FUN, E_PRED2, E_EQ, E_OP, E_OUT, E_OUTMOVE, E_OUTVAL };

struct Table {
  std::unordered_map<const void*, int> pos;
  std::vector<int> cls;                     // class of the element at each global position
  std::vector<Ev> log;
  int invalid = 0;
  int at(const void* p) { auto i = pos.find(p); if (i == pos.end()) { ++invalid; return -1; } return i->second; }
  int cl(const void* p) { int i = at(p); return i < 0 ? -1 : cls[(std::size_t)i]; }
};
inline Table& tb() { static Table* t = new Table; return *t; }

// address, static type id (-1: interface) and constness of what a function object receives
template <class X> struct St {
  using U = typename std::remove_cv<typename std::remove_reference<X>::type>::type;
  static constexpr bool is_iface = std::is_same<U, Value>::value;
  static constexpr bool is_kv = std::is_same<U, KV>::value;
};
template <class X> const void* ad(const X& x) {
  if constexpr (std::is_same<X, Value>::value) return addr_of(x);
  else return static_cast<const void*>(&x);
}
template <class X> int stid() {
  using U = typename std::remove_cv<typename std::remove_reference<X>::type>::type;
  if constexpr (std::is_same<U, Value>::value) return -1; else if constexpr (std::is_same<U, KV>::value) return -2; else return U::id;
}
template <class X> int keyof(const X& x) {
  if constexpr (std::is_same<X, Value>::value) return key_of(x); else if constexpr (std::is_same<X, KV>::value) return x.k; else return x.key();
}
template <class X> int cls_of(const X& x) { if constexpr (std::is_same<X, KV>::value) return x.k; else return tb().cl(ad(x)); }
template <class X> void note(int what, X&& x) {
  tb().log.push_back({what, ad(x), nullptr, stid<X>(), std::is_const<typename std::remove_reference<X>::type>::value, 0, keyof(x)});
}
template <class X, class Y> void note2(int what, X&& x, Y&& y) {
  tb().log.push_back({what, stid<X>() == -2 ? nullptr : ad(x), stid<Y>() == -2 ? nullptr : ad(y), stid<X>(), std::is_const<typename std::remove_reference<X>::type>::value, stid<Y>(), keyof(x)});
}
template <class X> struct is_el : std::false_type {};
template <int T, int K, bool E, int P> struct is_el<El<T, K, E, P>> : std::true_type {};
template <> struct is_el<Par> : std::true_type {};
template <> struct is_el<Der> : std::true_type {};
template <> struct is_el<MI> : std::true_type {};
template <> struct is_el<Value> : std::true_type {};

// comparison with a value, logged
template <class X, typename std::enable_if<is_el<X>::value>::type* = nullptr> bool operator==(const X& x, const KV& v) { note(E_EQ, x); return cls_of(x) == v.k; }
template <class X, typename std::enable_if<is_el<X>::value>::type* = nullptr> bool operator==(const KV& v, const X& x) { note(E_EQ, x); return cls_of(x) == v.k; }
inline bool operator==(const KV& x, const KV& y) { return x.k == y.k; }
template <class X, typename std::enable_if<is_el<X>::value>::type* = nullptr> bool operator==(const X& x, const KK& v) { note(E_EQ, x); return keyof(x) == v.k; }
template <class X, typename std::enable_if<is_el<X>::value>::type* = nullptr> bool operator==(const KK& v, const X& x) { note(E_EQ, x); return keyof(x) == v.k; }
inline bool operator==(const KK& x, const KK& y) { return x.k == y.k; }
#if MODEL == MODEL_BASE
// elements among themselves, for the overloads without predicate
template <class X, class Y, typename std::enable_if<is_el<X>::value && is_el<Y>::value && !(std::is_same<X, Y>::value && has_eq<X>::value)>::type* = nullptr>
bool operator==(const X& x, const Y& y) { note2(E_EQ, x, y); return keyof(x) == keyof(y); }
#endif

struct Pred {     // unary predicate by position class
  unsigned mask;
  template <class X> bool operator()(X&& x) const { note(E_PRED, x); return (mask >> (cls_of(x) & 7)) & 1; }
};
struct PosPred {  // true for positions before the pivot
  int pivot;
  template <class X> bool operator()(X&& x) const { note(E_PRED, x); return tb().at(ad(x)) < pivot; }
};
struct Fun {      // stateful function
  long sum = 0; int n = 0;
  template <class X> void operator()(X&& x) { note(E_FUN, x); sum = sum * 31 + keyof(x); ++n; }
};
struct Op { template <class X> int operator()(X&& x) const { note(E_OP, x); return keyof(x) * 3 + 1; } };
struct Op2 { template <class X, class Y> int operator()(X&& x, Y&& y) const { note2(E_OP, x, y); return keyof(x) * 3 + cls_of(y); } };
struct Pred2 {    // equivalence by class
  template <class X, class Y> bool operator()(X&& x, Y&& y) const { note2(E_PRED2, x, y); return cls_of(x) == cls_of(y); }
};
struct Less2 {    // not an equivalence: only for algorithms that allow it
  template <class X, class Y> bool operator()(X&& x, Y&& y) const { note2(E_PRED2, x, y); return cls_of(x) < cls_of(y); }
};

// output iterator recording what is assigned
struct Out {
  using iterator_category = std::output_iterator_tag; using value_type = void; using difference_type = std::ptrdiff_t; using pointer = void; using reference = void;
  std::vector<Ev>* v; std::size_t i; int id;
  struct Proxy {
    std::vector<Ev>* v; std::size_t i;
    void add(Ev e) { if (v->size() != i) ++tb().invalid; v->push_back(e); }
    template <class X, typename std::enable_if<is_el<typename std::decay<X>::type>::value>::type* = nullptr> const Proxy& operator=(X&& x) {
      add({std::is_rvalue_reference<X&&>::value && !std::is_const<typename std::remove_reference<X>::type>::value ? E_OUTMOVE : E_OUT, ad(x), nullptr, stid<X>(), false, 0, keyof(x)}); return *this;
    }
    const Proxy& operator=(const KV& x) { add({E_OUTVAL, nullptr, nullptr, -2, false, 0, x.k}); return *this; }
    const Proxy& operator=(int x) { add({E_OUTVAL, nullptr, nullptr, -3, false, 0, x}); return *this; }
  };
  Proxy operator*() const { return {v, i}; }
  Out& operator++() { ++i; return *this; }
  Out operator++(int) { Out r = *this; ++i; return r; }
};
// output iterator keeping keys only
struct Keys {
  using iterator_category = std::output_iterator_tag; using value_type = void; using difference_type = std::ptrdiff_t; using pointer = void; using reference = void;
  std::vector<int>* v;
  struct P { std::vector<int>* v; template <class X> const P& operator=(const X& x) const { v->push_back(keyof(x)); return *this; } };
  P operator*() const { return {v}; } Keys& operator++() { return *this; } Keys operator++(int) { return *this; }
};
// single-pass input iterator over KVs
struct In {
  using iterator_category = std::input_iterator_tag; using value_type = KV; using difference_type = std::ptrdiff_t; using pointer = const KV*; using reference = const KV&;
  struct State { const std::vector<KV>* v; std::size_t pos; };
  State* s; std::size_t own;
  reference operator*() const { if (own != s->pos || own >= s->v->size()) { ++tb().invalid; static KV z{0}; return z; } return (*s->v)[own]; }
  In& operator++() { if (own != s->pos) ++tb().invalid; ++s->pos; ++own; return *this; }
  struct Post { KV k; const KV& operator*() const { return k; } };
  Post operator++(int) { Post r{own < s->v->size() ? (*s->v)[own] : KV{0}}; ++*this; return r; }
  bool operator==(const In& x) const { return own == x.own; }
  bool operator!=(const In& x) const { return own != x.own; }
};

template <class... Ts> struct Restituted {
  static bool has(int tid) { bool r = false; using x = int[]; (void)x{0, ((void)(r = r || Ts::id == tid), 0)...}; return r; }
};

enum Strict { S_SEQ, S_COUNT, S_NONE };   // same sequence of calls | same number | only the elements handed out are checked

struct Run { std::vector<Ev> log; std::vector<Ev> out, out2; };

struct Case {
  Mach m;
  std::vector<int> tid_at;                 // type of the element at each global position
  std::vector<std::size_t> idx_at;         // and its index in its segment
  std::size_t n = 0;                       // elements
  std::string what;
  bool crosses = false, restituted = false, second_iface = false;

  void index() {
    tb().pos.clear(); tb().cls.clear(); tid_at.clear(); idx_at.clear();
    auto g = m.global(); n = g.size() - 1;
    std::size_t i = 0;
    for (auto& x : m.c) { tb().pos[addr_of(x)] = (int)i; tid_at.push_back(g[i].tid); idx_at.push_back(g[i].idx); ++i; }
    // classes in runs, so that equal neighbours and long matches happen
    u32 ncls = src().chance(1, 2) ? 2 : 3;
    int cur = (int)src().draw(ncls); u32 sticky = src().draw(3);
    for (i = 0; i < n; ++i) { if (sticky == 0 || src().draw(sticky + 1) == 0) cur = (int)src().draw(ncls); tb().cls.push_back(cur); }
  }
  // the log of a run must only mention existing elements, of the right static type
  template <class... Ts> void check_static(const Run& r, bool konst) {
    VP_CHECK(tb().invalid == 0, what, ": a function object, comparison or iterator got something that is not an element of the collection, or an out of order or stale access");
    for (auto& e : r.log) {
      if (e.a) one<Ts...>(e.a, e.sa);
      if (e.b) { if (!second_iface || e.sb != -1) one<Ts...>(e.b, e.sb); }
      if (e.what <= E_OP && e.what != E_EQ && e.a && e.sa >= -1 && e.what != E_PRED2) VP_CHECK(e.ca == konst, what, ": element passed as ", e.ca ? "const" : "non-const");
    }
    for (auto* o : {&r.out, &r.out2}) for (auto& e : *o) if (e.a) one<Ts...>(e.a, e.sa);
  }
  template <class... Ts> void one(const void* p, int s) {
    auto it = tb().pos.find(p);
    VP_CHECK(it != tb().pos.end(), what, ": got an object that is not an element");
    int t = tid_at[(std::size_t)it->second];
    if (Restituted<Ts...>::has(t)) { VP_CHECK(s == t, what, ": element of restituted type ", tname(t), " at position ", it->second, " received as ", s < 0 ? "interface" : tname(s)); restituted = true; }
    else VP_CHECK(s == -1, what, ": element of type ", tname(t), " (not restituted) received as ", tname(s));
  }
  static bool same_ev(const Ev& x, const Ev& y) { return x.what == y.what && x.a == y.a && x.b == y.b && x.key == y.key; }
  void same_log(const std::vector<Ev>& x, const std::vector<Ev>& y, const char* kind) {
    for (std::size_t i = 0; i < x.size() && i < y.size(); ++i)
      VP_CHECK(same_ev(x[i], y[i]), what, ": ", kind, " ", i, " differs from that of the std algorithm (positions ", where(x[i].a), ",", where(x[i].b), " vs ", where(y[i].a), ",", where(y[i].b), ", keys ", x[i].key, " vs ", y[i].key, ")");
    VP_CHECK(x.size() == y.size(), what, ": ", y.size(), " ", kind, "s, the std algorithm makes ", x.size());
  }
  int where(const void* p) { auto i = tb().pos.find(p); return i == tb().pos.end() ? -1 : i->second; }

  // runs both; f(std_tag or pc_tag, run) performs the call and returns a comparable result
  template <class... Ts, class Fs, class Fp> void both(const char* name, Strict st, bool konst, Fs&& fs, Fp&& fp) {
    what = name;
    Run a, b;
    tb().log.clear(); tb().invalid = 0;
    auto ra = fs(a); a.log.swap(tb().log); tb().log.clear();
    if (tb().invalid) fail("internal: std::", name, " misused the harness");
    auto rb = fp(b); b.log.swap(tb().log); tb().log.clear();
    check_static<Ts...>(b, konst);
    VP_CHECK(ra == rb, what, ": result differs from that of the std algorithm (", show(ra), " vs ", show(rb), ")");
    if (st == S_SEQ) same_log(a.log, b.log, "call");
    if (st == S_COUNT) VP_CHECK(a.log.size() == b.log.size(), what, ": ", b.log.size(), " calls, the std algorithm makes ", a.log.size());
    same_log(a.out, b.out, "output"); same_log(a.out2, b.out2, "second output");
    check_problem(name);
    unit(); label(name);
  }
  static std::string show(const std::vector<long>& v) { std::string s; for (long x : v) s += std::to_string(x) + " "; return s; }
};
using Res = std::vector<long>;

// position of a global iterator, checking that it can be walked on
template <class It> long posn(Case& k, It it) {
  const C& c = k.m.c;
  typename C::const_iterator i = it;
  long p = 0; auto e = c.begin();
  while (e != i) { VP_CHECK(e != c.end(), k.what, ": returned iterator is not reachable from begin()"); ++e; ++p; }
  std::size_t left = 0;
  for (; i != c.end(); ++i, ++left) VP_CHECK(left < k.n && addr_of(*i) == addr_of(*e++), k.what, ": walking on from the returned iterator goes astray");
  VP_CHECK(left + (std::size_t)p == k.n, k.what, ": walking on from the returned iterator misses elements");
  return p;
}

struct ByVec { template <class F> void operator()(std::vector<KV>& v, F&& f) const { f(v.begin(), v.end()); } };

// a pattern cut out of the range (so that matches exist), possibly altered
inline std::vector<KV> pattern(Case& k, std::size_t a, std::size_t b, u32 maxlen) {
  std::vector<KV> v;
  if (b > a && src().chance(3, 4)) {
    std::size_t s = a + src().draw((u32)(b - a)), l = src().draw((u32)std::min<std::size_t>(b - s, maxlen) + 1);
    for (std::size_t i = s; i < s + l; ++i) v.push_back({tb().cls[i]});
    if (!v.empty() && src().chance(1, 4)) v[src().draw((u32)v.size())].k = (int)src().draw(4);
  } else { u32 l = src().draw(5); for (u32 i = 0; i < l; ++i) v.push_back({(int)src().draw(4)}); }
  return v;
}
// class sequence of the whole range, possibly altered, shortened or lengthened
inline std::vector<KV> whole(Case& k, std::size_t a, std::size_t b) {
  std::vector<KV> v;
  for (std::size_t i = a; i < b; ++i) v.push_back({tb().cls[i]});
  if (!v.empty() && src().chance(1, 2)) v[src().draw((u32)v.size())].k = (int)src().draw(4);
  return v;
}

template <class It, class... Ts> void alg_case(Case& k, int which, std::size_t a, std::size_t b) {
  constexpr bool konst = std::is_same<It, typename C::const_iterator>::value;
  It f = k.m.at(a), l = k.m.at(b);
  auto P = [&](It i) { return posn(k, i); };
  unsigned mask = src().draw(8);
  Pred pr{mask};
  KV val{b > a && src().chance(2, 3) ? tb().cls[a + src().draw((u32)(b - a))] : (int)src().draw(4)};
  (void)pr; (void)val; (void)P;
  // CALL(alg, args...) is expanded once for std:: and once for pc::
#define BOTH(NAME, STRICT, BODY_STD, BODY_PC) k.template both<Ts...>(NAME, STRICT, konst, [&](Run& r) -> Res { (void)r; BODY_STD; }, [&](Run& r) -> Res { (void)r; BODY_PC; })
#define SIMPLE(NAME, STRICT, ...) BOTH(#NAME, STRICT, return Res{(long)std::NAME(__VA_ARGS__)}, return Res{(long)pc::template NAME<Ts...>(__VA_ARGS__)})
#define ITER(NAME, STRICT, ...) BOTH(#NAME, STRICT, return Res{P(std::NAME(__VA_ARGS__))}, return Res{P(pc::template NAME<Ts...>(__VA_ARGS__))})
#define OUTP(NAME, STRICT, ...) BOTH(#NAME, STRICT, auto o = (Out{&r.out, 0, 1}); auto e = std::NAME(__VA_ARGS__); return (Res{(long)e.i, e.id}), \
    auto o = (Out{&r.out, 0, 1}); auto e = pc::template NAME<Ts...>(__VA_ARGS__); return (Res{(long)e.i, e.id}))
#if GROUP == 0
  switch (which % 12) {
    case 0: SIMPLE(all_of, S_SEQ, f, l, pr); break;
    case 1: SIMPLE(any_of, S_SEQ, f, l, pr); break;
    case 2: SIMPLE(none_of, S_SEQ, f, l, pr); break;
    case 3: BOTH("for_each", S_SEQ, auto g = std::for_each(f, l, Fun{}); return (Res{g.sum, g.n}), auto g = pc::template for_each<Ts...>(f, l, Fun{}); return (Res{g.sum, g.n})); break;
    case 4: {
      std::size_t n = src().draw((u32)(k.n - a) + 1);
#define FEN(TYPE) BOTH("for_each_n", S_SEQ, It i = std::for_each_n(f, (TYPE)n, Fun{}); return Res{P(i)}, It i = pc::template for_each_n<Ts...>(f, (TYPE)n, Fun{}); return Res{P(i)})
      switch (src().draw(4)) { case 0: FEN(std::ptrdiff_t); break; case 1: FEN(int); break; case 2: FEN(std::size_t); break; default: FEN(short); }
      break;
    }
    case 5: ITER(find, S_SEQ, f, l, val); break;
    case 6: ITER(find_if, S_SEQ, f, l, pr); break;
    case 7: ITER(find_if_not, S_SEQ, f, l, pr); break;
    case 8: SIMPLE(count, S_SEQ, f, l, val); break;
    case 9: SIMPLE(count_if, S_SEQ, f, l, pr); break;
    case 10: if (src().chance(1, 2)) SIMPLE(is_partitioned, S_SEQ, f, l, pr);
      else { PosPred pp{(int)a + (int)src().draw((u32)(b - a) + 2)}; SIMPLE(is_partitioned, S_SEQ, f, l, pp); } break;
    default: {
      PosPred pp{(int)a + (int)src().draw((u32)(b - a) + 1)};
      ITER(partition_point, S_NONE, f, l, pp);
      // number of applications is logarithmic
      tb().log.clear(); It i = pc::template partition_point<Ts...>(f, l, pp); (void)i;
      double lg = std::log2((double)(b - a) + 1);
      VP_CHECK((double)tb().log.size() <= 3 * lg + 4 + 2 * LA::size, "partition_point: ", tb().log.size(), " predicate applications on ", b - a, " elements");
      tb().log.clear();
    }
  }
#elif GROUP == 1
  k.second_iface = false;
  switch (which % 20) {
    case 0: { auto v = pattern(k, a, b, 4); Pred2 p2; ITER(find_first_of, S_NONE, f, l, v.begin(), v.end(), p2); break; }
    case 1: { auto v = pattern(k, a, b, 4); ITER(find_first_of, S_NONE, f, l, v.begin(), v.end()); break; }
    case 2: if (src().chance(1, 2)) { Pred2 p2; ITER(adjacent_find, S_SEQ, f, l, p2); } else { Less2 p2; ITER(adjacent_find, S_SEQ, f, l, p2); } break;
    case 3: case 4: {
      auto v = whole(k, a, b); bool four = src().chance(1, 2);
      if (four) { if (src().chance(1, 3) && !v.empty()) v.resize(src().draw((u32)v.size())); if (src().chance(1, 3)) v.push_back({(int)src().draw(4)}); }
      Pred2 p2; bool wp = src().chance(1, 2);
      if (src().chance(1, 3)) {   // single pass second range
#define MM(NAME, ...) BOTH("mismatch (input)", S_SEQ, auto s = (In::State{&v, 0}); auto i2 = (In{&s, 0}); auto e2 = (In{&s, v.size()}); (void)e2; auto p = std::mismatch(__VA_ARGS__); return (Res{P(p.first), (long)p.second.own}), \
          auto s = (In::State{&v, 0}); auto i2 = (In{&s, 0}); auto e2 = (In{&s, v.size()}); (void)e2; auto p = pc::template mismatch<Ts...>(__VA_ARGS__); return (Res{P(p.first), (long)p.second.own}))
        if (four) { if (wp) MM(x, f, l, i2, e2, p2); else MM(x, f, l, i2, e2); }
        else { if (wp) MM(x, f, l, i2, p2); else MM(x, f, l, i2); }
      } else {
#define MV(...) BOTH("mismatch", S_SEQ, auto p = std::mismatch(__VA_ARGS__); return (Res{P(p.first), p.second - v.begin()}), auto p = pc::template mismatch<Ts...>(__VA_ARGS__); return (Res{P(p.first), p.second - v.begin()}))
        if (four) { if (wp) MV(f, l, v.begin(), v.end(), p2); else MV(f, l, v.begin(), v.end()); }
        else { if (wp) MV(f, l, v.begin(), p2); else MV(f, l, v.begin()); }
      }
      break;
    }
    case 5: case 6: {
      auto v = whole(k, a, b); bool four = src().chance(1, 2);
      if (four) { if (src().chance(1, 3) && !v.empty()) v.resize(src().draw((u32)v.size())); if (src().chance(1, 3)) v.push_back({(int)src().draw(4)}); }
      Pred2 p2; bool wp = src().chance(1, 2);
      if (src().chance(1, 3)) {
#define EQI(...) BOTH("equal (input)", S_NONE, auto s = (In::State{&v, 0}); auto i2 = (In{&s, 0}); auto e2 = (In{&s, v.size()}); (void)e2; return Res{(long)std::equal(__VA_ARGS__)}, \
          auto s = (In::State{&v, 0}); auto i2 = (In{&s, 0}); auto e2 = (In{&s, v.size()}); (void)e2; return Res{(long)pc::template equal<Ts...>(__VA_ARGS__)})
        if (four) { if (wp) EQI(f, l, i2, e2, p2); else EQI(f, l, i2, e2); }
        else { if (wp) EQI(f, l, i2, p2); else EQI(f, l, i2); }
      } else if (four) { if (wp) SIMPLE(equal, S_NONE, f, l, v.begin(), v.end(), p2); else SIMPLE(equal, S_NONE, f, l, v.begin(), v.end()); }
      else { if (wp) SIMPLE(equal, S_NONE, f, l, v.begin(), p2); else SIMPLE(equal, S_NONE, f, l, v.begin()); }
      break;
    }
    case 7: case 8: {   // is_permutation
      if (b - a > 24) { b = a + 24; l = k.m.at(b); }
      auto v = whole(k, a, b);
      for (std::size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[src().draw((u32)i)]);
      bool four = src().chance(1, 2);
      if (four) { if (src().chance(1, 4) && !v.empty()) v.pop_back(); if (src().chance(1, 4)) v.push_back({(int)src().draw(4)}); }
      Pred2 p2;
      if (src().chance(1, 2)) {
        std::forward_list<KV> fl(v.begin(), v.end());
        if (four) SIMPLE(is_permutation, S_NONE, f, l, fl.begin(), fl.end(), p2); else SIMPLE(is_permutation, S_NONE, f, l, fl.begin(), p2);
      } else { if (four) SIMPLE(is_permutation, S_NONE, f, l, v.begin(), v.end(), p2); else SIMPLE(is_permutation, S_NONE, f, l, v.begin(), p2); }
      break;
    }
    case 9: case 10: { auto v = pattern(k, a, b, 6); Pred2 p2; if (src().chance(2, 3)) ITER(search, S_NONE, f, l, v.begin(), v.end(), p2); else ITER(search, S_NONE, f, l, v.begin(), v.end()); break; }
    case 11: { auto v = pattern(k, a, b, 6); Pred2 p2; if (src().chance(2, 3)) ITER(find_end, S_NONE, f, l, v.begin(), v.end(), p2); else ITER(find_end, S_NONE, f, l, v.begin(), v.end()); break; }
    case 12: case 13: {
      int n = (int)src().draw(src().chance(1, 4) ? (u32)(b - a) + 2 : 5); Pred2 p2; bool wp = src().chance(1, 2);
      if (src().chance(1, 20)) n = -1;
#define SN(TYPE) { if (wp) ITER(search_n, S_NONE, f, l, (TYPE)n, val, p2); else ITER(search_n, S_NONE, f, l, (TYPE)n, val); }
      if (n < 0 || src().chance(1, 2)) SN(int) else if (src().chance(1, 2)) SN(std::size_t) else SN(short)
      // at most last-first applications of the predicate
      tb().log.clear(); It i = pc::template search_n<Ts...>(f, l, n, val, p2); (void)i;
      VP_CHECK(tb().log.size() <= b - a, "search_n: ", tb().log.size(), " predicate applications on ", b - a, " elements");
      tb().log.clear();
      break;
    }
    case 14: case 15: case 16: {   // second range: elements of a collection
      std::size_t c0 = src().draw((u32)k.n + 1), c1 = c0 + src().draw((u32)(k.n - c0) + 1); Pred2 p2;
      if (src().chance(1, 2)) { c0 = a; c1 = std::min(k.n, c0 + (b - a)); }
      It f2 = k.m.at(c0), l2 = k.m.at(c1); k.second_iface = true;
      switch (src().draw(5)) {
        case 0: SIMPLE(equal, S_NONE, f, l, f2, l2, p2); break;
        case 1: BOTH("mismatch (elements)", S_NONE, auto p = std::mismatch(f, l, f2, l2, p2); return (Res{P(p.first), P(p.second)}), auto p = pc::template mismatch<Ts...>(f, l, f2, l2, p2); return (Res{P(p.first), P(p.second)})); break;
        case 2: ITER(search, S_NONE, f, l, f2, l2, p2); break;
        case 3: ITER(find_first_of, S_NONE, f, l, f2, l2, p2); break;
        default: if (b - a <= 24 && c1 - c0 <= 24) SIMPLE(is_permutation, S_NONE, f, l, f2, l2, p2); break;
      }
      k.second_iface = false;
      break;
    }
    case 17: {   // overloads without predicate, by key
      std::vector<KK> v; for (std::size_t i = a; i < b && v.size() < 24; ++i) v.push_back({k.m.r.seg[k.tid_at[i]][k.idx_at[i]]});
      if (v.size() < b - a) { b = a + v.size(); l = k.m.at(b); }
      if (!v.empty() && src().chance(1, 3)) v[src().draw((u32)v.size())].k = 1 + (int)src().draw(3);
      switch (src().draw(5)) {
        case 0: SIMPLE(equal, S_NONE, f, l, v.begin(), v.end()); break;
        case 1: BOTH("mismatch (keys)", S_NONE, auto p = std::mismatch(f, l, v.begin()); return (Res{P(p.first), p.second - v.begin()}), auto p = pc::template mismatch<Ts...>(f, l, v.begin()); return (Res{P(p.first), p.second - v.begin()})); break;
#if MODEL == MODEL_BASE
        default: for (std::size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[src().draw((u32)i)]);
          if (src().chance(1, 2)) SIMPLE(is_permutation, S_NONE, f, l, v.begin()); else SIMPLE(is_permutation, S_NONE, f, l, v.begin(), v.end());
#else
        default: ITER(find_end, S_NONE, f, l, v.begin(), v.end());
#endif
      }
      break;
    }
    case 18: case 19: {
#if MODEL == MODEL_BASE
      ITER(adjacent_find, S_NONE, f, l);
#else
      { Pred2 p2; ITER(adjacent_find, S_SEQ, f, l, p2); }
#endif
    }
  }
#else
  switch (which % 16) {
    case 0: OUTP(copy, S_SEQ, f, l, o); break;
    case 1: {
      std::size_t n = src().draw((u32)(k.n - a) + 1);
      switch (src().draw(4)) { case 0: OUTP(copy_n, S_SEQ, f, (std::ptrdiff_t)n, o); break; case 1: OUTP(copy_n, S_SEQ, f, (int)n, o); break; case 2: OUTP(copy_n, S_SEQ, f, (std::size_t)n, o); break; default: OUTP(copy_n, S_SEQ, f, (short)n, o); }
      break;
    }
    case 2: OUTP(copy_if, S_SEQ, f, l, o, pr); break;
    case 3: OUTP(move, S_SEQ, f, l, o); break;
    case 4: { Op op; OUTP(transform, S_SEQ, f, l, o, op); break; }
    case 5: {
      auto v = whole(k, a, b); Op2 op;
      if (src().chance(1, 2)) OUTP(transform, S_SEQ, f, l, v.begin(), o, op);
      else {
        BOTH("transform (input)", S_SEQ, auto o = (Out{&r.out, 0, 1}); auto s = (In::State{&v, 0}); auto i2 = (In{&s, 0}); auto e = std::transform(f, l, i2, o, op); return (Res{(long)e.i, (long)s.pos}),
             auto o = (Out{&r.out, 0, 1}); auto s = (In::State{&v, 0}); auto i2 = (In{&s, 0}); auto e = pc::template transform<Ts...>(f, l, i2, o, op); return (Res{(long)e.i, (long)s.pos}));
      }
      break;
    }
    case 6: { KV nv{77}; BOTH("replace_copy", S_SEQ, auto o = (Out{&r.out, 0, 1}); for (It i = f; i != l; ++i, ++o) { if (*i == val) *o = nv; else *o = *i; } return (Res{(long)o.i}),
                auto o = (Out{&r.out, 0, 1}); auto e = pc::template replace_copy<Ts...>(f, l, o, val, nv); return (Res{(long)e.i})); break; }
    case 7: { KV nv{77}; BOTH("replace_copy_if", S_SEQ, auto o = (Out{&r.out, 0, 1}); for (It i = f; i != l; ++i, ++o) { if (pr(*i)) *o = nv; else *o = *i; } return (Res{(long)o.i}),
                auto o = (Out{&r.out, 0, 1}); auto e = pc::template replace_copy_if<Ts...>(f, l, o, pr, nv); return (Res{(long)e.i})); break; }
    case 8: OUTP(remove_copy, S_SEQ, f, l, o, val); break;
    case 9: OUTP(remove_copy_if, S_SEQ, f, l, o, pr); break;
    case 10: case 11: {
#if MODEL == MODEL_BASE
      if (src().chance(1, 3)) { OUTP(unique_copy, S_NONE, f, l, o); break; }
#endif
      Pred2 p2; OUTP(unique_copy, S_COUNT, f, l, o, p2); break;
    }
    case 12: { std::size_t md = a + src().draw((u32)(b - a) + 1); It mid = k.m.at(md); OUTP(rotate_copy, S_SEQ, f, mid, l, o); break; }
    case 13: case 14:
      BOTH("partition_copy", S_SEQ, auto o = (Out{&r.out, 0, 1}); auto o2 = (Out{&r.out2, 0, 2}); auto e = std::partition_copy(f, l, o, o2, pr); return (Res{(long)e.first.i, (long)e.second.i, e.first.id, e.second.id}),
           auto o = (Out{&r.out, 0, 1}); auto o2 = (Out{&r.out2, 0, 2}); auto e = pc::template partition_copy<Ts...>(f, l, o, o2, pr); return (Res{(long)e.first.i, (long)e.second.i, e.first.id, e.second.id}));
      break;
    default: {   // sample: an ordered subset of the right size, all subsets equally likely
      k.what = "sample"; label("sample");
      int n = (int)src().draw((u32)(b - a) + 3);
      std::mt19937 g(src().draw(1u << 30));
      auto once = [&](int m, std::size_t bb) {
        Run r; Out o{&r.out, 0, 1}; It e = k.m.at(bb);
        tb().invalid = 0; tb().log.clear();
        std::size_t cnt = src().draw(1);
        (void)cnt;
        auto x = pc::template sample<Ts...>(f, e, o, m, g);
        k.template check_static<Ts...>(r, konst);
        std::size_t exp = std::min<std::size_t>((std::size_t)m, bb - a);
        VP_CHECK(r.out.size() == exp && x.i == exp, "sample: ", r.out.size(), " elements selected, expected ", exp);
        int last = (int)a - 1;
        for (auto& ev : r.out) { int p = k.where(ev.a); VP_CHECK(p > last && p < (int)bb, "sample: selected elements repeated, out of order or out of range"); last = p; }
        return r.out;
      };
      once(n, b); unit();
      if (src().chance(1, 60) && b - a >= 3) {
        std::size_t len = std::min<std::size_t>(b - a, 5); int m = 1 + (int)src().draw((u32)len - 1);
        const int reps = 4000; std::map<unsigned, int> cnt;
        for (int i = 0; i < reps; ++i) { unsigned s = 0; for (auto& ev : once(m, a + len)) s |= 1u << (k.where(ev.a) - (int)a); ++cnt[s]; }
        unsigned subsets = 0; for (unsigned s = 0; s < (1u << len); ++s) if (__builtin_popcount(s) == m) ++subsets;
        double ex = (double)reps / subsets, chi = 0; unsigned seen = 0;
        for (auto& p : cnt) { chi += (p.second - ex) * (p.second - ex) / ex; ++seen; }
        chi += (subsets - seen) * ex;
        label("sample_distribution");
        VP_CHECK(chi < subsets + 12 * std::sqrt(2.0 * subsets) + 60, "sample: subsets of ", m, " of ", len, " are not equally likely (chi2 ", chi, " for ", subsets, " subsets)");
      }
      if (src().chance(1, 400)) {   // a range longer than the Distance type can represent
        label("sample_narrow");
        C big; for (int i = 0; i < 33000; ++i) { if (i % 2) big.template emplace<T0>(i); else big.template emplace<T1>(i); }
        for (auto m : {5, 0, 32767}) {
          std::vector<int> got; 
          pc::template sample<Ts...>(big.begin(), big.end(), Keys{&got}, (short)m, g);
          VP_CHECK(got.size() == (std::size_t)m, "sample of ", m, " (short) out of 33000 elements selects ", got.size());
        }
      }
    }
  }
#endif
}

inline void fill(Case& k) {
  int kinds = 1 + (int)src().draw(LA::size);
  u32 n = src().chance(1, 3) ? src().size(40) : 4 + src().draw(24);
  k.m.dup_keys = src().chance(1, 3);
  if (src().chance(1, 60)) n = 40 + src().draw(200);
  if (src().chance(1, 3)) for_types(LA{}, [&](auto t) { using T = typename decltype(t)::type; if (src().chance(1, 2)) { k.m.c.template register_types<T>(); k.m.r.seg[T::id]; } });
  for (u32 i = 0; i < n; ++i) {
    with_type(LA{}, (int)src().draw((u32)kinds), [&](auto t) { using T = typename decltype(t)::type; int key = k.m.new_key(); k.m.c.template emplace<T>(key); k.m.r.seg[T::id].push_back(key); });
  }
  if (src().chance(1, 5) && !k.m.r.seg.empty()) { auto it = k.m.r.seg.begin(); std::advance(it, src().draw((u32)k.m.r.seg.size())); int t = it->first; for_types(LA{}, [&](auto tg) { using T = typename decltype(tg)::type; if (T::id == t) { k.m.c.template clear<T>(); it->second.clear(); } }); }
  trace("collection ", k.m.r.str());
  check_equal<LA>(k.m.c, k.m.r, "fill");
}
// picks a range; bounds at segment boundaries are favoured
inline void pick_range(Case& k, std::size_t& a, std::size_t& b) {
  a = src().chance(2, 3) ? 0 : src().draw((u32)k.n + 1);
  b = src().chance(2, 3) ? k.n : a + src().draw((u32)(k.n - a) + 1);
  if (src().chance(1, 4)) {
    std::vector<std::size_t> cut{0}; for (std::size_t i = 1; i < k.n; ++i) if (k.tid_at[i] != k.tid_at[i - 1]) cut.push_back(i); cut.push_back(k.n);
    std::size_t x = src().pick(cut), y = src().pick(cut); a = std::min(x, y); b = std::max(x, y);
    if (src().chance(1, 2) && b > a) { if (src().draw(2)) ++a; else --b; }
  }
}
} // namespace vp
#endif
