// C14: interface and concrete views denote the same live object
#include "engine.hpp"
#include <memory>
#include <functional>
#include <typeinfo>
#include <numeric>
#include <algorithm>
#ifndef MODEL
#define MODEL 0
#endif
#if MODEL == 0
#include <boost/poly_collection/base_collection.hpp>
#elif MODEL == 1
#include <boost/poly_collection/function_collection.hpp>
#else
#include <boost/poly_collection/any_collection.hpp>
#include <boost/mpl/vector.hpp>
#include <boost/type_erasure/any.hpp>
#include <boost/type_erasure/any_cast.hpp>
#include <boost/type_erasure/builtin.hpp>
#include <boost/type_erasure/callable.hpp>
#include <boost/type_erasure/operators.hpp>
#include <boost/type_erasure/relaxed.hpp>
#include <boost/type_erasure/typeid_of.hpp>
#endif
namespace vp {
const char* const nontrivial_rule =
  "a case drives a collection of types of many layouts and kinds through generated insertions, erasures, reallocations, copies, moves and swaps and generated modifications through the interface and through "
  "concrete references, comparing identity, alignment, exact type and value of every element in both views after each step; non-trivial when at least two types hold elements and both kinds of modification occurred";

template <class... T> struct tlist { static constexpr int size = sizeof...(T); };
template <class T> struct tag { using type = T; };
template <class T, class... Ts, class F> void with_type(tlist<T, Ts...>, int i, F&& f) {
  if (i == 0) f(tag<T>{}); else if constexpr (sizeof...(Ts) > 0) with_type(tlist<Ts...>{}, i - 1, std::forward<F>(f)); else std::abort();
}
template <class... Ts, class F> void for_types(tlist<Ts...>, F&& f) { using x = int[]; (void)x{0, ((void)f(tag<Ts>{}), 0)...}; }

static std::string g_problem;
static void bad(const char* s) { if (g_problem.empty()) g_problem = s; }
static long g_alive = 0;
// value with a memory of its own address
struct V {
  int v; const V* self;
  explicit V(int x) : v(x), self(this) { ++g_alive; }
  V(const V& x) : v(x.get()), self(this) { ++g_alive; }
  V(V&& x) noexcept : v(x.get()), self(this) { ++g_alive; }
  V& operator=(const V& x) noexcept { chk(); v = x.get(); return *this; }
  ~V() { chk(); self = nullptr; v = -99; --g_alive; }
  void chk() const { if (self != this) bad("an operation reached an address where no object lives"); }
  int get() const { chk(); return v; }
  int bump(int n) { chk(); return v += n; }
};

#if MODEL == 0
struct I {
  virtual ~I() = default;
  virtual int get() const = 0;
  virtual int bump(int) = 0;
  virtual const void* me() const = 0;
  I() = default; I(const I&) = default; I& operator=(const I&) = default;
};
using Coll = boost::base_collection<I>;
using Value = I;
struct Big { virtual ~Big() = default; virtual int other() const { return 5; } char room[40] = {1}; };
struct Small { char c = 'q'; };
#define BODY(T) V val; explicit T(int x) : val(x) {} int get() const override { return val.get(); } int bump(int n) override { return val.bump(n); } const void* me() const override { return this; }
struct Plain : I { BODY(Plain) };
struct Second : Big, I { BODY(Second) };                       // interface is not the primary base
struct Third : Small, Big, I { BODY(Third) char tail[3]; };
struct alignas(64) Aligned : I { BODY(Aligned) };
struct alignas(128) AlignedMI : Big, I { BODY(AlignedMI) };
struct Huge : I { char room[3000]; BODY(Huge) };
struct Odd : I { char room[13]; BODY(Odd) char more; };
struct Mid : Small, I { int m = 3; };
struct Deep : Big, Mid { BODY(Deep) };
struct Leaf : Second { explicit Leaf(int x) : Second(x) {} double d = 2; const void* me() const override { return this; } };   // derived from another element type
struct alignas(32) Leaf2 : Leaf { explicit Leaf2(int x) : Leaf(x) {} const void* me() const override { return this; } };
struct Fin final : I, Big { BODY(Fin) };
// overloads unary &, the comma and operator new
struct Amp : Big, I { BODY(Amp) static void* operator new(std::size_t) = delete; static void* operator new(std::size_t, void*) = delete; Amp* operator&() { return nullptr; } const Amp* operator&() const { return nullptr; } template <class U> friend void operator,(Amp&, U&&) = delete; };
using L = tlist<Amp, Plain, Second, Third, Aligned, AlignedMI, Huge, Odd, Deep, Leaf, Leaf2, Fin>;
template <class T> T make(int k) { return T(k); }
template <class T> int cget(const T& x) { return x.val.get(); }
template <class T> int cbump(T& x, int n) { return x.val.bump(n); }
template <class T> int bumped(int v, int n) { return v + n; }
static int iget(const Value& r) { return r.get(); }
static int ibump(Value& r, int n) { return r.bump(n); }
template <class T> int vget(const Value& r) { return iget(r); }
template <class T> void identity(Value& r, T& x, const char* k) {
  const Value& cr = r; const T& cx = x;
  VP_CHECK(typeid(r) == typeid(T), k, ": dynamic type through the interface is another");
  VP_CHECK(dynamic_cast<void*>(&r) == static_cast<void*>(std::addressof(x)), k, ": interface and concrete reference denote different objects");
  VP_CHECK(static_cast<T*>(&r) == std::addressof(x) && static_cast<Value*>(std::addressof(x)) == &r && static_cast<const T*>(&cr) == std::addressof(cx), k, ": casts between the views disagree");
  VP_CHECK(cr.me() == static_cast<const void*>(std::addressof(x)), k, ": virtual call reaches another object");
}
#elif MODEL == 1
using Sig = int(int);
using Coll = boost::function_collection<Sig>;
using Value = boost::poly_collection::function_collection_value_type<Sig>;
struct Big { virtual ~Big() = default; virtual int other() const { return 5; } char room[40] = {1}; };
// f(n): adds n to its state and returns it
#define BODY(T) V val; explicit T(int x) : val(x) {} int operator()(int n) { return val.bump(n); }
struct Plain { BODY(Plain) };
struct Second : Big { BODY(Second) };
struct alignas(64) Aligned { BODY(Aligned) };
struct alignas(128) AlignedBig : Big { BODY(AlignedBig) };
struct Huge { char room[3000]; BODY(Huge) };
struct Conv { V val; explicit Conv(int x) : val(x) {} double operator()(long n) { return val.bump((int)n) + 0.25; } };   // converting call
struct Overl { V val; explicit Overl(int x) : val(x) {} int operator()(int n) { return val.bump(n); } int operator()(int) const { return -1; } int operator()(double) { return -2; } };
struct Leaf : Second { explicit Leaf(int x) : Second(x) {} double d = 2; };
static int fp0(int n) { return n; } static int fp1(int n) { return n + 1; } static int fp2(int n) { return n + 2; } static int fp3(int n) { return n + 3; }
static int (*const fps[])(int) = {fp0, fp1, fp2, fp3};
using FP = int (*)(int);
using SF = std::function<int(int)>;
static auto mklambda(int k) { return [v = V(k)](int n) mutable { return v.bump(n); }; }
using Lam = decltype(mklambda(0));
// overloads unary &, the comma and operator new
struct Amp { BODY(Amp) static void* operator new(std::size_t) = delete; static void* operator new(std::size_t, void*) = delete; Amp* operator&() { return nullptr; } const Amp* operator&() const { return nullptr; } template <class U> friend void operator,(Amp&, U&&) = delete; };
using L = tlist<Amp, Plain, Second, Aligned, AlignedBig, Huge, Conv, Overl, Leaf, FP, SF, Lam>;
template <class T> T make(int k) { if constexpr (std::is_same<T, FP>::value) return fps[k & 3]; else if constexpr (std::is_same<T, Lam>::value) return mklambda(k); else if constexpr (std::is_same<T, SF>::value) return SF(Plain(k)); else return T(k); }
// value as seen by a call with 0; function pointers are stateless
template <class T> int cget(T& x) { return (int)x(0); }
template <class T> int cbump(T& x, int n) {
  if constexpr (std::is_same<T, FP>::value) { int v = x(0); x = fps[(v + n) & 3]; return x(0); } else return (int)x(n);
}
template <class T> int bumped(int v, int n) { return std::is_same<T, FP>::value ? ((v + n) & 3) : v + n; }
static int iget(const Value& r) { return r(0); }
template <class T> int vget(const Value& r) { return iget(r); }
struct Unrelated { int operator()(int) { return 0; } };
template <class T> void identity(Value& r, T& x, const char* k) {
  const Value& cr = r;
  VP_CHECK(r.data() == static_cast<void*>(std::addressof(x)) && cr.data() == static_cast<const void*>(std::addressof(x)), k, ": data() is not the address of the element");
  VP_CHECK(r.target_type() == typeid(T), k, ": target_type() is another type");
  VP_CHECK(r.template target<T>() == std::addressof(x) && cr.template target<T>() == std::addressof(x), k, ": target<T>() is not the element");
  VP_CHECK(r.template target<Unrelated>() == nullptr && cr.template target<Unrelated>() == nullptr && cr.template target<int>() == nullptr, k, ": target of another type is not null");
  if (!std::is_same<T, Second>::value) VP_CHECK(r.template target<Second>() == nullptr, k, ": target of another element type is not null");
  if (!std::is_same<T, SF>::value) VP_CHECK(cr.template target<SF>() == nullptr, k, ": target<std::function> is not null");
  VP_CHECK(bool(r) && bool(cr) && !!cr, k, ": operator bool is false");
  std::function<int(int)> f = cr;
  VP_CHECK(bool(f), k, ": conversion to std::function is empty");
  VP_CHECK(f(0) == cget(x), k, ": conversion to std::function calls another object");
  if (!std::is_same<T, FP>::value && src().chance(1, 4)) { int v = cget(x); VP_CHECK(f(3) == v + 3 && cget(x) == v + 3 && r(-3) == v && f(0) == v, k, ": std::function acts on a copy or another object"); }
  std::function<int(int)> e = cr.operator std::function<int(int)>();
  VP_CHECK(bool(e) && e(0) == cget(x), k, ": operator std::function calls another object");
  if (!std::is_same<T, FP>::value && src().chance(1, 4)) { int v = cget(x); VP_CHECK(e(3) == v + 3 && cget(x) == v + 3 && r(-3) == v && e(0) == v, k, ": operator std::function acts on a copy or another object"); }
  Value w = cr; VP_CHECK(w.data() == cr.data() && w.target_type() == typeid(T) && w(0) == cget(x), k, ": copy of the interface reference denotes another object");
}
static int ibump(Value& r, int n) { return r(n); }
#else
namespace te = boost::type_erasure;
using Concept = boost::mpl::vector<te::copy_constructible<>, te::incrementable<>, te::callable<int(int), const te::_self>, te::relaxed>;   // typeid_ is added by the library
using Coll = boost::any_collection<Concept>;
using Value = boost::poly_collection::any_collection_value_type<Concept>;
struct Big { virtual ~Big() = default; virtual int other() const { return 5; } char room[40] = {1}; };
#define BODY(T) V val; explicit T(int x) : val(x) {} int operator()(int n) const { return val.get() + n; } T& operator++() { val.bump(1); return *this; }
struct Plain { BODY(Plain) };
struct Second : Big { BODY(Second) };
struct alignas(64) Aligned { BODY(Aligned) };
struct alignas(128) AlignedBig : Big { BODY(AlignedBig) };
struct Huge { char room[3000]; BODY(Huge) };
struct Leaf : Second { explicit Leaf(int x) : Second(x) {} double d = 2; };
struct Odd { char a; char room[12]; BODY(Odd) };
// owning any: an element whose own type is type-erased
using Own = te::any<boost::mpl::vector<te::copy_constructible<>, te::incrementable<>, te::callable<int(int), const te::_self>, te::typeid_<>, te::relaxed>>;
using Own2 = te::any<boost::mpl::vector<te::copy_constructible<>, te::incrementable<>, te::callable<int(int), const te::_self>, te::assignable<>>>;   // without typeid_: terminal
// overloads unary &, the comma and operator new
struct Amp { BODY(Amp) Amp* operator&() { return nullptr; } const Amp* operator&() const { return nullptr; } template <class U> friend void operator,(Amp&, U&&) = delete; };
using L = tlist<Amp, Plain, Second, Aligned, AlignedBig, Huge, Leaf, Odd, Own, Own2>;
template <class T> T make(int k) { if constexpr (std::is_same<T, Own>::value || std::is_same<T, Own2>::value) return T(Plain(k)); else return T(k); }
template <class T> int cget(const T& x) { return x(0); }
template <class T> int cbump(T& x, int n) { for (int i = 0; i < n; ++i) ++x; return x(0); }
template <class T> int bumped(int v, int n) { return v + n; }
static int iget(const Value& r) { return r(0); }
static int ibump(Value& r, int n) { for (int i = 0; i < n; ++i) ++r; return r(0); }
struct Unrelated {};
template <class T> void identity(Value& r, T& x, const char* k) {
  const Value& cr = r;
  VP_CHECK(te::any_cast<void*>(&r) == static_cast<void*>(std::addressof(x)) && te::any_cast<const void*>(&cr) == static_cast<const void*>(std::addressof(x)), k, ": any_cast<void*> is not the address of the element");
  VP_CHECK(te::typeid_of(cr) == typeid(T), k, ": typeid_of is another type");
  VP_CHECK(te::any_cast<T*>(&r) == std::addressof(x) && te::any_cast<const T*>(&cr) == std::addressof(x) && std::addressof(te::any_cast<T&>(r)) == std::addressof(x) && std::addressof(te::any_cast<const T&>(cr)) == std::addressof(x), k, ": any_cast does not give the element");
  VP_CHECK(te::any_cast<Unrelated*>(&r) == nullptr, k, ": any_cast to another type is not null");
  if (!std::is_same<T, Second>::value) VP_CHECK(te::any_cast<const Second*>(&cr) == nullptr, k, ": any_cast to another element type is not null");
  VP_CHECK(cr(7) == cget(x) + 7, k, ": call reaches another object");
}
#endif
template <class T, class C> struct has_id;
template <class T> int idx() { int i = 0, r = -1; for_types(L{}, [&](auto t) { using U = typename decltype(t)::type; if (std::is_same<T, U>::value) r = i; ++i; }); return r; }
template <class T> const char* nm() { return typeid(T).name(); }

using Ref = std::map<int, std::vector<int>>;

static void check(Coll& c, Ref& r, const char* op) {
  const Coll& cc = c;
  std::map<const void*, int> seen;
  std::size_t total = 0;
  for_types(L{}, [&](auto t) {
    using T = typename decltype(t)::type;
    auto it = r.find(idx<T>());
    if (it == r.end()) { VP_CHECK(!c.template is_registered<T>(), op, ": ", nm<T>(), " is registered"); return; }
    const auto& ks = it->second;
    VP_CHECK(c.template size<T>() == ks.size(), op, ": segment ", nm<T>(), " holds ", c.template size<T>(), " elements, expected ", ks.size());
    auto lt = c.template begin<T>(); auto clt = cc.template begin<T>(); auto lb = c.begin(typeid(T)); auto clb = cc.begin(typeid(T));
    for (std::size_t i = 0; i < ks.size(); ++i, ++lt, ++clt, ++lb, ++clb) {
      T& x = *lt; const T& cx = *clt;
      VP_CHECK(std::addressof(x) == std::addressof(cx), op, ": const and non-const typed views differ");
      VP_CHECK((std::uintptr_t)std::addressof(x) % alignof(T) == 0, op, ": element of ", nm<T>(), " is misaligned");
      VP_CHECK(cget(x) == ks[i], op, ": ", nm<T>(), "[", i, "] is ", cget(x), " expected ", ks[i]);
      Value& v = *lb; const Value& cv = *clb;
      VP_CHECK(iget(cv) == ks[i] && iget(v) == ks[i], op, ": ", nm<T>(), "[", i, "] through the interface is ", iget(cv), " expected ", ks[i]);
      identity<T>(v, x, op);
      identity<T>(const_cast<Value&>(cv), x, op);
      VP_CHECK(std::addressof(static_cast<T&>(*(typename Coll::template local_iterator<T>(lb)))) == std::addressof(x), op, ": converted iterator gives another object");
      VP_CHECK(seen.emplace(std::addressof(x), idx<T>()).second, op, ": two elements at one address");
      ++total;
    }
    auto sg = c.segment(typeid(T));
    std::size_t i = 0; for (auto& v : sg) { VP_CHECK(i < ks.size(), op, ": segment overrun"); identity<T>(v, *(sg.template begin<T>() + (std::ptrdiff_t)i), op); ++i; }
  });
  std::size_t n = 0;
  for (auto& v : c) {
    VP_CHECK(n < total, op, ": global traversal overruns"); ++n;
    bool found = false;
    for_types(L{}, [&](auto t) {
      using T = typename decltype(t)::type;
#if MODEL == 0
      if (typeid(v) != typeid(T)) return; const void* p = dynamic_cast<void*>(&v);
#elif MODEL == 1
      if (v.target_type() != typeid(T)) return; const void* p = v.data();
#else
      if (te::typeid_of(v) != typeid(T)) return; const void* p = te::any_cast<void*>(&v);
#endif
      auto s = seen.find(p); VP_CHECK(s != seen.end() && s->second == idx<T>(), op, ": global traversal shows an object that typed views do not");
      seen.erase(s); found = true;
    });
    VP_CHECK(found, op, ": global traversal shows an unknown type");
  }
  VP_CHECK(n == total && seen.empty(), op, ": global traversal misses elements");
  VP_CHECK(g_problem.empty(), op, ": ", g_problem);
  unit();
}

#if MODEL == 1
// other signatures: references, move-only arguments, void, and exchange between signatures
struct Acc {
  V val; explicit Acc(int x) : val(x) {}
  int& operator()(int& x) { x += val.get(); return x; }
  void operator()(std::vector<int>& o) { o.push_back(val.get()); }
  int operator()(std::unique_ptr<int> p, const std::string& s) { return val.bump(*p) + (int)s.size(); }
};
struct Acc2 : Big { V val; explicit Acc2(int x) : val(x) {} int& operator()(int& x) { x -= val.get(); return x; } int operator()(std::vector<int>& o) const { o.push_back(-val.get()); return 3; }
  long operator()(std::unique_ptr<int>&& p, const std::string& s) { return val.bump(-*p) + (long)s.size(); } };
static void signatures() {
  int a = src().range(1, 50), b = src().range(1, 50);
  { boost::function_collection<int&(int&)> c; c.emplace<Acc>(a); c.emplace<Acc2>(b); int n = (int)src().draw(9); for (int i = 0; i < n; ++i) { if (src().draw(2)) c.emplace<Acc>(a); else c.emplace<Acc2>(b); }
    int x = 1000; long e = 1000 + (long)c.size<Acc>() * a - (long)c.size<Acc2>() * b;
    for (auto& f : c) { int& r = f(x); VP_CHECK(&r == std::addressof(x), "reference result of a call denotes another object"); } VP_CHECK(x == e, "calls with reference arguments: ", x, " expected ", e); }
  { boost::function_collection<void(std::vector<int>&)> c; for (int i = 0; i < 5; ++i) { c.emplace<Acc>(a + i); c.emplace<Acc2>(b + i); }
    std::vector<int> o; for (auto& f : c.segment(typeid(Acc))) f(o); for (int i = 0; i < 5; ++i) VP_CHECK((int)o.size() == 5 && o[i] == a + i, "void calls"); o.clear();
    for (const auto& f : c.segment(typeid(Acc2))) { std::function<void(std::vector<int>&)> g = f; g(o); } for (int i = 0; i < 5; ++i) VP_CHECK((int)o.size() == 5 && o[i] == -b - i, "void calls of int functions"); }
  { boost::function_collection<int(std::unique_ptr<int>, const std::string&)> c; c.emplace<Acc>(a); c.emplace<Acc2>(b); std::string s(src().draw(20), 'x');
    for (auto& f : c) { bool first = f.target_type() == typeid(Acc); int r = f(std::unique_ptr<int>(new int(4)), s); VP_CHECK(r == (first ? a + 4 : b - 4) + (int)s.size(), "call with move-only argument"); }
    VP_CHECK(c.begin<Acc>()->val.get() == a + 4 && c.begin<Acc2>()->val.get() == b - 4, "call with move-only argument does not act on the element"); }
  { // elements handed over between collections of different signatures are copies of the targets
    boost::function_collection<long(int)> d; d.register_types<Plain, Conv, Aligned>();
    Coll c; c.emplace<Plain>(a); c.emplace<Aligned>(b); c.emplace<Conv>(a + b);
    if (src().draw(2)) for (auto& f : c) d.insert(f); else d.insert(c.begin(), c.end());
    VP_CHECK(d.size() == 3 && d.size<Plain>() == 1 && d.size<Aligned>() == 1 && d.size<Conv>() == 1, "insertion from another signature");
    VP_CHECK(d.begin<Plain>()->val.get() == a && d.begin<Aligned>()->val.get() == b && d.begin<Conv>()->val.get() == a + b, "insertion from another signature: values");
    for (auto& f : d) { f(1); VP_CHECK((std::uintptr_t)f.data() % 4 == 0, "aligned"); }
    VP_CHECK(c.begin<Plain>()->val.get() == a && d.begin<Plain>()->val.get() == a + 1 && d.begin<Aligned>()->val.get() == b + 1, "elements of two collections are entangled");
  }
  label("signatures");
}
#endif
#if MODEL == 2
// insertion of type-erased objects: the held object's type decides
static void erased() {
  int a = src().range(1, 50);
  Coll c; c.register_types<Plain, Aligned>();
  int n = 1 + (int)src().draw(6), np = 0, na = 0;
  for (int i = 0; i < n; ++i) {
    bool al = src().draw(2);
    Own o = al ? Own(Aligned(a + i)) : Own(Plain(a + i));
    if (src().draw(2)) { const Own& co = o; c.insert(co); } else c.insert(std::move(o));
    if (al) { ++na; auto& x = *(c.end<Aligned>() - 1); VP_CHECK((int)c.size<Aligned>() == na && x.val.get() == a + i && (std::uintptr_t)&x % 64 == 0, "insertion of an owning any: Aligned"); }
    else { ++np; VP_CHECK((int)c.size<Plain>() == np && (c.end<Plain>() - 1)->val.get() == a + i, "insertion of an owning any: Plain"); }
  }
  VP_CHECK(!c.is_registered<Own>(), "insertion of an owning any registered its wrapper type");
  bool thrown = false; Own h{Huge(3)};
  try { c.insert(h); } catch (const boost::poly_collection::unregistered_type& e) { thrown = true; VP_CHECK(*e.pinfo == typeid(Huge), "pinfo of an owning any"); }
  VP_CHECK(thrown, "owning any with unregistered type accepted");
  // references to elements of another concept
  using Concept2 = boost::mpl::vector<te::copy_constructible<>, te::incrementable<>, te::callable<int(int), const te::_self>, te::relaxed, te::typeid_<>>;
  boost::any_collection<Concept2> d; d.register_types<Plain, Aligned>();
  for (auto& v : c) d.insert(v);
  VP_CHECK((int)d.size<Plain>() == np && (int)d.size<Aligned>() == na && d.size() == c.size(), "insertion from another concept");
  for (auto& v : d) ++v;
  for (int i = 0; i < np; ++i) VP_CHECK((d.begin<Plain>() + i)->val.get() == (c.begin<Plain>() + i)->val.get() + 1, "elements of two collections are entangled");
  label("erased");
}
#endif
#if MODEL == 2
template <class T> constexpr bool erased_type = std::is_same<T, Own>::value;   // inserting one means inserting what it holds
#else
template <class T> constexpr bool erased_type = false;
#endif
static int g_base = 0, g_nt = L::size;
static int draw_type() { return (g_base + (int)src().draw((u32)g_nt)) % L::size; }
void run_case() {
  g_problem.clear(); g_alive = 0;
  {
    Coll c; Ref r; Coll o; Ref ro;
    int key = 10;
    bool mi = false, mc = false;
    int avg = src().chance(1, 6) ? 50 : 22;
    g_base = (int)src().draw(L::size); g_nt = 2 + (int)src().draw(4);
#if MODEL == 1
    if (src().chance(1, 8)) signatures();
#elif MODEL == 2
    if (src().chance(1, 8)) erased();
#endif
    do {
      int op = (int)src().draw(16);
      const char* what = "?";
      if (op >= 13) {
        // transfers
        int w = (int)src().draw(6);
        trace("transfer ", w); label("transfer");
        switch (w) {
          case 0: c.swap(o); std::swap(r, ro); what = "swap"; break;
          case 1: o = c; ro = r; what = "copy assignment"; break;
          case 2: o = std::move(c); ro = r; r.clear(); c = Coll(); what = "move assignment"; break;
          case 3: { Coll x(c); c = std::move(x); what = "copy and move"; break; }
          case 4: { Coll x(std::move(c)); c = x; what = "move and copy"; break; }
          default: c.insert(o.begin(), o.end()); for (auto& p : ro) if (!p.second.empty()) { auto& k = r[p.first]; k.insert(k.end(), p.second.begin(), p.second.end()); }
            for_types(L{}, [&](auto t) { using T = typename decltype(t)::type; if (c.template is_registered<T>()) r[idx<T>()]; }); what = "range insertion";
        }
        if (w == 1 || w == 2 || w == 4) for_types(L{}, [&](auto t) { using T = typename decltype(t)::type; if (o.template is_registered<T>()) ro[idx<T>()]; });
        std::size_t n = 0; for (auto& p : r) n += p.second.size(); if (n > 200) { c.clear(); for (auto& p : r) p.second.clear(); }
      } else with_type(L{}, draw_type(), [&](auto t) {
        using T = typename decltype(t)::type;
        auto& ks = r[idx<T>()];
        if (!c.template is_registered<T>()) c.template register_types<T>();
        std::size_t i = src().draw((u32)ks.size() + 1);
        trace("op", op, " ", nm<T>(), "@", i);
        std::ptrdiff_t d = (std::ptrdiff_t)i;
        switch (op) {
          case 0: case 1: case 2: { what = "insert"; T x = make<T>(key); int v = cget(x); if (erased_type<T>) c.emplace_pos(typename Coll::template const_local_iterator<T>(c.template begin<T>() + d), x); else c.insert(typename Coll::template const_local_iterator<T>(c.template begin<T>() + d), x); ks.insert(ks.begin() + d, v); ++key; break; }
          case 3: { what = "emplace_pos"; T x = make<T>(key); int v = cget(x); c.template emplace_pos<T>(c.begin(typeid(T)) + d, std::move(x)); ks.insert(ks.begin() + d, v); ++key; break; }
          case 4: if (ks.size() < 60 && src().chance(1, 12)) { what = "many emplacements"; for (u32 n = 20 + src().draw(80); n--;) { T x = make<T>(key); ks.push_back(cget(x)); c.template emplace<T>(std::move(x)); ++key; } break; }
          { what = "emplace"; T x = make<T>(key); int v = cget(x); auto it = c.template emplace<T>(std::move(x)); VP_CHECK(iget(*it) == v, "emplace returns another element"); ks.push_back(v); ++key; break; }
          case 5: if (i < ks.size()) { what = "erase"; c.erase(c.begin(typeid(T)) + d); ks.erase(ks.begin() + d); } break;
          case 6: { what = "erase range"; std::size_t j = i + src().draw((u32)(ks.size() - i) + 1); c.erase(c.template begin<T>() + d, c.template begin<T>() + (std::ptrdiff_t)j); ks.erase(ks.begin() + d, ks.begin() + (std::ptrdiff_t)j); break; }
          case 7: { what = "capacity"; if (src().draw(2)) c.template reserve<T>(src().draw(40)); else c.shrink_to_fit(); break; }
          case 8: case 9: if (i < ks.size()) { // through the interface
            what = "modification through the interface"; mi = true; label("interface_modification");
            int n = 1 + (int)src().draw(3);
            int how = (int)src().draw(3);
            auto go = [&](Value& v) {
#if MODEL == 1
              if (std::is_same<T, FP>::value) { VP_CHECK(v(n) == ks[i] + n, "call through the interface"); return; }
#endif
              int got = ibump(v, n); ks[i] = bumped<T>(ks[i], n); VP_CHECK(got == ks[i], "interface call returned ", got, " expected ", ks[i]);
            };
            if (how == 0) go(*(c.begin(typeid(T)) + d));
            else if (how == 1) { auto s = c.segment(typeid(T)); go(s.begin()[d]); }
            else { // by global traversal
              for (auto& v : c) {
#if MODEL == 0
                if (dynamic_cast<void*>(&v) == (void*)std::addressof(*(c.template begin<T>() + d))) { go(v); break; }
#elif MODEL == 1
                if (v.data() == (void*)std::addressof(*(c.template begin<T>() + d))) { go(v); break; }
#else
                if (te::any_cast<void*>(&v) == (void*)std::addressof(*(c.template begin<T>() + d))) { go(v); break; }
#endif
              }
            }
          } break;
          default: if (i < ks.size()) { what = "modification through a concrete reference"; mc = true; label("concrete_modification");
            int n = 1 + (int)src().draw(3);
            int how = (int)src().draw(4);
            T* p = how == 0 ? std::addressof(*(c.template begin<T>() + d)) : how == 1 ? std::addressof((c.template segment<T>().begin())[d]) : nullptr;
            if (!p) {
              Value& v = *(c.begin(typeid(T)) + d);
#if MODEL == 0
              p = static_cast<T*>(&v);
#elif MODEL == 1
              p = how == 2 ? v.template target<T>() : static_cast<T*>(v.data());
#else
              p = how == 2 ? te::any_cast<T*>(&v) : std::addressof(te::any_cast<T&>(v));
#endif
              VP_CHECK(p, "cast of the interface reference yields null");
            }
            int got = cbump(*p, n); ks[i] = bumped<T>(ks[i], n); VP_CHECK(got == ks[i], "concrete modification of a wrong object");
          } break;
        }
      });
      check(c, r, what);
      check(o, ro, what);
    } while (src().more(avg));
    std::size_t ne = 0; for (auto& p : r) ne += !p.second.empty();
    if (ne >= 2 && mi && mc) nontrivial();
  }
  VP_CHECK(g_problem.empty(), g_problem);
  VP_CHECK(g_alive == 0, "objects alive after destruction: ", g_alive);
}
}
