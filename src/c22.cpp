// C22: exactly the acceptable types can be stored, and all of them work
#include "machine.hpp"
#include <boost/poly_collection/algorithm.hpp>
namespace vp {
const char* const nontrivial_rule =
  "a case either draws a type out of a family built from choices (copy construction: may throw, none, nothrow; move construction: nothrow, may throw, deleted, none declared; assignment: nothrow, may throw, deleted, copy only; final or not; "
  "forms of implementing and not implementing the interface) and compares which expressions a collection admits for it with the definition of acceptable types, or drives the segments of generated acceptable types of the family through a history "
  "next to a vector each; non-trivial when the type lacks an operation, or the history holds at least two elements of a type that lacks one";
using C = Coll<>;
// ---- special members
enum { CP_THROW, CP_NONE, CP_NOTHROW, CP_N }; enum { MV_NOTHROW, MV_THROW, MV_DELETED, MV_UNDECLARED, MV_N }; enum { AS_NOTHROW, AS_THROW, AS_DELETED, AS_COPY, AS_N };
template <int CP, int MV, int AS> struct Sp;
#define CPD0(S) S(const S& x) noexcept(false) : k(x.k) {}
#define CPD1(S) S(const S&) = delete;
#define CPD2(S) S(const S& x) noexcept : k(x.k) {}
#define MVD0(S) S(S&& x) noexcept : k(x.k) { x.k = -1; }
#define MVD1(S) S(S&& x) noexcept(false) : k(x.k) { x.k = -1; }
#define MVD2(S) S(S&&) = delete;
#define MVD3(S)
#define ASD0(S) S& operator=(S&& x) noexcept { k = x.k; if (&x != this) x.k = -1; return *this; }
#define ASD1(S) S& operator=(S&& x) noexcept(false) { k = x.k; if (&x != this) x.k = -1; return *this; }
#define ASD2(S) S& operator=(const S&) = delete;
#define ASD3(S) S& operator=(const S& x) { k = x.k; return *this; }
#if MODEL == MODEL_BASE
// deriving, final or not
#define BODY(S) int k; explicit S(int k_) : k(k_) {} ~S() { k = -2; }
template <class S, int> struct SBase : Iface { int key() const override { return static_cast<const S*>(this)->k; } int tid() const override { return 0; } };
#define SB(c, m, a) : SBase<Sp<c, m, a>, 0>
#else
#define BODY(S) int k; explicit S(int k_) : k(k_) {} ~S() { k = -2; } int key() const { return k; }
#define SB(c, m, a)
#endif
#define SP(c, m, a) template <> struct Sp<c, m, a> SB(c, m, a) { BODY(Sp) CPD##c(Sp) MVD##m(Sp) ASD##a(Sp) };
#define SP_A(c, m) SP(c, m, 0) SP(c, m, 1) SP(c, m, 2) SP(c, m, 3)
#define SP_M(c) SP_A(c, 0) SP_A(c, 1) SP_A(c, 2) SP_A(c, 3)
SP_M(0) SP_M(1) SP_M(2)
// ---- how the interface is implemented
#if MODEL == MODEL_BASE
enum { IM_DIRECT, IM_DERIVED, IM_FINAL, IM_NOT, IM_ABSTRACT, IM_N };
constexpr int im_ok(int i) { return i != IM_NOT; }   // abstract types implement the interface, but are not move constructible
template <int CP, int MV, int AS, int IM> struct X : Sp<CP, MV, AS> { using Sp<CP, MV, AS>::Sp; };
template <int CP, int MV, int AS> struct X<CP, MV, AS, IM_DERIVED> : Sp<CP, MV, AS> { using Sp<CP, MV, AS>::Sp; double d = 1; };
template <int CP, int MV, int AS> struct X<CP, MV, AS, IM_FINAL> final : Sp<CP, MV, AS> { using Sp<CP, MV, AS>::Sp; };
template <int CP, int MV, int AS> struct X<CP, MV, AS, IM_ABSTRACT> : Sp<CP, MV, AS> { using Sp<CP, MV, AS>::Sp; virtual void pure() = 0; };
template <int CP, int MV, int AS> struct X<CP, MV, AS, IM_NOT> { Sp<CP, MV, AS> s; explicit X(int k) : s(k) {} };
#else
enum { IM_CONST, IM_MUT, IM_CONV, IM_LREF, IM_ARG, IM_RETURN, IM_RREF, IM_NONE, IM_N };
#if MODEL == MODEL_FUNC
constexpr int im_ok(int i) { return i <= IM_LREF; }
#else
constexpr int im_ok(int) { return 1; }   // any_collection cannot check conformance to the concept
#endif
struct Odd {};
template <int CP, int MV, int AS, int IM> struct X : Sp<CP, MV, AS> { using Sp<CP, MV, AS>::Sp; int operator()(int x) const { return this->k + x; } };
template <int CP, int MV, int AS> struct X<CP, MV, AS, IM_MUT> : Sp<CP, MV, AS> { using Sp<CP, MV, AS>::Sp; int operator()(int x) { return this->k + x; } };
template <int CP, int MV, int AS> struct X<CP, MV, AS, IM_CONV> final : Sp<CP, MV, AS> { using Sp<CP, MV, AS>::Sp; long operator()(double x) const { return this->k + (long)x; } };
template <int CP, int MV, int AS> struct X<CP, MV, AS, IM_LREF> : Sp<CP, MV, AS> { using Sp<CP, MV, AS>::Sp; int operator()(int x)& { return this->k + x; } };
template <int CP, int MV, int AS> struct X<CP, MV, AS, IM_ARG> : Sp<CP, MV, AS> { using Sp<CP, MV, AS>::Sp; int operator()(Odd) const { return 0; } };
template <int CP, int MV, int AS> struct X<CP, MV, AS, IM_RETURN> : Sp<CP, MV, AS> { using Sp<CP, MV, AS>::Sp; Odd operator()(int) const { return {}; } };
template <int CP, int MV, int AS> struct X<CP, MV, AS, IM_RREF> : Sp<CP, MV, AS> { using Sp<CP, MV, AS>::Sp; int operator()(int)&& { return 0; } };
template <int CP, int MV, int AS> struct X<CP, MV, AS, IM_NONE> : Sp<CP, MV, AS> { using Sp<CP, MV, AS>::Sp; };
#endif
// ---- which expressions are admitted
template <class...> using vt = void;
#define DETECT(name, ...) template <class T, class = void> struct name : std::false_type {}; template <class T> struct name<T, vt<decltype(__VA_ARGS__)>> : std::true_type {};
static C& cc(); static const C& ccc(); static C::const_iterator cit();
DETECT(d_register, cc().template register_types<T>())
DETECT(d_register2, cc().template register_types<X<0, 0, 0, 0>, T>())
DETECT(d_isreg, ccc().template is_registered<T>())
DETECT(d_begin, cc().template begin<T>())
DETECT(d_cbegin, ccc().template begin<T>())
DETECT(d_cend, ccc().template cend<T>())
DETECT(d_segment, ccc().template segment<T>())
DETECT(d_size, ccc().template size<T>())
DETECT(d_empty, ccc().template empty<T>())
DETECT(d_max, ccc().template max_size<T>())
DETECT(d_cap, ccc().template capacity<T>())
DETECT(d_reserve, cc().template reserve<T>(1))
DETECT(d_shrink, cc().template shrink_to_fit<T>())
DETECT(d_clear, cc().template clear<T>())
DETECT(d_emplace, cc().template emplace<T>(1))
DETECT(d_emplace_hint, cc().template emplace_hint<T>(cit(), 1))
DETECT(d_emplace_pos, cc().template emplace_pos<T>(cc().begin(typeid(int)), 1))
DETECT(d_emplace_cpos, cc().template emplace_pos<T>(cc().cbegin(typeid(int)), 1))
DETECT(d_insert, cc().insert(std::declval<T>()))
DETECT(d_insert_c, cc().insert(std::declval<const T&>()))
DETECT(d_insert_l, cc().insert(std::declval<T&>()))
DETECT(d_insert_hint, cc().insert(cit(), std::declval<T>()))
DETECT(d_insert_local, cc().insert(cc().begin(typeid(int)), std::declval<T>()))
DETECT(d_insert_range, cc().insert(std::declval<T*>(), std::declval<T*>()))
DETECT(d_insert_hrange, cc().insert(cit(), std::declval<const T*>(), std::declval<const T*>()))
DETECT(d_insert_lrange, cc().insert(cc().cbegin(typeid(int)), std::declval<T*>(), std::declval<T*>()))
struct Row { int cp, mv, as, im; bool acc, impl, typed[18], ins[8], mc, nmc, ma; };
static const char* const typed_n[] = {"register_types<T>", "register_types<U,T>", "is_registered<T>", "begin<T>", "begin<T> const", "cend<T>", "segment<T>", "size<T>", "empty<T>", "max_size<T>", "capacity<T>", "reserve<T>", "shrink_to_fit<T>", "clear<T>", "emplace<T>", "emplace_hint<T>", "emplace_pos<T>", "emplace_pos<T> const"};
static const char* const ins_n[] = {"insert(T&&)", "insert(const T&)", "insert(T&)", "insert(hint,T&&)", "insert(pos,T&&)", "insert(first,last)", "insert(hint,first,last)", "insert(pos,first,last)"};
template <class T> Row row(int cp, int mv, int as, int im) {
  bool mc = std::is_move_constructible<T>::value, nmc = std::is_nothrow_move_constructible<T>::value, ma = std::is_move_assignable<T>::value, im_ = im_ok(im);
  return {cp, mv, as, im, im_ && mc && (ma || nmc), im_,
    {d_register<T>::value, d_register2<T>::value, d_isreg<T>::value, d_begin<T>::value, d_cbegin<T>::value, d_cend<T>::value, d_segment<T>::value, d_size<T>::value, d_empty<T>::value, d_max<T>::value, d_cap<T>::value, d_reserve<T>::value, d_shrink<T>::value, d_clear<T>::value, d_emplace<T>::value, d_emplace_hint<T>::value, d_emplace_pos<T>::value, d_emplace_cpos<T>::value},
    {d_insert<T>::value, d_insert_c<T>::value, d_insert_l<T>::value, d_insert_hint<T>::value, d_insert_local<T>::value, d_insert_range<T>::value, d_insert_hrange<T>::value, d_insert_lrange<T>::value}, mc, nmc, ma};
}
template <int... N> void fill(std::integer_sequence<int, N...>, std::vector<Row>& v) { v = {row<X<N / (MV_N * AS_N * IM_N), N / (AS_N * IM_N) % MV_N, N / IM_N % AS_N, N % IM_N>>(N / (MV_N * AS_N * IM_N), N / (AS_N * IM_N) % MV_N, N / IM_N % AS_N, N % IM_N)...}; }
static std::vector<Row>& rows() {
  static std::vector<Row> v;
  if (v.empty()) {

    fill(std::make_integer_sequence<int, CP_N * MV_N * AS_N * IM_N>{}, v);
  }
  return v;
}
static void admit() {
  auto& rs = rows(); const Row& r = rs[src().draw((u32)rs.size())]; trace("type copy ", r.cp, " move ", r.mv, " assign ", r.as, " implements ", r.im);
  for (int i = 0; i < 18; ++i) VP_CHECK(r.typed[i] == r.acc, typed_n[i], r.typed[i] ? " is admitted for a type that is not acceptable" : " is not admitted for an acceptable type", ": implements=", r.impl, " move constructible=", r.mc, " nothrow=", r.nmc, " move assignable=", r.ma);
  for (int i = 0; i < 8; ++i) { if (!r.impl) VP_CHECK(!r.ins[i], ins_n[i], " is admitted for a type that does not implement the interface"); else if (r.acc) VP_CHECK(r.ins[i], ins_n[i], " is not admitted for an acceptable type: move constructible=", r.mc, " nothrow=", r.nmc, " move assignable=", r.ma); unit(); }
  label(r.acc ? "acceptable" : r.impl ? "not_movable" : "not_implementing"); if (!(r.acc && r.cp != CP_NONE && r.as != AS_DELETED)) nontrivial();
}
// ---- histories on acceptable types
#if MODEL == MODEL_BASE
using L = tlist<X<0, 0, 2, IM_DIRECT>, X<1, 0, 2, IM_FINAL>, X<0, 1, 0, IM_DERIVED>, X<2, 3, 2, IM_FINAL>, X<0, 3, 3, IM_DIRECT>, X<1, 0, 1, IM_DIRECT>, X<2, 0, 3, IM_FINAL>, X<1, 1, 1, IM_DIRECT>, X<2, 2, 3, IM_DERIVED>, X<0, 1, 3, IM_FINAL>>;
#else
using L = tlist<X<0, 0, 2, IM_CONST>, X<1, 0, 2, IM_CONV>, X<0, 1, 0, IM_CONST>, X<2, 3, 2, IM_CONST>, X<0, 3, 3, IM_CONV>, X<1, 0, 1, IM_CONST>, X<2, 0, 3, IM_CONV>, X<1, 1, 1, IM_CONST>, X<2, 2, 3, IM_CONST>, X<0, 1, 3, IM_CONV>>;
#endif
template <class T> struct index_of; template <int CP, int MV, int AS, int IM> struct index_of<X<CP, MV, AS, IM>> { static constexpr int cp = CP, mv = MV, as = AS; };
// move-only with throwing moves: growth is the known finding of C13, so it stays within a capacity obtained up front
template <class T> constexpr bool pinned = !std::is_copy_constructible<T>::value && !std::is_nothrow_move_constructible<T>::value;
struct Md { std::vector<int> s[L::size]; };
template <class F> void with_idx(int i, F&& f) { int n = 0; for_types(L{}, [&](auto t) { if (n == i) f(t); ++n; }); }
static void same(const C& c, const Md& m, const char* op) {
  int n = 0; std::size_t tot = 0;
  for_types(L{}, [&](auto t) { using T = typename decltype(t)::type; auto& v = m.s[n]; tot += v.size(); std::size_t z = c.template is_registered<T>() ? c.template size<T>() : 0;
    VP_CHECK(z == v.size(), op, ": segment ", n, " holds ", z, " elements, expected ", v.size());
    if (z) { std::size_t i = 0; auto b = c.begin(typeid(T)); for (auto& x : c.template segment<T>()) { VP_CHECK(x.k == v[i], op, ": element ", i, " of segment ", n, " is ", x.k, ", expected ", v[i]); VP_CHECK(key_of(*b) == v[i], op, ": through the interface element ", i, " of segment ", n, " is ", key_of(*b), ", expected ", v[i]); ++i; ++b; } } ++n; });
  VP_CHECK(c.size() == tot, op, ": size ", c.size(), ", expected ", tot);
}
static void history() {
  C c; Md m; int key = 1; u32 steps = 2 + src().size(40); bool nt = false;
  std::vector<int> use; for (int i = 0; i < 3; ++i) use.push_back((int)src().draw(L::size));
  for_types(L{}, [&](auto t) { using T = typename decltype(t)::type; if constexpr (pinned<T>) c.template reserve<T>(64); });
  for (u32 st = 0; st < steps; ++st) {
    int ix = use[src().draw(3)]; u32 op = src().draw(16); const char* nm = "?";
    with_idx(ix, [&](auto t) {
      using T = typename decltype(t)::type; auto& v = m.s[ix]; c.template register_types<T>();
      std::size_t q = src().draw((u32)v.size() + 1); auto ql = (std::ptrdiff_t)q; bool grow = v.size() < 60;
      switch (op) {
        case 0: case 1: nm = "emplace"; if (grow) { trace("emplace ", ix); c.template emplace<T>(key); v.push_back(key++); } break;
        case 2: case 3: nm = "emplace_pos"; if (grow) { trace("emplace_pos ", ix, "@", q); if (src().draw(2)) c.template emplace_pos<T>(c.begin(typeid(T)) + ql, key); else c.emplace_pos(c.template begin<T>() + ql, key); v.insert(v.begin() + ql, key++); } break;
        case 4: case 5: nm = "insert of an rvalue"; if (grow) { trace("insert rvalue ", ix, "@", q); T x(key); if (src().draw(2)) { c.insert(c.template begin<T>() + ql, std::move(x)); v.insert(v.begin() + ql, key); } else { c.insert(std::move(x)); v.push_back(key); } ++key; } break;
        case 6: case 7: { nm = "insert of an lvalue"; if (!grow) break; trace("insert lvalue ", ix, "@", q); T x(key); bool thrown = false; try { c.insert(c.template begin<T>() + ql, static_cast<const T&>(x)); } catch (const boost::poly_collection::not_copy_constructible& e) { thrown = true; VP_CHECK(e.pinfo && *e.pinfo == typeid(T), "not_copy_constructible carries another type"); }
          VP_CHECK(thrown == !std::is_copy_constructible<T>::value, thrown ? "insertion of a copy constructible lvalue threw not_copy_constructible" : "insertion of an lvalue that cannot be copied did not throw"); if (!thrown) v.insert(v.begin() + ql, key); ++key; break; }
        case 8: case 9: { nm = "erase"; if (v.empty()) break; q %= v.size(); trace("erase ", ix, "@", q); c.erase(c.template begin<T>() + (std::ptrdiff_t)q); v.erase(v.begin() + (std::ptrdiff_t)q); break; }
        case 10: { nm = "erase range"; std::size_t e = q + src().draw((u32)(v.size() - q) + 1); trace("erase ", ix, "[", q, ",", e, ")"); c.erase(c.begin(typeid(T)) + ql, c.begin(typeid(T)) + (std::ptrdiff_t)e); v.erase(v.begin() + ql, v.begin() + (std::ptrdiff_t)e); break; }
        case 11: nm = "reserve"; if (!pinned<T>) { u32 n = src().draw(40); trace("reserve ", ix, " ", n); if (src().draw(2)) c.template reserve<T>(n); else c.reserve(typeid(T), n); } break;
        case 12: nm = "shrink_to_fit"; if (!pinned<T>) { trace("shrink ", ix); c.template shrink_to_fit<T>(); } break;
        case 13: { nm = "clear"; if (src().draw(3)) break; trace("clear ", ix); c.template clear<T>(); v.clear(); break; }
        case 14: { nm = "copy"; trace("copy"); bool un = false; int n = 0; for_types(L{}, [&](auto u) { if (!std::is_copy_constructible<typename decltype(u)::type>::value && !m.s[n].empty()) un = true; ++n; }); bool thrown = false; try { C d(c); same(d, m, "copy"); } catch (const boost::poly_collection::not_copy_constructible&) { thrown = true; }
          VP_CHECK(thrown == un, un ? "copying a collection with elements that cannot be copied did not throw" : "copying threw not_copy_constructible though every element can be copied"); break; }
        default: { nm = "move"; trace("move"); C d(std::move(c)); same(d, m, "move construction"); if (src().draw(2)) c = std::move(d); else c.swap(d); for_types(L{}, [&](auto u) { using U = typename decltype(u)::type; if constexpr (pinned<U>) if (!c.template is_registered<U>() || c.template capacity<U>() < 64) c.template reserve<U>(64); }); }
      }
      if (v.size() >= 2 && (index_of<T>::cp == CP_NONE || index_of<T>::mv == MV_UNDECLARED || index_of<T>::as == AS_DELETED)) nt = true;
    });
    same(c, m, nm); label(nm); unit();
  }
  if (nt) nontrivial();
}
void run_case() { if (src().chance(1, 3)) admit(); else history(); }
}
