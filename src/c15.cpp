// C15: iterator laws and conversions
#include "views.hpp"
namespace vp {
const char* const nontrivial_rule =
  "a case builds a collection by a generated history and checks, for generated segments and positions (including the end), the random access laws of the four kinds of local iterators against integer "
  "arithmetic, all conversions between them, and the multipass laws of the global and segment traversal iterators; non-trivial when a checked segment has at least three elements";
using L = tlist<T0, T1, T2, T3, T4, T6, T7, Tn<1>, Tn<5>, Tn<13>>;
using Mach = M<std::allocator<Value>, L>;
using C = Mach::C;

template <class X> static const void* where(const X& x) {
  if constexpr (std::is_same<X, Value>::value) return addr_of(x); else return static_cast<const void*>(&x);
}
// it(i): iterator at position i; addr[i]: object there
template <class It, class It2> void compare(It x, It2 y, std::ptrdiff_t i, std::ptrdiff_t j, const char* k) {
  VP_CHECK((x == y) == (i == j), k, ": == wrong at ", i, ",", j);
  VP_CHECK((x != y) == (i != j), k, ": != wrong at ", i, ",", j);
  VP_CHECK((x < y) == (i < j), k, ": < wrong at ", i, ",", j);
  VP_CHECK((x > y) == (i > j), k, ": > wrong at ", i, ",", j);
  VP_CHECK((x <= y) == (i <= j), k, ": <= wrong at ", i, ",", j);
  VP_CHECK((x >= y) == (i >= j), k, ": >= wrong at ", i, ",", j);
  VP_CHECK(x - y == i - j, k, ": difference is ", x - y, " at ", i, ",", j);
}
template <class It> void laws(It b, It e, const Addrs& a, const char* k) {
  std::ptrdiff_t n = (std::ptrdiff_t)a.size();
  using cat_t = typename std::iterator_traits<It>::iterator_category;
  static_assert(std::is_convertible<cat_t, std::random_access_iterator_tag>::value, "random access");
  static_assert(std::is_same<typename std::iterator_traits<It>::difference_type, std::ptrdiff_t>::value, "difference type");
  VP_CHECK(e - b == n && std::distance(b, e) == n, k, ": end-begin is ", e - b, " expected ", n);
  auto at = [&](std::ptrdiff_t i) { return b + i; };
  auto is = [&](It x, std::ptrdiff_t i, const char* what) {
    VP_CHECK(x == at(i) && x - b == i && e - x == n - i && b + i == x && e - (n - i) == x, k, ": ", what, " does not lead to position ", i, " of ", n);
    if (i < n) { VP_CHECK(where(*x) == a[(std::size_t)i], k, ": ", what, " designates another object than element ", i); VP_CHECK(x.operator->() == std::addressof(*x), k, ": -> and * differ"); }
  };
  for (int rep = 0; rep < 4; ++rep) {
    std::ptrdiff_t i = (std::ptrdiff_t)src().draw((u32)n + 1), j = (std::ptrdiff_t)src().draw((u32)n + 1), d = j - i;
    It x = at(i);
    is(x, i, "begin+i");
    compare(x, at(j), i, j, k);
    is(x + d, j, "x+d"); is(d + x, j, "d+x"); is(x - (-d), j, "x-d");
    { It y = x; It& r = (y += d); VP_CHECK(&r == &y, k, ": += returns another object"); is(y, j, "x+=d"); y -= d; is(y, i, "x-=d"); It& r2 = (y -= -d); VP_CHECK(&r2 == &y, k, ": -= returns another object"); is(y, j, "x-=-d"); }
    { It y = x; std::advance(y, d); is(y, j, "advance"); is(std::next(x, d), j, "next"); is(std::prev(x, -d), j, "prev"); }
    // differences of other integral types
    { int di = (int)d; is(x + di, j, "x+int"); short ds = (short)d; is(x + ds, j, "x+short"); }
    if (j < n) { VP_CHECK(where(x[d]) == a[(std::size_t)j], k, ": x[", d, "] at ", i, " is another object than element ", j); VP_CHECK(std::addressof(x[d]) == std::addressof(*(x + d)), k, ": x[d] and *(x+d)"); int di = (int)d; VP_CHECK(where(x[di]) == a[(std::size_t)j], k, ": x[int]"); }
    if (i < n) {
      It y = x; It& r = ++y; VP_CHECK(&r == &y, k, ": ++ returns another object"); is(y, i + 1, "++x");
      It z = x; It o = z++; is(o, i, "x++ (value)"); is(z, i + 1, "x++");
      VP_CHECK(y == z, k, ": ++x and x++ differ");
      It q = y; It& r2 = --q; VP_CHECK(&r2 == &q, k, ": -- returns another object"); is(q, i, "--++x");
      It w = y; It o2 = w--; is(o2, i + 1, "x-- (value)"); is(w, i, "x--");
      { It p = x; const void* o3 = where(*p++); VP_CHECK(o3 == a[(std::size_t)i], k, ": *x++ is another object"); is(p, i + 1, "*x++"); }
    }
    // stepping all the way
    { It y = x; for (std::ptrdiff_t s = i; s < n; ++s) { is(y, s, "walk"); ++y; } is(y, n, "walk to end"); VP_CHECK(y == e, k, ": walk does not reach end"); }
    { It y = x; for (std::ptrdiff_t s = i; s > 0; --s) { --y; is(y, s - 1, "walk back"); } VP_CHECK(y == b, k, ": walk back does not reach begin"); }
    { std::reverse_iterator<It> f(e), l(x); std::ptrdiff_t s = n; VP_CHECK(l - f == n - i, k, ": reverse distance"); for (; f != l; ++f) { --s; VP_CHECK(s >= i && where(*f) == a[(std::size_t)s], k, ": reverse traversal"); } VP_CHECK(s == i, k, ": reverse traversal length"); }
    It c1(x), c2; c2 = x; is(c1, i, "copy"); is(c2, i, "assignment"); using std::swap; It m = at(j); swap(c1, m); is(c1, j, "swap"); is(m, i, "swap");
    unit();
  }
}
// conversion of x (at position i) to It, compared with the native iterator of that kind
template <class To, class From> void conv(From x, To b, To e, std::ptrdiff_t i, const Addrs& a, const char* k) {
  To y(x);
  VP_CHECK(y == b + i && y - b == i && e - y == (std::ptrdiff_t)a.size() - i, k, ": conversion moves position ", i, " to ", y - b);
  if (i < (std::ptrdiff_t)a.size()) VP_CHECK(where(*y) == a[(std::size_t)i], k, ": converted iterator designates another object");
  From z(x); To w = static_cast<To>(z); VP_CHECK(w == y, k, ": static_cast conversion differs");
  To v = b; v = static_cast<To>(x); VP_CHECK(v == y, k, ": assignment of converted iterator");
  // the converted iterator keeps working over the whole segment
  std::ptrdiff_t n = (std::ptrdiff_t)a.size();
  std::ptrdiff_t j = (std::ptrdiff_t)src().draw((u32)n + 1);
  To t = y + (j - i); VP_CHECK(t == b + j && t - y == j - i, k, ": arithmetic after conversion");
  if (j < n) VP_CHECK(where(*t) == a[(std::size_t)j], k, ": arithmetic after conversion designates another object");
}
template <class T> void segment_laws(Mach& m) {
  C& c = m.c; const C& cc = c;
  const auto& ks = m.r.seg[T::id];
  Addrs a;
  for (auto it = c.template begin<T>(); it != c.template end<T>(); ++it) { VP_CHECK(a.size() < ks.size(), "segment overrun"); a.push_back(&*it); }
  VP_CHECK(a.size() == ks.size(), "segment length");
  using LB = typename C::local_base_iterator; using CLB = typename C::const_local_base_iterator;
  using LT = typename C::template local_iterator<T>; using CLT = typename C::template const_local_iterator<T>;
  const std::type_info& ti = typeid(T);
  LB lb0 = c.begin(ti), lb1 = c.end(ti); CLB clb0 = cc.begin(ti), clb1 = cc.cend(ti);
  LT lt0 = c.template begin<T>(), lt1 = c.template end<T>(); CLT clt0 = cc.template begin<T>(), clt1 = cc.template cend<T>();
  trace("laws ", tname(T::id), " n=", a.size());
  if (a.size() >= 3) nontrivial();
  label(a.empty() ? "empty_segment" : a.size() < 3 ? "small_segment" : "segment");
  laws(lb0, lb1, a, "local_base_iterator"); laws(clb0, clb1, a, "const_local_base_iterator");
  laws(lt0, lt1, a, "local_iterator"); laws(clt0, clt1, a, "const_local_iterator");
  static_assert(std::is_same<typename std::iterator_traits<LT>::reference, T&>::value && std::is_same<typename std::iterator_traits<CLT>::reference, const T&>::value, "reference");
  static_assert(std::is_same<typename std::iterator_traits<LB>::reference, Value&>::value && std::is_same<typename std::iterator_traits<CLB>::reference, const Value&>::value, "reference");
  static_assert(std::is_convertible<LB, CLB>::value && std::is_convertible<LT, CLT>::value && !std::is_convertible<CLB, LB>::value && !std::is_convertible<CLT, LT>::value, "const conversions");
  for (int rep = 0; rep < 3; ++rep) {
    std::ptrdiff_t n = (std::ptrdiff_t)a.size();
    std::ptrdiff_t i = rep == 0 ? n : (std::ptrdiff_t)src().draw((u32)n + 1), j = (std::ptrdiff_t)src().draw((u32)n + 1);
    LB lb = lb0 + i; CLB clb = clb0 + i; LT lt = lt0 + i; CLT clt = clt0 + i;
    conv<CLB>(lb, clb0, clb1, i, a, "local_base -> const_local_base");
    conv<CLT>(lt, clt0, clt1, i, a, "local<T> -> const_local<T>");
    conv<LT>(lb, lt0, lt1, i, a, "local_base -> local<T>");
    conv<CLT>(clb, clt0, clt1, i, a, "const_local_base -> const_local<T>");
    conv<CLT>(lb, clt0, clt1, i, a, "local_base -> const_local<T>");
    conv<LB>(lt, lb0, lb1, i, a, "local<T> -> local_base");
    conv<CLB>(clt, clb0, clb1, i, a, "const_local<T> -> const_local_base");
    conv<CLB>(lt, clb0, clb1, i, a, "local<T> -> const_local_base");
    // round trips
    conv<LB>(static_cast<LT>(lb), lb0, lb1, i, a, "local_base -> local<T> -> local_base");
    conv<LT>(LB(lt), lt0, lt1, i, a, "local<T> -> local_base -> local<T>");
    conv<CLT>(CLB(LB(lt)), clt0, clt1, i, a, "local<T> -> local_base -> const_local_base -> const_local<T>");
    // mixed comparisons
    compare(lb, clb0 + j, i, j, "local_base vs const_local_base"); compare(clb0 + j, lb, j, i, "const_local_base vs local_base");
    compare(lt, clt0 + j, i, j, "local<T> vs const_local<T>"); compare(clt0 + j, lt, j, i, "const_local<T> vs local<T>");
    // const assignment
    CLB x = clb0; x = lb; VP_CHECK(x == clb, "assignment of local_base to const_local_base"); CLT y = clt0; y = lt; VP_CHECK(y == clt, "assignment of local<T> to const_local<T>");
    unit();
  }
  auto sg = c.segment(ti); auto csg = cc.segment(ti);
  compare(sg.begin(), lb0, 0, 0, "segment begin"); compare(csg.end(), clb1, 0, 0, "segment end");
  compare(sg.template begin<T>(), lt0, 0, 0, "segment begin<T>"); compare(csg.template cend<T>(), clt1, 0, 0, "segment end<T>");
}
// converted iterators as positions of modifiers
template <class T> void use(Mach& m) {
  auto& ks = m.r.seg[T::id];
  std::size_t i = src().draw((u32)ks.size() + 1);
  using LB = typename C::local_base_iterator; using CLB = typename C::const_local_base_iterator;
  using LT = typename C::template local_iterator<T>; using CLT = typename C::template const_local_iterator<T>;
  LB lb = m.c.begin(typeid(T)) + (std::ptrdiff_t)i; LT lt = m.c.template begin<T>() + (std::ptrdiff_t)i;
  int k = m.new_key();
  int how = (int)src().draw(4);
  trace("use converted ", how, " ", tname(T::id), "@", i);
  LB rb; LT rt;
  if (src().chance(1, 2) || i == ks.size()) {
    switch (how) {
      case 0: rt = m.c.emplace_pos(LT(lb), k); break;
      case 1: rt = m.c.emplace_pos(CLT(CLB(lb)), k); break;
      case 2: rb = m.c.template emplace_pos<T>(LB(lt), k); break;
      default: rb = m.c.template emplace_pos<T>(CLB(lt), k);
    }
    ks.insert(ks.begin() + (std::ptrdiff_t)i, k);
  } else {
    switch (how) {
      case 0: rt = m.c.erase(LT(lb)); break;
      case 1: rt = m.c.erase(CLT(CLB(lb))); break;
      case 2: rb = m.c.erase(LB(lt)); break;
      default: rb = m.c.erase(CLB(CLT(lt)));
    }
    ks.erase(ks.begin() + (std::ptrdiff_t)i);
  }
  if (how < 2) m.template check_local_it<T>("modifier with converted iterator", rt, i); else m.template check_local_it<T>("modifier with converted iterator", rb, i);
  m.template check<T>("modifier with converted iterator");
}
static void global_laws(Mach& m) {
  C& c = m.c; const C& cc = c;
  using I = C::iterator; using CI = C::const_iterator;
  static_assert(std::is_convertible<std::iterator_traits<I>::iterator_category, std::forward_iterator_tag>::value, "forward");
  static_assert(std::is_convertible<I, CI>::value && !std::is_constructible<I, CI>::value, "const conversion");
  auto g = m.global(); std::size_t n = g.size() - 1;
  std::vector<I> its; std::vector<const void*> ad;
  for (I i = c.begin(); i != c.end(); ++i) { VP_CHECK(its.size() < n, "global traversal overruns"); its.push_back(i); ad.push_back(addr_of(*i)); }
  its.push_back(c.end());
  VP_CHECK(its.size() == n + 1, "global traversal ends early");
  trace("global laws n=", n);
  for (int rep = 0; rep < 4; ++rep) {
    std::size_t i = src().draw((u32)n + 1), j = src().draw((u32)n + 1);
    I x = its[i], y = its[j]; CI cx = x, cy = y;
    VP_CHECK((x == y) == (i == j) && (x != y) == (i != j), "iterator equality at ", i, ",", j);
    VP_CHECK((cx == cy) == (i == j) && (cx != cy) == (i != j), "const_iterator equality at ", i, ",", j);
    VP_CHECK((x == cy) == (i == j) && (cx == y) == (i == j) && (x != cy) == (i != j) && (cx != y) == (i != j), "mixed equality at ", i, ",", j);
    if (i == n) { VP_CHECK(x == c.end() && cx == cc.end() && cx == cc.cend() && x == cc.end(), "end"); continue; }
    VP_CHECK(addr_of(*x) == ad[i] && addr_of(*cx) == ad[i] && std::addressof(*x) == x.operator->() && std::addressof(*cx) == cx.operator->(), "dereference at ", i);
    I a = x, b = x; I& r = ++a; VP_CHECK(&r == &a && a == its[i + 1], "++x at ", i);
    I o = b++; VP_CHECK(o == x && b == a && addr_of(*o) == ad[i], "x++ at ", i);
    { I p = x; const void* q = addr_of(*p++); VP_CHECK(q == ad[i] && p == a, "*x++ at ", i); }
    CI ca = cx; ++ca; VP_CHECK(ca == its[i + 1], "++ of const_iterator at ", i); CI cb = cx; CI co = cb++; VP_CHECK(co == x && cb == ca, "x++ of const_iterator");
    // multipass: x still designates its element, equal iterators stay equal when advanced
    VP_CHECK(addr_of(*x) == ad[i] && x == its[i], "incrementing a copy disturbs the original");
    if (j > i) { I s = x; for (std::size_t k = i; k < j; ++k) ++s; VP_CHECK(s == y, "advancing from ", i, " to ", j); VP_CHECK((std::size_t)std::distance(x, y) == j - i && (std::size_t)std::distance(cx, cy) == j - i, "distance"); }
    I s2 = c.begin(); std::advance(s2, (std::ptrdiff_t)i); VP_CHECK(s2 == x, "advance from begin"); s2 = y; VP_CHECK(s2 == y, "assignment"); using std::swap; swap(s2, a); VP_CHECK(s2 == its[i + 1] && a == y, "swap");
    CI ass; ass = x; VP_CHECK(ass == x, "assignment of iterator to const_iterator");
    unit();
  }
  // segment traversal iterators
  auto st = c.segment_traversal(); auto cst = cc.segment_traversal();
  auto si = st.begin(); auto csi = cst.begin();
  std::size_t k = 0;
  for (; si != st.end(); ++si, ++csi, ++k) {
    VP_CHECK(k < m.r.seg.size(), "segment traversal overruns");
    auto s2 = si; ++s2; auto s3 = si; s3++; VP_CHECK(s3 == s2 && s2 != si, "segment iterator x++");
    VP_CHECK((*si).type_info() == (*csi).type_info() && si->type_info() == (*si).type_info(), "segment iterator dereference");
    typename C::const_base_segment_info_iterator conv = si; VP_CHECK(conv == csi && (*conv).type_info() == (*si).type_info(), "segment iterator const conversion");
    VP_CHECK((*si).begin() == c.begin((*si).type_info()) && (*csi).cend() == cc.cend((*si).type_info()), "segment iterator range");
  }
  VP_CHECK(k == m.r.seg.size() && csi == cst.end(), "segment traversal ends early");
}
// segments with more elements, or with elements further apart, than narrow integers can count
template <int N> struct FarEl final : Iface {
  int k; char room[N];   // not initialized, so that its pages are not touched
  explicit FarEl(int k) : k(k) {}
  FarEl(const FarEl& x) noexcept : Iface(), k(x.k) {}
  FarEl& operator=(const FarEl& x) noexcept { k = x.k; return *this; }
  VP_KEY(k)
  VP_TID(60)
};
template <class T> void far(u32 n, u32 extra) {
  C c; const C& cc = c;
  trace("far: ", n, " elements of ", sizeof(T), " bytes"); label(sizeof(T) > 65536 ? "far_stride" : "far_count");
  c.template reserve<T>(n + 1);
  for (u32 i = 0; i < n; ++i) c.template emplace<T>((int)i);
  c.template emplace_pos<T>(c.template begin<T>() + (std::ptrdiff_t)(n - 1 - extra % 5), (int)n);   // key n is out of order
  std::vector<int> ks; for (u32 i = 0; i < n; ++i) ks.push_back((int)i);
  ks.insert(ks.begin() + (n - 1 - extra % 5), (int)n);
  std::ptrdiff_t m = (std::ptrdiff_t)n + 1;
  using LB = typename C::local_base_iterator; using CLB = typename C::const_local_base_iterator;
  using LT = typename C::template local_iterator<T>; using CLT = typename C::template const_local_iterator<T>;
  const std::type_info& ti = typeid(T);
  LT t0 = c.template begin<T>(); CLT ct0 = cc.template begin<T>(); LB b0 = c.begin(ti); CLB cb0 = cc.begin(ti);
  const T* a0 = &*t0;
  auto is = [&](auto it, auto b, std::ptrdiff_t i, const char* k) {
    VP_CHECK(it - b == i && b - it == -i && it == b + i && b + i == it && it - i == b, k, ": arithmetic wrong at position ", i, " of ", m);
    if (i < m) VP_CHECK(where(*it) == static_cast<const void*>(a0 + i), k, ": designates another object than element ", i);
  };
  VP_CHECK((std::ptrdiff_t)c.size() == m && (std::ptrdiff_t)c.size(ti) == m && (std::ptrdiff_t)c.template size<T>() == m, "size ", c.size(), " expected ", m);
  VP_CHECK(c.end(ti) - b0 == m && cc.end(ti) - cb0 == m && c.template end<T>() - t0 == m && cc.template end<T>() - ct0 == m, "end-begin, expected ", m);
  for (int rep = 0; rep < 6; ++rep) {
    auto pos = [&] { u32 e = src().draw(40); return src().chance(1, 3) ? (std::ptrdiff_t)src().draw((u32)m + 1) : src().chance(1, 2) ? m - (std::ptrdiff_t)e : (std::ptrdiff_t)e; };
    std::ptrdiff_t i = pos(), j = pos(), d = j - i;
    auto one = [&](auto b, const char* k) {
      auto x = b + i; is(x, b, i, k); is(x + d, b, j, k); is(d + x, b, j, k); is(x - (-d), b, j, k);
      compare(x, b + j, i, j, k);
      { auto y = x; y += d; is(y, b, j, k); y -= d; is(y, b, i, k); std::advance(y, d); is(y, b, j, k); }
      if (j < m) VP_CHECK(where(x[d]) == static_cast<const void*>(a0 + j), k, ": x[d] is another object than element ", j);
    };
    one(b0, "local_base_iterator"); one(cb0, "const_local_base_iterator"); one(t0, "local_iterator"); one(ct0, "const_local_iterator");
    is(LB(t0 + i), b0, i, "local<T> -> local_base"); is(LT(b0 + i), t0, i, "local_base -> local<T>"); is(CLT(cb0 + i), ct0, i, "const_local_base -> const_local<T>"); is(CLB(b0 + i), cb0, i, "local_base -> const_local_base");
    if (i < m) VP_CHECK((t0 + i)->key() == ks[(std::size_t)i] && (cc.begin() == cc.end()) == false, "element ", i, " is ", (t0 + i)->key(), " expected ", ks[(std::size_t)i]);
    unit();
  }
  std::ptrdiff_t q = 0; for (auto& x : cc) { VP_CHECK(q < m && where(x) == static_cast<const void*>(a0 + q), "global traversal leaves the order at ", q); ++q; }
  VP_CHECK(q == m, "global traversal stops at ", q, " of ", m);
  std::ptrdiff_t e = m - 1 - (std::ptrdiff_t)(extra % 7);
  LB r = c.erase(b0 + e); VP_CHECK(r - c.begin(ti) == e && (std::ptrdiff_t)c.size() == m - 1, "erasure at ", e); ks.erase(ks.begin() + e);
  e = (std::ptrdiff_t)(extra % 3); std::ptrdiff_t e2 = m - 3;
  r = c.erase(c.begin(ti) + e, c.begin(ti) + e2); VP_CHECK(r - c.begin(ti) == e, "range erasure"); ks.erase(ks.begin() + e, ks.begin() + e2);
  VP_CHECK(c.size() == ks.size(), "size after range erasure");
  for (std::size_t i = 0; i < ks.size(); ++i) VP_CHECK(c.template begin<T>()[(std::ptrdiff_t)i].key() == ks[i], "element after range erasure");
  nontrivial();
}

void run_case() {
  world().reset();
  if (src().chance(1, 400)) {
    u32 extra = src().draw(64);
#if MODEL == MODEL_BASE
    if (src().chance(1, 4)) return far<FarEl<(1 << 20) + 40>>(2060 + extra, extra);   // more than 2^31 bytes (reserved, not touched)
#endif
    if (src().chance(1, 3)) return far<FarEl<4>>(65500 + extra * 2, extra);
    return far<FarEl<1>>(32740 + extra, extra);
  }
  {
    Mach m;
    int avg = src().chance(1, 5) ? 30 : 8;
    do {
      int op = (int)src().draw(9);
      if (op == 0) m.bulk();
      else if (op == 1) m.erase_global_range();
      else if (op == 2) m.cap_op();
      else if (op == 3) global_laws(m);
      else m.pick_type([&](auto t) {
        using T = typename decltype(t)::type;
        if (op == 4) { u32 n = 1 + src().draw(5); for (u32 i = 0; i < n; ++i) { int k = m.new_key(); m.c.template emplace<T>(k); m.r.seg[T::id].push_back(k); } trace("fill ", tname(T::id), " ", n); }
        else if (op == 5) m.template reg<T>();
        else if (!m.r.reg(T::id)) m.template insert_end<T>(W_EMPLACE1);
        else if (op == 6) use<T>(m);
        else segment_laws<T>(m);
      });
    } while (src().more(avg));
    global_laws(m);
    check_views<L>(m.c, m.r);
  }
  check_no_leaks();
}
}
