// Exhaustive comparison of every traversal view of a collection.
#ifndef VP_VIEWS_HPP
#define VP_VIEWS_HPP
#include "machine.hpp"
namespace vp {
using Addrs = std::vector<const void*>;
template <class It> Addrs walk_iface(It f, It l, std::size_t limit, const char* what) {
  Addrs r;
  for (; f != l; ++f) { VP_CHECK(r.size() < limit, what, ": traversal overruns"); r.push_back(addr_of(*f)); }
  return r;
}
template <class T, class It> Addrs walk_typed(It f, It l, std::size_t limit, const char* what) {
  Addrs r;
  for (; f != l; ++f) { VP_CHECK(r.size() < limit, what, ": traversal overruns"); const T& x = *f; VP_CHECK(x.tid() == T::id, what, ": element of another type"); r.push_back(static_cast<const void*>(&x)); }
  return r;
}
inline void same(const Addrs& a, const Addrs& b, const char* what) {
  VP_CHECK(a.size() == b.size(), what, ": visits ", a.size(), " elements, expected ", b.size());
  for (std::size_t i = 0; i < a.size(); ++i) VP_CHECK(a[i] == b[i], what, ": visits another object at position ", i);
}

// L: the types that may be registered in c. Returns the order of segments.
template <class L, class C> std::vector<int> check_views(C& c, const Ref& r) {
  const C& cc = c;
  std::size_t lim = r.size();
  std::vector<int> order;
  Addrs all;
  std::map<int, Addrs> seg;
  for (auto s : cc.segment_traversal()) {
    int t = tid_of_info(s.type_info());
    VP_CHECK(r.reg(t), "segment_traversal shows an unknown type ", tname(t));
    VP_CHECK(!seg.count(t), "segment_traversal shows ", tname(t), " twice");
    order.push_back(t);
    Addrs a = walk_iface(s.begin(), s.end(), lim, "segment_traversal segment");
    same(walk_iface(s.cbegin(), s.cend(), lim, "segment cbegin"), a, "segment cbegin/cend");
    VP_CHECK(a.size() == r.seg.at(t).size(), "segment ", tname(t), " has ", a.size(), " elements, expected ", r.seg.at(t).size());
    std::size_t i = 0;
    for (auto l = s.begin(); l != s.end(); ++l, ++i) VP_CHECK(key_of(*l) == r.seg.at(t)[i], "segment ", tname(t), "[", i, "] has the wrong value");
    seg[t] = a;
    all.insert(all.end(), a.begin(), a.end());
  }
  VP_CHECK(order.size() == r.seg.size(), "segment_traversal shows ", order.size(), " segments, expected ", r.seg.size());
  {
    Addrs u = all; std::sort(u.begin(), u.end());
    VP_CHECK(std::adjacent_find(u.begin(), u.end()) == u.end(), "an element is visited twice");
  }
  // global
  same(walk_iface(c.begin(), c.end(), lim, "begin()"), all, "global traversal");
  same(walk_iface(cc.begin(), cc.end(), lim, "begin() const"), all, "const global traversal");
  same(walk_iface(cc.cbegin(), cc.cend(), lim, "cbegin()"), all, "cbegin traversal");
  typename C::const_iterator mix = c.begin();
  same(walk_iface(mix, cc.end(), lim, "const_iterator from iterator"), all, "converted traversal");
  VP_CHECK(c.size() == all.size() && cc.empty() == all.empty(), "size()/empty() disagree with traversal");
  VP_CHECK((c.begin() == c.end()) == all.empty(), "begin()==end() disagrees with empty()");
  // non-const and c-forms of segment traversal
  {
    std::size_t n = 0;
    auto st = c.segment_traversal();
    for (auto i = st.begin(); i != st.end(); ++i, ++n) {
      VP_CHECK(n < order.size(), "non-const segment_traversal overruns");
      auto s = *i;
      VP_CHECK(tid_of_info(s.type_info()) == order[n], "non-const segment_traversal has another order");
      same(walk_iface(s.begin(), s.end(), lim, "nc segment"), seg[order[n]], "non-const segment traversal");
      same(walk_iface(s.cbegin(), s.cend(), lim, "nc segment c"), seg[order[n]], "non-const segment traversal cbegin");
    }
    VP_CHECK(n == order.size(), "non-const segment_traversal stops early");
    n = 0;
    for (auto i = st.cbegin(); i != st.cend(); ++i, ++n) VP_CHECK(n < order.size() && tid_of_info((*i).type_info()) == order[n], "cbegin segment_traversal differs");
    VP_CHECK(n == order.size(), "cbegin segment_traversal stops early");
  }
  // typed and info based
  for_types(L{}, [&](auto tg) {
    using T = typename decltype(tg)::type;
    bool reg = seg.count(T::id) != 0;
    VP_CHECK(c.template is_registered<T>() == reg && cc.is_registered(typeid(T)) == reg, "is_registered disagrees with segment_traversal for ", tname(T::id));
    if (!reg) return;
    const Addrs& a = seg[T::id];
    const std::type_info& ti = typeid(T);
    same(walk_iface(c.begin(ti), c.end(ti), lim, "begin(info)"), a, "begin(info)");
    same(walk_iface(cc.begin(ti), cc.end(ti), lim, "begin(info) const"), a, "begin(info) const");
    same(walk_iface(cc.cbegin(ti), cc.cend(ti), lim, "cbegin(info)"), a, "cbegin(info)");
    same(walk_typed<T>(c.template begin<T>(), c.template end<T>(), lim, "begin<T>()"), a, "begin<T>()");
    same(walk_typed<T>(cc.template begin<T>(), cc.template end<T>(), lim, "begin<T>() const"), a, "begin<T>() const");
    same(walk_typed<T>(cc.template cbegin<T>(), cc.template cend<T>(), lim, "cbegin<T>()"), a, "cbegin<T>()");
    auto s1 = c.segment(ti); const auto s2 = cc.segment(ti);
    VP_CHECK(s1.type_info() == ti && s2.type_info() == ti, "segment(info).type_info()");
    same(walk_iface(s1.begin(), s1.end(), lim, "segment(info)"), a, "segment(info)");
    same(walk_iface(s2.begin(), s2.end(), lim, "segment(info) const"), a, "segment(info) const");
    same(walk_iface(s1.cbegin(), s1.cend(), lim, "segment(info) c"), a, "segment(info) cbegin");
    same(walk_typed<T>(s1.template begin<T>(), s1.template end<T>(), lim, "segment(info)<T>"), a, "segment(info).begin<T>");
    same(walk_typed<T>(s2.template begin<T>(), s2.template end<T>(), lim, "segment(info)<T> const"), a, "segment(info).begin<T> const");
    same(walk_typed<T>(s2.template cbegin<T>(), s2.template cend<T>(), lim, "segment(info)<T> c"), a, "segment(info).cbegin<T>");
    auto s3 = c.template segment<T>(); const auto s4 = cc.template segment<T>();
    same(walk_typed<T>(s3.begin(), s3.end(), lim, "segment<T>"), a, "segment<T>()");
    same(walk_typed<T>(s4.begin(), s4.end(), lim, "segment<T> const"), a, "segment<T>() const");
    same(walk_typed<T>(s4.cbegin(), s4.cend(), lim, "segment<T> c"), a, "segment<T>().cbegin");
    VP_CHECK(c.template size<T>() == a.size() && cc.size(ti) == a.size(), "size of segment disagrees with traversal");
    VP_CHECK(c.template empty<T>() == a.empty() && cc.empty(ti) == a.empty(), "empty of segment disagrees with traversal");
  });
  check_problem("views");
  return order;
}

// segment and traversal information objects: every member, copies, assignments and views as their const bases
template <class L, class C> void check_infos(C& c, const Ref& r) {
  const C& cc = c;
  using BI = typename C::base_segment_info; using CBI = typename C::const_base_segment_info;
  using TI = typename C::segment_traversal_info; using CTI = typename C::const_segment_traversal_info;
  static_assert(std::is_base_of<CBI, BI>::value && std::is_base_of<CTI, TI>::value && std::is_convertible<BI*, CBI*>::value && std::is_convertible<TI*, CTI*>::value, "public derivation");
  std::vector<BI> bi; std::vector<CBI> cbi;
  TI st = c.segment_traversal(); CTI cst = cc.segment_traversal(); C other; const C& co = other;
  { TI st2 = other.segment_traversal(); VP_CHECK(st2.begin() == st2.end(), "traversal of an empty collection"); st2 = st; st = st2; CTI c2 = co.segment_traversal(); c2 = cst; cst = c2; CTI c3(c2); cst = c3; CTI c4 = st; cst = c4; }
  for (auto&& x : st) bi.push_back(x);
  for (auto&& x : cst) cbi.push_back(x);
  const TI& kst = st; std::size_t n = 0;
  for (auto i = kst.begin(); i != kst.end(); ++i, ++n) VP_CHECK(n < cbi.size() && i->type_info() == cbi[n].type_info() && i->begin() == cbi[n].begin(), "const view of segment_traversal_info");
  n = 0; for (auto i = cst.cbegin(); i != cst.cend(); i++, ++n) VP_CHECK(n < bi.size() && (*i).end() == bi[n].cend(), "const_segment_traversal_info::cbegin");
  VP_CHECK(bi.size() == r.seg.size() && cbi.size() == bi.size() && n == bi.size(), "traversal information shows ", bi.size(), ", ", cbi.size(), " segments, expected ", r.seg.size());
  if (bi.size() >= 2) { // assignment between information objects of different segments
    std::size_t a = src().draw((u32)bi.size()), b = src().draw((u32)bi.size());
    BI x = bi[a]; x = bi[b]; VP_CHECK(x.type_info() == bi[b].type_info() && x.begin() == bi[b].begin() && x.end() == bi[b].end(), "assigned base_segment_info");
    CBI y = cbi[a]; y = cbi[b]; VP_CHECK(y.type_info() == cbi[b].type_info() && y.begin() == cbi[b].begin() && y.end() == cbi[b].end(), "assigned const_base_segment_info");
    y = bi[a]; VP_CHECK(y.type_info() == bi[a].type_info() && y.begin() == bi[a].cbegin() && y.end() == bi[a].cend(), "const_base_segment_info from base_segment_info");
  }
  for_types(L{}, [&](auto tg) {
    using T = typename decltype(tg)::type;
    if (!r.reg(T::id)) return;
    const std::type_info& ti = typeid(T);
    using SI = typename C::template segment_info<T>; using CSI = typename C::template const_segment_info<T>;
    static_assert(std::is_convertible<SI*, CSI*>::value, "public derivation");
    auto base = [&](const CBI& i, const char* w) {
      VP_CHECK(i.type_info() == ti, w, ": type_info");
      VP_CHECK(i.begin() == cc.begin(ti) && i.cbegin() == c.cbegin(ti) && i.end() == cc.end(ti) && i.cend() == c.cend(ti), w, ": begin/end of segment ", tname(T::id));
      VP_CHECK(i.template begin<T>() == cc.template begin<T>() && i.template cbegin<T>() == c.template cbegin<T>() && i.template end<T>() == cc.template end<T>() && i.template cend<T>() == c.template cend<T>(), w, ": typed begin/end of segment ", tname(T::id));
    };
    auto nonconst = [&](BI i, const char* w) {
      base(i, w);
      VP_CHECK(i.begin() == c.begin(ti) && i.end() == c.end(ti) && i.template begin<T>() == c.template begin<T>() && i.template end<T>() == c.template end<T>(), w, ": non-const begin/end of segment ", tname(T::id));
      static_assert(std::is_same<decltype(i.begin()), typename C::local_base_iterator>::value && std::is_same<decltype(i.template begin<T>()), typename C::template local_iterator<T>>::value, "non-const information gives non-const iterators");
      const BI& k = i; static_assert(std::is_same<decltype(k.begin()), typename C::const_local_base_iterator>::value && std::is_same<decltype(k.template end<T>()), typename C::template const_local_iterator<T>>::value, "const information gives const iterators");
    };
    for (auto& i : bi) if (i.type_info() == ti) nonconst(i, "segment_traversal");
    for (auto& i : cbi) if (i.type_info() == ti) base(i, "const segment_traversal");
    nonconst(c.segment(ti), "segment(info)"); base(cc.segment(ti), "segment(info) const");
    SI s = c.template segment<T>(); CSI k = cc.template segment<T>(); SI s2(s); s2 = s; CSI k2(s); k2 = k; k = s2;
    VP_CHECK(s2.begin() == c.template begin<T>() && s2.end() == c.template end<T>() && s2.cbegin() == c.template cbegin<T>() && s2.cend() == c.template cend<T>(), "segment_info<", tname(T::id), ">");
    VP_CHECK(k.begin() == cc.template begin<T>() && k.end() == cc.template end<T>() && k2.cbegin() == c.template cbegin<T>() && k2.cend() == c.template cend<T>(), "const_segment_info<", tname(T::id), ">");
    const SI& ks = s; static_assert(std::is_same<decltype(ks.begin()), typename C::template const_local_iterator<T>>::value && std::is_same<decltype(s.begin()), typename C::template local_iterator<T>>::value, "constness of segment_info iterators");
    VP_CHECK(ks.begin() == cc.template begin<T>() && ks.end() == cc.template end<T>(), "const segment_info");
    unit();
  });
}
} // namespace vp
#endif
