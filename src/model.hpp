// Uniform access to the three collection families.
#ifndef VP_MODEL_HPP
#define VP_MODEL_HPP
#include "core.hpp"
#if MODEL == MODEL_BASE
#include <boost/poly_collection/base_collection.hpp>
#elif MODEL == MODEL_FUNC
#include <boost/poly_collection/function_collection.hpp>
#else
#include <boost/poly_collection/any_collection.hpp>
#include <boost/type_erasure/any.hpp>
#include <boost/type_erasure/any_cast.hpp>
#include <boost/type_erasure/builtin.hpp>
#include <boost/type_erasure/callable.hpp>
#include <boost/type_erasure/typeid_of.hpp>
#include <boost/mpl/vector.hpp>
#endif

namespace vp {
#if MODEL == MODEL_BASE
using Value = Iface;
template <class A = std::allocator<Value>> using Coll = boost::base_collection<Iface, A>;
inline int key_of(const Value& v) { return v.key(); }
inline const void* addr_of(const Value& v) { return dynamic_cast<const void*>(&v); }
inline const std::type_info& info_of(const Value& v) { return typeid(v); }
template <class T> const T* cast_to(const Value& v) { return typeid(v) == typeid(T) ? static_cast<const T*>(&v) : nullptr; }
constexpr const char* model_name = "base_collection";
#elif MODEL == MODEL_FUNC
using Sig = int(int);
using Value = boost::poly_collection::function_collection_value_type<Sig>;
template <class A = std::allocator<Value>> using Coll = boost::function_collection<Sig, A>;
inline int key_of(const Value& v) { return v(0); }
inline const void* addr_of(const Value& v) { return v.data(); }
inline const std::type_info& info_of(const Value& v) { return v.target_type(); }
template <class T> const T* cast_to(const Value& v) { return v.template target<T>(); }
constexpr const char* model_name = "function_collection";
#else
using Concept = boost::mpl::vector<boost::type_erasure::callable<int(int), const boost::type_erasure::_self>, boost::type_erasure::typeid_<>>;
using Value = boost::poly_collection::any_collection_value_type<Concept>;
template <class A = std::allocator<Value>> using Coll = boost::any_collection<Concept, A>;
inline int key_of(const Value& v) { return v(0); }
inline const void* addr_of(const Value& v) { return boost::type_erasure::any_cast<const void*>(&v); }
inline const std::type_info& info_of(const Value& v) { return boost::type_erasure::typeid_of(v); }
template <class T> const T* cast_to(const Value& v) { return boost::type_erasure::any_cast<const T*>(&v); }
constexpr const char* model_name = "any_collection";
#endif

// ---- reference model -------------------------------------------------------
struct Ref {
  std::map<int, std::vector<int>> seg;   // registered tids -> keys in order
  bool reg(int t) const { return seg.count(t) != 0; }
  std::size_t size() const { std::size_t n = 0; for (auto& p : seg) n += p.second.size(); return n; }
  bool empty() const { return size() == 0; }
  std::string str() const {
    std::string s = "{";
    for (auto& p : seg) { s += tname(p.first); s += ":["; for (int k : p.second) { s += std::to_string(k); s += ' '; } s += "] "; }
    return s + "}";
  }
};

struct SegPos { int tid; std::size_t idx; };   // tid<0: end()

inline int tid_of_info_impl(const std::type_info&, tlist<>) { return -1; }
template <class T, class... Ts> int tid_of_info_impl(const std::type_info& i, tlist<T, Ts...>) {
  return i == typeid(T) ? T::id : tid_of_info_impl(i, tlist<Ts...>{});
}
inline int tid_of_info(const std::type_info& i) { return tid_of_info_impl(i, ManyTypes{}); }

// registered types in traversal order, through segment_traversal
template <class C> std::vector<int> seg_order(const C& c) {
  std::vector<int> r;
  std::size_t guard = 0;
  for (auto&& s : c.segment_traversal()) {
    r.push_back(tid_of_info(s.type_info()));
    VP_CHECK(++guard < 1000, "segment traversal does not end");
  }
  return r;
}

// Compares every element, by global traversal, per segment traversal, and by
// typed access, with the reference. L: list of types to visit with typed access.
template <class L, class C> void check_equal(const C& c, const Ref& r, const char* where) {
  check_problem(where);
  VP_CHECK(c.size() == r.size(), where, ": size() is ", c.size(), " expected ", r.size(), " in ", r.str());
  VP_CHECK(c.empty() == r.empty(), where, ": empty() is wrong");
  // per segment
  std::size_t nseg = 0, nel = 0;
  std::vector<const void*> addrs;
  for (auto&& s : c.segment_traversal()) {
    int t = tid_of_info(s.type_info());
    auto it = r.seg.find(t);
    VP_CHECK(it != r.seg.end(), where, ": unexpected segment ", tname(t));
    const auto& ks = it->second;
    VP_CHECK((std::size_t)(s.end() - s.begin()) == ks.size(), where, ": segment ", tname(t), " spans ", s.end() - s.begin(), " elements, expected ", ks.size());
    std::size_t i = 0;
    for (auto l = s.begin(); l != s.end(); ++l, ++i) {
      VP_CHECK(i < ks.size(), where, ": segment overrun");
      int k = key_of(*l);
      VP_CHECK(k == ks[i], where, ": segment ", tname(t), "[", i, "] is ", k, " expected ", ks[i], " in ", r.str());
      VP_CHECK(info_of(*l) == s.type_info(), where, ": element of segment ", tname(t), " has another type");
      addrs.push_back(addr_of(*l));
    }
    VP_CHECK(++nseg <= r.seg.size(), where, ": too many segments");
  }
  VP_CHECK(nseg == r.seg.size(), where, ": ", nseg, " segments, expected ", r.seg.size());
  // global
  for (auto g = c.begin(); g != c.end(); ++g, ++nel) {
    VP_CHECK(nel < addrs.size(), where, ": global traversal overruns (", addrs.size(), " elements expected)");
    VP_CHECK(addr_of(*g) == addrs[nel], where, ": global traversal visits another object than segment traversal at position ", nel);
  }
  VP_CHECK(nel == addrs.size(), where, ": global traversal visits ", nel, " elements, expected ", addrs.size());
  check_problem(where);
}

// typed views for the segment of T
template <class T, class C> void check_typed(const C& c, const Ref& r, const char* where) {
  auto it = r.seg.find(T::id);
  VP_CHECK(c.template is_registered<T>() == (it != r.seg.end()), where, ": is_registered<", tname(T::id), "> wrong");
  VP_CHECK(c.is_registered(typeid(T)) == (it != r.seg.end()), where, ": is_registered(info) wrong for ", tname(T::id));
  if (it == r.seg.end()) return;
  const auto& ks = it->second;
  VP_CHECK(c.template size<T>() == ks.size() && c.size(typeid(T)) == ks.size(), where, ": size of segment ", tname(T::id), " wrong");
  VP_CHECK(c.template empty<T>() == ks.empty() && c.empty(typeid(T)) == ks.empty(), where, ": empty of segment ", tname(T::id), " wrong");
  VP_CHECK(c.template end<T>() - c.template begin<T>() == (std::ptrdiff_t)ks.size(), where, ": typed range length");
  auto lb = c.begin(typeid(T));
  std::size_t i = 0;
  for (auto l = c.template begin<T>(); l != c.template end<T>(); ++l, ++lb, ++i) {
    VP_CHECK(i < ks.size(), where, ": typed overrun");
    const T& x = *l;
    VP_CHECK(x.key() == ks[i], where, ": typed element ", tname(T::id), "[", i, "] is ", x.key(), " expected ", ks[i]);
    VP_CHECK(static_cast<const void*>(&x) == addr_of(*lb), where, ": typed and base views disagree on the address of ", tname(T::id), "[", i, "]");
    VP_CHECK(reinterpret_cast<std::uintptr_t>(&x) % alignof(T) == 0, where, ": misaligned element");
  }
  VP_CHECK(lb == c.end(typeid(T)), where, ": base end mismatch");
}

} // namespace vp
#endif
