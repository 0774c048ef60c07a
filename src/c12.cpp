// C12: algorithms with type restitution
#include "alg.hpp"
namespace vp {
const char* const nontrivial_rule =
  "a case fills a collection of up to 6 types (with empty segments), draws ranges, and runs generated algorithms with one of 6 lists of restituted types (single, several in different "
  "orders, all, repeated, unregistered, a class and its base) through boost::poly_collection and plain std, comparing results, outputs, calls and the static type of every element handed "
  "out; non-trivial when a range spans several segments and some element was restituted";
void run_case() {
  world().reset();
  {
    Case k; fill(k);
    u32 n = 1 + src().draw(5);
    while (n--) {
      k.index();
      std::size_t a, b; pick_range(k, a, b);
      int w = (int)src().draw(256), list = (int)src().draw(6);
      trace("range [", a, ",", b, ") algorithm ", w % 16, " list ", list);
      k.restituted = false;
      using I = C::iterator; using K = C::const_iterator;
      switch (list) {
        case 0: alg_case<I, T0>(k, w, a, b); break;
        case 1: alg_case<K, T1, T2>(k, w, a, b); break;
        case 2: alg_case<I, T2, T1, T6>(k, w, a, b); break;
        case 3: alg_case<K, T4, T3, T6, T2, T0, T1>(k, w, a, b); break;
        case 4: alg_case<I, T5, T0, T7, T0>(k, w, a, b); break;
        default: alg_case<K, T3>(k, w, a, b); break;
      }
      trace(k.what); label(cat("list ", list));
      if (b > a && k.tid_at[a] != k.tid_at[b - 1] && k.restituted) nontrivial();
      check_equal<LA>(k.m.c, k.m.r, "after algorithm");
    }
  }
  check_no_leaks();
}
}
