// C11: algorithms without type restitution
#include "alg.hpp"
namespace vp {
const char* const nontrivial_rule =
  "a case fills a collection of up to 6 types (with empty segments), draws ranges (whole, partial, at segment boundaries), const or not, and runs generated algorithms with generated "
  "predicates, values, second ranges and sizes through boost::poly_collection and std, comparing results, outputs and calls; non-trivial when a range spans several segments";
void run_case() {
  world().reset();
  {
    Case k; fill(k);
    u32 n = 1 + src().draw(6);
    while (n--) {
      k.index();
      std::size_t a, b; pick_range(k, a, b);
      bool cst = src().chance(1, 2); int w = (int)src().draw(256);
      trace(cst ? "const " : "", "range [", a, ",", b, ") algorithm ", w % 16);
      if (b > a && k.tid_at[a] != k.tid_at[b - 1]) nontrivial();
      if (cst) alg_case<C::const_iterator>(k, w, a, b); else alg_case<C::iterator>(k, w, a, b);
      trace(k.what);
      check_equal<LA>(k.m.c, k.m.r, "after algorithm");
    }
  }
  check_no_leaks();
}
}
