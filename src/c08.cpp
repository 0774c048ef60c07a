// C08: allocator and lifetime discipline
#include "multi.hpp"
namespace vp {
const char* const nontrivial_rule =
  "a case drives 2-4 collections whose allocators record every block and construct/destroy call, for one of the generated combinations of propagation traits, "
  "through generated transfers and element operations; non-trivial when a non-empty collection is transferred";
using L = tlist<T0, T4, T6>;
template <int F> void go() {
  trace("allocator traits ", F); label("traits:" + std::to_string(F));
  Multi<Al<Value, F>, L> m(2 + (int)src().draw(2)); m.lifetimes = true; m.run(src().chance(1, 5) ? 24 : 9);
}
void run_case() {
  world().reset();
#if FSET == 0
  switch (src().draw(4)) { case 0: go<0>(); break; case 1: go<7>(); break; case 2: go<1>(); break; default: go<2>(); }
#elif FSET == 1
  switch (src().draw(4)) { case 0: go<8>(); break; case 1: go<4>(); break; case 2: go<3>(); break; default: go<16 + 8>(); }
#else
  switch (src().draw(4)) { case 0: go<9>(); break; case 1: go<14>(); break; case 2: go<5>(); break; default: go<6>(); }
#endif
  check_no_leaks();
}
}
