// C07: value semantics of copy, move, assignment and swap
#include "multi.hpp"
namespace vp {
const char* const nontrivial_rule =
  "a case drives 2-4 collections (std::allocator, or stateful allocators with generated identities and propagation traits) through generated copies, moves, "
  "assignments, swaps and element operations, comparing all of them with their references after each step; non-trivial when a non-empty collection is transferred";
using L = tlist<T0, T1, T4, T6, Tn<1>, Tn<2>>;
template <class A> void go() { Multi<A, L> m(2 + (int)src().draw(2)); m.run(src().chance(1, 5) ? 24 : 9); }
void run_case() {
  world().reset();
  switch (src().draw(4)) {
    case 0: case 1: go<std::allocator<Value>>(); break;
    case 2: trace("allocator traits 0"); go<Al<Value, 0>>(); break;
    default: trace("allocator traits 7"); go<Al<Value, 7>>(); break;
  }
  check_no_leaks();
}
}
