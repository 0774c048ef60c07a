// C01: single-element modifiers and erasure against a per-type reference model
#include "machine.hpp"
namespace vp {
const char* const nontrivial_rule =
  "a case is a generated history of insert/emplace/hint/pos/erase/clear calls over 8 element types, compared with a "
  "per-type reference after every call; non-trivial when it erases a non-empty range or inserts strictly inside a segment";
void run_case() {
  world().reset();
  {
    M<std::allocator<Value>, AllTypes> m;
    // a few types per case so that segments get populated
    int nt = 1 + (int)src().draw(5);
    std::vector<int> ts;
    for (int i = 0; i < nt; ++i) ts.push_back((int)src().draw(AllTypes::size));
    int avg = src().chance(1, 6) ? 60 : 18;
    while (src().more(avg)) {
      int op = (int)src().draw(16);
      if (op == 12) { m.bulk(); continue; }
      if (op == 7) { m.erase_global(); continue; }
      if (op == 8) { m.erase_global_range(); continue; }
      if (op == 13) { u32 z = src().draw(12); if (z >= 8) m.clear_all(); else if (z == 7) m.crowd(); continue; }
      if (op == 14) { m.cap_op(); continue; }
      with_type(AllTypes{}, src().pick(ts), [&](auto t) {
        using T = typename decltype(t)::type;
        switch (op) {
          case 0: case 1: case 2: m.template insert_end<T>(); break;
          case 3: case 4: m.template insert_hint<T>(); break;
          case 5: case 6: m.template insert_local<T>(); break;
          case 9: m.template erase_local<T>(); break;
          case 10: m.template erase_local_range<T>(); break;
          case 11: m.template clear_seg<T>(); break;
          default: m.template reg<T>(); break;
        }
      });
    }
    m.check_all("final");
  }
  check_no_leaks();
}
}
