// C19, two modules: a collection shared by the executable and a dynamically loaded module
#include "engine.hpp"
#include "c19mod.hpp"
#include <dlfcn.h>
namespace vp {
using namespace m19;
const char* const nontrivial_rule =
  "a case drives 2-3 collections through generated operations, each performed by the code of one of two modules (executable and dlopen'ed library built with hidden visibility, so that each element type has two "
  "type_info objects), and checks after each operation what either module sees through every kind of access; non-trivial when a type's elements were inserted by both modules";
static const Ops& mod(int i) {
  static const Ops* o[2] = {nullptr, nullptr};
  if (!o[0]) {
    void* h = dlopen(VP_SO, RTLD_NOW | RTLD_LOCAL);
    if (!h) { std::fprintf(stderr, "cannot load module: %s\n", dlerror()); std::_Exit(3); }
    auto f = (const void* (*)())dlsym(h, "vp_module");
    o[1] = static_cast<const Ops*>(f()); o[0] = &ops();
    for (int t = 0; t < NT; ++t) if (&o[0]->info(t) == &o[1]->info(t) || !(o[0]->info(t) == o[1]->info(t))) { std::fprintf(stderr, "modules share type_info objects\n"); std::_Exit(3); }
  }
  return *o[i];
}
struct S { C c; Contents r; std::map<int, unsigned> by; };
static int code(int t, int k) { return k * 8 + t; }
static void check(std::vector<std::unique_ptr<S>>& s, const char* op) {
  for (std::size_t n = 0; n < s.size(); ++n) {
    S& x = *s[n];
    for (int m = 0; m < 2; ++m) {
      Contents o = mod(m).observe(x.c);
      for (auto& p : o) VP_CHECK(x.r.count(p.first), op, ": s", n, " has a segment of type ", p.first, " (module ", m, ")");
      std::size_t segs = 0; for (auto q : x.c.segment_traversal()) { (void)q; ++segs; }
      VP_CHECK(segs == x.r.size(), op, ": s", n, " has ", segs, " segments for ", x.r.size(), " types");
      for (auto& p : x.r) VP_CHECK(o.count(p.first) && o[p.first] == p.second, op, ": s", n, ": elements of type ", p.first, " seen by module ", m, " differ");
      for (int t = 0; t < NT; ++t) {
        VP_CHECK(mod(m).probe(x.c, t) == (x.r.count(t) ? 3 : 0), op, ": s", n, ": is_registered of type ", t, " in module ", m);
        int how = (int)src().draw(7); bool thrown = false;
        auto v = mod(m).read(x.c, t, how, thrown);
        if (x.r.count(t)) VP_CHECK(!thrown && v == x.r[t], op, ": s", n, ": type ", t, " read by module ", m, " (way ", how, "): ", v.size(), " elements, ", x.r[t].size(), " expected");
        else VP_CHECK(thrown && v.empty(), op, ": s", n, ": unregistered type ", t, " read by module ", m, " (way ", how, ") does not throw");
        unit();
      }
      int how = (int)src().draw(6);
      auto seen = mod(m).restitute(x.c, how);
      Contents typed; std::size_t other = 0, want = 0;
      for (auto& e : seen) { if (e.typed) typed[e.tid].push_back(e.key); else ++other; }
      for (auto& p : x.r) {
        if (p.first % 2 == 0) VP_CHECK(typed[p.first] == p.second, op, ": s", n, ": module ", m, ", algorithm ", how, " with type restitution: ", typed[p.first].size(), " of ", p.second.size(), " elements of type ", p.first, " restituted");
        else want += p.second.size();
      }
      VP_CHECK(other == want, op, ": s", n, ": module ", m, ", algorithm ", how, ": ", other, " elements passed through the interface, expected ", want);
    }
  }
}
void run_case() {
  std::vector<std::unique_ptr<S>> s;
  for (u32 i = 0, n = 2 + src().draw(2); i < n; ++i) s.emplace_back(new S);
  int next = 1;
  check(s, "start");
  while (src().more(12)) {
    int m = (int)src().draw(2); const Ops& o = mod(m);
    std::size_t a = src().draw((u32)s.size()), b = src().draw((u32)s.size());
    S &x = *s[a], &y = *s[b];
    int t = (int)src().draw(NT), op = (int)src().draw(16);
    const char* nm = "";
    auto present = [&](S& z) { return z.r.count(t) != 0; };
    switch (op) {
      case 0: nm = "register"; trace("module ", m, " s", a, " register ", t); o.reg(x.c, t); x.r[t]; break;
      case 1: case 2: case 3: case 4: { nm = "insert"; int how = (int)src().draw(7), k = next++; trace("module ", m, " s", a, " insert ", t, " ", k, " how ", how);
        o.emplace(x.c, t, k, how); x.r[t].push_back(code(t, k)); x.by[t] |= 1u << m; if (x.by[t] == 3) nontrivial(); break; }
      case 5: case 6: if (a != b) { nm = "insert range"; trace("module ", m, " s", a, " insert range of s", b); o.insert_all(x.c, y.c);
        for (auto& p : y.r) { if (!p.second.empty()) { auto& v = x.r[p.first]; v.insert(v.end(), p.second.begin(), p.second.end()); x.by[p.first] |= y.by[p.first]; } } } break;
      case 7: if (a != b) { nm = "insert through the interface"; bool all = true; for (auto& p : y.r) if (!p.second.empty() && !x.r.count(p.first)) all = false;
        if (!all) break;
        int how = (int)src().draw(2); trace("module ", m, " s", a, " insert elements of s", b); o.insert_elems(x.c, y.c, how);
        for (auto& p : y.r) if (!p.second.empty()) { auto& v = x.r[p.first]; v.insert(v.end(), p.second.begin(), p.second.end()); } } break;
      case 8: if (a != b && present(y)) { nm = "insert local range"; int how = (int)src().draw(2); trace("module ", m, " s", a, " insert segment ", t, " of s", b);
        o.insert_seg(x.c, y.c, t, how); auto& q = y.r[t]; if (!q.empty()) { auto& v = x.r[t]; v.insert(v.end(), q.begin(), q.end()); } else if (x.c.is_registered(mod(0).info(t))) x.r[t]; } break;
      case 9: if (present(x) && !x.r[t].empty()) { nm = "erase"; auto& v = x.r[t]; std::size_t i = src().draw((u32)v.size()); trace("module ", m, " s", a, " erase ", t, "@", i); o.erase(x.c, t, i); v.erase(v.begin() + (std::ptrdiff_t)i); } break;
      case 10: if (present(x)) { nm = "clear"; int how = (int)src().draw(2); trace("module ", m, " s", a, " clear ", t); o.clear(x.c, t, how); x.r[t].clear(); } break;
      case 11: { nm = "reserve"; int how = present(x) ? (int)src().draw(2) : 1; std::size_t n = src().draw(30); trace("module ", m, " s", a, " reserve ", t, " ", n); o.reserve(x.c, t, n, how); x.r[t]; break; }
      case 12: case 13: if (a != b) { nm = "transfer"; int how = (int)src().draw(4); trace("module ", m, " transfer ", how, " s", a, " s", b); o.assign(x.c, y.c, how);
        if (how == 1) { std::swap(x.r, y.r); std::swap(x.by, y.by); } else if (how != 3) { x.r = y.r; x.by = y.by; } } break;
      default: { nm = "compare"; trace("module ", m, " compare s", a, " s", b); bool e = true;
        for (int q = 0; q < NT; ++q) { static const std::vector<int> none; if ((x.r.count(q) ? x.r[q] : none) != (y.r.count(q) ? y.r[q] : none)) e = false; }
        VP_CHECK(o.equal(x.c, y.c) == e, "== by module ", m, " is wrong"); label(e ? "equal" : "different"); }
    }
    label(nm);
    for (auto& p : x.r) if (p.second.size() > 300) return;
    check(s, nm);
  }
}
}
