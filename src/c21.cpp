// C21: collections inside elements, and collections used while another collection is at work
#include "machine.hpp"
#include <boost/poly_collection/algorithm.hpp>
namespace vp {
const char* const nontrivial_rule =
  "a case grows a tree of collections (elements holding collections of the same kind, to depth 6) with generated insertions, subtree copies and moves, erasures, assignments and swaps at generated places, next to a reference tree, "
  "with elements whose special members operate on a third collection, and compares both trees, recursive algorithm results and recursive equality after each step; non-trivial when the tree reaches depth three";
using C = Coll<>;
#if MODEL == MODEL_BASE
#define NK(n) static constexpr int id = n; int tid() const override { return n; }
#define KO override
#else
#define NK(n) static constexpr int id = n;
#define KO
#endif
// elements whose construction, copy and destruction use another collection
struct Note final : Iface { int k; explicit Note(int x) : k(x) {} int key() const KO { return k; } NK(9)
#if MODEL != MODEL_BASE
  int operator()(int x) const { return k + x; }
#endif
};
static C* side = nullptr; static long live = 0;
static void enter(int k) { ++live; if (side) side->emplace<Note>(k); }
static void leave() noexcept { --live; if (side) side->erase(side->begin<Note>()); }
struct Leaf final : Iface { int k; explicit Leaf(int x) : k(x) {} int key() const KO { return k; } NK(0) bool operator==(const Leaf& x) const { return k == x.k; }
#if MODEL != MODEL_BASE
  int operator()(int x) const { return k + x; }
#endif
};
struct Reg final : Iface { int k; explicit Reg(int x) : k(x) { enter(k); } Reg(const Reg& x) : k(x.k) { enter(k); } Reg& operator=(const Reg& x) { leave(); enter(x.k); k = x.k; return *this; } ~Reg() { leave(); } int key() const KO { return k; } NK(1)
  bool operator==(const Reg& x) const { return (side ? side->size() >= 2 : true) && k == x.k; }
#if MODEL != MODEL_BASE
  int operator()(int x) const { return k + x; }
#endif
};
struct build_t {};
template <int I> struct Nd final : Iface { int k; C kids; explicit Nd(int x) : k(x) {}
  Nd(build_t, int x, int depth, int width) : k(x) { for (int i = 0; i < width; ++i) { if (depth > 0) kids.template emplace<Nd>(build_t{}, x + i, depth - 1, width); kids.template emplace<Reg>(x - i); } }   // emplaces its own kind while being emplaced
  Nd(const Nd& x) : k(x.k) { if (I == 2) kids = x.kids; else { kids.template register_types<Leaf, Reg, Nd<2>, Nd<3>>(); for (const auto& y : x.kids) kids.insert(y); } }   // one by one: inserts its own kind while being inserted
  Nd(Nd&&) = default; Nd& operator=(Nd&&) = default;
  Nd& operator=(const Nd& x) { k = x.k; C t; t.insert(x.kids.begin(), x.kids.end()); kids = std::move(t); return *this; } int key() const KO { return k; } NK(I)
  bool operator==(const Nd& x) const { return k == x.k && kids == x.kids; }
#if MODEL != MODEL_BASE
  int operator()(int x) const { int s = k + x; boost::poly_collection::for_each(kids.begin(), kids.end(), [&](const Value& v) { s += v(x); }); return s; }
#endif
};
using N2 = Nd<2>; using N3 = Nd<3>;
using L = tlist<Leaf, Reg, N2, N3>;
struct MC; struct ME { int k; std::shared_ptr<MC> kids; };
struct MC { std::vector<ME> s[4]; };
static MC deep(const MC& m);
static ME deep(const ME& e) { return ME{e.k, e.kids ? std::make_shared<MC>(deep(*e.kids)) : nullptr}; }
static MC deep(const MC& m) { MC r; for (int i = 0; i < 4; ++i) for (auto& e : m.s[i]) r.s[i].push_back(deep(e)); return r; }
static bool eq(const MC& a, const MC& b) { for (int i = 0; i < 4; ++i) { if (a.s[i].size() != b.s[i].size()) return false; for (std::size_t j = 0; j < a.s[i].size(); ++j) { if (a.s[i][j].k != b.s[i][j].k) return false; if (a.s[i][j].kids && !eq(*a.s[i][j].kids, *b.s[i][j].kids)) return false; } } return true; }
static long weight(const MC& m) { long n = 0; for (int i = 0; i < 4; ++i) for (auto& e : m.s[i]) n += 1 + (e.kids ? weight(*e.kids) : 0); return n; }
static long total(const MC& m) { long n = 0; for (int i = 0; i < 4; ++i) for (auto& e : m.s[i]) n += e.k + (e.kids ? total(*e.kids) : 0); return n; }
static long regs(const MC& m) { long n = (long)m.s[1].size(); for (int i = 2; i < 4; ++i) for (auto& e : m.s[i]) n += regs(*e.kids); return n; }
static int depth(const MC& m) { int d = 0; for (int i = 2; i < 4; ++i) for (auto& e : m.s[i]) d = std::max(d, 1 + depth(*e.kids)); return d; }
static void same_tree(const C& c, const MC& m, const char* op) {
  std::size_t n = 0;
  for_types(L{}, [&](auto t) { using T = typename decltype(t)::type; auto& v = m.s[T::id]; n += v.size(); std::size_t z = c.template is_registered<T>() ? c.template size<T>() : 0;
    VP_CHECK(z == v.size(), op, ": a nested segment ", T::id, " holds ", z, " elements, expected ", v.size()); std::size_t i = 0;
    if (z) for (auto& x : c.template segment<T>()) { VP_CHECK(x.key() == v[i].k, op, ": nested element has key ", x.key(), ", expected ", v[i].k); if constexpr (T::id >= 2) same_tree(x.kids, *v[i].kids, op); ++i; } });
  VP_CHECK(c.size() == n, op, ": size of a nested collection is ", c.size(), ", expected ", n);
}
// recursive algorithms: function objects that run algorithms on nested collections
namespace pc = boost::poly_collection;
static long sum_plain(const C& c) { long s = 0; pc::for_each(c.begin(), c.end(), [&](const Value& v) { s += key_of(v) - 0; if (auto* p = cast_to<N2>(v)) s += sum_plain(p->kids) - 0; else if (auto* q = cast_to<N3>(v)) s += sum_plain(q->kids); }); return s; }
static long sum_typed(const C& c) { long s = 0; struct F { long& s; void operator()(const N2& x) const { s += x.k + sum_typed(x.kids); } void operator()(const N3& x) const { s += x.k + sum_typed(x.kids); } void operator()(const Leaf& x) const { s += x.k; } void operator()(const Value& v) const { s += key_of(v); } }; pc::for_each<N2, Leaf, N3>(c.begin(), c.end(), F{s}); return s; }
static long count_deep(const C& c) { long inner = 0; struct F { long& i; bool operator()(const N2& x) const { i += count_deep(x.kids); return true; } bool operator()(const N3& x) const { i += count_deep(x.kids); return true; } bool operator()(const Value&) const { return true; } }; long n = pc::count_if<N3, N2>(c.begin(), c.end(), F{inner}); return n + inner; }
static bool any_deep(const C& c, int k) { struct F { int k; bool operator()(const N2& x) const { return x.k == k || any_deep(x.kids, k); } bool operator()(const N3& x) const { return x.k == k || any_deep(x.kids, k); } bool operator()(const Leaf& x) const { return x.k == k; } bool operator()(const Reg& x) const { return x.k == k; } bool operator()(const Value&) const { return false; } }; return pc::any_of<N2, N3, Leaf, Reg>(c.begin(), c.end(), F{k}); }
static bool mod_any(const MC& m, int k) { for (int i = 0; i < 4; ++i) for (auto& e : m.s[i]) if (e.k == k || (e.kids && mod_any(*e.kids, k))) return true; return false; }
static long own_sum(const C& c);   // keys of direct elements (calling nodes would recurse)
static std::shared_ptr<MC> built(int id, int x, int depth, int width) { auto m = std::make_shared<MC>(); for (int i = 0; i < width; ++i) { if (depth > 0) m->s[id].push_back(ME{x + i, built(id, x + i, depth - 1, width)}); m->s[1].push_back(ME{x - i, nullptr}); } return m; }
struct Place { C* c; MC* m; int depth; };
static void places(C& c, MC& m, int d, std::vector<Place>& out) { out.push_back({&c, &m, d}); for (int i = 2; i < 4; ++i) for (std::size_t j = 0; j < m.s[i].size(); ++j) { C& k = i == 2 ? (c.begin<N2>() + (std::ptrdiff_t)j)->kids : (c.begin<N3>() + (std::ptrdiff_t)j)->kids; places(k, *m.s[i][j].kids, d + 1, out); } }
static bool inside(const MC& a, const MC* b) { if (&a == b) return true; for (int i = 2; i < 4; ++i) for (auto& e : a.s[i]) if (inside(*e.kids, b)) return true; return false; }
void run_case() {
  live = 0; side = nullptr;
  {
    C sidec; sidec.register_types<Note>(); if (src().chance(2, 3)) side = &sidec;
    {
      C root; MC m; int next = 1; int maxd = 0;
      u32 steps = 2 + src().size(40);
      for (u32 st = 0; st < steps; ++st) {
        std::vector<Place> ps; places(root, m, 0, ps);
        Place p = ps[src().draw((u32)ps.size())]; if (src().draw(2)) p = ps.back();
        long w = weight(m); const char* nm = "?"; u32 op = src().draw(15);
        if (w > 250 && (op < 8 || op == 14)) op = 8 + op % 3;
        switch (op) {
          case 0: case 1: case 2: case 3: { nm = "insertion"; with_type(L{}, (int)src().draw(4), [&](auto t) { using T = typename decltype(t)::type; if (T::id >= 2 && p.depth >= 6) return; int k = next++; auto& v = p.m->s[T::id]; std::size_t q = src().draw((u32)v.size() + 1); ME e{k, T::id >= 2 ? std::make_shared<MC>() : nullptr}; trace("insert ", T::id, "@", q, " depth ", p.depth);
            p.c->template register_types<T>(); if (src().draw(2)) { if (q == v.size()) p.c->template emplace<T>(k); else p.c->emplace_pos(p.c->template begin<T>() + (std::ptrdiff_t)q, k); } else { T x(k); p.c->insert(p.c->template begin<T>() + (std::ptrdiff_t)q, std::move(x)); } v.insert(v.begin() + (std::ptrdiff_t)q, e); }); break; }
          case 4: case 5: { nm = "insertion of a subtree"; Place o = ps[src().draw((u32)ps.size())]; if (weight(*o.m) > 60 || p.depth + depth(*o.m) >= 6) break; int k = next++; bool mv = src().draw(2), three = src().draw(2); trace("subtree of ", weight(*o.m), mv ? " moved" : " copied", " to depth ", p.depth);
            auto go = [&](auto t) { using T = typename decltype(t)::type; T x(k); x.kids = *o.c; ME e{k, std::make_shared<MC>(deep(*o.m))}; if (mv) p.c->insert(std::move(x)); else p.c->insert(x); p.m->s[T::id].push_back(e); if (!mv) same_tree(x.kids, *e.kids, "source of an insertion"); }; if (three) go(tag<N3>{}); else go(tag<N2>{}); break; }
          case 6: { nm = "range insertion of a collection"; Place o = ps[src().draw((u32)ps.size())]; if (weight(*o.m) > 60 || p.depth + depth(*o.m) >= 6) break; trace("range of ", weight(*o.m)); C t(*o.c); MC tm = deep(*o.m); p.c->insert(t.begin(), t.end()); for (int i = 0; i < 4; ++i) for (auto& e : tm.s[i]) p.m->s[i].push_back(deep(e)); same_tree(t, tm, "source of a range insertion"); break; }
          case 7: { nm = "assignment"; Place o = ps[src().draw((u32)ps.size())]; if (p.depth + depth(*o.m) >= 6 || weight(*o.m) > 100) break; bool mv = src().draw(2); trace("assign", mv ? " by move" : ""); C t(*o.c); MC tm = deep(*o.m); if (mv) *p.c = std::move(t); else { *p.c = t; same_tree(t, tm, "source of an assignment"); } *p.m = deep(tm); break; }
          case 8: case 9: { nm = "erasure"; with_type(L{}, (int)src().draw(4), [&](auto t) { using T = typename decltype(t)::type; auto& v = p.m->s[T::id]; if (v.empty()) return; std::size_t a = src().draw((u32)v.size()), b = src().draw(2) ? a + 1 : a + src().draw((u32)(v.size() - a) + 1); trace("erase ", T::id, "[", a, ",", b, ") depth ", p.depth); p.c->erase(p.c->template begin<T>() + (std::ptrdiff_t)a, p.c->template begin<T>() + (std::ptrdiff_t)b); v.erase(v.begin() + (std::ptrdiff_t)a, v.begin() + (std::ptrdiff_t)b); }); break; }
          case 10: { nm = "clear"; if (p.depth == 0 && src().draw(4)) break; trace("clear depth ", p.depth); p.c->clear(); *p.m = MC(); break; }
          case 11: { nm = "swap"; Place o = ps[src().draw((u32)ps.size())]; if (inside(*p.m, o.m) || inside(*o.m, p.m) || std::max(p.depth + depth(*o.m), o.depth + depth(*p.m)) > 6) break; trace("swap depths ", p.depth, ",", o.depth); p.c->swap(*o.c); std::swap(*p.m, *o.m); break; }
          case 12: { nm = "capacity"; trace("capacity"); if (src().draw(2)) p.c->reserve(src().draw(20)); else p.c->shrink_to_fit(); break; }
          case 14: { nm = "emplacement of a subtree"; int d = (int)src().draw(3), wd = 1 + (int)src().draw(3); if (p.depth + d + 1 >= 6) break; bool three = src().draw(2); int k = next++; trace("build ", d, "x", wd, " depth ", p.depth);
            auto go = [&](auto t) { using T = typename decltype(t)::type; auto& v = p.m->s[T::id]; std::size_t q = src().draw((u32)v.size() + 1); p.c->template register_types<T>(); p.c->template emplace_pos<T>(p.c->begin(typeid(T)) + (std::ptrdiff_t)q, build_t{}, k, d, wd); v.insert(v.begin() + (std::ptrdiff_t)q, ME{k, built(T::id, k, d, wd)}); }; if (three) go(tag<N3>{}); else go(tag<N2>{}); break; }
          default: { nm = "move out and back"; trace("move out and back"); C t(std::move(*p.c)); same_tree(t, *p.m, "moved collection"); if (src().draw(2)) *p.c = std::move(t); else p.c->swap(t); }
        }
        same_tree(root, m, nm); maxd = std::max(maxd, depth(m));
        VP_CHECK(live == regs(m), nm, ": ", live, " live registered elements, expected ", regs(m));
        if (side) VP_CHECK((long)side->size() == regs(m), nm, ": the collection used by the elements' special members holds ", side->size(), ", expected ", regs(m));
        label(nm); unit();
        if (src().draw(3) == 0) {
          const C& r = root; trace("compare");
          C copy(r); MC cm = deep(m); same_tree(copy, cm, "deep copy"); bool few = side && side->size() < 2 && regs(m) > 0;
          if (!few) VP_CHECK((copy == r) && !(copy != r), "a deep copy compares different");
          // change something deep in the copy: original stays, equality notices
          std::vector<Place> cp; places(copy, cm, 0, cp); Place q = cp[src().draw((u32)cp.size())]; q.c->emplace<Leaf>(next); q.m->s[0].push_back(ME{next, nullptr}); ++next;
          same_tree(copy, cm, "changed copy"); same_tree(root, m, "original of a changed copy"); VP_CHECK(!(copy == r) && (r != copy), "a changed deep copy compares equal");
#if MODEL == MODEL_BASE
          VP_CHECK(sum_plain(r) == total(m), "recursive for_each: sum ", sum_plain(r), " expected ", total(m));
#else
          { long s = 0; pc::for_each(r.begin(), r.end(), [&](const Value& v) { s += v(0); }); VP_CHECK(s == total(m), "recursive call: sum ", s, " expected ", total(m)); }
#endif
#if MODEL == MODEL_BASE
          VP_CHECK(sum_typed(r) == total(m), "recursive for_each with restitution");
#endif
          VP_CHECK(count_deep(r) == weight(m), "recursive count_if: ", count_deep(r), " expected ", weight(m));
          for (int z = 0; z < 3; ++z) { int k = (int)src().draw((u32)next); VP_CHECK(any_deep(r, k) == mod_any(m, k), "recursive any_of for ", k); }
        }
      }
      if (maxd >= 3) nontrivial();
    }
    VP_CHECK(live == 0 && (!side || side->empty()), "destruction of the tree left ", live, " elements");
    side = nullptr;
  }
}
}
