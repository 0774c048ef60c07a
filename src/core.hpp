// Tracked element types, fault injection and recording allocators.
#ifndef VP_CORE_HPP
#define VP_CORE_HPP
#include "engine.hpp"
#include <memory>
#include <new>
#include <type_traits>
#include <typeinfo>
#include <unordered_map>
#include <utility>

#define MODEL_BASE 0
#define MODEL_FUNC 1
#define MODEL_ANY 2
#ifndef MODEL
#define MODEL MODEL_BASE
#endif

namespace vp {

struct Fault { int kind; };   // injected exception (from elements)
// allocation faults are reported as std::bad_alloc, as a real allocator would

enum FaultKind { FK_VALUE = 1, FK_COPY = 2, FK_MOVE = 4, FK_ASSIGN = 8, FK_ALLOC = 16, FK_EQ = 32, FK_ITER = 64, FK_ALL = 127 };
constexpr int MOVED = -77777777;

struct World {
  std::unordered_map<const void*, int> live;            // tracked object -> construction serial
  struct Block { int id; std::size_t bytes; };
  std::unordered_map<const void*, Block> blocks;         // recording allocators
  std::unordered_map<const void*, int> constructed;      // address -> allocator id, via Allocator::construct
  std::string problem;                                   // first lifetime problem seen
  long countdown = -1;                                   // fault injection
  unsigned mask = 0;
  int fired = 0;
  u64 n_value = 0, n_copy = 0, n_move = 0, n_assign = 0, n_dtor = 0, n_eq = 0, n_alloc = 0, n_invoke = 0;
  int serial = 0;
  u64 foreign_construct = 0, foreign_destroy = 0;        // Allocator::construct/destroy on non elements
  bool lenient = false;
  int nan_key = -1;                                      // elements with this key are equal to nothing, not even themselves

  void reset() {
    live.clear(); blocks.clear(); constructed.clear(); problem.clear();
    countdown = -1; mask = 0; fired = 0;
    n_value = n_copy = n_move = n_assign = n_dtor = n_eq = n_alloc = n_invoke = 0; serial = 0;
    foreign_construct = foreign_destroy = 0; nan_key = -1;
  }
  void bad(const std::string& s) { if (problem.empty()) problem = s; }
  void arm(long k, unsigned m) { countdown = k; mask = m; fired = 0; }
  void disarm() { countdown = -1; mask = 0; }
  bool hit(unsigned kind) {
    if (countdown >= 0 && (mask & kind)) {
      if (countdown == 0) { countdown = -1; fired = (int)kind; return true; }
      --countdown;
    }
    return false;
  }
  void tick(unsigned kind) { if (hit(kind)) throw Fault{(int)kind}; }
};
inline World& world() { static World* w = new World; return *w; }

inline void check_problem(const char* where) {
  if (!world().problem.empty()) fail(where, ": ", world().problem);
}

// ---- Core: the tracked payload inside every element type ------------------
struct CoreBase {
  static constexpr u32 MAGIC = 0xC0FFEE11u;
  int k;
  u32 magic;
  const CoreBase* self;

  void birth(int key) {
    k = key; magic = MAGIC; self = this;
    auto& w = world();
    if (!w.live.emplace(this, ++w.serial).second) w.bad("object constructed on top of a live object");
  }
  void death() {
    auto& w = world();
    ++w.n_dtor;
    if (magic != MAGIC) w.bad("destroyed an object that is not alive (bad magic)");
    else if (self != this) w.bad("object was relocated bytewise");
    if (w.live.erase(this) != 1) w.bad("destroyed an object that is not alive");
    magic = 0xDEADBEEF; k = -1234567;
  }
  void verify(const char* what) const {
    if (magic != MAGIC || self != this) world().bad(cat("use of a dead or relocated object in ", what));
  }
  int key() const { verify("read"); return k; }
  ~CoreBase() { death(); }
  CoreBase() = default;   // birth() is called by the derived class
  CoreBase(const CoreBase&) = delete;
  CoreBase& operator=(const CoreBase&) = delete;

  void do_copy(const CoreBase& x) { x.verify("copy construction"); auto& w = world(); ++w.n_copy; copy_fault(); birth(x.k); }
  void do_move(CoreBase& x) { x.verify("move construction"); ++world().n_move; birth(x.k); x.k = MOVED; }
  void do_assign(CoreBase& x) { x.verify("move assignment"); verify("move assignment"); ++world().n_assign; if (&x != this) { k = x.k; x.k = MOVED; } }
  // a throwing ctor leaves nothing alive: CoreBase's dtor must not complain
  void copy_fault() { fault(FK_COPY); }
  void fault(unsigned kind) {
    if (world().hit(kind)) {
      // base subobject gets destroyed on throw: make it look alive first
      birth(0); throw Fault{(int)kind};
    }
  }
};

// K: 0 copyable, nothrow move, assignable | 1 move-only nothrow | 2 copyable, nothrow move, not assignable
//    3 copyable, throwing move and assignment | 4 move-only, throwing move and assignment
template <int K> struct Core;
template <> struct Core<0> : CoreBase {
  explicit Core(int key) { ++world().n_value; fault(FK_VALUE); birth(key); }
  Core(const Core& x) : CoreBase() { do_copy(x); }
  Core(Core&& x) noexcept : CoreBase() { do_move(x); }
  Core& operator=(Core&& x) noexcept { do_assign(x); return *this; }
  Core& operator=(const Core&) = delete;
};
template <> struct Core<1> : CoreBase {
  explicit Core(int key) { ++world().n_value; fault(FK_VALUE); birth(key); }
  Core(const Core& x) = delete;
  Core(Core&& x) noexcept : CoreBase() { do_move(x); }
  Core& operator=(Core&& x) noexcept { do_assign(x); return *this; }
};
template <> struct Core<2> : CoreBase {
  explicit Core(int key) { ++world().n_value; fault(FK_VALUE); birth(key); }
  Core(const Core& x) : CoreBase() { do_copy(x); }
  Core(Core&& x) noexcept : CoreBase() { do_move(x); }
  Core& operator=(Core&& x) = delete;
};
template <> struct Core<3> : CoreBase {
  explicit Core(int key) { ++world().n_value; fault(FK_VALUE); birth(key); }
  Core(const Core& x) : CoreBase() { do_copy(x); }
  Core(Core&& x) noexcept(false) : CoreBase() { fault(FK_MOVE); do_move(x); }
  Core& operator=(Core&& x) noexcept(false) { world().tick(FK_ASSIGN); do_assign(x); return *this; }
};
template <> struct Core<4> : CoreBase {
  explicit Core(int key) { ++world().n_value; fault(FK_VALUE); birth(key); }
  Core(const Core& x) = delete;
  Core(Core&& x) noexcept(false) : CoreBase() { fault(FK_MOVE); do_move(x); }
  Core& operator=(Core&& x) noexcept(false) { world().tick(FK_ASSIGN); do_assign(x); return *this; }
};
template <> struct Core<5> : CoreBase {   // move-only nothrow, not assignable
  explicit Core(int key) { ++world().n_value; fault(FK_VALUE); birth(key); }
  Core(const Core& x) = delete;
  Core(Core&& x) noexcept : CoreBase() { do_move(x); }
  Core& operator=(Core&& x) = delete;
};

// ---- interface -------------------------------------------------------------
#if MODEL == MODEL_BASE
struct Iface {
  virtual ~Iface() = default;
  virtual int key() const = 0;
  virtual int tid() const = 0;
  Iface() = default;
  Iface(const Iface&) = default;
  Iface(Iface&&) = default;
  Iface& operator=(const Iface&) = default;
  Iface& operator=(Iface&&) = default;
};
#define VP_KEY(expr) int key() const override { return expr; }
#define VP_TID(n) int tid() const override { return n; } static constexpr int id = n;
#else
struct Iface {};
#define VP_KEY(expr) int key() const { return expr; } int operator()(int x) const { ++world().n_invoke; return key() + x; }
#define VP_TID(n) int tid() const { return n; } static constexpr int id = n;
#endif

template <int N> struct Pad { unsigned char pad[N]; Pad() { for (int i = 0; i < N; ++i) pad[i] = (unsigned char)(i * 7 + N); } };
template <> struct Pad<0> {};

inline bool keys_equal(int x, int y) { return x == y && x != world().nan_key; }

template <int TID, int K, bool EQ, int PAD> struct El final : Iface, Pad<PAD> {
  Core<K> c;
  explicit El(int key) : c(key) {}
  El(int a, int b) : c(a + b) {}
  VP_KEY(c.key())
  VP_TID(TID)
};
template <int T, int K, int P> bool operator==(const El<T, K, true, P>& x, const El<T, K, true, P>& y) {
  ++world().n_eq; world().tick(FK_EQ); return keys_equal(x.c.key(), y.c.key());
}

struct Par : Iface {
  Core<0> c;
  explicit Par(int key) : c(key) {}
  Par(int a, int b) : c(a + b) {}
  VP_KEY(c.key())
  VP_TID(1)
};
inline bool operator==(const Par& x, const Par& y) { ++world().n_eq; world().tick(FK_EQ); return keys_equal(x.c.key(), y.c.key()); }
struct Der : Par {
  double extra = 1.5;
  explicit Der(int key) : Par(key) {}
  Der(int a, int b) : Par(a, b) {}
  VP_TID(2)
};

struct OtherBase { virtual ~OtherBase() = default; long filler[3] = {1, 2, 3}; };
struct alignas(32) MI final : OtherBase, Iface {
  char lead = 'x';
  Core<0> c;
  explicit MI(int key) : c(key) {}
  MI(int a, int b) : c(a + b) {}
  MI(const MI&) = default;
  MI(MI&&) = default;
  MI& operator=(MI&&) = default;
  VP_KEY((lead == 'x' && filler[2] == 3) ? c.key() : -999)
  VP_TID(3)
};

using T0 = El<0, 0, true, 0>;
using T1 = Par;
using T2 = Der;
using T3 = MI;
using T4 = El<4, 1, true, 0>;
using T5 = El<5, 2, true, 8>;
using T6 = El<6, 3, true, 0>;
using T7 = El<7, 0, false, 200>;
template <int N> using Tn = El<8 + N, 0, true, N * 4>;
using T4b = El<40, 4, true, 0>;     // move-only with potentially throwing move
using Bare = El<41, 5, false, 16>;  // nothing but a nothrow move constructor

template <class... T> struct tlist { static constexpr int size = sizeof...(T); };
template <class T> struct tag { using type = T; };
using AllTypes = tlist<T0, T1, T2, T3, T4, T5, T6, T7>;
using ManyTypes = tlist<T0, T1, T2, T3, T4, T5, T6, T7, Tn<0>, Tn<1>, Tn<2>, Tn<3>, Tn<4>, Tn<5>, Tn<6>, Tn<7>,
  Tn<8>, Tn<9>, Tn<10>, Tn<11>, Tn<12>, Tn<13>, Tn<14>, Tn<15>, Tn<16>, Tn<17>, Tn<18>, Tn<19>, Tn<20>, Tn<21>, Tn<22>, Tn<23>, Tn<24>, Tn<25>, Tn<26>, Tn<27>, Tn<28>, Tn<29>, Tn<30>, Tn<31>, T4b, Bare>;

// calls f(tag<T>) for the i-th type of the list
template <class F> void with_type(tlist<>, int, F&&) { std::abort(); }
template <class T, class... Ts, class F> void with_type(tlist<T, Ts...>, int i, F&& f) {
  if (i == 0) f(tag<T>{}); else if constexpr (sizeof...(Ts) > 0) with_type(tlist<Ts...>{}, i - 1, std::forward<F>(f)); else std::abort();
}
template <class... Ts, class F> void for_types(tlist<Ts...>, F&& f) { using x = int[]; (void)x{0, ((void)f(tag<Ts>{}), 0)...}; }

template <class T> constexpr bool copyable = std::is_copy_constructible<T>::value;
template <class T> struct has_eq : std::false_type {};
template <int T, int K, int P> struct has_eq<El<T, K, true, P>> : std::true_type {};
template <> struct has_eq<Par> : std::true_type {};
template <> struct has_eq<Der> : std::true_type {};
inline const char* tname(int tid) {
  static const char* n[] = {"T0", "Par", "Der", "MI", "MoveOnly", "NoAssign", "ThrowMove", "BigNoEq"};
  static char b[64][8];
  if (tid >= 0 && tid < 8) return n[tid];
  std::snprintf(b[tid & 63], 8, "S%d", tid); return b[tid & 63];
}

// ---- recording allocator ----------------------------------------------------
// F bits: 1 POCCA, 2 POCMA, 4 POCS, 8 select_on_copy yields id+100, 16 always equal
template <class T> struct is_elem : std::is_base_of<Iface, T> {};

template <class T, int F> struct Al {
  using value_type = T;
  using propagate_on_container_copy_assignment = std::integral_constant<bool, (F & 1) != 0>;
  using propagate_on_container_move_assignment = std::integral_constant<bool, (F & 2) != 0>;
  using propagate_on_container_swap = std::integral_constant<bool, (F & 4) != 0>;
  using is_always_equal = std::integral_constant<bool, (F & 16) != 0>;
  template <class U> struct rebind { using other = Al<U, F>; };
  int id;
  Al(int i = 0) noexcept : id((F & 16) ? 0 : i) {}
  Al(const Al&) = default;
  Al& operator=(const Al&) = default;
  template <class U> Al(const Al<U, F>& x) noexcept : id(x.id) {}
  T* allocate(std::size_t n) {
    auto& w = world();
    ++w.n_alloc;
    if (w.hit(FK_ALLOC)) throw std::bad_alloc();
    std::size_t bytes = n * sizeof(T);
    void* p = alignof(T) > alignof(std::max_align_t) ? ::operator new(bytes, std::align_val_t(alignof(T))) : ::operator new(bytes);
    w.blocks[p] = World::Block{id, bytes};
    return static_cast<T*>(p);
  }
  void deallocate(T* p, std::size_t n) noexcept {
    auto& w = world();
    auto it = w.blocks.find(p);
    if (it == w.blocks.end()) { w.bad("deallocate of a block that was never allocated"); return; }
    if (it->second.bytes != n * sizeof(T)) w.bad("deallocate with a size other than that of allocate");
    if (it->second.id != id) w.bad(cat("deallocate through an allocator (", id, ") that does not compare equal to the allocating one (", it->second.id, ")"));
    w.blocks.erase(it);
    if (alignof(T) > alignof(std::max_align_t)) ::operator delete(p, std::align_val_t(alignof(T))); else ::operator delete(p);
  }
  template <class U, class... A> void construct(U* p, A&&... a) {
    auto& w = world();
    if (is_elem<U>::value) {
      ::new ((void*)p) U(std::forward<A>(a)...);
      w.constructed[p] = id;
    } else { ++w.foreign_construct; ::new ((void*)p) U(std::forward<A>(a)...); }
  }
  template <class U> void destroy(U* p) {
    auto& w = world();
    if (is_elem<U>::value) { if (w.constructed.erase(p) != 1) w.bad("Allocator::destroy on an element not constructed through Allocator::construct"); }
    else ++w.foreign_destroy;
    p->~U();
  }
  Al select_on_container_copy_construction() const { Al r = *this; if (F & 8) r.id = ((F & 16) ? 0 : id + 100); return r; }
  template <class U> friend bool operator==(const Al& x, const Al<U, F>& y) noexcept { return x.id == y.id; }
  template <class U> friend bool operator!=(const Al& x, const Al<U, F>& y) noexcept { return x.id != y.id; }
};

inline void check_no_leaks() {
  check_problem("lifetime");
  auto& w = world();
  VP_CHECK(w.live.empty(), "leak: ", w.live.size(), " element(s) never destroyed");
  VP_CHECK(w.blocks.empty(), "leak: ", w.blocks.size(), " memory block(s) never deallocated");
}

} // namespace vp
#endif
