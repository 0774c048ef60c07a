// Property-based testing engine: every random decision of a case goes through
// Src::draw, so that a case is fully determined by a sequence of u32 choices.
// Modes:
//   --run    --seed S --tag STR --worker W --workers N --cases K --shm F --out F
//   --replay FILE      (re-runs the choices in FILE, exit 1 on a violation)
// Choices made by the current case are mirrored into a mmap'ed file (--shm), so
// that they survive a sanitizer abort.
#ifndef VP_ENGINE_HPP
#define VP_ENGINE_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vp {

using u32 = std::uint32_t;
using u64 = std::uint64_t;

struct Violation { std::string msg; };

inline u64 mix(u64& s) {
  u64 z = (s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

struct Shm { u64 case_idx, n, done, pad; u32 v[1]; };

class Src {
public:
  static constexpr std::size_t max_draws = 1u << 18;
  std::vector<u32> rec;
  u64 state = 0;
  bool replay = false;
  std::vector<u32> data;
  std::size_t pos = 0;
  Shm* shm = nullptr;

  void start_random(u64 seed) { rec.clear(); state = seed; replay = false; if (shm) shm->n = 0; }
  void start_replay(std::vector<u32> d) { rec.clear(); data = std::move(d); pos = 0; replay = true; if (shm) shm->n = 0; }

  u32 draw(u32 n) {                       // uniform in [0,n); 0 is the simplest
    u32 r;
    if (n <= 1) return 0;
    if (replay) r = pos < data.size() ? data[pos++] % n : 0;
    else r = static_cast<u32>(mix(state) % n);
    put(r);
    return r;
  }
  bool chance(u32 num, u32 den) {         // false is the simplest
    return draw(den) >= den - num;
  }
  // 0 (stop) with probability 1/avg; used to continue operation lists
  bool more(u32 avg) {
    if (replay && pos >= data.size()) return false;
    if (rec.size() > max_draws - 4096) return false;
    return draw(avg) != 0;
  }
  // small-biased size in [0,max]
  u32 size(u32 max) {
    u32 k = draw(8);
    u32 lim = k < 3 ? 2 : k < 6 ? 5 : k < 7 ? 16 : max;
    if (lim > max) lim = max;
    return draw(lim + 1);
  }
  int range(int lo, int hi) { return lo + static_cast<int>(draw(static_cast<u32>(hi - lo + 1))); }
  template <class C> auto& pick(C& c) { return c[draw(static_cast<u32>(c.size()))]; }

  // re-executes recorded choices [a,b) of this source through f
  template <class F> void replaying(std::size_t a, std::size_t b, F&& f) {
    Src sub; sub.start_replay(std::vector<u32>(rec.begin() + (std::ptrdiff_t)a, rec.begin() + (std::ptrdiff_t)b));
    swap_with(sub);
    struct Back { Src& me; Src& sub; ~Back() { me.swap_with(sub); } } back{*this, sub};
    f();
  }
  void swap_with(Src& x) {
    std::swap(rec, x.rec); std::swap(state, x.state); std::swap(replay, x.replay); std::swap(data, x.data); std::swap(pos, x.pos); std::swap(shm, x.shm);
  }

private:
  void put(u32 r) {
    if (rec.size() < max_draws) {
      if (shm) { shm->v[rec.size()] = r; shm->n = rec.size() + 1; }
      rec.push_back(r);
    }
  }
};

// ---- per-process run context --------------------------------------------
struct Ctx {
  Src src;
  bool trace_on = false;
  std::string trace;
  bool nontrivial = false;
  u64 units = 0;            // checked evaluations inside cases (optional)
  std::map<std::string, u64> labels;
  bool count_labels = true;
};
inline Ctx& ctx() { static Ctx c; return c; }
inline Src& src() { return ctx().src; }
inline void label(const char* s) { if (ctx().count_labels) ++ctx().labels[s]; }
inline void label(const std::string& s) { if (ctx().count_labels) ++ctx().labels[s]; }
inline void nontrivial() { ctx().nontrivial = true; }
inline void unit(u64 n = 1) { ctx().units += n; }

template <class... A> std::string cat(const A&... a) {
  std::ostringstream o; using x = int[]; (void)x{0, ((void)(o << a), 0)...}; return o.str();
}
template <class... A> void trace(const A&... a) {
  if (!ctx().trace_on) return;
  ctx().trace += cat(a...); ctx().trace += "; ";
}
template <class... A> [[noreturn]] void fail(const A&... a) { throw Violation{cat(a...)}; }
#define VP_CHECK(cond, ...) do { if (!(cond)) ::vp::fail(__VA_ARGS__); } while (0)

// to be provided by each harness
void run_case();
extern const char* const nontrivial_rule;

inline std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c < 32) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  return o + "\"";
}

// returns "" or the violation message
inline std::string guarded_case() {
  ctx().nontrivial = false;
  try { run_case(); }
  catch (const Violation& v) { return v.msg.empty() ? "violation" : v.msg; }
  catch (const std::exception& e) { return cat("unexpected exception: ", e.what()); }
  catch (...) { return "unexpected exception of unknown type"; }
  return "";
}

inline u64 hash_choices(const std::vector<u32>& v) {
  u64 h = 1469598103934665603ull;
  for (u32 x : v) { h ^= x; h *= 1099511628211ull; h ^= h >> 29; }
  return h;
}

inline int engine_main(int argc, char** argv) {
  std::map<std::string, std::string> o;
  bool run = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--run") run = true;
    else if (a == "--trace") ctx().trace_on = true;
    else if (i + 1 < argc) o[a] = argv[++i];
  }
  if (o.count("--shm")) {
    std::size_t len = sizeof(Shm) + 4 * Src::max_draws;
    int fd = ::open(o["--shm"].c_str(), O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ::ftruncate(fd, (off_t)len) != 0) { std::perror("shm"); return 3; }
    void* p = ::mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (p == MAP_FAILED) { std::perror("mmap"); return 3; }
    ::close(fd);
    src().shm = static_cast<Shm*>(p);
  }
  if (!run) {
    std::vector<u32> d;
    FILE* f = std::fopen(o["--replay"].c_str(), "r");
    if (!f) { std::perror("replay"); return 3; }
    unsigned long x; while (std::fscanf(f, "%lu", &x) == 1) d.push_back((u32)x);
    std::fclose(f);
    src().start_replay(std::move(d));
    ctx().count_labels = false;
    std::string m = guarded_case();
    if (ctx().trace_on) std::printf("TRACE %s\n", ctx().trace.c_str());
    if (!m.empty()) { std::printf("FAIL %s\n", m.c_str()); std::fflush(stdout); std::_Exit(1); }
    std::printf("PASS\n"); std::fflush(stdout);
    std::_Exit(0);
  }
  u64 seed = std::strtoull(o["--seed"].c_str(), nullptr, 10);
  for (char c : o["--tag"]) { seed ^= (unsigned char)c; (void)mix(seed); seed = seed * 31 + 7; }
  u64 w = std::strtoull(o["--worker"].c_str(), nullptr, 10);
  u64 nw = std::strtoull(o["--workers"].c_str(), nullptr, 10);
  u64 cases = std::strtoull(o["--cases"].c_str(), nullptr, 10);
  long cap = o.count("--max-seconds") ? std::atol(o["--max-seconds"].c_str()) : 1000000;
  std::time_t t_start = std::time(nullptr);
  std::unordered_set<u64> hs;
  std::vector<std::string> samples;
  u64 nt = 0, ev = 0, maxlen = 0;
  std::string msg;
  for (u64 i = w; i < cases; i += nw) {
    if (ev && (ev & 15) == 0 && std::time(nullptr) - t_start > cap) break;
    u64 s = seed ^ (i * 0xd1342543de82ef95ull + 0x2545f4914f6cdd1dull);
    (void)mix(s);
    if (src().shm) { src().shm->case_idx = i; }
    src().start_random(s);
    msg = guarded_case();
    ++ev;
    if (src().rec.size() > maxlen) maxlen = src().rec.size();
    if (!msg.empty()) break;
    if (ctx().nontrivial) {
      ++nt;
      if (hs.size() < 4000000) hs.insert(hash_choices(src().rec));
      if (samples.size() < 3 && src().rec.size() < 400) {
        ctx().trace_on = true; ctx().trace.clear(); ctx().count_labels = false;
        u64 u = ctx().units;
        src().start_random(s);
        msg = guarded_case();
        ctx().trace_on = false; ctx().count_labels = true; ctx().units = u;
        if (!msg.empty()) break;
        samples.push_back(ctx().trace.substr(0, 700));
      }
    }
  }
  if (src().shm) src().shm->done = 1;
  {
    FILE* f = std::fopen(o["--out"].c_str(), "w");
    if (!f) { std::perror("out"); return 3; }
    std::fprintf(f, "{\"evaluations\":%llu,\"nontrivial\":%llu,\"units\":%llu,\"max_choices\":%llu,\"violation\":%s,\"rule\":%s,\"labels\":{",
      (unsigned long long)ev, (unsigned long long)nt, (unsigned long long)ctx().units, (unsigned long long)maxlen,
      jstr(msg).c_str(), jstr(nontrivial_rule).c_str());
    bool first = true;
    for (auto& p : ctx().labels) { std::fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(p.first).c_str(), (unsigned long long)p.second); first = false; }
    std::fprintf(f, "},\"samples\":[");
    for (std::size_t i = 0; i < samples.size(); ++i) std::fprintf(f, "%s%s", i ? "," : "", jstr(samples[i]).c_str());
    std::fprintf(f, "],\"fail_choices\":[");
    if (!msg.empty()) for (std::size_t i = 0; i < src().rec.size(); ++i) std::fprintf(f, "%s%u", i ? "," : "", src().rec[i]);
    std::fprintf(f, "]}\n");
    std::fclose(f);
    f = std::fopen((o["--out"] + ".h").c_str(), "wb");
    if (f) { for (u64 h : hs) std::fwrite(&h, 8, 1, f); std::fclose(f); }
  }
  std::fflush(nullptr);
  std::_Exit(msg.empty() ? 0 : 1);
}

} // namespace vp

#if defined(VP_FUZZER)
// libFuzzer entry: two bytes per choice
extern "C" int LLVMFuzzerTestOneInput(const std::uint8_t* d, std::size_t n) {
  if (n > 8192) return 0;
  std::vector<vp::u32> v;
  for (std::size_t i = 0; i + 1 < n; i += 2) v.push_back(d[i] | (d[i + 1] << 8));
  vp::ctx().count_labels = false;
  vp::src().start_replay(std::move(v));
  std::string m = vp::guarded_case();
  if (!m.empty()) { std::fprintf(stderr, "FAIL %s\n", m.c_str()); __builtin_trap(); }
  return 0;
}
#else
int main(int argc, char** argv) { return vp::engine_main(argc, argv); }
#endif
#endif
