// A small property-based testing engine built on recorded choice sequences.
//
// Every random decision of a generator goes through Source::draw, which records it.  A case is
// therefore fully described by its sequence of choices: replaying the sequence replays the case,
// shrinking the sequence shrinks the case, and a byte string decoded into choices lets a
// coverage-guided fuzzer drive the same generators.  Choices are recorded in a shared mapping, so
// the case is known even when the code under test crashes, aborts or hangs.
#ifndef VERIF_PBT_H_
#define VERIF_PBT_H_

#include <stdio.h>

#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <limits>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Discard {};
struct Failure {
  std::string tag, msg;
};

// splitmix64: seeds and bulk data.
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n <= 1 ? 0 : next() % n; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};

struct Shared;  // the mapping in which choices are recorded

class Source {
 public:
  explicit Source(uint64_t seed) : rng_(seed), random_(true) {}
  explicit Source(const std::vector<uint64_t>& replay) : rng_(0), random_(false), replay_(replay) {}

  // A number in [0, n); n == 0 stands for the full 64-bit range. Shrinks towards 0.
  uint64_t draw(uint64_t n);
  int64_t range(int64_t lo, int64_t hi) {
    if (hi <= lo) return lo;
    return lo + static_cast<int64_t>(draw(static_cast<uint64_t>(hi - lo) + 1));
  }
  bool flip() { return draw(2) == 1; }
  // true with probability num/den; shrinks to false.
  bool chance(uint64_t num, uint64_t den) { return draw(den) >= den - num; }
  template <typename T>
  const T& pick(const std::vector<T>& v) {
    return v[draw(v.size())];
  }
  template <typename T>
  T pick(std::initializer_list<T> v) {
    return *(v.begin() + draw(v.size()));
  }
  size_t weighted(std::initializer_list<int> w) {
    int total = 0;
    for (int x : w) total += x;
    int64_t d = draw(total);
    size_t i = 0;
    for (int x : w) {
      if (d < x) return i;
      d -= x;
      ++i;
    }
    return 0;
  }
  // A length: mostly small, sometimes up to max.
  int64_t length(int64_t lo, int64_t max) {
    if (max <= lo) return lo;
    switch (weighted({5, 3, 2})) {
      case 0: return range(lo, std::min<int64_t>(max, lo + 6));
      case 1: return range(lo, std::min<int64_t>(max, lo + (max - lo) / 4 + 1));
      default: return range(lo, max);
    }
  }
  // A seed for bulk data that is too large to draw piece by piece.
  Rng bulk() { return Rng(draw(0)); }

  const std::vector<uint64_t>& recorded() const { return rec_; }
  bool random() const { return random_; }

 private:
  Rng rng_;
  bool random_;
  std::vector<uint64_t> replay_;
  size_t pos_ = 0;
  std::vector<uint64_t> rec_;
};

class Ctx {
 public:
  explicit Ctx(bool describing, bool print_now = false) : describing_(describing), print_(print_now) {}
  void label(const std::string& l) { ++labels_[l]; }
  void nontrivial() { nontrivial_ = true; }
  void nontrivial_if(bool b) { nontrivial_ = nontrivial_ || b; }
  bool describing() const { return describing_; }
  // Text that lets a reader rebuild the case without the engine.
  template <typename F>
  void describe(F f) {
    if (describing_) {
      std::ostringstream o;
      o.precision(17);
      f(o);
      text_ += o.str();
      if (print_) {  // shown even if the code under test crashes later
        fwrite(o.str().data(), 1, o.str().size(), stdout);
        fflush(stdout);
      }
    }
  }
  bool is_nontrivial() const { return nontrivial_; }
  const std::map<std::string, int>& labels() const { return labels_; }
  const std::string& text() const { return text_; }

 private:
  bool describing_ = false, print_ = false, nontrivial_ = false;
  std::map<std::string, int> labels_;
  std::string text_;
};

typedef void (*PropFn)(Source&, Ctx&);
struct Prop {
  const char* name;
  int weight;      // share of the cases
  int limit_s;     // wall-clock limit of one case, a multiple of what a case takes
  bool scheduled;  // the outcome may depend on thread scheduling
  PropFn fn;
};
std::vector<Prop>& registry();
struct Register {
  Register(const char* n, int w, int limit, bool sched, PropFn f) { registry().push_back({n, w, limit, sched, f}); }
};
#define PROP(name, weight) PROP_EX(name, weight, 40, false)
#define PROP_EX(name, weight, limit, sched)                                   \
  static void prop_##name(pbt::Source& s, pbt::Ctx& ctx);                     \
  static pbt::Register reg_##name(#name, weight, limit, sched, &prop_##name); \
  static void prop_##name(pbt::Source& s, pbt::Ctx& ctx)

// Fails the case. The tag names the clause that failed; shrinking keeps the tag.
#define FAIL(tag, stream)                      \
  do {                                         \
    std::ostringstream o__;                    \
    o__.precision(17);                         \
    o__ << stream;                             \
    throw pbt::Failure{tag, o__.str()};        \
  } while (0)
#define CHECK_THAT(cond, tag, stream) \
  do {                                \
    if (!(cond)) FAIL(tag, stream);   \
  } while (0)

// Known findings: harness code that re-runs one listed input and says whether it still fails.
typedef bool (*KnownFn)();
struct Known {
  const char* key;
  KnownFn fn;
};
std::vector<Known>& known_registry();
struct RegisterKnown {
  RegisterKnown(const char* k, KnownFn f) { known_registry().push_back({k, f}); }
};

// Scratch directory of this process, created on first use and removed at exit.
const std::string& scratch();
std::string fresh_path(const std::string& stem);
void write_file(const std::string& path, const std::string& content);
std::string read_file(const std::string& path, bool* ok = nullptr);

std::string quote(const std::string& s);
std::string show(float v);
std::string show(double v);
inline std::string show(int v) { return std::to_string(v); }
inline std::string show(uint32_t v) { return std::to_string(v); }
inline std::string show(uint64_t v) { return std::to_string(v); }
inline std::string show(const std::string& s) { return quote(s); }
template <typename T>
std::string show(const std::vector<T>& v) {
  std::string r = "[";
  for (size_t i = 0; i < v.size(); ++i) {
    if (i) r += ",";
    r += show(v[i]);
  }
  return r + "]";
}

}  // namespace pbt

// Each harness may define this to prepare process-wide state once.
void harness_init();

#endif
