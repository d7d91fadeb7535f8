// Small property-based testing engine: choice-sequence generation, isolated
// execution of cases in worker processes, shrinking, replay files, evidence.
#pragma once
#include <cstdint>
#include <functional>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

// A violation found by an oracle.
struct Fail {
  std::string msg;
};
// The generated input is outside the property's domain.
struct Discard {
  std::string why;
};

[[noreturn]] void fail(const std::string &msg);
[[noreturn]] void discard(const std::string &why);

// Source of choices. When generating, choices come from a PRNG and are
// recorded; when replaying, they come from a list (exhausted -> 0).
class Src {
public:
  // nested: drawn from by a part of a case, from a seed the case generated
  explicit Src(std::uint64_t seed, bool nested = false)
      : traced(!nested), rng(seed) {}
  explicit Src(std::vector<std::uint64_t> c)
      : replaying(true), choices(std::move(c)) {}

  // uniform in [0, n)
  std::uint64_t below(std::uint64_t n);
  // uniform in [lo, hi]
  std::uint64_t range(std::uint64_t lo, std::uint64_t hi) {
    return lo + below(hi - lo + 1);
  }
  // true with probability num/den; shrinks to false
  bool chance(unsigned num, unsigned den) {
    return below(den) >= den - num;
  }
  // weighted index; shrinks to the first
  std::size_t weighted(const std::vector<unsigned> &w);
  template <typename T> const T &pick(const std::vector<T> &v) {
    return v[below(v.size())];
  }
  template <typename T> void shuffle(std::vector<T> &v) {
    // shrinks to the identity
    for (std::size_t k = 0; k + 1 < v.size(); ++k) {
      std::swap(v[k], v[k + below(v.size() - k)]);
    }
  }
  const std::vector<std::uint64_t> &recorded() const { return used; }

private:
  bool replaying = false;
  bool traced = true;
  std::vector<std::uint64_t> choices;
  std::size_t pos = 0;
  std::vector<std::uint64_t> used;
  std::mt19937_64 rng{0};
};

struct Case {
  Src &s;
  std::ostringstream d; // human readable description of the generated case
  bool nontrivial = false;
  std::set<std::string> labels;
  int tier = 0; // 0 quick, 1 thorough

  explicit Case(Src &src) : s(src) {}
  void label(const std::string &l) { labels.insert(l); }
};

using CaseFn = void (*)(Case &);

struct Sub {
  std::string name;
  CaseFn fn;
  unsigned quick;    // number of cases, quick tier
  unsigned thorough; // number of cases, thorough tier
};

struct Property {
  std::string id;
  std::string rule; // what makes a case non-trivial
  std::vector<std::string> assumptions;
  std::vector<Sub> subs;
  unsigned hang_seconds = 40;
  unsigned jobs = 0; // parallel workers, 0: one per core
};

// defined by each property's file
extern const Property PROPERTY;

std::string scratch_dir(); // private directory of the running worker
} // namespace pbt

#define PBT_CHECK(cond, msg)                                                   \
  do {                                                                         \
    if (!(cond)) {                                                             \
      std::ostringstream pbt_s_;                                               \
      pbt_s_ << msg;                                                           \
      ::pbt::fail(pbt_s_.str());                                               \
    }                                                                          \
  } while (0)
