// What is in a model, in a comparable form.
#pragma once
#include "world.h"

#include <cstring>

namespace {
using namespace wld;
using pbt::Case;

// what is in a factor, in a comparable form
struct Content {
  std::vector<std::string> vars;
  bool expo;
  float w;
  bool tunable;
  std::vector<float> raw;

  bool operator<(const Content &o) const {
    return std::tie(vars, expo, w, tunable, raw) <
           std::tie(o.vars, o.expo, o.w, o.tunable, o.raw);
  }
  bool operator==(const Content &o) const {
    return std::tie(vars, expo, w, tunable, raw) ==
           std::tie(o.vars, o.expo, o.w, o.tunable, o.raw);
  }
};

inline std::string show(const Content &f) {
  std::ostringstream o;
  o << (f.tunable ? "tunable" : "constant") << " <";
  for (auto &v : f.vars) {
    o << v << ",";
  }
  o << ">";
  if (f.expo) {
    o << " weight " << fmt(f.w);
  }
  o << " " << fmt(f.raw);
  return o.str();
}

struct Image {
  std::map<std::string, std::size_t> vars;
  std::map<std::string, std::size_t> ev;
  std::vector<Content> facs;                  // sorted
  std::vector<std::vector<Content>> clusters; // of the tunable ones, in order
  std::vector<float> weights;
};

inline Content content(const factor::Immutable &f, bool tunable) {
  Content r;
  for (auto &v : f.function().vars().getVariables()) {
    r.vars.push_back(v->name());
  }
  auto *e = dynamic_cast<const factor::FactorExponential *>(&f);
  r.expo = e != nullptr;
  r.w = e ? e->getWeight() : 0.f;
  r.tunable = tunable;
  f.function().forEachCombination<false>(
      [&r](const auto &, float img) { r.raw.push_back(img); });
  return r;
}

template <typename ModelT> Image image(const ModelT &m) {
  Image r;
  const strct::StateAware &state = m;
  for (auto &v : state.getAllVariables()) {
    r.vars[v->name()] = v->size();
  }
  for (auto &[v, x] : state.getEvidences()) {
    r.ev[v->name()] = x;
  }
  const strct::FactorsConstGetter &consts = m;
  for (auto &f : consts.getConstFactors()) {
    r.facs.push_back(content(*f, false));
  }
  if (auto *t = dynamic_cast<const train::FactorsTunableGetter *>(&m)) {
    for (auto &cl : t->getTunableClusters()) {
      r.clusters.emplace_back();
      for (auto &f : clusterMembers(cl)) {
        r.clusters.back().push_back(content(*f, true));
        r.facs.push_back(r.clusters.back().back());
      }
      std::sort(r.clusters.back().begin(), r.clusters.back().end());
    }
    r.weights = t->getWeights();
  }
  std::sort(r.facs.begin(), r.facs.end());
  return r;
}

// as seen by a model without tunable factors
inline Image constant(Image i) {
  i.clusters.clear();
  i.weights.clear();
  for (auto &f : i.facs) {
    f.tunable = false;
  }
  std::sort(i.facs.begin(), i.facs.end());
  return i;
}

inline void compare(const Image &got, const Image &expected, const char *what,
             bool clusters = true) {
  PBT_CHECK(got.vars == expected.vars, what << ": other variables");
  PBT_CHECK(got.ev == expected.ev, what << ": other evidences");
  PBT_CHECK(got.facs.size() == expected.facs.size(),
            what << ": " << got.facs.size() << " factors instead of "
                 << expected.facs.size());
  for (std::size_t k = 0; k < got.facs.size(); ++k) {
    PBT_CHECK(got.facs[k] == expected.facs[k],
              what << ": factor " << show(got.facs[k]) << " instead of "
                   << show(expected.facs[k]));
  }
  if (clusters) {
    PBT_CHECK(got.clusters == expected.clusters,
              what << ": other groups of factors sharing the weight");
    PBT_CHECK(got.weights == expected.weights, what << ": other weights");
  }
}

// every image takes any representable value
inline void anyValues(World &w) {
  auto any = [&w](bool sign) {
    float v;
    switch (w.s.below(4)) {
    case 0: {
      auto bits = static_cast<std::uint32_t>(w.s.below(0x7f800000u));
      std::memcpy(&v, &bits, 4);
      break;
    }
    case 1:
      v = static_cast<float>(w.s.below(1000000)) * 1e-7f;
      break;
    case 2:
      v = static_cast<float>(w.s.below(1000000)) * 1e-3f;
      break;
    default:
      v = static_cast<float>(w.s.below(1000000)) * 1e+5f;
    }
    return sign && w.s.chance(1, 2) ? -v : v;
  };
  for (auto n = 1 + w.s.below(3); n > 0; --n) {
    const auto p = static_cast<int>(w.s.below(w.pool.size()));
    const auto size = w.pool[static_cast<std::size_t>(p)].ptr->size();
    bool expo = w.s.chance(1, 2);
    std::vector<float> t;
    for (std::size_t k = 0; k < size; ++k) {
      t.push_back(expo ? static_cast<float>(w.s.below(3)) : any(false));
    }
    w.insert({p}, t, expo, expo ? any(true) : 1.f, false, -1);
  }
}

inline Options options(Case &c) {
  Options o;
  o.huge = true;
  o.hundreds = true;
  o.tunable = c.s.chance(2, 3);
  o.loops = 3;
  o.wide = c.s.chance(1, 3);
  o.exoticNames = true;
  return o;
}
} // namespace
