// Weights: read back as written, shared where requested and only there, and
// effective on everything the model answers.
#include "../world.h"

#include <EasyFactorGraph/Error.h>

#include <cmath>
using namespace wld;
using pbt::Case;

namespace {
// bit by bit images of all the constant factors
std::map<const factor::Immutable *, std::vector<float>>
constants(const model::RandomField &f) {
  std::map<const factor::Immutable *, std::vector<float>> r;
  for (auto &x : f.getConstFactors()) {
    auto &v = r[x.get()];
    x->function().forEachCombination<true>(
        [&](const std::vector<std::size_t> &, float img) { v.push_back(img); });
  }
  return r;
}

// many variables and weights
void forest(Case &c) {
  Options o;
  o.tunable = true;
  o.tunableOften = true;
  o.zeros = false;
  World w{c, o};
  const auto some = w.buildForest(70);
  for (auto k = 1 + c.s.below(4); k > 0; --k) {
    w.checkWeights();
    w.changeWeights();
    w.checkWeights();
    for (int v : some) {
      w.checkMarginal(v, w.genThreads());
    }
    w.mutate();
  }
  c.nontrivial = w.ref.clusters.size() > 2;
  c.label("forest");
}

void history(Case &c) {
  Options o;
  o.huge = true;
  o.tunable = true;
  o.tunableOften = c.s.chance(2, 3);
  o.loops = 1;
  o.maxVars = 8;
  World w{c, o};
  const auto steps = 4 + c.s.below(20);
  for (std::uint64_t k = 0; k < steps; ++k) {
    w.mutate();
    w.checkWeights();
    if (w.ref.clusters.empty()) {
      continue;
    }
    const auto before = constants(*w.field);
    switch (c.s.below(7)) {
    case 6: {
      // any value is kept as it is
      static const std::vector<float> extremes = {
          0.f,    -0.f,  25.f,   -25.f,  60.f,  -60.f, 1e3f,  -1e3f,
          1e10f,  1e-3f, -1e-5f, 1e-10f, 1e-30f, 3e38f, -3e38f, 1e-40f};
      const auto initial = w.field->getWeights();
      auto next = initial;
      for (auto &x : next) {
        x = c.s.chance(1, 4) ? x : c.s.pick(extremes);
      }
      c.d << "\n weights " << fmt(next) << " and back";
      w.field->setWeights(next);
      PBT_CHECK(w.field->getWeights() == next,
                "weights " << fmt(w.field->getWeights()) << " instead of "
                           << fmt(next));
      auto clusters = w.field->getTunableClusters();
      PBT_CHECK(clusters.size() == next.size(), "number of clusters");
      for (std::size_t j = 0; j < next.size(); ++j) {
        auto same = [&](const train::FactorExponentialPtr &f) {
          PBT_CHECK(f->getWeight() == next[j], "weight of a factor: "
                                                   << f->getWeight()
                                                   << " instead of "
                                                   << next[j]);
          f->function().forEachCombination<false>(
              [&](const std::vector<std::size_t> &comb, float raw) {
                const double e = std::exp(static_cast<double>(raw) *
                                          static_cast<double>(next[j]));
                if (e < 1e30 && e > 1e-30) {
                  PBT_CHECK(close(f->function().findTransformed(comb), e, 1e-3,
                                  0),
                            "image of a factor having weight " << next[j]);
                }
              });
        };
        if (auto *one = std::get_if<train::FactorExponentialPtr>(&clusters[j])) {
          same(*one);
        } else {
          for (auto &f : std::get<train::TunableClusters>(clusters[j])) {
            same(f);
          }
        }
      }
      w.field->setWeights(initial);
      c.label("extreme weights");
      break;
    }
    case 0: {
      // refused, nothing changes
      auto bad = w.field->getWeights();
      if (c.s.chance(1, 2)) {
        bad.push_back(3.f);
      } else {
        bad.pop_back();
      }
      for (auto &x : bad) {
        x += 1.f;
      }
      c.d << "\n setWeights with " << bad.size() << " weights";
      bool refused = false;
      try {
        w.field->setWeights(bad);
      } catch (const EFG::Error &) {
        refused = true;
      }
      PBT_CHECK(refused, "a wrong number of weights was accepted");
      c.label("refused");
      break;
    }
    case 1:
      c.d << "\n set_ones";
      train::set_ones(*w.field);
      for (auto &f : w.ref.facs) {
        if (f.tunable) {
          f.w = 1.f;
        }
      }
      break;
    case 2:
      w.noise();
      break;
    default:
      w.changeWeights();
    }
    w.checkWeights();
    PBT_CHECK(before == constants(*w.field),
              "the constant factors changed with the weights");
    // images of the tunable factors
    for (auto &f : w.field->getTunableFactors()) {
      const int at = w.findTunable(*f);
      PBT_CHECK(at >= 0, "unexpected tunable factor");
      auto &rf = w.ref.facs[static_cast<std::size_t>(at)];
      std::size_t fl = 0;
      f->function().forEachCombination<true>(
          [&](const std::vector<std::size_t> &comb, float img) {
            // the combinations may be listed in any order
            std::vector<std::size_t> sizes;
            for (int v : rf.vars) {
              sizes.push_back(w.ref.vars[static_cast<std::size_t>(v)].size);
            }
            const auto pos = ref::flat(comb, sizes);
            PBT_CHECK(close(img, rf.image(pos), 1e-4, 1e-30) &&
                          close(f->function().findTransformed(comb),
                                rf.image(pos), 1e-4, 1e-30),
                      "image of a tunable factor: " << img << " expected "
                                                    << rf.image(pos));
            ++fl;
          });
      PBT_CHECK(fl == rf.raw.size(), "size of a tunable factor");
    }
    if (c.s.chance(1, 3) && w.ref.possible()) {
      w.checkAllMarginals(w.genThreads());
      if (w.ref.clusters.size() > 1) {
        c.nontrivial = true;
      }
    }
    if (c.s.chance(1, 6) && w.ref.possible()) {
      w.checkHiddenMap();
    }
  }
  for (auto &cl : w.ref.clusters) {
    if (cl.size() > 2) {
      c.label("three factors sharing");
    } else if (cl.size() > 1) {
      c.label("two factors sharing");
    }
  }
}
} // namespace

const pbt::Property pbt::PROPERTY = {
    "C15",
    "non-trivial: marginals of a model with two or more tunable clusters are "
    "compared with the reference, after the weights changed",
    {"at most one tunable unary factor per variable: groups of variables "
     "identify the factor to share the weight with",
     "weights of factors shared with other models are not changed by those"},
    {{"history", history, 12000, 180000},
     {"forest", forest, 300, 5000}}};
