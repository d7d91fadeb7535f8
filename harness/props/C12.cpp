// The gradient of a random field is the one of the log likelihood.
#include "../world.h"
using namespace wld;
using pbt::Case;

namespace {
void history(Case &c) {
  Options o;
  o.huge = true;
  o.tunable = true;
  o.tunableOften = c.s.chance(2, 3);
  o.loops = 0;
  o.maxVars = 7;
  o.zeros = c.s.chance(1, 4);
  World w{c, o};
  w.grow(1 + c.s.below(4));
  // train sets and iterators survive from one step to another
  struct Data {
    train::TrainSet set;
    train::TrainSet::Iterator it;
    std::size_t vars;
  };
  std::vector<std::unique_ptr<Data>> data;
  const auto steps = 3 + c.s.below(12);
  bool repeated = false;
  for (std::uint64_t k = 0; k < steps; ++k) {
    if (c.s.chance(2, 3)) {
      w.mutate();
    } else if (c.s.chance(1, 2)) {
      w.changeWeights();
    } else {
      w.noise();
    }
    if (w.ref.clusters.empty() || !c.s.chance(1, 2)) {
      continue;
    }
    ref::Model free = w.ref;
    free.ev.clear();
    if (!free.possible()) {
      continue;
    }
    if (!data.empty() && c.s.chance(1, 3)) {
      // other samples, iterated by something having the same address
      auto &d = *c.s.pick(data);
      d.set = w.genTrainSet();
      d.vars = w.ref.vars.size();
      c.d << " replacing a train set";
      d.it.~Iterator();
      new (&d.it) train::TrainSet::Iterator(d.set.makeIterator());
      c.label("train set replaced");
      w.checkGradient(d.it, w.genThreads());
      continue;
    }
    Data *use = nullptr;
    if (!data.empty() && c.s.chance(1, 2)) {
      use = c.s.pick(data).get();
      if (use->vars != w.ref.vars.size()) {
        use = nullptr; // other variables joined the model
      }
    }
    if (use) {
      c.d << "\n reuse of a train set";
      repeated = true;
    } else {
      auto set = w.genTrainSet();
      const float perc = c.s.chance(1, 3) ? 0.1f + 0.1f * c.s.below(9) : 1.f;
      if (perc == 1.f) {
        auto it = set.makeIterator();
        data.push_back(
            std::make_unique<Data>(Data{set, it, w.ref.vars.size()}));
      } else {
        c.d << " subset of " << perc;
        auto it = set.makeSubSetIterator(perc);
        data.push_back(
            std::make_unique<Data>(Data{set, it, w.ref.vars.size()}));
      }
      use = data.back().get();
    }
    if (use->it.size() == 0) {
      continue;
    }
    w.checkGradient(use->it, w.genThreads());
    if (c.s.chance(1, 3)) {
      w.checkAllMarginals();
    }
  }
  if (w.exactChecks > 0 && w.ref.vars.size() > 1) {
    c.nontrivial = true;
    if (repeated) {
      c.label("train set reused");
    }
    for (auto &cl : w.ref.clusters) {
      if (cl.size() > 1) {
        c.label("shared weights");
      }
    }
  }
}

// following the gradient increases the likelihood
void ascent(Case &c) {
  Options o;
  o.tunable = true;
  o.tunableOften = c.s.chance(2, 3);
  o.loops = 0;
  o.maxVars = 6;
  o.zeros = false;
  o.evidence = false;
  World w{c, o};
  w.grow(2 + c.s.below(4));
  for (auto k = c.s.below(4); k > 0; --k) {
    w.mutate();
  }
  if (w.ref.clusters.empty()) {
    pbt::discard("no tunable factor");
  }
  auto set = w.genTrainSet();
  auto order = w.clusterOrder();
  auto likelihood = [&](const std::vector<float> &weights) {
    ref::Model m = w.ref;
    for (std::size_t k = 0; k < order.size(); ++k) {
      for (int f : m.clusters[order[k]]) {
        m.facs[static_cast<std::size_t>(f)].w = weights[k];
      }
    }
    // log of the partition function, by enumeration
    std::vector<std::size_t> sizes, comb(m.vars.size(), 0);
    for (auto &v : m.vars) {
      sizes.push_back(v.size);
    }
    double z = 0;
    do {
      z += m.weight(comb);
    } while (ref::next(comb, sizes));
    double r = 0;
    std::size_t n = 0;
    set.makeIterator().forEachSample(
        [&](const std::vector<std::size_t> &smp) {
          std::vector<std::size_t> inRef(m.vars.size(), 0);
          std::size_t pos = 0;
          for (auto &v : w.factors().getAllVariables()) {
            inRef[static_cast<std::size_t>(m.find(v->name()))] = smp[pos++];
          }
          r += std::log(m.weight(inRef) / z);
          ++n;
        });
    return r / static_cast<double>(n);
  };
  auto weights = w.field->getWeights();
  for (int iter = 0; iter < 4; ++iter) {
    const auto g = w.field->getWeightsGradient(set.makeIterator(), 1);
    PBT_CHECK(g.size() == weights.size(), "gradient of another size");
    // directional derivative along each weight
    for (std::size_t k = 0; k < g.size(); ++k) {
      const float h = 1.f / 64.f;
      auto up = weights, down = weights;
      up[k] += h;
      down[k] -= h;
      const double num = (likelihood(up) - likelihood(down)) /
                         (static_cast<double>(up[k]) - down[k]);
      PBT_CHECK(close(g[k], num, 1e-2, 5e-3),
                "component " << k << " of the gradient is " << g[k]
                             << ", numerical derivative " << num);
    }
    for (std::size_t k = 0; k < g.size(); ++k) {
      weights[k] += 0.1f * g[k];
    }
    w.field->setWeights(weights);
    for (std::size_t k = 0; k < order.size(); ++k) {
      for (int f : w.ref.clusters[order[k]]) {
        w.ref.facs[static_cast<std::size_t>(f)].w = weights[k];
      }
    }
    c.nontrivial = true;
  }
  w.checkWeights();
  w.checkAllMarginals();
}

// variables with many neighbours
void hub(Case &c) {
  Options o;
  o.tunable = true;
  o.tunableOften = true;
  World w{c, o};
  w.buildHub();
  if (w.ref.clusters.empty()) {
    pbt::discard("no tunable factor");
  }
  w.checkGradient(w.genThreads());
  w.changeWeights();
  w.checkGradient(w.genThreads());
  c.nontrivial = w.ref.vars.size() > 5;
  c.label("hub");
}
// long chains, wide trees
void forest(Case &c) {
  Options o;
  o.tunable = true;
  o.tunableOften = true;
  o.zeros = false;
  World w{c, o};
  w.buildForest(60);
  if (w.ref.clusters.empty()) {
    pbt::discard("no tunable factor");
  }
  w.checkGradient(w.genThreads());
  c.nontrivial = w.ref.vars.size() > 10;
  c.label("forest");
}
// very large train sets
void samples(Case &c) {
  Options o;
  o.tunable = true;
  o.tunableOften = true;
  o.loops = 0;
  o.maxVars = 3;
  o.maxSize = 3;
  o.zeros = false;
  o.evidence = false;
  o.large = false;
  World w{c, o};
  w.grow(1 + c.s.below(3));
  if (w.ref.clusters.empty()) {
    pbt::discard("no tunable factor");
  }
  std::vector<std::vector<std::size_t>> lib, inRef;
  c.d << "\n train set:";
  for (auto k = 2 + c.s.below(4); k > 0; --k) {
    std::vector<std::size_t> comb, r(w.ref.vars.size(), 0);
    for (auto &v : w.factors().getAllVariables()) {
      comb.push_back(c.s.below(v->size()));
      r[static_cast<std::size_t>(w.ref.find(v->name()))] = comb.back();
    }
    const auto copies = 1 + c.s.below(60000);
    c.d << " " << fmt(comb) << " x" << copies;
    lib.insert(lib.end(), copies, comb);
    inRef.insert(inRef.end(), copies, r);
  }
  auto e = expectedGradient(w.ref, inRef, {}, false);
  auto set = train::TrainSet{lib};
  auto got = w.field->getWeightsGradient(set.makeIterator(), 1);
  auto order = w.clusterOrder();
  PBT_CHECK(got.size() == order.size(), "gradient of another size");
  for (std::size_t k = 0; k < got.size(); ++k) {
    // values are summed in single precision
    PBT_CHECK(close(got[k], e[order[k]], 1e-2, 3e-2),
              "component " << k << " of the gradient is " << got[k]
                           << " instead of " << e[order[k]]);
  }
  c.nontrivial = lib.size() > 40000;
  c.label(lib.size() > 65536 ? "more than 65536 samples" : "many samples");
}
} // namespace

const pbt::Property pbt::PROPERTY = {
    "C12",
    "non-trivial: at least one gradient of a model with two or more variables "
    "is compared with the reference",
    {"exactness is claimed for models without loops; gradients are computed "
     "without evidences, as documented by the library",
     "tolerance 1e-3 relative, 2e-4 absolute (samples: 1e-2 and 3e-2, "
     "tens of thousands of values are summed in single precision)"},
    {{"history", history, 17500, 250000}, {"ascent", ascent, 3500, 50000},
     {"hub", hub, 1200, 20000},
     {"forest", forest, 300, 5000}, {"samples", samples, 120, 2000}}};
