// The gradient of a conditional random field is the one of the log likelihood
// of the hidden variables, conditioned to the observed ones.
#include "../world.h"
using namespace wld;
using pbt::Case;

namespace {
void history(Case &c) {
  Options o;
  o.huge = true;
  o.tunable = true;
  o.tunableOften = c.s.chance(2, 3);
  o.loops = 3;
  o.zeros = false;
  o.maxVars = 8;
  World w{c, o};
  if (c.s.chance(1, 12)) {
    w.buildHub();
    c.label("hub");
  } else {
    w.grow(2 + c.s.below(5));
    for (auto k = c.s.below(8); k > 0; --k) {
      w.mutate();
    }
  }
  if (w.ref.clusters.empty() || !w.observeForConditional(true)) {
    pbt::discard("no conditional model");
  }
  if (c.s.chance(1, 3)) {
    w.noise();
  }
  const bool copy = c.s.chance(1, 2);
  c.d << "\n conditional model, copy " << copy;
  auto crf =
      std::make_unique<model::ConditionalRandomField>(*w.field, copy);
  if (c.s.chance(1, 4)) {
    c.d << "\n copy of the conditional model";
    crf = std::make_unique<model::ConditionalRandomField>(
        static_cast<const model::ConditionalRandomField &>(*crf));
  }
  ref::Model m = w.ref; // the reference of the conditional model
  std::vector<int> observed;
  for (auto &[v, x] : m.ev) {
    observed.push_back(v);
  }
  auto names = crf->getObservedVariables();
  PBT_CHECK(names.size() == observed.size(), "another set of evidences");
  for (auto &v : names) {
    PBT_CHECK(!m.hidden(m.find(v->name())), v->name() << " is not observed");
  }
  struct Data {
    train::TrainSet set;
    train::TrainSet::Iterator it;
  };
  std::vector<std::unique_ptr<Data>> data;
  const auto steps = 1 + c.s.below(5);
  for (std::uint64_t k = 0; k < steps; ++k) {
    // the clusters of the two models, matched through the variables
    std::vector<std::size_t> order;
    for (auto &cl : crf->getTunableClusters()) {
      auto members = clusterMembers(cl);
      std::set<std::string> vars;
      for (auto &v : members.front()->function().vars().getVariables()) {
        vars.insert(v->name());
      }
      std::size_t at = m.clusters.size();
      for (std::size_t j = 0; j < m.clusters.size(); ++j) {
        for (int f : m.clusters[j]) {
          std::set<std::string> other;
          for (int v : m.facs[static_cast<std::size_t>(f)].vars) {
            other.insert(m.vars[static_cast<std::size_t>(v)].name);
          }
          if (other == vars) {
            at = j;
          }
        }
      }
      PBT_CHECK(at < m.clusters.size(), "unknown tunable cluster");
      PBT_CHECK(members.size() == m.clusters[at].size(),
                "tunable cluster with another size");
      order.push_back(at);
    }
    PBT_CHECK(order.size() == m.clusters.size(),
              "another number of tunable clusters");
    Data *use = nullptr;
    Data *replaced = nullptr;
    if (!data.empty() && c.s.chance(1, 3)) {
      // other samples, iterated by something having the same address
      replaced = c.s.pick(data).get();
    }
    if (!replaced && !data.empty() && c.s.chance(1, 2)) {
      use = c.s.pick(data).get();
      c.d << "\n reuse of a train set";
    } else {
      std::vector<std::vector<std::size_t>> lib;
      c.d << "\n train set:";
      for (auto j = 1 + c.s.below(c.s.chance(1, 10) ? 40 : 6); j > 0; --j) {
        lib.emplace_back();
        for (auto &v : crf->getAllVariables()) {
          lib.back().push_back(c.s.below(v->size()));
        }
        c.d << " " << fmt(lib.back());
      }
      train::TrainSet set{lib};
      auto it = c.s.chance(1, 4) ? set.makeSubSetIterator(0.6f)
                                 : set.makeIterator();
      if (replaced) {
        c.d << " replacing another one";
        c.label("train set replaced");
        replaced->set = set;
        replaced->it.~Iterator();
        new (&replaced->it) train::TrainSet::Iterator(it);
        use = replaced;
      } else {
        data.push_back(std::make_unique<Data>(Data{set, it}));
        use = data.back().get();
      }
    }
    if (use->it.size() == 0) {
      continue;
    }
    std::vector<std::vector<std::size_t>> samples;
    use->it.forEachSample([&](const std::vector<std::size_t> &smp) {
      samples.emplace_back(m.vars.size(), 0);
      std::size_t pos = 0;
      for (auto &v : crf->getAllVariables()) {
        samples.back()[static_cast<std::size_t>(m.find(v->name()))] =
            smp[pos++];
      }
    });
    auto e = expectedGradient(m, samples, observed, true);
    std::vector<double> expected;
    for (auto at : order) {
      expected.push_back(e[at]);
    }
    const auto weights = crf->getWeights();
    compareGradient(crf->getWeightsGradient(use->it, w.genThreads()), expected,
                    "conditional gradient");
    PBT_CHECK(crf->getWeights() == weights, "the gradient changed the weights");
    c.nontrivial = true;
    c.label(copy ? "copied factors" : "shared factors");
    for (auto &cl : m.clusters) {
      if (cl.size() > 1) {
        c.label("shared weights");
      }
    }
    if (c.s.chance(1, 2)) {
      auto weights = crf->getWeights();
      for (std::size_t j = 0; j < weights.size(); ++j) {
        weights[j] = -2.f + 0.01f * static_cast<float>(c.s.below(400));
        for (int f : m.clusters[order[j]]) {
          m.facs[static_cast<std::size_t>(f)].w = weights[j];
        }
      }
      c.d << "\n setWeights " << fmt(weights);
      crf->setWeights(weights);
    }
    if (c.s.chance(1, 3)) {
      crf->getHiddenSetMAP();
    }
  }
}
} // namespace

const pbt::Property pbt::PROPERTY = {
    "C13",
    "non-trivial: at least one gradient of a conditional model is compared "
    "with the reference",
    {"exactness is claimed when the hidden variables form trees once the "
     "evidences are set",
     "train samples follow the order of the variables of the conditional "
     "model",
     "tolerance 1e-3 relative, 2e-4 absolute"},
    {{"history", history, 17500, 250000}}};
