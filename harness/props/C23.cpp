// Training hands to the trainer the weights and the gradient of the cost.
// Built with stand-ins of the interface of the external training library.
#include "../world.h"

#include <EasyFactorGraph/Error.h>
#include <EasyFactorGraph/trainable/ModelTrainer.h>

#include <cmath>
#include <functional>

using namespace wld;
using pbt::Case;

namespace {
struct Interruption {};

class Script : public ::train::Trainer {
public:
  explicit Script(std::function<void(::train::ParametersAware &)> f)
      : f(std::move(f)) {}
  void train(::train::ParametersAware &model) final { f(model); }

private:
  std::function<void(::train::ParametersAware &)> f;
};

std::vector<float> floats(const ::train::Vect &v) {
  std::vector<float> r;
  for (Eigen::Index k = 0; k < v.size(); ++k) {
    r.push_back(static_cast<float>(v(k)));
  }
  return r;
}

struct Subject {
  World w;
  std::unique_ptr<model::ConditionalRandomField> crf;
  ref::Model m;
  std::vector<int> observed;
  std::vector<std::size_t> order; // clusters of the reference

  Subject(Case &c, const Options &o) : w(c, o) {}

  EFG::train::FactorsTunableGetter &model() {
    if (crf) {
      return *crf;
    }
    return *w.field;
  }
  strct::StateAware &state() {
    if (crf) {
      return *crf;
    }
    return *w.field;
  }
  strct::QueryManager &query() {
    if (crf) {
      return *crf;
    }
    return *w.field;
  }
};

std::unique_ptr<Subject> make(Case &c) {
  Options o;
  o.tunable = true;
  o.tunableOften = c.s.chance(2, 3);
  o.zeros = false;
  const bool conditional = c.s.chance(1, 2);
  o.loops = conditional ? 3 : 0;
  o.maxVars = 6;
  auto r = std::make_unique<Subject>(c, o);
  auto &w = r->w;
  w.grow(2 + c.s.below(4));
  for (auto k = c.s.below(6); k > 0; --k) {
    w.mutate();
  }
  if (w.ref.clusters.empty()) {
    pbt::discard("no tunable factor");
  }
  if (!conditional) {
    r->order = w.clusterOrder();
    r->m = w.ref;
    return r;
  }
  if (!w.observeForConditional(true)) {
    pbt::discard("no conditional model");
  }
  r->m = w.ref;
  for (auto &[v, x] : r->m.ev) {
    r->observed.push_back(v);
  }
  c.d << "\n conditional model";
  r->crf = std::make_unique<model::ConditionalRandomField>(*w.field, true);
  // the clusters of the two models, matched through the variables
  for (auto &cl : r->crf->getTunableClusters()) {
    std::set<std::string> vars;
    for (auto &v :
         clusterMembers(cl).front()->function().vars().getVariables()) {
      vars.insert(v->name());
    }
    std::size_t at = r->m.clusters.size();
    for (std::size_t j = 0; j < r->m.clusters.size(); ++j) {
      for (int f : r->m.clusters[j]) {
        std::set<std::string> other;
        for (int v : r->m.facs[static_cast<std::size_t>(f)].vars) {
          other.insert(r->m.vars[static_cast<std::size_t>(v)].name);
        }
        if (other == vars) {
          at = j;
        }
      }
    }
    PBT_CHECK(at < r->m.clusters.size(), "unknown tunable cluster");
    r->order.push_back(at);
  }
  return r;
}

// in the order of the clusters of the model
std::vector<double> cost(Subject &x,
                         const std::vector<std::vector<std::size_t>> &lib) {
  std::vector<std::vector<std::size_t>> samples;
  for (auto &smp : lib) {
    samples.emplace_back(x.m.vars.size(), 0);
    std::size_t pos = 0;
    for (auto &v : x.state().getAllVariables()) {
      samples.back()[static_cast<std::size_t>(x.m.find(v->name()))] =
          smp[pos++];
    }
  }
  auto e = expectedGradient(x.m, samples, x.observed, x.crf != nullptr);
  std::vector<double> r;
  for (auto at : x.order) {
    r.push_back(-e[at]);
  }
  return r;
}

bool matches(const std::vector<float> &got, const std::vector<double> &e) {
  try {
    compareGradient(got, e, "");
  } catch (const pbt::Fail &) {
    return false;
  }
  return true;
}

void setReference(Subject &x, const std::vector<float> &w) {
  for (std::size_t k = 0; k < w.size(); ++k) {
    for (int f : x.m.clusters[x.order[k]]) {
      x.m.facs[static_cast<std::size_t>(f)].w = w[k];
    }
  }
}

std::vector<float> referenceWeights(const Subject &x) {
  std::vector<float> r;
  for (auto at : x.order) {
    r.push_back(
        x.m.facs[static_cast<std::size_t>(x.m.clusters[at].front())].w);
  }
  return r;
}

void checkAnswers(Subject &x) {
  PBT_CHECK(x.model().getWeights() == referenceWeights(x),
            "weights after the training: " << fmt(x.model().getWeights())
                                           << " instead of "
                                           << fmt(referenceWeights(x)));
  x.m.ev.clear();
  for (auto &[v, val] : x.state().getEvidences()) {
    x.m.ev[x.m.find(v->name())] = val;
  }
  for (int v : x.m.hiddenVars()) {
    auto &var = x.m.vars[static_cast<std::size_t>(v)];
    compareDistribution(x.query().getMarginalDistribution(var.name),
                        x.m.eliminate({v})->v,
                        "marginal of " + var.name + " after the training");
  }
}

void training(Case &c) {
  auto s = make(c);
  auto &x = *s;
  // the samples
  std::vector<std::vector<std::size_t>> lib;
  const bool partial = c.s.chance(1, 2);
  const auto n = partial ? 2 + c.s.below(3) : 1 + c.s.below(8);
  const bool same = partial && c.s.chance(1, 2);
  for (std::uint64_t k = 0; k < n; ++k) {
    if (same && k > 0) {
      lib.push_back(lib.front());
      continue;
    }
    lib.emplace_back();
    for (auto &v : x.state().getAllVariables()) {
      lib.back().push_back(c.s.below(v->size()));
    }
  }
  c.d << "\n train set:";
  for (auto &smp : lib) {
    c.d << " " << fmt(smp);
  }
  EFG::train::TrainInfo info;
  info.threads = c.s.chance(1, 8) ? 2 + c.s.below(2) : 1;
  if (partial) {
    // one sample each time, or all but one when they are all the same
    info.stochastic_percentage =
        same ? 0.99f : 1.2f / static_cast<float>(n);
  }
  c.d << " portion " << info.stochastic_percentage << " threads "
      << info.threads;
  const auto actions = 1 + c.s.below(8);
  std::size_t gradients = 0;
  bool interrupted = false;
  Script script{[&](::train::ParametersAware &p) {
    for (std::uint64_t k = 0; k < actions; ++k) {
      switch (c.s.below(3)) {
      case 0: {
        auto got = p.getParameters();
        PBT_CHECK(floats(got) == referenceWeights(x),
                  "parameters " << fmt(floats(got)) << " instead of "
                                << fmt(referenceWeights(x)));
        break;
      }
      case 1: {
        ::train::Vect next(static_cast<Eigen::Index>(x.order.size()));
        if (c.s.chance(1, 6)) {
          // whatever the magnitude
          for (Eigen::Index j = 0; j < next.size(); ++j) {
            next(j) = static_cast<double>(c.s.pick(std::vector<float>{
                1000.f, -77.f, 1e-7f, -3e30f, 0.f, -0.1f, 123456.7f}));
          }
          c.d << "\n setParameters " << fmt(floats(next));
          p.setParameters(next);
          PBT_CHECK(x.model().getWeights() == floats(next) &&
                        floats(p.getParameters()) == floats(next),
                    "the weights are not the ones set by the trainer");
        }
        for (Eigen::Index j = 0; j < next.size(); ++j) {
          next(j) = -1.5 + 0.01 * static_cast<double>(c.s.below(300));
        }
        c.d << "\n setParameters " << fmt(floats(next));
        p.setParameters(next);
        setReference(x, floats(next));
        PBT_CHECK(x.model().getWeights() == floats(next),
                  "the weights are not the ones set by the trainer");
        break;
      }
      default: {
        c.d << "\n gradient";
        auto got = floats(p.getGradient());
        PBT_CHECK(got.size() == x.order.size(), "gradient of another size");
        ++gradients;
        if (!partial) {
          compareGradient(got, cost(x, lib), "gradient of the cost");
          break;
        }
        if (same) {
          compareGradient(got, cost(x, {lib.front()}),
                          "gradient of the cost on a portion");
          break;
        }
        bool found = false;
        for (auto &smp : lib) {
          found = found || matches(got, cost(x, {smp}));
        }
        PBT_CHECK(found, "the gradient on one sample out of "
                             << n << " is not the one of any of them: "
                             << fmt(got));
      }
      }
    }
    if (c.s.chance(1, 8)) {
      c.d << "\n interrupted";
      interrupted = true;
      throw Interruption{};
    }
  }};
  bool thrown = false;
  try {
    EFG::train::train_model(x.model(), script, EFG::train::TrainSet{lib}, info);
  } catch (const Interruption &) {
    thrown = true;
  }
  PBT_CHECK(thrown == interrupted, "the exception of the trainer is lost");
  checkAnswers(x);
  c.label(x.crf ? "conditional" : "random field");
  if (partial) {
    c.label("portion");
  }
  c.nontrivial = gradients > 0;
}

// every gradient is on a portion drawn again
void portions(Case &c) {
  auto s = make(c);
  auto &x = *s;
  std::vector<std::vector<std::size_t>> lib(2);
  for (auto &v : x.state().getAllVariables()) {
    lib[0].push_back(c.s.below(v->size()));
    lib[1].push_back(c.s.below(v->size()));
  }
  const auto a = cost(x, {lib[0]}), b = cost(x, {lib[1]});
  double diff = 0;
  for (std::size_t k = 0; k < a.size(); ++k) {
    diff = std::max(diff, std::abs(a[k] - b[k]));
  }
  if (diff < 0.05) {
    pbt::discard("same gradient for both samples");
  }
  EFG::train::TrainInfo info;
  info.stochastic_percentage = 0.6f;
  bool first = false, second = false;
  Script script{[&](::train::ParametersAware &p) {
    for (int k = 0; k < 60 && !(first && second); ++k) {
      auto got = floats(p.getGradient());
      if (matches(got, a)) {
        first = true;
      } else {
        PBT_CHECK(matches(got, b), "gradient of none of the samples");
        second = true;
      }
    }
  }};
  EFG::train::train_model(x.model(), script, EFG::train::TrainSet{lib}, info);
  PBT_CHECK(first && second, "60 gradients on the same portion");
  checkAnswers(x);
  c.nontrivial = true;
}

void invalid(Case &c) {
  auto s = make(c);
  auto &x = *s;
  std::vector<std::vector<std::size_t>> lib(1);
  for (auto &v : x.state().getAllVariables()) {
    lib[0].push_back(c.s.below(v->size()));
  }
  EFG::train::TrainInfo info;
  static const std::vector<float> bad = {0.f, -0.5f, 1.5f, 3.f,
                                         std::nanf("")};
  if (c.s.chance(1, 2)) {
    info.threads = 0;
    c.d << "\n 0 threads";
  } else {
    info.stochastic_percentage = c.s.pick(bad);
    c.d << "\n portion " << info.stochastic_percentage;
  }
  Script script{[](::train::ParametersAware &p) { p.getGradient(); }};
  bool refused = false;
  try {
    EFG::train::train_model(x.model(), script, EFG::train::TrainSet{lib}, info);
  } catch (const std::exception &) {
    refused = true;
  }
  PBT_CHECK(refused, "accepted");
  checkAnswers(x);
  c.nontrivial = true;
}
} // namespace

const pbt::Property pbt::PROPERTY = {
    "C23",
    "non-trivial: the trainer asks for at least one gradient, compared with "
    "the reference",
    {"the interface of the external training library is replaced by a "
     "stand-in; its algorithms are not exercised",
     "random fields without loops, conditional ones with hidden trees"},
    {{"training", training, 20000, 400000},
     {"portions", portions, 4000, 60000},
     {"invalid", invalid, 3000, 30000}}};
