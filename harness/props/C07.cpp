// Loopy propagation: sound beliefs, convergence reported, exact where theory
// says so.
#include "../world.h"
#include <EasyFactorGraph/structure/BaselineLoopyPropagator.h>
#include <algorithm>
#include <cmath>
using namespace wld;
using pbt::Case;

namespace {
bool anyLoopy(const ref::Model &m) {
  for (auto &comp : m.components()) {
    if (!comp.tree()) {
      return true;
    }
  }
  return false;
}

// when messages contract, beliefs are the ones of the unique fixed point
void fixedPoint(Case &c) {
  Options o;
  o.tunable = c.s.chance(1, 2);
  o.weak = true;
  o.strongUnaries = true;
  o.zeros = false;
  o.loops = 8;
  o.maxVars = 8;
  o.maxSize = 3;
  World w{c, o};
  w.grow(3 + c.s.below(5));
  for (auto k = c.s.below(5); k > 0; --k) {
    w.addBinary();
  }
  const auto steps = 2 + c.s.below(10);
  std::size_t compared = 0;
  auto check = [&]() {
    auto &m = w.ref;
    if (m.vars.empty() || !weaklyCoupled(m, 0.45)) {
      return;
    }
    auto expected = loopyBeliefs(m);
    auto comps = m.components();
    const auto th = w.genThreads();
    for (auto &[v, e] : expected) {
      auto &rv = m.vars[static_cast<std::size_t>(v)];
      auto got = w.query().getMarginalDistribution(rv.ptr, th);
      checkIsDistribution(got, rv.size, "marginal of " + rv.name);
      const bool tree =
          comps[static_cast<std::size_t>(m.componentOf(comps, v))].tree();
      compareDistribution(got, e,
                          std::string(tree ? "marginal of "
                                           : "belief of ") +
                              rv.name,
                          tree ? 1e-3 : 0, tree ? 1e-7 : 1e-2);
      compared += !tree;
    }
    for (auto &[v, x] : m.ev) {
      w.checkMarginal(v);
    }
    if (anyLoopy(m)) {
      w.checkPropagationResult(strct::PropagationKind::SUM);
      PBT_CHECK(w.factors().getLastPropagationResult().was_completed,
                "propagation reported as not completed");
    }
  };
  for (std::uint64_t k = 0; k < steps; ++k) {
    w.mutate();
    if (c.s.chance(1, 4)) {
      w.noise();
    }
    if (c.s.chance(1, 4)) {
      check();
    }
  }
  check();
  c.nontrivial = compared > 0;
}

// single loops: when max product completes, it finds the MAP
void singleLoop(Case &c) {
  Options o;
  o.tunable = false;
  o.evidence = false;
  World w{c, o};
  w.pool.clear();
  const auto n = 3 + c.s.below(4);
  const auto extra = c.s.below(3);
  for (std::uint64_t k = 0; k < n + extra; ++k) {
    w.pool.push_back({categoric::make_variable(2 + c.s.below(2),
                                               "v" + std::to_string(k)),
                      -1});
  }
  auto connect = [&](std::uint64_t a, std::uint64_t b) {
    std::vector<int> ab = {static_cast<int>(a), static_cast<int>(b)};
    c.s.shuffle(ab);
    w.insert(ab,
             genTable(c.s, w.pool[a].ptr->size() * w.pool[b].ptr->size(),
                      c.s.chance(2, 3) ? Images::MILD : Images::POSITIVE),
             false, 1, false, -1);
  };
  for (std::uint64_t k = 0; k < n; ++k) {
    connect(k, (k + 1) % n);
  }
  for (std::uint64_t k = n; k < n + extra; ++k) {
    connect(k, c.s.below(k));
  }
  for (std::uint64_t k = 0; k < n + extra; ++k) {
    if (c.s.chance(1, 2)) {
      w.insert({static_cast<int>(k)},
               genTable(c.s, w.pool[k].ptr->size(), Images::MILD), false, 1,
               false, -1);
    }
  }
  if (c.s.chance(1, 3)) {
    w.noise();
  }
  const auto th = w.genThreads();
  auto hid = w.query().getHiddenSetMAP(th);
  w.checkPropagationResult(strct::PropagationKind::MAP);
  if (!w.factors().getLastPropagationResult().was_completed) {
    c.label("max product did not converge");
    return;
  }
  std::vector<std::size_t> got(w.ref.vars.size());
  std::size_t k = 0;
  for (auto &v : w.factors().getHiddenVariables()) {
    got[static_cast<std::size_t>(w.ref.find(v->name()))] = hid[k++];
  }
  // the theorem needs the optimum and the one of the beliefs at the fixed
  // point to be clearly unique
  auto clear = [](const std::vector<double> &p) {
    const auto best = *std::max_element(p.begin(), p.end());
    std::size_t close = 0;
    for (double x : p) {
      close += x > 0.75 * best;
    }
    return close == 1;
  };
  auto beliefs = loopyBeliefs(w.ref, true);
  if (beliefs.size() != w.ref.vars.size()) {
    return;
  }
  for (auto &[v, b] : beliefs) {
    if (!clear(b) || !clear(w.ref.eliminate({v}, true)->v)) {
      return;
    }
  }
  c.nontrivial = true;
  for (int v = 0; v < static_cast<int>(w.ref.vars.size()); ++v) {
    auto e = w.ref.eliminate({v}, true);
    const auto x = got[static_cast<std::size_t>(v)];
    PBT_CHECK(e->v[x] > 0.99,
              "hidden set MAP: " << w.ref.vars[static_cast<std::size_t>(v)].name
                                 << " is " << x << " but the max-marginals are "
                                 << fmt(e->v));
    const auto one =
        w.query().getMAP(w.ref.vars[static_cast<std::size_t>(v)].ptr, th);
    PBT_CHECK(one == x, "getMAP says " << one << ", getHiddenSetMAP " << x);
  }
}

// a single loop, with trees attached: sum product has a unique fixed point,
// reached from everywhere. Any number of threads
void ring(Case &c) {
  Options o;
  o.tunable = false;
  World w{c, o};
  w.pool.clear();
  const auto n = 3 + c.s.below(c.s.chance(1, 3) ? 9 : 3);
  const auto extra = c.s.below(4);
  for (std::uint64_t k = 0; k < n + extra; ++k) {
    w.pool.push_back({categoric::make_variable(2 + c.s.below(2),
                                               "v" + std::to_string(k)),
                      -1});
  }
  std::vector<std::pair<std::uint64_t, std::uint64_t>> edges;
  for (std::uint64_t k = 0; k < n; ++k) {
    edges.push_back({k, (k + 1) % n});
  }
  for (std::uint64_t k = n; k < n + extra; ++k) {
    edges.push_back({k, c.s.below(k)});
  }
  c.s.shuffle(edges);
  // contraction of the messages along the whole loop
  double contraction = 1;
  for (auto &[a, b] : edges) {
    std::vector<int> ab = {static_cast<int>(a), static_cast<int>(b)};
    c.s.shuffle(ab);
    const auto na = w.pool[static_cast<std::size_t>(ab[0])].ptr->size();
    const auto nb = w.pool[static_cast<std::size_t>(ab[1])].ptr->size();
    std::vector<float> t;
    if (c.s.chance(1, 2)) {
      t = genTable(c.s, na * nb, Images::MILD);
    } else {
      // equal values preferred
      const float e = 1.f + static_cast<float>(c.s.below(60)) * 0.1f;
      for (std::size_t x = 0; x < na; ++x) {
        for (std::size_t y = 0; y < nb; ++y) {
          t.push_back(x == y ? e : 1.f);
        }
      }
    }
    if (a < n && b < n) {
      double worst = 0; // Birkhoff's diameter
      for (std::size_t x = 0; x < na; ++x) {
        for (std::size_t x2 = 0; x2 < na; ++x2) {
          for (std::size_t y = 0; y < nb; ++y) {
            for (std::size_t y2 = 0; y2 < nb; ++y2) {
              worst = std::max(
                  worst, std::log(static_cast<double>(t[x * nb + y])) +
                             std::log(static_cast<double>(t[x2 * nb + y2])) -
                             std::log(static_cast<double>(t[x * nb + y2])) -
                             std::log(static_cast<double>(t[x2 * nb + y])));
            }
          }
        }
      }
      contraction *= std::tanh(0.25 * worst);
    }
    w.insert(ab, t, false, 1, false, -1);
  }
  for (std::uint64_t k = 0; k < n + extra; ++k) {
    if (c.s.chance(1, 3)) {
      std::vector<float> t(w.pool[k].ptr->size(), 1.f);
      t[c.s.below(t.size())] += static_cast<float>(c.s.below(10));
      w.insert({static_cast<int>(k)}, t, false, 1, false, -1);
    }
  }
  if (contraction > 0.35) {
    pbt::discard("slow");
  }
  auto expected = loopyBeliefs(w.ref);
  if (expected.size() != w.ref.vars.size()) {
    pbt::discard("fixed point not found");
  }
  const auto th = c.s.chance(1, 4) ? 1 : 2 + c.s.below(3);
  c.d << "\n threads " << th;
  const auto change = c.s.below(3); // some of the variables get another unary
  for (std::uint64_t round = 0; round <= change; ++round) {
    for (auto &[v, e] : expected) {
      auto &rv = w.ref.vars[static_cast<std::size_t>(v)];
      auto got = w.query().getMarginalDistribution(rv.ptr, th);
      checkIsDistribution(got, rv.size, "marginal of " + rv.name);
      compareDistribution(got, e, "belief of " + rv.name, 0, 4e-3);
    }
    PBT_CHECK(w.factors().getLastPropagationResult().was_completed,
              "propagation reported as not completed");
    if (round == change) {
      break;
    }
    const auto k = c.s.below(w.pool.size());
    std::vector<float> t(w.pool[k].ptr->size(), 1.f);
    t[c.s.below(t.size())] += static_cast<float>(c.s.below(30));
    w.insert({static_cast<int>(k)}, t, false, 1, false, -1);
    expected = loopyBeliefs(w.ref);
    if (expected.size() != w.ref.vars.size()) {
      break;
    }
  }
  c.nontrivial = true;
  c.label(th > 1 ? "ring, threads" : "ring");
}

// strongly coupled models: whatever the propagation does, what is returned is
// a distribution and the result is honestly reported
void strong(Case &c) {
  Options o;
  o.tunable = c.s.chance(1, 2);
  o.zeros = false;
  o.loops = 8;
  o.maxVars = 7;
  World w{c, o};
  const std::size_t iterations = c.s.chance(1, 3) ? 0 : c.s.below(200);
  w.factors().setPropagationContext(strct::PropagationContext{iterations});
  c.d << "max iterations " << iterations;
  w.grow(3 + c.s.below(4));
  for (auto k = 1 + c.s.below(6); k > 0; --k) {
    w.addBinary();
  }
  const auto steps = 2 + c.s.below(12);
  for (std::uint64_t k = 0; k < steps; ++k) {
    w.mutate();
    if (w.ref.vars.empty() || !c.s.chance(1, 3)) {
      continue;
    }
    const auto th = w.genThreads();
    const bool sum = c.s.chance(1, 2);
    auto &v = c.s.pick(w.ref.vars);
    if (sum) {
      for (auto &x : w.ref.vars) {
        checkIsDistribution(w.query().getMarginalDistribution(x.ptr, th),
                            x.size, "marginal of " + x.name);
      }
    } else {
      const auto x = w.query().getMAP(v.ptr, th);
      PBT_CHECK(x < v.size, "MAP out of domain");
    }
    w.checkPropagationResult(sum ? strct::PropagationKind::SUM
                                 : strct::PropagationKind::MAP);
    const bool loopy = anyLoopy(w.ref);
    const bool done = w.factors().getLastPropagationResult().was_completed;
    PBT_CHECK(loopy || done, "trees reported as not completed");
    PBT_CHECK(!(loopy && iterations == 0 && done),
              "reported as completed without any iteration");
    if (loopy) {
      c.nontrivial = true;
      c.label(done ? "completed" : "not completed");
    }
    // trees are exact whatever happens to the loopy parts
    if (sum) {
      w.checkAllMarginals();
    }
  }
}

// the strategy set by the user handles the clusters with loops, only them
void strategy(Case &c) {
  struct Spy : public strct::LoopyBeliefPropagationStrategy {
    std::shared_ptr<std::vector<std::size_t>> sizes;
    std::shared_ptr<std::vector<bool>> answers;
    std::shared_ptr<std::vector<strct::PropagationKind>> kinds;
    std::shared_ptr<std::vector<std::size_t>> limits;
    std::shared_ptr<std::vector<std::size_t>> who;
    std::size_t id = 0;
    pbt::Src *s;
    strct::BaselineLoopyPropagator inner;

    bool propagateBelief(strct::HiddenCluster &subject,
                         strct::PropagationKind kind,
                         const strct::PropagationContext &context,
                         strct::Pool &pool) override {
      inner.propagateBelief(subject, kind, context, pool);
      sizes->push_back(subject.nodes.size());
      kinds->push_back(kind);
      limits->push_back(context.max_iterations_loopy_propagation);
      who->push_back(id);
      answers->push_back(s->chance(2, 3));
      return answers->back();
    }
  };
  auto sizes = std::make_shared<std::vector<std::size_t>>();
  auto limits = std::make_shared<std::vector<std::size_t>>();
  auto answers = std::make_shared<std::vector<bool>>();
  auto kinds = std::make_shared<std::vector<strct::PropagationKind>>();
  auto who = std::make_shared<std::vector<std::size_t>>();
  auto makeSpy = [&](std::size_t id) {
    auto spy = std::make_unique<Spy>();
    spy->sizes = sizes;
    spy->answers = answers;
    spy->kinds = kinds;
    spy->limits = limits;
    spy->who = who;
    spy->id = id;
    spy->s = &c.s;
    return spy;
  };
  std::size_t current = 0;
  Options o;
  o.tunable = c.s.chance(1, 2);
  o.zeros = false;
  o.loops = 6;
  o.maxVars = 9;
  World w{c, o};
  w.factors().setLoopyPropagationStrategy(makeSpy(current));
  std::size_t limit = 1 + c.s.below(50);
  w.factors().setPropagationContext(strct::PropagationContext{limit});
  if (c.s.chance(1, 2)) {
    // several separated loops, and possibly trees
    w.pool.clear();
    for (auto r = 2 + c.s.below(4); r > 0; --r) {
      const auto from = static_cast<int>(w.pool.size());
      const auto n = static_cast<int>(c.s.chance(1, 4) ? 2 : 3 + c.s.below(3));
      for (int k = 0; k < n; ++k) {
        w.pool.push_back(
            {categoric::make_variable(2 + c.s.below(2),
                                      "v" + std::to_string(w.pool.size())),
             -1});
      }
      for (int k = 0; k < (n == 2 ? 1 : n); ++k) {
        const std::vector<int> ab = {from + k, from + (k + 1) % n};
        w.insert(ab,
                 genTable(c.s,
                          w.pool[static_cast<std::size_t>(ab[0])].ptr->size() *
                              w.pool[static_cast<std::size_t>(ab[1])].ptr->size(),
                          Images::MILD),
                 false, 1, false, -1);
      }
    }
  } else {
    w.grow(3 + c.s.below(4));
    for (auto k = 1 + c.s.below(8); k > 0; --k) {
      w.addBinary();
    }
  }
  const auto steps = 4 + c.s.below(16);
  for (std::uint64_t k = 0; k < steps; ++k) {
    if (c.s.chance(1, 8)) {
      w.factors().setLoopyPropagationStrategy(makeSpy(++current));
    }
    if (c.s.chance(1, 8)) {
      limit = 1 + c.s.below(50);
      w.factors().setPropagationContext(strct::PropagationContext{limit});
    }
    // mostly evidences: insertions would merge everything
    if (!(c.s.chance(1, 2) ? w.mutate() : w.addEvidence() || w.removeOne()) ||
        w.ref.vars.empty() || !c.s.chance(1, 2)) {
      continue;
    }
    // make sure that a propagation is needed
    if (!w.updateEvidence() && !w.addUnary()) {
      continue;
    }
    sizes->clear();
    answers->clear();
    kinds->clear();
    limits->clear();
    who->clear();
    const bool sum = c.s.chance(1, 2);
    if (sum) {
      w.query().getMarginalDistribution(c.s.pick(w.ref.vars).ptr);
    } else {
      w.query().getHiddenSetMAP();
    }
    const auto kind =
        sum ? strct::PropagationKind::SUM : strct::PropagationKind::MAP;
    w.checkPropagationResult(kind);
    std::multiset<std::size_t> got{sizes->begin(), sizes->end()}, expected;
    for (auto &comp : w.ref.components()) {
      if (!comp.tree()) {
        expected.insert(comp.vars.size());
      }
    }
    PBT_CHECK(got == expected,
              "the strategy was called on " << got.size()
                                            << " clusters instead of "
                                            << expected.size());
    bool done = true;
    for (std::size_t j = 0; j < answers->size(); ++j) {
      done = done && (*answers)[j];
      PBT_CHECK((*kinds)[j] == kind, "the strategy got another kind");
      PBT_CHECK((*limits)[j] == limit, "the strategy got another context");
      PBT_CHECK((*who)[j] == current, "another strategy was used");
    }
    if (expected.size() > 1) {
      c.label("several clusters with loops");
    }
    PBT_CHECK(w.factors().getLastPropagationResult().was_completed == done,
              "was_completed does not match what the strategy answered");
    c.nontrivial = c.nontrivial || !expected.empty();
  }
}
// loops which are slow to converge: nothing is done beyond the budget, and
// the propagation is reported as completed only when the messages are steady
void budget(Case &c) {
  struct Steady : public strct::LoopyBeliefPropagationStrategy {
    std::shared_ptr<std::vector<std::pair<bool, double>>> log;
    strct::BaselineLoopyPropagator inner;

    static std::vector<double> images(const factor::UnaryFactor &m) {
      std::vector<double> r;
      double sum = 0;
      m.function().forEachCombination<true>([&](const auto &, float img) {
        r.push_back(img);
        sum += img;
      });
      for (auto &x : r) {
        x /= sum;
      }
      return r;
    }

    bool propagateBelief(strct::HiddenCluster &subject,
                         strct::PropagationKind kind,
                         const strct::PropagationContext &context,
                         strct::Pool &pool) override {
      const bool done = inner.propagateBelief(subject, kind, context, pool);
      double worst = 0;
      if (done) {
        // one more sweep
        for (auto &task : *subject.connectivity.get()) {
          const auto before = images(*task.connection->message);
          task.updateMessage(kind);
          const auto after = images(*task.connection->message);
          double change = 0;
          for (std::size_t k = 0; k < before.size(); ++k) {
            change += std::abs(before[k] - after[k]);
          }
          worst = std::max(worst, change);
        }
      }
      log->emplace_back(done, worst);
      return done;
    }
  };
  auto log = std::make_shared<std::vector<std::pair<bool, double>>>();
  Options o;
  o.tunable = false;
  World w{c, o};
  w.pool.clear();
  const int n = static_cast<int>(3 + c.s.below(4));
  for (int k = 0; k < n; ++k) {
    w.pool.push_back({categoric::make_variable(2 + c.s.below(2),
                                               "v" + std::to_string(k)),
                      -1});
  }
  // equal values are preferred: the product of the rates of the edges is the
  // rate of the whole loop
  const double rate = 0.6 + 0.01 * static_cast<double>(c.s.below(38));
  for (int k = 0; k < n; ++k) {
    std::vector<int> ab = {k, (k + 1) % n};
    c.s.shuffle(ab);
    const auto na = w.pool[static_cast<std::size_t>(ab[0])].ptr->size();
    const auto nb = w.pool[static_cast<std::size_t>(ab[1])].ptr->size();
    const double r = std::pow(rate, 1.0 / n);
    const float e = static_cast<float>((1 + r) / (1 - r));
    std::vector<float> t;
    for (std::size_t x = 0; x < na; ++x) {
      for (std::size_t y = 0; y < nb; ++y) {
        t.push_back(x == y ? e : 1.f);
      }
    }
    w.insert(ab, t, false, 1, false, -1);
  }
  // the only hint, given to one of the variables
  const auto hint = static_cast<int>(c.s.below(static_cast<std::uint64_t>(n)));
  const auto value = c.s.below(2);
  const float strength = 2.f + static_cast<float>(c.s.below(20)) * 0.2f;
  {
    std::vector<float> t(
        w.pool[static_cast<std::size_t>(hint)].ptr->size(), 1.f);
    t[value] = strength;
    w.insert({hint}, t, false, 1, false, -1);
  }
  const std::size_t iterations =
      c.s.chance(1, 4) ? 0
                       : (c.s.chance(1, 3) ? 1 + c.s.below(3)
                                           : (c.s.chance(1, 2) ? c.s.below(60)
                                                               : 1000));
  const bool spied = c.s.chance(2, 3);
  const auto th = c.s.chance(1, 2) ? 1 : 2 + c.s.below(3);
  c.d << "\n rate " << rate << " iterations " << iterations << " threads "
      << th;
  w.factors().setPropagationContext(strct::PropagationContext{iterations});
  if (spied) {
    auto s = std::make_unique<Steady>();
    s->log = log;
    w.factors().setLoopyPropagationStrategy(std::move(s));
  }
  const bool sum = c.s.chance(2, 3);
  std::map<int, std::vector<float>> beliefs;
  std::map<int, std::size_t> best;
  for (int k = 0; k < n; ++k) {
    auto &v = w.pool[static_cast<std::size_t>(k)].ptr;
    if (sum) {
      beliefs[k] = w.query().getMarginalDistribution(v, th);
      checkIsDistribution(beliefs[k], v->size(), "marginal of " + v->name());
    } else {
      best[k] = w.query().getMAP(v, th);
      PBT_CHECK(best[k] < v->size(), "MAP out of domain");
    }
  }
  w.checkPropagationResult(sum ? strct::PropagationKind::SUM
                               : strct::PropagationKind::MAP);
  const bool done = w.factors().getLastPropagationResult().was_completed;
  c.nontrivial = true;
  if (spied) {
    PBT_CHECK(!log->empty(), "the strategy was never used");
    for (auto &[d, worst] : *log) {
      PBT_CHECK(d == done, "was_completed differs from the strategy's answer");
      PBT_CHECK(!d || worst < 6e-3,
                "reported as completed, while the messages still change of "
                    << worst);
    }
  }
  if (iterations < 2) {
    // the messages start from being uniform: the first sweep changes them
    PBT_CHECK(!done, "reported as completed after " << iterations
                                                    << " iterations");
  }
  if (iterations == 0) {
    for (int k = 0; sum && k < n; ++k) {
      std::vector<double> e(beliefs[k].size(), 1.0);
      double tot = static_cast<double>(e.size());
      if (k == hint) {
        e[value] = strength;
        tot += strength - 1;
      }
      for (auto &x : e) {
        x /= tot;
      }
      compareDistribution(beliefs[k], e,
                          "no iterations: belief of v" + std::to_string(k), 0,
                          1e-5);
    }
    if (!sum) {
      PBT_CHECK(best[hint] == value, "no iterations: MAP is " << best[hint]);
    }
    c.label("no iterations");
    return;
  }
  // after any sweep the neighbours know
  for (int k : {(hint + 1) % n, (hint + n - 1) % n}) {
    if (value >= w.pool[static_cast<std::size_t>(k)].ptr->size()) {
      continue;
    }
    if (sum) {
      for (std::size_t x = 0; x < beliefs[k].size(); ++x) {
        PBT_CHECK(x == value || beliefs[k][value] > beliefs[k][x] + 1e-3f,
                  "nothing reached v" << k << ": " << fmt(beliefs[k]));
      }
    } else {
      PBT_CHECK(best[k] == value, "nothing reached v" << k);
    }
  }
  c.label(done ? "completed" : "not completed");
}
// Loops of binary variables needing up to thousands of sweeps: whatever the
// factors, the messages on a single loop converge (Weiss), so that a large
// enough budget has to be used and the propagation reported as completed
void patient(Case &c) {
  Options o;
  o.tunable = false;
  World w{c, o};
  w.pool.clear();
  const std::size_t n = 3 + c.s.below(3);
  for (std::size_t k = 0; k < n; ++k) {
    w.pool.push_back(
        {categoric::make_variable(2, "v" + std::to_string(k)), -1});
  }
  static const double RATES[] = {0.9, 0.97, 0.99, 0.995, 0.998, 0.999};
  const double rate = RATES[c.s.below(c.tier ? 6 : 5)];
  const double r = std::pow(rate, 1.0 / static_cast<double>(n));
  const float e = static_cast<float>((1 + r) / (1 - r));
  std::vector<double> slope; // of the edge from k to k + 1
  bool frustrated = false;
  for (std::size_t k = 0; k < n; ++k) {
    bool same = c.s.chance(1, 2);
    if (k + 1 == n && c.s.chance(4, 5)) {
      same = frustrated; // at the end, an odd number of opposite values
    }
    frustrated = frustrated != !same;
    slope.push_back(same ? r : -r);
    std::vector<int> ab = {static_cast<int>(k),
                           static_cast<int>((k + 1) % n)};
    c.s.shuffle(ab);
    w.insert(ab,
             {same ? e : 1.f, same ? 1.f : e, same ? 1.f : e, same ? e : 1.f},
             false, 1, false, -1);
  }
  std::vector<double> bias(n, 0); // half of the log of the ratio
  for (std::size_t k = 0; k < n; ++k) {
    if (k == 0 || c.s.chance(1, 3)) {
      const float x = 1.1f + 0.1f * static_cast<float>(c.s.below(6));
      const bool first = c.s.chance(1, 2);
      w.insert({static_cast<int>(k)}, {first ? x : 1.f, first ? 1.f : x},
               false, 1, false, -1);
      bias[k] = (first ? 0.5 : -0.5) * std::log(static_cast<double>(x));
    }
  }
  c.d << "\n rate " << rate << (frustrated ? ", frustrated" : "");
  // every revolution needs at most n sweeps
  w.factors().setPropagationContext(strct::PropagationContext{1000000});
  c.nontrivial = true;
  std::vector<std::vector<float>> got;
  for (std::size_t k = 0; k < n; ++k) {
    got.push_back(
        w.query().getMarginalDistribution(w.pool[k].ptr, 1));
    checkIsDistribution(got.back(), 2, "marginal of " + w.pool[k].ptr->name());
  }
  w.checkPropagationResult(strct::PropagationKind::SUM);
  PBT_CHECK(w.factors().getLastPropagationResult().was_completed,
            "not completed, even if the messages of a loop converge and the "
            "iterations are not a limit");
  c.label(frustrated ? "frustrated" : "not frustrated");
  if (!frustrated) {
    return; // steady messages may still be far from the fixed point
  }
  // messages as half log ratios; the map of a revolution is decreasing
  auto step = [&](double u, std::size_t from, double s) {
    return std::atanh(s * std::tanh(bias[from] + u));
  };
  std::vector<double> total = bias;
  for (bool forward : {true, false}) {
    auto revolution = [&](double u, bool collect) {
      std::size_t at = 0;
      for (std::size_t k = 0; k < n; ++k) {
        if (collect) {
          total[at] += u;
        }
        const auto next = forward ? (at + 1) % n : (at + n - 1) % n;
        u = step(u, at, slope[forward ? at : next]);
        at = next;
      }
      return u;
    };
    double lo = -20, hi = 20;
    for (int k = 0; k < 200; ++k) {
      const double mid = 0.5 * (lo + hi);
      (revolution(mid, false) > mid ? lo : hi) = mid;
    }
    revolution(lo, true);
  }
  for (std::size_t k = 0; k < n; ++k) {
    const double p = 1 / (1 + std::exp(-2 * total[k]));
    compareDistribution(got[k], {p, 1 - p}, "belief of v" + std::to_string(k),
                        0, 0.01);
  }
}
} // namespace

const pbt::Property pbt::PROPERTY = {
    "C07",
    "non-trivial: at least one cluster with loops is propagated and what is "
    "returned is compared with the oracle",
    {"beliefs are compared (tolerance 0.01) with the fixed point only when "
     "propagation is a contraction with factor below 0.45: the fixed point is "
     "unique and reached from everywhere",
     "MAP estimates are compared when the graph has a single loop, the "
     "propagation is reported as completed and both the optimum and the "
     "beliefs at the fixed point are clearly unique "
     "(the premise of the theorem)"},
    {{"fixed-point", fixedPoint, 3600, 75000},
     {"single-loop", singleLoop, 3000, 60000},
     {"ring", ring, 960, 18000},
     {"strong", strong, 1440, 22500},
     {"strategy", strategy, 1200, 18000},
     {"budget", budget, 2400, 36000},
     {"patient", patient, 48, 1200}}};
