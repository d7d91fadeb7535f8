// What the library answers does not depend on the number of threads, nor on
// what other threads do with other models.
#include "../world.h"

#include <EasyFactorGraph/io/json/Exporter.h>
#include <EasyFactorGraph/io/json/Importer.h>

#include <cmath>
#include <thread>
using namespace wld;
using pbt::Case;

namespace {
struct Answers {
  std::vector<std::vector<float>> marginals; // one per variable of the ref
  std::vector<float> joint;
  std::vector<std::size_t> map; // one per variable of the ref
  std::vector<float> gradient;
};

std::vector<VariablePtr> jointVars(pbt::Src &s, const ref::Model &m) {
  std::vector<VariablePtr> all;
  for (auto &v : m.vars) {
    all.push_back(v.ptr);
  }
  s.shuffle(all);
  all.resize(std::min<std::size_t>(all.size(), 1 + s.below(3)));
  return all;
}

// every group of queries is preceded by something making a new propagation
// needed: all of them really use the requested threads
Answers ask(strct::QueryManager &q, strct::FactorsAware &f,
            const ref::Model &m, const std::vector<VariablePtr> &joint,
            std::size_t threads) {
  Answers a;
  a.map.resize(m.vars.size());
  for (std::size_t k = 0; k < m.vars.size(); ++k) {
    a.map[k] = q.getMAP(m.vars[k].ptr, threads);
  }
  auto hid = q.getHiddenSetMAP(threads);
  auto names = f.getHiddenVariables();
  PBT_CHECK(hid.size() == names.size(), "hidden set MAP of another size");
  std::size_t at = 0;
  for (auto &v : names) {
    const auto k = static_cast<std::size_t>(m.find(v->name()));
    PBT_CHECK(a.map[k] == hid[at], "getMAP and getHiddenSetMAP disagree on "
                                       << v->name());
    ++at;
  }
  for (auto &v : m.vars) {
    a.marginals.push_back(q.getMarginalDistribution(v.ptr, threads));
  }
  // a new propagation with the other kind in the middle
  q.getMAP(m.vars.front().ptr, threads);
  a.joint =
      q.getJointMarginalDistribution(categoric::Group{joint}, threads)
          .getProbabilities();
  return a;
}

std::string who(std::size_t a, std::size_t b) {
  return " (" + std::to_string(a) + " vs " + std::to_string(b) + " threads)";
}

void queries(Case &c) {
  Options o;
  o.tunable = c.s.chance(1, 2);
  o.loops = c.s.chance(1, 2) ? 4 : 0;
  o.weak = o.loops > 0;
  o.zeros = !o.weak;
  o.maxVars = 12;
  World w{c, o};
  if (c.s.chance(1, 40)) {
    w.buildForest(60);
  }
  w.grow(2 + c.s.below(8));
  const auto rounds = 1 + c.s.below(2);
  for (std::uint64_t r = 0; r < rounds; ++r) {
    for (auto k = c.s.below(6); k > 0; --k) {
      w.mutate();
    }
    if (w.ref.vars.empty() || !w.ref.possible()) {
      continue;
    }
    bool trees = true;
    for (auto &comp : w.ref.components()) {
      trees = trees && comp.tree();
    }
    const bool weak = !trees && weaklyCoupled(w.ref, 0.4);
    auto joint = jointVars(c.s, w.ref);
    // more threads than cores would just take long: workers are busy waiting
    std::vector<std::size_t> ths = {2 + c.s.below(3)};
    if (trees && c.s.chance(1, 3)) {
      ths.push_back(1 + c.s.below(4));
    }
    if (trees && w.ref.vars.size() < 7 && c.s.chance(1, 12)) {
      ths.push_back(5 + c.s.below(4));
    }
    c.d << "\n ask with threads 1 " << fmt(ths) << " joint of";
    for (auto &v : joint) {
      c.d << " " << v->name();
    }
    const auto base = ask(w.query(), w.factors(), w.ref, joint, 1);
    for (auto th : ths) {
      const auto got = ask(w.query(), w.factors(), w.ref, joint, th);
      if (!trees && !weak) {
        // the order of the messages matters here
        for (std::size_t k = 0; k < w.ref.vars.size(); ++k) {
          checkIsDistribution(got.marginals[k], w.ref.vars[k].size,
                              "marginal of " + w.ref.vars[k].name);
        }
        continue;
      }
      const double rel = trees ? 1e-3 : 0.02, abs = trees ? 1e-6 : 0.01;
      for (std::size_t k = 0; k < w.ref.vars.size(); ++k) {
        std::vector<double> e{base.marginals[k].begin(),
                              base.marginals[k].end()};
        compareDistribution(got.marginals[k], e,
                            "marginal of " + w.ref.vars[k].name + who(th, 1),
                            rel, abs);
      }
      compareDistribution(got.joint,
                          std::vector<double>{base.joint.begin(),
                                              base.joint.end()},
                          "joint" + who(th, 1), rel, abs);
      if (trees) {
        // ties can be broken differently
        for (int v = 0; v < static_cast<int>(w.ref.vars.size()); ++v) {
          const auto k = static_cast<std::size_t>(v);
          if (got.map[k] == base.map[k]) {
            continue;
          }
          PBT_CHECK(w.ref.hidden(v), "MAP of an observed variable changed");
          auto e = w.ref.eliminate({v}, true);
          PBT_CHECK(close(e->v[got.map[k]], e->v[base.map[k]]),
                    "MAP of " << w.ref.vars[k].name << who(th, 1) << ": "
                              << got.map[k] << " vs " << base.map[k]
                              << ", max-marginals " << fmt(e->v));
        }
      }
      if (w.ref.vars.size() > 3 && th > 1) {
        c.nontrivial = true;
        c.label(trees ? "trees" : "loops");
      }
    }
  }
}

void gradients(Case &c) {
  Options o;
  o.tunable = true;
  o.loops = 0;
  o.zeros = false;
  o.maxVars = 8;
  World w{c, o};
  w.grow(3 + c.s.below(4));
  for (auto k = 2 + c.s.below(6); k > 0; --k) {
    w.mutate();
  }
  if (w.ref.clusters.empty()) {
    pbt::discard("no tunable factor");
  }
  const bool conditional =
      c.s.chance(1, 2) && w.observeForConditional(true);
  std::vector<std::vector<std::size_t>> samples;
  const auto n = 1 + c.s.below(8);
  for (std::uint64_t k = 0; k < n; ++k) {
    samples.emplace_back();
    for (auto &v : w.factors().getAllVariables()) {
      samples.back().push_back(c.s.below(v->size()));
    }
  }
  train::TrainSet set{samples};
  // a conditional model built before the evidences are removed
  std::unique_ptr<model::ConditionalRandomField> crf;
  if (conditional) {
    crf = std::make_unique<model::ConditionalRandomField>(*w.field,
                                                          c.s.chance(1, 2));
  }
  auto compare = [&](const std::vector<float> &a, const std::vector<float> &b,
                     const std::string &what, std::size_t th) {
    PBT_CHECK(a.size() == b.size(), what << " of another size");
    for (std::size_t k = 0; k < a.size(); ++k) {
      PBT_CHECK(std::isfinite(a[k]) && std::abs(a[k] - b[k]) < 5e-4,
                what << who(th, 1) << ": " << fmt(a) << " vs " << fmt(b));
    }
  };
  const std::vector<std::size_t> ths = {2 + c.s.below(3), 1 + c.s.below(4)};
  c.d << "\n gradients with " << fmt(ths) << " threads";
  if (crf) {
    // samples of the conditional model are in its own order
    std::vector<std::vector<std::size_t>> own;
    for (auto &smp : samples) {
      own.emplace_back();
      for (auto &v : crf->getAllVariables()) {
        std::size_t pos = 0;
        for (auto &x : w.factors().getAllVariables()) {
          if (x->name() == v->name()) {
            own.back().push_back(smp[pos]);
          }
          ++pos;
        }
      }
    }
    train::TrainSet oset{own};
    const auto base = crf->getWeightsGradient(oset.makeIterator(), 1);
    for (auto th : ths) {
      compare(crf->getWeightsGradient(oset.makeIterator(), th), base,
              "conditional gradient", th);
    }
    c.label("conditional");
  }
  const auto base = w.field->getWeightsGradient(set.makeIterator(), 1);
  for (auto th : ths) {
    compare(w.field->getWeightsGradient(set.makeIterator(), th), base,
            "gradient", th);
  }
  c.nontrivial = base.size() > 1;
}

// independent models are used by different threads at the same time
void concurrent(Case &c) {
  Options o;
  o.tunable = c.s.chance(1, 2);
  o.loops = c.s.chance(1, 3) ? 2 : 0;
  o.weak = true;
  o.zeros = false;
  o.maxVars = 7;
  World w{c, o};
  w.grow(3 + c.s.below(3));
  for (auto k = c.s.below(6); k > 0; --k) {
    w.mutate();
  }
  if (w.ref.vars.empty()) {
    pbt::discard("empty model");
  }
  const auto n = 2 + c.s.below(2);
  const auto repetitions = 1 + c.s.below(4);
  std::vector<Rebuilt> models;
  std::vector<std::size_t> ths;
  std::vector<std::vector<VariablePtr>> joints;
  for (std::uint64_t k = 0; k < n; ++k) {
    // same variables, shared between the models
    models.push_back(rebuild(c.s, w.ref, c.s.chance(1, 2), false));
    ths.push_back(1 + c.s.below(2));
    joints.push_back(jointVars(c.s, w.ref));
  }
  c.d << "\n concurrent users with " << fmt(ths) << " threads each";
  std::vector<Answers> base;
  for (std::uint64_t k = 0; k < n; ++k) {
    base.push_back(ask(models[k].query(), models[k].factors(), w.ref,
                       joints[k], ths[k]));
  }
  std::vector<std::vector<Answers>> got(n);
  std::vector<std::string> errors(n);
  std::vector<std::thread> users;
  for (std::uint64_t k = 0; k < n; ++k) {
    users.emplace_back([&, k]() {
      try {
        for (std::uint64_t r = 0; r < repetitions; ++r) {
          got[k].push_back(ask(models[k].query(), models[k].factors(), w.ref,
                               joints[k], ths[k]));
        }
      } catch (const pbt::Fail &e) {
        errors[k] = e.msg;
      } catch (const std::exception &e) {
        errors[k] = std::string("exception ") + e.what();
      }
    });
  }
  for (auto &u : users) {
    u.join();
  }
  for (std::uint64_t k = 0; k < n; ++k) {
    PBT_CHECK(errors[k].empty(), "user " << k << ": " << errors[k]);
    for (auto &a : got[k]) {
      for (std::size_t v = 0; v < w.ref.vars.size(); ++v) {
        compareDistribution(
            a.marginals[v],
            std::vector<double>{base[k].marginals[v].begin(),
                                base[k].marginals[v].end()},
            "marginal of " + w.ref.vars[v].name + " while others work", 0.02,
            1e-3);
      }
      compareDistribution(a.joint,
                          std::vector<double>{base[k].joint.begin(),
                                              base[k].joint.end()},
                          "joint while others work", 0.02, 1e-3);
    }
  }
  c.nontrivial = w.ref.vars.size() > 2;
}

// each user has an own model (and factors, files, train sets...) and works on
// it; what it sees has to be the same it would see alone
void useAlone(Case &c) {
  Options o;
  o.tunable = c.s.chance(2, 3);
  o.loops = 0;
  o.maxVars = 6;
  World w{c, o};
  w.grow(2 + c.s.below(3));
  for (auto k = 2 + c.s.below(6); k > 0; --k) {
    w.mutate();
    if (w.ref.vars.empty() || !w.ref.possible()) {
      continue;
    }
    switch (c.s.below(9)) {
    case 0:
      w.checkAllMarginals(1);
      break;
    case 1:
      w.checkHiddenMap(1);
      break;
    case 2:
      w.checkJoint(1);
      break;
    case 3:
      if (!w.ref.clusters.empty()) {
        w.checkGradient(1);
      }
      break;
    case 4:
      w.checkState();
      break;
    case 5: {
      strct::GibbsSampler::SamplesGenerationContext ctx;
      ctx.samples_number = 5 + c.s.below(10);
      ctx.seed = c.s.below(1000);
      const auto a = w.sampler().makeSamples(ctx, 1);
      const auto b = w.sampler().makeSamples(ctx, 1);
      PBT_CHECK(a == b, "samples with the same seed differ");
      PBT_CHECK(a.size() == ctx.samples_number, "wrong number of samples");
      break;
    }
    case 6: {
      // copies
      const auto v = static_cast<std::size_t>(c.s.below(w.ref.vars.size()));
      const auto e =
          w.query().getMarginalDistribution(w.ref.vars[v].ptr, 1);
      std::vector<float> got;
      if (w.field) {
        model::RandomField copy{*w.field};
        for (auto &[k2, val] : w.ref.ev) {
          copy.setEvidence(w.ref.vars[static_cast<std::size_t>(k2)].ptr, val);
        }
        got = copy.getMarginalDistribution(w.ref.vars[v].ptr, 1);
      } else {
        model::Graph copy{*w.graph};
        for (auto &[k2, val] : w.ref.ev) {
          copy.setEvidence(w.ref.vars[static_cast<std::size_t>(k2)].ptr, val);
        }
        got = copy.getMarginalDistribution(w.ref.vars[v].ptr, 1);
      }
      compareDistribution(got, std::vector<double>{e.begin(), e.end()},
                          "marginal of a copy");
      break;
    }
    case 7:
      if (w.field) {
        const auto doc = io::json::Exporter::exportToJson(*w.field);
        model::RandomField other;
        io::json::Importer::importFromJson(other, doc);
        PBT_CHECK(other.getAllVariables().size() == w.ref.vars.size(),
                  "variables lost by json");
        PBT_CHECK(other.getWeights().size() == w.ref.clusters.size(),
                  "tunable clusters lost by json");
      }
      break;
    default: {
      // algebra of factors
      const auto va = categoric::make_variable(2 + c.s.below(3), "fa");
      const auto vb = categoric::make_variable(2 + c.s.below(3), "fb");
      const auto vc = categoric::make_variable(2, "fc");
      const auto ta = genExpTable(c.s, va->size() * vb->size());
      const auto tb = genTable(c.s, vb->size() * vc->size(), Images::POSITIVE);
      auto fa = buildFactor(c.s, {va, vb}, ta);
      auto fb = buildFactor(c.s, {vb, vc}, tb);
      factor::Factor prod{{fa.get(), fb.get()}};
      factor::FactorExponential expo{*fa, 0.5f};
      for (std::size_t i = 0; i < va->size(); ++i) {
        for (std::size_t j = 0; j < vb->size(); ++j) {
          for (std::size_t k2 = 0; k2 < 2; ++k2) {
            std::vector<std::size_t> comb;
            for (auto &v : prod.function().vars().getVariables()) {
              comb.push_back(v == va ? i : v == vb ? j : k2);
            }
            const double e = static_cast<double>(ta[i * vb->size() + j]) *
                             static_cast<double>(tb[j * 2 + k2]);
            PBT_CHECK(close(prod.function().findTransformed(comb), e),
                      "wrong product of factors");
          }
          PBT_CHECK(close(expo.function().findTransformed({i, j}),
                          std::exp(0.5 * ta[i * vb->size() + j])),
                    "wrong exponential factor");
        }
      }
      break;
    }
    }
  }
  c.nontrivial = w.mutations > 2;
}

void users(Case &c) {
  const auto n = 2 + c.s.below(3);
  std::vector<std::uint64_t> seeds;
  for (std::uint64_t k = 0; k < n; ++k) {
    // sometimes all of them do the very same things
    seeds.push_back(k > 0 && c.s.chance(1, 3) ? seeds.back()
                                              : c.s.below(1u << 30));
  }
  std::vector<std::string> errors(n), notes(n);
  std::vector<char> meaningful(n, 0);
  auto use = [&](std::size_t k, std::vector<std::string> &err) {
    pbt::Src own{seeds[k], true};
    Case oc{own};
    try {
      useAlone(oc);
    } catch (const pbt::Fail &e) {
      err[k] = e.msg;
    } catch (const pbt::Discard &) {
    } catch (const std::exception &e) {
      err[k] = std::string("exception ") + e.what();
    }
    notes[k] = oc.d.str();
    meaningful[k] = oc.nontrivial;
  };
  std::vector<std::thread> threads;
  for (std::size_t k = 0; k < n; ++k) {
    threads.emplace_back([&, k]() { use(k, errors); });
  }
  for (auto &t : threads) {
    t.join();
  }
  c.d << n << " users, each in a thread";
  for (std::size_t k = 0; k < n; ++k) {
    c.d << "\n user " << k << ": " << notes[k];
  }
  for (std::size_t k = 0; k < n; ++k) {
    PBT_CHECK(errors[k].empty(),
              "user " << k << " while others work: " << errors[k]);
    c.nontrivial = c.nontrivial || meaningful[k];
  }
}
} // namespace

const pbt::Property pbt::PROPERTY = {
    "C08",
    "non-trivial: the answers about a model with several variables, computed "
    "with two or more threads (or while other threads use other models), are "
    "compared with the ones of a single thread",
    {"on models with loops the answers are compared (tolerance 0.01) only "
     "when the propagation is a contraction; otherwise the order of the "
     "messages legitimately matters"},
    {{"queries", queries, 900, 14000},
     {"gradients", gradients, 300, 5000},
     {"concurrent", concurrent, 150, 2500},
     {"users", users, 250, 4000}},
    80,
    2};
