// Conditional models: evidences follow the documented order, train sets span
// the combinations of evidences.
#include "../world.h"

#include <EasyFactorGraph/Error.h>
#include <EasyFactorGraph/categoric/GroupRange.h>

#include <cmath>
using namespace wld;
using pbt::Case;

namespace {
struct Conditional {
  std::unique_ptr<World> w;
  std::unique_ptr<model::ConditionalRandomField> crf;
  ref::Model m;
};

Conditional make(Case &c, bool hiddenTrees, bool zeros) {
  Options o;
  o.tunable = true;
  o.loops = 3;
  o.zeros = zeros;
  o.maxVars = 8;
  o.maxSize = 3;
  Conditional r;
  r.w = std::make_unique<World>(c, o);
  r.w->grow(2 + c.s.below(5));
  for (auto k = c.s.below(6); k > 0; --k) {
    r.w->mutate();
  }
  if (!r.w->observeForConditional(hiddenTrees)) {
    pbt::discard("no conditional model");
  }
  const bool copy = c.s.chance(1, 2);
  c.d << "\n conditional model, copy " << copy;
  r.crf = std::make_unique<model::ConditionalRandomField>(*r.w->field, copy);
  if (c.s.chance(1, 4)) {
    r.crf = std::make_unique<model::ConditionalRandomField>(
        static_cast<const model::ConditionalRandomField &>(*r.crf));
    c.d << ", copied";
  }
  r.m = r.w->ref;
  return r;
}

void checkEvidences(const Conditional &x) {
  auto &ev = x.crf->getEvidences();
  PBT_CHECK(ev.size() == x.m.ev.size(), "another number of evidences");
  for (auto &[v, val] : ev) {
    const int k = x.m.find(v->name());
    PBT_CHECK(k >= 0 && !x.m.hidden(k), v->name() << " is not an evidence");
    PBT_CHECK(x.m.ev.at(k) == val, "the evidence of "
                                       << v->name() << " is " << val
                                       << " instead of " << x.m.ev.at(k));
  }
}

void evidences(Case &c) {
  auto x = make(c, true, false);
  checkEvidences(x);
  const auto steps = 1 + c.s.below(6);
  for (std::uint64_t k = 0; k < steps; ++k) {
    std::vector<std::size_t> values;
    std::map<int, std::size_t> next;
    for (auto &v : x.crf->getObservedVariables()) {
      values.push_back(c.s.below(v->size()));
      next[x.m.find(v->name())] = values.back();
    }
    bool valid = true;
    switch (c.s.below(6)) {
    case 0:
      values.push_back(0);
      valid = false;
      break;
    case 1:
      values.pop_back();
      valid = false;
      break;
    case 2: {
      // an inconsistent value
      const auto at = c.s.below(values.size());
      std::uint64_t j = 0;
      for (auto &v : x.crf->getObservedVariables()) {
        if (j++ == at) {
          values[at] = c.s.chance(1, 4) ? values[at] + (std::size_t{1} << 32)
                                        : v->size() + c.s.below(3);
        }
      }
      valid = false;
    } break;
    default:
      break;
    }
    c.d << "\n setEvidences " << fmt(values);
    bool refused = false;
    try {
      x.crf->setEvidences(values);
    } catch (const EFG::Error &) {
      refused = true;
    }
    PBT_CHECK(refused == !valid, (refused ? "refused" : "accepted"));
    if (valid) {
      x.m.ev = next;
    } else {
      c.label("refused");
    }
    checkEvidences(x);
    if (c.s.chance(1, 2)) {
      for (std::size_t v = 0; v < x.m.vars.size(); ++v) {
        const int id = static_cast<int>(v);
        auto got = x.crf->getMarginalDistribution(x.m.vars[v].name);
        if (x.m.hidden(id)) {
          compareDistribution(got, x.m.eliminate({id})->v,
                              "marginal of " + x.m.vars[v].name);
        } else {
          std::vector<double> e(x.m.vars[v].size, 0);
          e[x.m.ev.at(id)] = 1;
          compareDistribution(got, e, "marginal of " + x.m.vars[v].name);
        }
      }
    }
    if (values.size() > 1) {
      c.nontrivial = true;
    }
  }
}

// an hidden variable with many observed neighbours
Conditional makeObservedStar(Case &c) {
  Options o;
  o.tunable = true;
  o.large = false;
  Conditional r;
  r.w = std::make_unique<World>(c, o);
  auto &w = *r.w;
  w.pool.clear();
  const auto n = 6 + c.s.below(5);
  for (std::uint64_t k = 0; k <= n; ++k) {
    w.pool.push_back({categoric::make_variable(2 + (k < 3 ? c.s.below(2) : 0),
                                               "v" + std::to_string(k)),
                      -1});
  }
  for (std::uint64_t k = 1; k <= n; ++k) {
    std::vector<int> ab = {0, static_cast<int>(k)};
    c.s.shuffle(ab);
    const auto size = w.pool[0].ptr->size() * w.pool[k].ptr->size();
    w.insert(ab, genExpTable(c.s, size, 0.5f), true, 1.f, c.s.chance(1, 2),
             -1);
  }
  for (std::uint64_t k = 1; k <= n; ++k) {
    const auto value = c.s.below(w.pool[k].ptr->size());
    w.field->setEvidence(w.pool[k].ptr, value);
    w.ref.ev[w.ref.find(w.pool[k].ptr->name())] = value;
  }
  r.crf = std::make_unique<model::ConditionalRandomField>(*w.field, true);
  r.m = w.ref;
  return r;
}

void spanning(Case &c, Conditional x, const std::size_t limit) {
  std::vector<VariablePtr> all;
  for (auto &v : x.crf->getAllVariables()) {
    all.push_back(v);
  }
  std::size_t max = 1;
  for (auto &v : x.crf->getObservedVariables()) {
    max *= v->size();
  }
  const bool large = limit > 150;
  if (max > limit) {
    pbt::discard("too many combinations");
  }
  strct::GibbsSampler::SamplesGenerationContext ctx;
  ctx.samples_number = 1 + c.s.below(large ? 1 : 4);
  ctx.delta_iterations = 1 + c.s.below(2);
  ctx.transient = c.s.below(3);
  ctx.seed = c.s.below(1000);
  const std::size_t th = c.s.chance(1, 16) ? 2 : 1;
  float perc = 1.f;
  bool valid = true;
  switch (c.s.below(6)) {
  case 0:
    perc = c.s.pick(std::vector<float>{-0.1f, 1.25f, std::nanf(""), INFINITY,
                                       -INFINITY, -1e-6f, 1.0001f});
    valid = false;
    break;
  case 1:
    perc = 0.f;
    break;
  case 2:
  case 3:
    perc = static_cast<float>(c.s.below(1000)) / 1000.f;
    break;
  default:
    if (large && c.s.chance(3, 4)) {
      perc = static_cast<float>(1 + c.s.below(60)) / 10000.f;
    }
    break;
  }
  c.d << "\n makeTrainSet of " << ctx.samples_number << " samples, range "
      << perc << " of " << max << " combinations";
  std::vector<std::vector<std::size_t>> set;
  try {
    set = x.crf->makeTrainSet(ctx, perc, th);
  } catch (const EFG::Error &) {
    PBT_CHECK(!valid, "refused");
    c.label("refused");
    return;
  }
  PBT_CHECK(valid, "an invalid range was accepted");
  std::map<std::vector<std::size_t>, std::size_t> seen;
  for (auto &smp : set) {
    PBT_CHECK(smp.size() == all.size(), "sample of another size");
    std::vector<std::size_t> key;
    for (std::size_t k = 0; k < all.size(); ++k) {
      PBT_CHECK(smp[k] < all[k]->size(), "value out of the domain of "
                                             << all[k]->name());
      if (!x.m.hidden(x.m.find(all[k]->name()))) {
        key.push_back(smp[k]);
      }
    }
    ++seen[key];
  }
  for (auto &[key, n] : seen) {
    PBT_CHECK(n == ctx.samples_number,
              "evidences " << fmt(key) << " appear in " << n
                           << " samples instead of " << ctx.samples_number);
  }
  if (perc == 1.f) {
    PBT_CHECK(seen.size() == max, "only " << seen.size() << " of " << max
                                          << " combinations are spanned");
  } else {
    const auto least = std::max<std::size_t>(
        1, static_cast<std::size_t>(std::floor(std::max(0.0, max * double(perc) - 1e-3))));
    PBT_CHECK(seen.size() >= least && seen.size() <= max &&
                  seen.size() <= 2 * least + 3,
              seen.size() << " combinations are spanned, with a range of "
                          << perc << " of " << max);
  }
  // usable as it is
  train::TrainSet asSet{set};
  if (!large && !x.m.clusters.empty()) {
    auto g = x.crf->getWeightsGradient(asSet.makeIterator(), 1);
    PBT_CHECK(g.size() == x.m.clusters.size(), "gradient of another size");
  }
  c.nontrivial = max > 1;
  c.label(perc == 1.f ? "whole range" : "partial range");
}

void trainSet(Case &c) { spanning(c, make(c, false, false), 150); }
void trainSetLarge(Case &c) { spanning(c, makeObservedStar(c), 3000); }

// a conditional model needs evidences, and no factor which would be constant
void construction(Case &c) {
  Options o;
  o.tunable = true;
  o.loops = 2;
  o.maxVars = 6;
  World w{c, o};
  w.grow(1 + c.s.below(4));
  const auto steps = c.s.below(10);
  for (std::uint64_t k = 0; k < steps; ++k) {
    w.mutate();
  }
  bool valid = !w.ref.ev.empty();
  for (auto &f : w.ref.facs) {
    bool hidden = false;
    for (int v : f.vars) {
      hidden = hidden || w.ref.hidden(v);
    }
    valid = valid && (hidden || !f.tunable);
  }
  bool refused = false;
  try {
    model::ConditionalRandomField crf{*w.field, c.s.chance(1, 2)};
    PBT_CHECK(crf.getAllVariables().size() == w.ref.vars.size(),
              "another number of variables");
    PBT_CHECK(crf.getConstFactors().size() ==
                  w.field->getConstFactors().size(),
              "another number of constant factors");
    PBT_CHECK(crf.getTunableClusters().size() == w.ref.clusters.size(),
              "another number of tunable clusters");
    PBT_CHECK(crf.getHiddenVariables().size() +
                      crf.getObservedVariables().size() ==
                  w.ref.vars.size(),
              "hidden and observed variables do not match");
    for (auto &[v, val] : w.field->getEvidences()) {
      auto it = crf.getEvidences().find(v);
      PBT_CHECK(it != crf.getEvidences().end() && it->second == val,
                "another evidence for " << v->name());
    }
  } catch (const EFG::Error &) {
    refused = true;
  }
  PBT_CHECK(refused == !valid, "conditional model "
                                   << (refused ? "refused" : "accepted"));
  c.label(refused ? "refused" : "accepted");
  // the source is what it was
  w.checkState();
  w.checkWeights();
  w.checkAllMarginals();
  c.nontrivial = w.ref.vars.size() > 1;
}
} // namespace

const pbt::Property pbt::PROPERTY = {
    "C14",
    "non-trivial: a conditional model with two or more evidences (evidences), "
    "two or more combinations of evidences (trainSet), a source with two or "
    "more variables (construction)",
    {"the number of combinations spanned by a range lower than 1 is only "
     "bounded: from below by the requested fraction, from above by about "
     "twice that"},
    {{"evidences", evidences, 12000, 180000},
     {"trainSet", trainSet, 9000, 120000},
     {"trainSet-large", trainSetLarge, 240, 4000},
     {"construction", construction, 7200, 90000}}};
