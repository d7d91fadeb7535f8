// Samples: how many, in which order, respecting evidences and domains,
// repeatable, spaced as requested.
#include "../world.h"

#include <set>

#include <EasyFactorGraph/Error.h>

#include <atomic>
#include <cmath>
#include <ctime>
using namespace wld;
using pbt::Case;

// a clock running fast: samples for a given seed should not depend on it
extern "C" time_t time(time_t *result) {
  static std::atomic<std::uint64_t> calls{0};
  const auto k = ++calls;
  // increasing, with irregular increments
  const auto t = static_cast<time_t>(1700000000 + 1000 * k +
                                     ((k * 0x9E3779B97F4A7C15ull) >> 32) % 997);
  if (result) {
    *result = t;
  }
  return t;
}

namespace {
using Context = strct::GibbsSampler::SamplesGenerationContext;
using Samples = std::vector<std::vector<std::size_t>>;

// hidden variables whose value would have a null probability whatever the
// others are: a null unary factor (the ones of the reference are exact)
void checkSamples(const Samples &got, std::size_t n, const ref::Model &m,
                  const strct::StateAware &model, bool transientDone) {
  PBT_CHECK(got.size() == n,
            got.size() << " samples instead of " << n);
  std::vector<VariablePtr> vars;
  for (auto &v : model.getAllVariables()) {
    vars.push_back(v);
  }
  for (auto &smp : got) {
    PBT_CHECK(smp.size() == vars.size(), "sample of " << smp.size()
                                                      << " values instead of "
                                                      << vars.size());
    for (std::size_t k = 0; k < smp.size(); ++k) {
      PBT_CHECK(smp[k] < vars[k]->size(),
                "value " << smp[k] << " out of the domain of "
                         << vars[k]->name());
      const int id = m.find(vars[k]->name());
      if (!m.hidden(id)) {
        PBT_CHECK(smp[k] == m.ev.at(id),
                  "evidence " << vars[k]->name() << "=" << m.ev.at(id)
                              << " appears as " << smp[k]);
        continue;
      }
      if (!transientDone) {
        continue; // could still be the initial value
      }
      for (auto &f : m.facs) {
        if (f.vars.size() == 1 && f.vars.front() == id) {
          PBT_CHECK(f.image(smp[k]) > 0,
                    "impossible value " << smp[k] << " of "
                                        << vars[k]->name());
        }
      }
    }
  }
}

Context genContext(Case &c) {
  Context x;
  x.samples_number = c.s.chance(1, 12) ? 0 : 1 + c.s.below(24);
  if (c.s.chance(2, 3)) {
    x.delta_iterations = c.s.below(5);
  }
  if (c.s.chance(2, 3)) {
    x.transient = c.s.below(12);
  }
  if (c.s.chance(1, 25)) {
    // many
    switch (c.s.below(3)) {
    case 0:
      x.samples_number = 25 + c.s.below(300);
      break;
    case 1:
      x.delta_iterations = 5 + c.s.below(30);
      break;
    default:
      x.transient = 12 + c.s.below(200);
    }
  }
  x.seed = c.s.chance(1, 8) ? 0 : c.s.below(100000);
  return x;
}

std::string show(const Context &x) {
  std::ostringstream o;
  o << x.samples_number << " samples";
  if (x.delta_iterations) {
    o << " delta " << *x.delta_iterations;
  }
  if (x.transient) {
    o << " transient " << *x.transient;
  }
  if (x.seed) {
    o << " seed " << *x.seed;
  }
  return o.str();
}

// workers are busy waiting: keep it short when threads compete for the cores
std::size_t genThreads(Case &c, Context &x) {
  if (!c.s.chance(1, 20)) {
    return 1;
  }
  x.samples_number = std::min<std::size_t>(x.samples_number, 8);
  if (x.delta_iterations) {
    x.delta_iterations = std::min<std::size_t>(*x.delta_iterations, 2);
  }
  x.transient = x.transient ? std::min<std::size_t>(*x.transient, 4) : 2;
  return c.s.chance(1, 6) ? 4 + c.s.below(3) : 2 + c.s.below(2);
}

void history(Case &c) {
  Options o;
  o.huge = true;
  o.tunable = c.s.chance(1, 2);
  o.loops = 2;
  // null unary factors are interesting, null binary factors may be a trap for
  // the sampler
  o.zeros = false;
  o.maxVars = 8;
  World w{c, o};
  const auto steps = 3 + c.s.below(14);
  for (std::uint64_t k = 0; k < steps; ++k) {
    if (c.s.chance(1, 3)) {
      // a unary factor forbidding some values
      const auto p = static_cast<int>(c.s.below(w.pool.size()));
      const auto n = w.pool[static_cast<std::size_t>(p)].ptr->size();
      bool already = false; // keep at least one possible value
      for (auto &f : w.ref.facs) {
        already = already ||
                  (f.vars.size() == 1 &&
                   f.vars.front() ==
                       w.pool[static_cast<std::size_t>(p)].inModel);
      }
      if (!already) {
        w.insert({p}, genTable(c.s, n, Images::ZEROS), false, 1, false, -1);
      }
    }
    w.mutate();
    if (c.s.chance(1, 4)) {
      w.noise();
    }
    if (w.ref.vars.empty() || !c.s.chance(1, 3) || !w.ref.possible()) {
      continue;
    }
    auto x = genContext(c);
    const auto th = genThreads(c, x);
    c.d << "\n sample " << show(x) << " threads " << th;
    const auto got = w.sampler().makeSamples(x, th);
    const std::size_t delta = x.delta_iterations
                                  ? std::max<std::size_t>(1, *x.delta_iterations)
                                  : 1;
    const std::size_t transient = x.transient ? *x.transient : 10 * delta;
    checkSamples(got, x.samples_number, w.ref, w.factors(), transient > 0);
    w.checkState();
    if (c.s.chance(1, 3)) {
      w.checkAllMarginals(); // sampling does not alter the belief
    }
    // repeatable
    if (c.s.chance(1, 2)) {
      w.noise();
    }
    const auto again = w.sampler().makeSamples(x, th);
    PBT_CHECK(got == again, "same seed, different samples");
    if (c.s.chance(1, 6)) {
      auto y = x;
      y.seed = std::nullopt;
      checkSamples(w.sampler().makeSamples(y, th), y.samples_number, w.ref,
                   w.factors(), transient > 0);
    }
    if (w.ref.hiddenVars().size() > 1 && x.samples_number > 1) {
      c.nontrivial = true;
    }
    // every sample is one state of a chain evolved one step at a time
    {
      Context chain;
      chain.seed = x.seed;
      chain.delta_iterations = 1;
      chain.transient = 0;
      const std::size_t d =
          x.delta_iterations
              ? std::max<std::size_t>(1, *x.delta_iterations)
              : std::max<std::size_t>(
                    1, static_cast<std::size_t>(
                           std::ceil(x.samples_number * 0.1)));
      const std::size_t t = x.transient ? *x.transient : 10 * d;
      chain.samples_number = t + d * x.samples_number + 1;
      const auto all = w.sampler().makeSamples(chain, th);
      for (std::size_t j = 0; j < got.size(); ++j) {
        PBT_CHECK(got[j] == all[t + j * d],
                  "sample " << j << " is " << fmt(got[j])
                            << ", the state of the chain after "
                            << (t + j * d) << " iterations is "
                            << fmt(all[t + j * d]));
      }
      c.label("chain");
    }
    // a longer request starts with a shorter one
    if (x.delta_iterations && x.samples_number > 0) {
      auto y = x;
      y.samples_number = x.samples_number + c.s.below(5);
      const auto longer = w.sampler().makeSamples(y, th);
      PBT_CHECK(longer.size() == y.samples_number &&
                    std::equal(got.begin(), got.end(), longer.begin()),
                "asking more samples changes the first ones");
    }
  }
}

// different seeds give different samples, whatever the number of threads
void seeds(Case &c) {
  const auto n = 4 + c.s.below(4);
  model::Graph g;
  for (std::uint64_t k = 0; k < n; ++k) {
    auto v = categoric::make_variable(4, "v" + std::to_string(k));
    auto f = std::make_shared<factor::Factor>(categoric::Group{v});
    for (std::size_t x = 0; x < 4; ++x) {
      f->set(std::vector<std::size_t>{x}, 1.f);
    }
    g.addConstFactor(f);
  }
  const std::size_t th =
      c.s.chance(1, 3) ? 2 + c.s.below(c.s.chance(1, 3) ? 5 : 2) : 1;
  Context x;
  x.samples_number = 40;
  x.delta_iterations = 1;
  x.transient = 3;
  std::vector<Samples> got;
  const auto base = c.s.below(100000);
  c.d << n << " variables, threads " << th << " seeds from " << base;
  std::set<std::size_t> used;
  for (std::size_t k = 0; k < 4; ++k) {
    // close to each other, or differing by a single bit
    x.seed = base + 1;
    if (k > 0) {
      *x.seed = c.s.chance(1, 2) ? *x.seed + 1 + c.s.below(1000)
                                 : (*x.seed ^ (std::size_t(1)
                                               << c.s.below(30)));
    }
    if (*x.seed == 0 || !used.insert(*x.seed).second) {
      continue;
    }
    c.d << " " << *x.seed;
    got.push_back(g.makeSamples(x, th));
    for (std::size_t j = 0; j + 1 < got.size(); ++j) {
      PBT_CHECK(got[j] != got.back(), "different seeds, same samples");
    }
    bool moved = false;
    for (auto &smp : got.back()) {
      moved = moved || smp != got.back().front();
    }
    PBT_CHECK(moved, "all the samples are the same");
  }
  c.nontrivial = true;
}

void conditional(Case &c) {
  Options o;
  o.tunable = true;
  o.loops = 2;
  o.zeros = false;
  o.maxVars = 7;
  World w{c, o};
  w.grow(2 + c.s.below(4));
  for (auto k = c.s.below(6); k > 0; --k) {
    w.mutate();
  }
  if (!w.observeForConditional(false)) {
    pbt::discard("no conditional model");
  }
  model::ConditionalRandomField crf{*w.field, c.s.chance(1, 2)};
  auto m = w.ref;
  for (int round = 0; round < 3; ++round) {
    auto x = genContext(c);
    const auto th = genThreads(c, x);
    c.d << "\n sample " << show(x) << " threads " << th;
    const auto got = crf.makeSamples(x, th);
    checkSamples(got, x.samples_number, m, crf, false);
    PBT_CHECK(got == crf.makeSamples(x, th), "same seed, different samples");
    std::vector<std::size_t> values;
    m.ev.clear();
    for (auto &v : crf.getObservedVariables()) {
      values.push_back(c.s.below(v->size()));
      m.ev[m.find(v->name())] = values.back();
    }
    crf.setEvidences(values);
  }
  c.nontrivial = m.hiddenVars().size() > 0;
}

void invalid(Case &c) {
  Options o;
  o.tunable = c.s.chance(1, 2);
  World w{c, o};
  w.grow(1 + c.s.below(3));
  bool refused = false;
  auto x = genContext(c);
  try {
    w.sampler().makeSamples(x, 0);
  } catch (const EFG::Error &) {
    refused = true;
  }
  PBT_CHECK(refused, "0 threads accepted");
  w.checkState();
  PBT_CHECK(w.sampler().makeSamples(x, 1).size() == x.samples_number,
            "samples after a refused request");
  c.nontrivial = true;
}
} // namespace

const pbt::Property pbt::PROPERTY = {
    "C10",
    "non-trivial: at least two samples are drawn from a model with two or more "
    "hidden variables, and compared with a second identical request",
    {"repeatability is claimed for the same model, seed and number of "
     "threads",
     "an iteration resamples every hidden variable once; samples are spaced by "
     "delta iterations after transient ones, as the documentation of the "
     "parameters says"},
    {{"history", history, 2400, 40000},
     {"seeds", seeds, 150, 2000},
     {"conditional", conditional, 800, 10000},
     {"invalid", invalid, 100, 1000}},
    60,
    6};
