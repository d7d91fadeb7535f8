// What a model answers depends only on its current content.
#include "../world.h"
using namespace wld;
using pbt::Case;

namespace {
std::string name(const ref::Model &m, int v) {
  return m.vars[static_cast<std::size_t>(v)].name;
}

void history(Case &c) {
  Options o;
  o.huge = true;
  o.tunable = c.s.chance(2, 3);
  o.weak = c.s.chance(1, 2);
  o.loops = o.weak ? 5 : 1;
  o.strongUnaries = true;
  o.zeros = !o.weak;
  World w{c, o};
  if (c.s.chance(1, 60)) {
    w.buildForest(40);
  }
  w.grow(2 + c.s.below(5));
  const auto steps = 2 + c.s.below(18);
  for (std::uint64_t k = 0; k < steps; ++k) {
    w.mutate();
    if (c.s.chance(1, 2)) {
      w.noise();
    }
  }
  auto &m = w.ref;
  if (m.vars.empty()) {
    return;
  }
  c.nontrivial = w.mutations >= 4 && m.vars.size() > 1;
  const bool asField = c.s.chance(1, 2);
  const bool newVars = c.s.chance(1, 2);
  auto fresh = rebuild(c.s, m, asField, newVars);
  c.d << "\n compared with a fresh " << (asField ? "RandomField" : "Graph");
  auto comps = m.components();
  const bool weak = weaklyCoupled(m, 0.4);
  const auto th = w.genThreads();
  // a few rounds of queries of different kind, in different order
  std::vector<int> kinds = {0, 1, 2, 3, 4};
  c.s.shuffle(kinds);
  bool loopyCompared = false;
  for (int kind : kinds) {
    for (int v = 0; v < static_cast<int>(m.vars.size()); ++v) {
      auto &rv = m.vars[static_cast<std::size_t>(v)];
      const int ci = m.componentOf(comps, v);
      const bool tree =
          !m.hidden(v) || comps[static_cast<std::size_t>(ci)].tree();
      const auto &other = fresh.vars[static_cast<std::size_t>(v)];
      if (kind == 0) {
        auto a = w.query().getMarginalDistribution(rv.ptr, th);
        auto b = fresh.query().getMarginalDistribution(other, w.genThreads());
        if (tree || weak) {
          loopyCompared = loopyCompared || !tree;
          std::vector<double> e{b.begin(), b.end()};
          compareDistribution(a, e,
                              "marginal of " + rv.name +
                                  " with respect to a fresh model",
                              tree ? 1e-3 : 0, tree ? 1e-7 : 1.5e-2);
        }
      } else if (kind == 1 && tree) {
        auto a = w.query().getMAP(rv.name, th);
        auto b = fresh.query().getMAP(rv.name, w.genThreads());
        if (a != b) {
          auto e = m.hidden(v) ? m.eliminate({v}, true) : std::nullopt;
          PBT_CHECK(e && std::abs(e->v[a] - e->v[b]) < 2e-3,
                    "MAP of " << rv.name << " is " << a
                              << " but a fresh model says " << b);
        }
      }
    }
    if (kind == 2) {
      w.checkState();
      PBT_CHECK(w.factors().getAllVariables().size() ==
                    fresh.factors().getAllVariables().size(),
                "different number of variables");
    } else if (kind == 3) {
      // pairs
      for (auto &f : m.facs) {
        if (f.vars.size() != 2) {
          continue;
        }
        bool usable = true;
        for (int v : f.vars) {
          usable = usable && m.hidden(v) &&
                   comps[static_cast<std::size_t>(m.componentOf(comps, v))]
                       .tree();
        }
        if (!usable) {
          continue;
        }
        std::vector<std::string> names = {name(m, f.vars[0]),
                                          name(m, f.vars[1])};
        auto a = w.query().getJointMarginalDistribution(names, th);
        auto b = fresh.query().getJointMarginalDistribution(names, th);
        auto bp = b.getProbabilities();
        compareDistribution(a.getProbabilities(),
                            std::vector<double>{bp.begin(), bp.end()},
                            "joint distribution of " + names[0] + " and " +
                                names[1] + " with respect to a fresh model",
                            2e-3, 1e-7);
      }
    } else if (kind == 4 && w.field) {
      w.checkWeights();
    }
  }
  if (loopyCompared) {
    c.label("loopy");
  }
  if (!m.ev.empty()) {
    c.label("with evidence");
  }
}
} // namespace

const pbt::Property pbt::PROPERTY = {
    "C04",
    "non-trivial: at least four mutations led to a model with two or more "
    "variables",
    {"on clusters with loops answers are compared only when propagation is a "
     "contraction (a unique fixed point exists), with a tolerance covering "
     "the stop criterion of the loopy propagation"},
    {{"history", history, 10000, 150000}}};
