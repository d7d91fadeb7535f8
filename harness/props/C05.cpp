// The model knows which variables, factors and evidences it has, and reports
// the clusters of hidden variables it propagated the belief through.
#include "../world.h"
using namespace wld;
using pbt::Case;

namespace {
void history(Case &c) {
  Options o;
  o.huge = true;
  o.tunable = c.s.chance(1, 2);
  o.loops = 3;
  o.zeros = false;
  o.weak = c.s.chance(1, 2);
  o.maxVars = 9;
  World w{c, o};
  const auto steps = 4 + c.s.below(24);
  bool loopy = false;
  for (std::uint64_t k = 0; k < steps; ++k) {
    w.mutate();
    w.checkState();
    w.checkWeights();
    if (w.ref.vars.empty()) {
      continue;
    }
    if (c.s.chance(1, 2)) {
      auto &v = c.s.pick(w.ref.vars);
      const auto th = w.genThreads();
      switch (c.s.below(4)) {
      case 0:
        w.query().getMarginalDistribution(v.ptr, th);
        w.checkPropagationResult(strct::PropagationKind::SUM);
        break;
      case 1:
        w.query().getMAP(v.name, th);
        w.checkPropagationResult(strct::PropagationKind::MAP);
        break;
      case 2:
        w.query().getHiddenSetMAP(th);
        w.checkPropagationResult(strct::PropagationKind::MAP);
        break;
      default:
        w.query().getJointMarginalDistribution(
            std::vector<std::string>{v.name}, th);
        w.checkPropagationResult(strct::PropagationKind::SUM);
      }
      w.checkState();
      for (auto &comp : w.ref.components()) {
        loopy = loopy || !comp.tree();
      }
      c.nontrivial = c.nontrivial || w.ref.vars.size() > 2;
    }
  }
  if (loopy) {
    c.label("loopy");
  }
}
// many variables
void forest(Case &c) {
  Options o;
  o.tunable = c.s.chance(1, 2);
  o.loops = 2;
  o.zeros = false;
  World w{c, o};
  const auto some = w.buildForest();
  for (auto k = 1 + c.s.below(5); k > 0 && !some.empty(); --k) {
    w.checkState();
    if (c.s.chance(1, 2)) {
      w.query().getMarginalDistribution(
          w.ref.vars[static_cast<std::size_t>(some.front())].ptr,
          w.genThreads());
      w.checkPropagationResult(strct::PropagationKind::SUM);
    } else {
      w.query().getHiddenSetMAP(w.genThreads());
      w.checkPropagationResult(strct::PropagationKind::MAP);
    }
    w.mutate();
  }
  w.checkState();
  c.nontrivial = w.ref.vars.size() > 10;
  c.label("forest");
}
} // namespace

const pbt::Property pbt::PROPERTY = {
    "C05",
    "non-trivial: the clusters reported by at least one propagation over a "
    "model with three or more variables are compared with the connected "
    "components of the reference",
    {},
    {{"history", history, 10000, 150000}, {"forest", forest, 300, 5000}}};
