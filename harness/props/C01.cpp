// Marginals of tree structured models are exact.
#include "../world.h"
using namespace wld;
using pbt::Case;

namespace {
// random history, then all the marginals
void history(Case &c) {
  Options o;
  o.huge = true;
  o.units = c.s.chance(1, 4);
  o.tunable = c.s.chance(1, 2);
  o.wide = c.s.chance(1, 4);
  World w{c, o};
  w.grow(2 + c.s.below(5));
  const auto steps = c.s.below(14);
  for (std::uint64_t k = 0; k < steps; ++k) {
    w.mutate();
    if (c.s.chance(1, 3)) {
      w.noise();
    }
    if (c.s.chance(1, 3) && !w.ref.vars.empty()) {
      w.checkMarginal(static_cast<int>(c.s.below(w.ref.vars.size())),
                      w.genThreads());
    }
  }
  w.checkAllMarginals(w.genThreads());
  c.nontrivial = w.exactChecks > 0;
  if (!w.ref.ev.empty()) {
    c.label("with evidence");
  }
}
// hubs: variables with many neighbours and factors whose images are far from
// 1, as counts or likelihoods are
void hub(Case &c) {
  Options o;
  o.tunable = c.s.chance(1, 2);
  World w{c, o};
  w.buildHub();
  w.checkAllMarginals(w.genThreads());
  if (c.s.chance(1, 2)) {
    w.removeSome();
    w.checkAllMarginals();
  }
  c.nontrivial = w.ref.vars.size() > 5;
  c.label("hub");
}
// long chains, wide trees
void forest(Case &c) {
  Options o;
  o.tunable = c.s.chance(1, 2);
  World w{c, o};
  const auto some = w.buildForest();
  for (int v : some) {
    w.checkMarginal(v, w.genThreads());
  }
  for (auto k = c.s.below(4); k > 0; --k) {
    w.mutate();
    for (int v : some) {
      w.checkMarginal(v, w.genThreads());
    }
  }
  c.nontrivial = w.exactChecks > 0 && w.ref.vars.size() > 10;
  c.label("forest");
}
} // namespace

const pbt::Property pbt::PROPERTY = {
    "C01",
    "non-trivial: at least one marginal of a hidden variable having at least "
    "one hidden neighbour is compared with the reference",
    {},
    {{"history", history, 10200, 200000},
     {"hub", hub, 1360, 24000},
     {"forest", forest, 250, 5000}}};
