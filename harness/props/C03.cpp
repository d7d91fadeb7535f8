// Joint marginals of connected groups of variables are exact.
#include "../world.h"
using namespace wld;
using pbt::Case;

namespace {
void history(Case &c) {
  Options o;
  o.huge = true;
  o.units = c.s.chance(1, 4);
  o.tunable = c.s.chance(1, 2);
  o.wide = c.s.chance(1, 5);
  World w{c, o};
  w.grow(2 + c.s.below(5));
  const auto steps = c.s.below(14);
  for (std::uint64_t k = 0; k < steps; ++k) {
    w.mutate();
    if (c.s.chance(1, 3)) {
      w.noise();
    }
    if (c.s.chance(1, 3)) {
      w.checkJoint(w.genThreads());
    }
  }
  for (int k = 0; k < 3; ++k) {
    w.checkJoint(w.genThreads());
  }
  c.nontrivial = w.exactChecks > 0;
  if (!w.ref.ev.empty()) {
    c.label("with evidence");
  }
}
void hub(Case &c) {
  Options o;
  o.tunable = false;
  World w{c, o};
  w.buildHub();
  for (int k = 0; k < 3; ++k) {
    w.checkJoint(w.genThreads());
  }
  c.nontrivial = w.exactChecks > 0;
  c.label("hub");
}
// long chains, wide trees
void forest(Case &c) {
  Options o;
  o.tunable = c.s.chance(1, 2);
  World w{c, o};
  w.buildForest();
  for (auto k = 1 + c.s.below(3); k > 0; --k) {
    for (int j = 0; j < 3; ++j) {
      w.checkJoint(w.genThreads());
    }
    w.mutate();
  }
  c.nontrivial = w.exactChecks > 0 && w.ref.vars.size() > 10;
  c.label("forest");
}
} // namespace

const pbt::Property pbt::PROPERTY = {
    "C03",
    "non-trivial: at least one joint distribution of two or more variables is "
    "compared with the reference",
    {"the hidden variables of the group that belong to the same component are "
     "connected to each other inside the group, as the documentation of sub "
     "graphs requires"},
    {{"history", history, 10200, 160000},
     {"hub", hub, 1020, 16000},
     {"forest", forest, 250, 5000}}};
