// Maximum a posteriori estimates are exact on tree structured models.
#include "../world.h"
using namespace wld;
using pbt::Case;

namespace {
void history(Case &c) {
  Options o;
  o.huge = true;
  o.units = c.s.chance(1, 4);
  o.tunable = c.s.chance(1, 2);
  o.wide = c.s.chance(1, 4);
  World w{c, o};
  w.grow(2 + c.s.below(5));
  const auto steps = c.s.below(14);
  for (std::uint64_t k = 0; k < steps; ++k) {
    w.mutate();
    if (c.s.chance(1, 3)) {
      w.noise();
    }
    if (c.s.chance(1, 3) && !w.ref.vars.empty()) {
      if (c.s.chance(1, 2)) {
        w.checkHiddenMap(w.genThreads());
      } else {
        w.checkMap(static_cast<int>(c.s.below(w.ref.vars.size())),
                   w.genThreads());
      }
    }
  }
  w.checkHiddenMap(w.genThreads());
  for (int v = 0; v < static_cast<int>(w.ref.vars.size()); ++v) {
    w.checkMap(v, w.genThreads());
  }
  c.nontrivial = w.exactChecks > 0;
  if (!w.ref.ev.empty()) {
    c.label("with evidence");
  }
}
void hub(Case &c) {
  Options o;
  o.tunable = false;
  World w{c, o};
  w.buildHub();
  w.checkHiddenMap(w.genThreads());
  for (int v = 0; v < static_cast<int>(w.ref.vars.size()); ++v) {
    w.checkMap(v);
  }
  c.nontrivial = w.exactChecks > 0;
  c.label("hub");
}
// long chains, wide trees
void forest(Case &c) {
  Options o;
  o.tunable = c.s.chance(1, 2);
  World w{c, o};
  const auto some = w.buildForest(90);
  for (auto k = 1 + c.s.below(3); k > 0; --k) {
    for (int v : some) {
      w.checkMap(v, w.genThreads());
    }
    w.mutate();
  }
  w.checkHiddenMap(w.genThreads());
  c.nontrivial = w.exactChecks > 0 && w.ref.vars.size() > 10;
  c.label("forest");
}
} // namespace

const pbt::Property pbt::PROPERTY = {
    "C02",
    "non-trivial: the estimate of at least one hidden variable having at "
    "least one hidden neighbour is compared with the reference",
    {"values whose max-marginals differ by less than 0.1% from the best one "
     "are all accepted: float rounding may pick any of them"},
    {{"history", history, 10200, 200000},
     {"hub", hub, 1020, 16000},
     {"forest", forest, 100, 2500}}};
