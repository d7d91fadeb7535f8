// Copies and absorptions give equivalent models, isolated from their source.
#include "../world.h"
using namespace wld;
using pbt::Case;

namespace {
void checkAll(World &w) {
  w.checkState();
  w.checkWeights();
  if (w.ref.vars.empty() || !w.ref.possible()) {
    return;
  }
  w.checkAllMarginals();
  w.checkHiddenMap();
}

// steps that never touch the factors already inserted
void evolve(World &w, bool weights) {
  for (auto k = 1 + w.s.below(5); k > 0; --k) {
    switch (w.s.below(weights ? 7 : 6)) {
    case 0:
      w.addUnary();
      break;
    case 1:
      w.addBinary();
      break;
    case 2:
      w.addEvidence();
      break;
    case 3:
      w.updateEvidence();
      break;
    case 4:
      w.removeOne();
      break;
    case 5:
      w.removeAll();
      break;
    default:
      w.changeWeights();
    }
  }
}

// the world of a model built from another one
std::unique_ptr<World> derive(World &w, bool asField, bool copy,
                              bool keepTunables) {
  Options o = w.opt;
  o.tunable = asField;
  auto d = std::make_unique<World>(w.c, o);
  d->pool = w.pool;
  d->ref = w.ref;
  for (auto &f : d->ref.facs) {
    if (copy) {
      f.ptr = nullptr;
    }
    if (!keepTunables) {
      f.tunable = false;
    }
  }
  if (!keepTunables) {
    d->ref.clusters.clear();
  }
  return d;
}

Options options(Case &c) {
  Options o;
  o.huge = true;
  o.tunable = c.s.chance(2, 3);
  o.loops = 1;
  o.maxVars = 6;
  return o;
}

void single(Case &c) {
  World w{c, options(c)};
  if (c.s.chance(1, 60)) {
    w.buildForest(40);
  }
  w.grow(1 + c.s.below(4));
  for (auto k = c.s.below(8); k > 0; --k) {
    w.mutate();
    if (c.s.chance(1, 3)) {
      w.noise();
    }
  }
  bool copy = c.s.chance(1, 2);
  std::unique_ptr<World> d;
  switch (c.s.below(w.field ? 4 : 3)) {
  case 0: // copy constructor
    copy = false;
    c.d << "\n copy constructor";
    d = derive(w, w.field != nullptr, false, w.field != nullptr);
    if (w.field) {
      d->field = std::make_unique<model::RandomField>(
          static_cast<const model::RandomField &>(*w.field));
    } else {
      d->graph = std::make_unique<model::Graph>(
          static_cast<const model::Graph &>(*w.graph));
    }
    break;
  case 1: // a graph absorbs everything as constant
    c.d << "\n graph absorbing, copy " << copy;
    d = derive(w, false, copy, false);
    d->graph->absorb(w.factors(), copy);
    c.label("graph from " + std::string(w.field ? "field" : "graph"));
    break;
  case 2:
    c.d << "\n field absorbing, copy " << copy;
    d = derive(w, true, copy, w.field != nullptr);
    d->field->absorb(w.factors(), copy);
    c.label("field from " + std::string(w.field ? "field" : "graph"));
    break;
  default: // through a conditional model
    if (!w.observeForConditional(false)) {
      pbt::discard("no conditional model");
    }
    {
      const bool copyFirst = c.s.chance(1, 2);
      c.d << "\n conditional model, copy " << copyFirst
          << ", then absorbed, copy " << copy;
      auto crf = std::make_unique<model::ConditionalRandomField>(*w.field,
                                                                 copyFirst);
      const bool asField = c.s.chance(1, 2);
      d = derive(w, asField, copy || copyFirst, asField);
      if (asField) {
        d->field->absorb(*crf, copy);
      } else {
        d->graph->absorb(*crf, copy);
      }
      copy = copy || copyFirst;
      c.label("from conditional");
    }
  }
  checkAll(w);
  checkAll(*d);
  c.label(copy ? "deep" : "shallow");
  // isolation
  for (int round = 0; round < 2; ++round) {
    c.d << "\n [source]";
    evolve(w, copy);
    checkAll(*d);
    c.d << "\n [copy]";
    evolve(*d, copy);
    checkAll(w);
    checkAll(*d);
  }
  c.nontrivial = w.ref.vars.size() > 1 && d->ref.vars.size() > 1;
}

// absorption into a model which is not empty
void merge(Case &c) {
  auto o = options(c);
  World a{c, o};
  a.grow(1 + c.s.below(3));
  for (auto k = c.s.below(5); k > 0; --k) {
    a.mutate();
  }
  // the second one uses other variables, and some of the first
  auto o2 = options(c);
  World b{c, o2};
  std::size_t k = 0;
  for (auto &p : b.pool) {
    p.ptr = categoric::make_variable(p.ptr->size(),
                                     "other" + std::to_string(k++));
  }
  if (c.s.chance(2, 3)) {
    // one variable in common: no pair can be connected twice
    b.pool.push_back({c.s.pick(a.pool).ptr, -1});
  }
  c.d << "\n [second]";
  b.grow(1 + c.s.below(3));
  for (auto j = c.s.below(5); j > 0; --j) {
    b.mutate();
    b.noise();
  }
  const bool copy = c.s.chance(1, 2);
  // expected content
  World expected{c, o};
  expected.pool = a.pool;
  expected.ref = a.ref;
  for (auto &p : b.pool) {
    bool found = false;
    for (auto &q : expected.pool) {
      found = found || q.ptr == p.ptr;
    }
    if (!found) {
      expected.pool.push_back({p.ptr, -1});
    }
  }
  std::map<int, int> toMerged;
  bool twoTunables = false;
  for (std::size_t v = 0; v < b.ref.vars.size(); ++v) {
    int at = expected.ref.find(b.ref.vars[v].name);
    if (at < 0) {
      at = static_cast<int>(expected.ref.vars.size());
      expected.ref.vars.push_back(b.ref.vars[v]);
    }
    toMerged[static_cast<int>(v)] = at;
    for (auto &q : expected.pool) {
      if (q.ptr == b.ref.vars[v].ptr) {
        q.inModel = at;
      }
    }
  }
  const auto offset = static_cast<int>(expected.ref.facs.size());
  for (auto f : b.ref.facs) {
    for (int &v : f.vars) {
      v = toMerged.at(v);
    }
    if (copy) {
      f.ptr = nullptr;
    }
    if (a.graph) {
      f.tunable = false;
    }
    if (f.tunable && f.vars.size() == 1) {
      for (auto &g : a.ref.facs) {
        twoTunables = twoTunables ||
                      (g.tunable && g.vars == f.vars);
      }
    }
    expected.ref.facs.push_back(f);
  }
  if (twoTunables) {
    pbt::discard("two tunable factors on the same variable");
  }
  if (a.field) {
    for (auto cl : b.ref.clusters) {
      for (int &f : cl) {
        f += offset;
      }
      expected.ref.clusters.push_back(cl);
    }
  }
  for (auto &[v, x] : b.ref.ev) {
    expected.ref.ev[toMerged.at(v)] = x;
  }
  c.d << "\n absorbed by the first, copy " << copy;
  if (a.field) {
    a.field->absorb(b.factors(), copy);
    expected.field = std::move(a.field);
  } else {
    a.graph->absorb(b.factors(), copy);
    expected.graph = std::move(a.graph);
  }
  checkAll(expected);
  checkAll(b);
  evolve(expected, copy);
  checkAll(expected);
  checkAll(b);
  evolve(b, copy);
  checkAll(b);
  checkAll(expected);
  c.nontrivial = expected.ref.vars.size() > 2;
  c.label(copy ? "deep" : "shallow");
}
} // namespace

const pbt::Property pbt::PROPERTY = {
    "C16",
    "non-trivial: source and copy have two or more variables, and their "
    "answers are compared with the reference before and after the other "
    "changes",
    {"after a shallow copy the weights of the shared factors are not changed: "
     "they are shared by construction",
     "absorbed models have at most one variable in common with the receiver"},
    {{"single", single, 5000, 100000}, {"merge", merge, 3000, 62500}}};
