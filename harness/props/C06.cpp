// Invalid operations are refused and leave the model as it was.
#include "../world.h"
using namespace wld;
using pbt::Case;

namespace {
VariablePtr twin(const VariablePtr &v) {
  return categoric::make_variable(v->size(), v->name());
}
VariablePtr resized(const VariablePtr &v) {
  return categoric::make_variable(v->size() + 1, v->name());
}

FacPtr ones(const std::vector<VariablePtr> &vars) {
  auto f = std::make_shared<factor::Factor>(
      categoric::Group{categoric::VariablesSoup{vars.begin(), vars.end()}});
  std::vector<std::size_t> sizes, comb(vars.size(), 0);
  for (auto &v : vars) {
    sizes.push_back(v->size());
  }
  float x = 1;
  do {
    f->set(comb, x);
    x += 0.75f;
  } while (ref::next(comb, sizes));
  return f;
}

class Invalid {
public:
  Invalid(Case &c, World &w) : c(c), s(c.s), w(w) {}

  // tries an invalid operation, returns false when not applicable
  bool attempt() {
    what.clear();
    switch (s.below(15)) {
    case 0:
      return nullFactor();
    case 1:
      return sameFactorTwice();
    case 2:
      return tooManyVariables();
    case 3:
      return alreadyConnected();
    case 4:
      return otherInstance(false);
    case 5:
      return otherInstance(true);
    case 6:
      return evidenceOutOfDomain();
    case 7:
      return unknownVariable();
    case 8:
      return removeNotObserved();
    case 9:
      return removeSeveral();
    case 10:
      return wrongWeights();
    case 11:
      return unknownSharing();
    case 12:
      return duplicatedGroup();
    case 13:
      return nullStrategy();
    default:
      return noThreads();
    }
  }
  std::string what;

private:
  template <typename Op> void refused(const std::string &name, Op &&op) {
    what = name;
    c.d << "\n (invalid) " << name;
    bool thrown = false;
    try {
      op();
    } catch (const std::exception &) {
      thrown = true;
    }
    PBT_CHECK(thrown, "not refused: " << name);
  }

  // passes a factor to one of the methods to insert it
  void insert(const std::string &name, const FacPtr &f) {
    ExpPtr e = std::make_shared<factor::FactorExponential>(*f, 0.5f);
    switch (s.below(w.field ? 5 : 3)) {
    case 0:
      refused(name + " (addConstFactor)",
              [&]() { w.inserter().addConstFactor(f); });
      break;
    case 1:
      refused(name + " (copyConstFactor)",
              [&]() { w.inserter().copyConstFactor(*f); });
      break;
    case 2:
      refused(name + " (addConstFactor exponential)",
              [&]() { w.inserter().addConstFactor(e); });
      break;
    case 3:
      refused(name + " (addTunableFactor)",
              [&]() { w.tunables().addTunableFactor(e); });
      break;
    default:
      refused(name + " (copyTunableFactor)",
              [&]() { w.tunables().copyTunableFactor(*e); });
    }
  }

  VariablePtr fresh() {
    return categoric::make_variable(2 + s.below(2), "another variable");
  }
  VariablePtr present() { return s.pick(w.ref.vars).ptr; }
  VariablePtr presentOrFresh() {
    return !w.ref.vars.empty() && s.chance(2, 3) ? present() : fresh();
  }

  bool nullFactor() {
    if (w.field && s.chance(1, 2)) {
      refused("null tunable factor",
              [&]() { w.tunables().addTunableFactor(nullptr); });
    } else {
      refused("null factor",
              [&]() { w.inserter().addConstFactor(nullptr); });
    }
    return true;
  }

  bool sameFactorTwice() {
    std::vector<factor::ImmutablePtr> all;
    for (auto &f : w.ref.facs) {
      if (f.ptr) {
        all.push_back(f.ptr);
      }
    }
    if (all.empty()) {
      return false;
    }
    auto f = s.pick(all);
    if (auto e = std::dynamic_pointer_cast<factor::FactorExponential>(
            std::const_pointer_cast<factor::Immutable>(f));
        e && w.field && s.chance(1, 2)) {
      refused("tunable factor already inserted",
              [&]() { w.tunables().addTunableFactor(e); });
    } else {
      refused("factor already inserted",
              [&]() { w.inserter().addConstFactor(f); });
    }
    return true;
  }

  bool tooManyVariables() {
    std::vector<VariablePtr> vars;
    auto n = 3 + s.below(2);
    for (auto &p : w.pool) {
      if (vars.size() < n && s.chance(1, 2)) {
        vars.push_back(p.ptr);
      }
    }
    while (vars.size() < n) {
      vars.push_back(categoric::make_variable(
          2, "another variable " + std::to_string(vars.size())));
    }
    s.shuffle(vars);
    insert("factor with too many variables", ones(vars));
    return true;
  }

  bool alreadyConnected() {
    std::vector<std::vector<int>> bins;
    for (auto &f : w.ref.facs) {
      if (f.vars.size() == 2) {
        bins.push_back(f.vars);
      }
    }
    if (bins.empty()) {
      return false;
    }
    auto p = s.pick(bins);
    s.shuffle(p);
    insert("factor between connected variables",
           ones({w.ref.vars[static_cast<std::size_t>(p[0])].ptr,
                 w.ref.vars[static_cast<std::size_t>(p[1])].ptr}));
    return true;
  }

  bool otherInstance(bool otherSize) {
    if (w.ref.vars.empty()) {
      return false;
    }
    auto v = present();
    auto t = otherSize ? resized(v) : twin(v);
    std::string name = otherSize ? "variable with the name of another one and "
                                   "a different size"
                                 : "variable with the name of another one";
    switch (s.below(3)) {
    case 0:
      insert(name, ones({t}));
      return true;
    case 1: {
      auto o = presentOrFresh();
      if (o->name() == t->name()) {
        return false;
      }
      insert(name + ", first", ones({t, o}));
      return true;
    }
    default: {
      auto o = presentOrFresh();
      if (o->name() == t->name()) {
        return false;
      }
      insert(name + ", second", ones({o, t}));
      return true;
    }
    }
  }

  bool evidenceOutOfDomain() {
    if (w.ref.vars.empty()) {
      return false;
    }
    auto v = present();
    auto x = v->size() + (s.chance(1, 2) ? 0 : s.below(100));
    if (s.chance(1, 8)) {
      x = s.chance(1, 2) ? static_cast<std::size_t>(-1)
                         : s.below(v->size()) + (std::size_t{1} << 32);
    }
    if (s.chance(1, 2)) {
      refused("evidence out of domain",
              [&]() { w.setter().setEvidence(v, x); });
    } else {
      refused("evidence out of domain",
              [&]() { w.setter().setEvidence(v->name(), x); });
    }
    return true;
  }

  bool unknownVariable() {
    auto v = fresh();
    auto n = v->name();
    switch (s.below(10)) {
    case 0:
      refused("evidence of an unknown variable",
              [&]() { w.setter().setEvidence(v, 0); });
      break;
    case 1:
      refused("evidence of an unknown variable",
              [&]() { w.setter().setEvidence(n, 0); });
      break;
    case 2:
      refused("removal of an unknown variable",
              [&]() { w.remover().removeEvidence(v); });
      break;
    case 3:
      refused("removal of an unknown variable",
              [&]() { w.remover().removeEvidence(n); });
      break;
    case 4:
      refused("marginal of an unknown variable",
              [&]() { w.query().getMarginalDistribution(v); });
      break;
    case 5:
      refused("marginal of an unknown variable",
              [&]() { w.query().getMarginalDistribution(n); });
      break;
    case 6:
      refused("MAP of an unknown variable", [&]() { w.query().getMAP(v); });
      break;
    case 7:
      refused("MAP of an unknown variable", [&]() { w.query().getMAP(n); });
      break;
    case 8: {
      categoric::VariablesSoup soup = {v};
      if (!w.ref.vars.empty()) {
        soup.push_back(present());
        s.shuffle(soup);
      }
      refused("joint distribution with an unknown variable", [&]() {
        w.query().getJointMarginalDistribution(categoric::Group{soup});
      });
      break;
    }
    default:
      std::vector<std::string> names = {n};
      if (!w.ref.vars.empty()) {
        names.push_back(present()->name());
        s.shuffle(names);
      }
      refused("joint distribution with an unknown variable",
              [&]() { w.query().getJointMarginalDistribution(names); });
    }
    return true;
  }

  bool removeNotObserved() {
    auto hid = w.ref.hiddenVars();
    if (hid.empty()) {
      return false;
    }
    auto v = w.ref.vars[static_cast<std::size_t>(s.pick(hid))].ptr;
    if (s.chance(1, 2)) {
      refused("removal of a hidden variable",
              [&]() { w.remover().removeEvidence(v); });
    } else {
      refused("removal of a hidden variable",
              [&]() { w.remover().removeEvidence(v->name()); });
    }
    return true;
  }

  bool removeSeveral() {
    categoric::VariablesSet set;
    std::unordered_set<std::string> names;
    for (auto &[v, _] : w.ref.ev) {
      if (s.chance(2, 3)) {
        set.emplace(w.ref.vars[static_cast<std::size_t>(v)].ptr);
      }
    }
    auto hid = w.ref.hiddenVars();
    if (hid.empty() || s.chance(1, 3)) {
      set.emplace(fresh());
    } else {
      set.emplace(w.ref.vars[static_cast<std::size_t>(s.pick(hid))].ptr);
    }
    for (auto &v : set) {
      names.emplace(v->name());
    }
    if (s.chance(1, 2)) {
      refused("removal of several variables, not all observed",
              [&]() { w.remover().removeEvidences(set); });
    } else {
      refused("removal of several variables, not all observed",
              [&]() { w.remover().removeEvidences(names); });
    }
    return true;
  }

  bool wrongWeights() {
    if (!w.field) {
      return false;
    }
    auto ws = w.field->getWeights();
    if (!ws.empty() && s.chance(1, 2)) {
      ws.pop_back();
    } else {
      ws.push_back(0.1f);
    }
    for (auto &x : ws) {
      x = 0.37f;
    }
    refused("wrong number of weights", [&]() { w.field->setWeights(ws); });
    return true;
  }

  bool unknownSharing() {
    if (!w.field) {
      return false;
    }
    // a factor that could be inserted
    std::vector<VariablePtr> vars;
    if (s.chance(1, 2)) {
      vars = {presentOrFresh()};
    } else {
      vars = {fresh(), categoric::make_variable(2, "a further variable")};
      if (!w.ref.vars.empty() && s.chance(1, 2)) {
        vars[1] = present();
      }
    }
    ExpPtr e = std::make_shared<factor::FactorExponential>(*ones(vars), 0.5f);
    categoric::VariablesSet group;
    switch (s.below(3)) {
    case 0:
      group.emplace(categoric::make_variable(2, "nowhere"));
      break;
    case 1:
      // no tunable factor on a group of 3
      group.emplace(categoric::make_variable(2, "nowhere 1"));
      group.emplace(categoric::make_variable(2, "nowhere 2"));
      group.emplace(categoric::make_variable(2, "nowhere 3"));
      break;
    default: {
      // a variable of the model, without a tunable unary
      std::vector<VariablePtr> ok;
      for (std::size_t k = 0; k < w.ref.vars.size(); ++k) {
        bool has = false;
        for (auto &f : w.ref.facs) {
          has = has || (f.tunable && f.vars.size() == 1 &&
                        f.vars[0] == static_cast<int>(k));
        }
        if (!has) {
          ok.push_back(w.ref.vars[k].ptr);
        }
      }
      if (ok.empty()) {
        return false;
      }
      group.emplace(s.pick(ok));
    }
    }
    if (s.chance(1, 2)) {
      refused("unknown group to share the weight with",
              [&]() { w.tunables().addTunableFactor(e, group); });
    } else {
      refused("unknown group to share the weight with",
              [&]() { w.tunables().copyTunableFactor(*e, group); });
    }
    return true;
  }

  bool duplicatedGroup() {
    if (w.ref.vars.empty()) {
      return false;
    }
    auto n = present()->name();
    std::vector<std::string> names = {n, n};
    if (s.chance(1, 2)) {
      names.push_back(present()->name());
      s.shuffle(names);
    }
    refused("joint distribution with repeated variables",
            [&]() { w.query().getJointMarginalDistribution(names); });
    return true;
  }

  bool nullStrategy() {
    refused("null propagation strategy", [&]() {
      w.factors().setLoopyPropagationStrategy(nullptr);
    });
    return true;
  }

  bool noThreads() {
    if (w.ref.vars.empty()) {
      return false;
    }
    if (w.field && s.chance(1, 4)) {
      std::vector<std::size_t> zeros(w.ref.vars.size(), 0);
      train::TrainSet set{{zeros}};
      refused("gradient with 0 threads", [&]() {
        w.field->getWeightsGradient(set.makeIterator(), 0);
      });
      return true;
    }
    if (s.chance(1, 4)) {
      refused("samples with 0 threads", [&]() {
        strct::GibbsSampler::SamplesGenerationContext ctx;
        ctx.samples_number = 2;
        ctx.seed = 1;
        w.sampler().makeSamples(ctx, 0);
      });
      return true;
    }
    // it is fine not to complain when the belief is already propagated
    auto v = present();
    c.d << "\n (invalid) 0 threads";
    what = "0 threads";
    try {
      switch (s.below(4)) {
      case 0:
        w.query().getMarginalDistribution(v, 0);
        break;
      case 1:
        w.query().getMAP(v, 0);
        break;
      case 2:
        w.query().getHiddenSetMAP(0);
        break;
      default:
        w.query().getJointMarginalDistribution(categoric::Group{v}, 0);
      }
    } catch (const std::exception &) {
    }
    return true;
  }

  Case &c;
  pbt::Src &s;
  World &w;
};

void history(Case &c) {
  Options o;
  o.huge = true;
  o.tunable = c.s.chance(2, 3);
  o.loops = 1;
  World w{c, o};
  Invalid invalid{c, w};
  w.grow(c.s.below(6));
  const auto steps = 1 + c.s.below(12);
  std::size_t tried = 0;
  for (std::uint64_t k = 0; k < steps; ++k) {
    w.mutate();
    if (c.s.chance(1, 3)) {
      w.noise();
    }
    if (c.s.chance(2, 3) && invalid.attempt()) {
      ++tried;
      c.label(invalid.what);
      w.checkState();
      w.checkWeights();
      if (c.s.chance(1, 3)) {
        w.checkAllMarginals();
      }
    }
  }
  w.checkAllMarginals(w.genThreads());
  w.checkHiddenMap();
  c.nontrivial = tried > 0 && w.ref.vars.size() > 1;
}
} // namespace

const pbt::Property pbt::PROPERTY = {
    "C06",
    "non-trivial: at least one invalid operation is attempted on a model "
    "ending with two or more variables",
    {"refused means any std::exception"},
    {{"history", history, 15000, 240000}}};
