// Generated descriptions of models, and their meaning.
#pragma once
#include "world.h"

#include <nlohmann/json.hpp>

namespace {
using namespace wld;
using pbt::Case;
using nlohmann::json;

struct Doc {
  struct V {
    std::string name;
    std::size_t size;
    bool used = false;
    int ev = -1;
  };
  struct F {
    std::vector<int> vars;
    char corr = 0; // T or F: correlation
    std::vector<std::pair<std::vector<std::size_t>, std::string>> val;
    bool weighted = false;
    std::string w;
    char tunab = 0;
    int share = -1; // index of a factor
    std::vector<float> raw;
    bool tunable() const { return weighted && tunab == 'Y'; }
  };
  std::vector<V> vars;
  std::vector<F> facs;
};

inline const std::vector<std::string> NUMBERS = {
    "0",   "1",    "2.5",  "0.125", "1e-3", "3.000000", "10",
    "0.5", "1E+1", "+2.0", "7",     "1.25", "0.333333"};

inline float number(const std::string &s) { return std::strtof(s.c_str(), nullptr); }

// exotic: any UTF-8 name
inline Doc genDoc(Case &c, bool exotic = true, bool repeated = true) {
  auto &s = c.s;
  Doc d;
  const bool large = s.chance(1, 20);
  auto names = genNames(s, 1 + s.below(large ? 14 : 5), exotic);
  for (auto &n : names) {
    // sizes with two digits as well
    d.vars.push_back({n, 1 + s.below(large ? (s.chance(1, 4) ? 13 : 6) : 3)});
  }
  if (s.chance(1, 100)) {
    // values with three digits
    d.vars[s.below(d.vars.size())].size = 100 + s.below(600);
  }
  std::set<std::pair<int, int>> linked;
  std::set<int> tunableUnary;
  for (auto k = 1 + s.below(large ? 20 : 6); k > 0; --k) {
    Doc::F f;
    const int a = static_cast<int>(s.below(d.vars.size()));
    const int b = static_cast<int>(s.below(d.vars.size()));
    f.vars = {a};
    if (a != b && s.chance(3, 4)) {
      if (!linked.emplace(std::min(a, b), std::max(a, b)).second) {
        continue;
      }
      f.vars.push_back(b);
    }
    std::vector<std::size_t> sizes;
    std::size_t tot = 1;
    for (int v : f.vars) {
      d.vars[static_cast<std::size_t>(v)].used = true;
      sizes.push_back(d.vars[static_cast<std::size_t>(v)].size);
      tot *= sizes.back();
    }
    f.raw.assign(tot, 0.f);
    if (sizes.size() == 2 && sizes[0] == sizes[1] && s.chance(1, 3)) {
      f.corr = s.chance(1, 2) ? 'T' : 'F';
      for (std::size_t i = 0; i < sizes[0]; ++i) {
        for (std::size_t j = 0; j < sizes[1]; ++j) {
          f.raw[i * sizes[1] + j] = (i == j) == (f.corr == 'T') ? 1.f : 0.f;
        }
      }
      if (s.chance(1, 4)) {
        // not considered
        f.val.push_back({{0, 0}, "9"});
      }
    } else {
      std::vector<std::size_t> comb(sizes.size(), 0);
      do {
        if (s.chance(3, 4)) {
          f.val.push_back({comb, s.pick(NUMBERS)});
        }
      } while (ref::next(comb, sizes));
      if (repeated && !f.val.empty() && s.chance(1, 5)) {
        // the last one counts
        f.val.push_back({s.pick(f.val).first, s.pick(NUMBERS)});
      }
      s.shuffle(f.val);
      for (auto &[cm, x] : f.val) {
        f.raw[ref::flat(cm, sizes)] = number(x);
      }
    }
    if (s.chance(2, 3)) {
      f.weighted = true;
      f.w = (s.chance(1, 3) ? "-" : "") +
            NUMBERS[1 + s.below(NUMBERS.size() - 1)];
      if (f.w.find("-+") == 0) {
        f.w.erase(1, 1);
      }
    }
    f.tunab = "\0YYYN"[s.below(5)];
    if (f.tunable()) {
      if (f.vars.size() == 1 && !tunableUnary.insert(a).second) {
        f.tunab = 'N';
      } else if (s.chance(1, 3)) {
        // with one which is not sharing: wherever it is in the document
        f.share = -2;
      }
    }
    d.facs.push_back(f);
  }
  s.shuffle(d.facs);
  std::vector<int> owners;
  for (std::size_t k = 0; k < d.facs.size(); ++k) {
    if (d.facs[k].tunable() && d.facs[k].share == -1) {
      owners.push_back(static_cast<int>(k));
    }
  }
  for (auto &f : d.facs) {
    if (f.share == -2) {
      f.share = owners.empty() ? -1 : s.pick(owners);
      if (owners.empty()) {
        owners.push_back(static_cast<int>(&f - d.facs.data()));
      }
    }
  }
  for (auto &v : d.vars) {
    if (v.used && s.chance(1, 4)) {
      v.ev = static_cast<int>(s.below(v.size));
    }
  }
  return d;
}

inline json toJson(Case &c, const Doc &d) {
  json j;
  j["Variables"] = json::array();
  for (auto &v : d.vars) {
    json x;
    x["name"] = v.name;
    x["Size"] = std::to_string(v.size);
    if (v.ev >= 0) {
      x["evidence"] = std::to_string(v.ev);
    }
    j["Variables"].push_back(x);
  }
  j["Potentials"] = json::array();
  for (auto &f : d.facs) {
    json x;
    x["Variables"] = json::array();
    for (int v : f.vars) {
      x["Variables"].push_back(d.vars[static_cast<std::size_t>(v)].name);
    }
    if (f.corr) {
      x["Correlation"] = std::string(1, f.corr);
    }
    if (!f.corr || !f.val.empty()) {
      x["Distr_val"] = json::array();
      for (auto &[comb, val] : f.val) {
        json e;
        e["v"] = json::array();
        for (auto k : comb) {
          e["v"].push_back(std::to_string(k));
        }
        e["D"] = val;
        x["Distr_val"].push_back(e);
      }
    }
    if (f.weighted) {
      x["weight"] = f.w;
    }
    if (f.tunab) {
      x["tunability"] = std::string(1, f.tunab);
    }
    if (f.share >= 0) {
      auto vs = d.facs[static_cast<std::size_t>(f.share)].vars;
      if (c.s.chance(1, 3)) {
        // one which already shares that weight does as well
        for (auto &other : d.facs) {
          if (&other == &f) {
            break;
          }
          if (other.share == f.share) {
            vs = other.vars;
          }
        }
      }
      if (vs.size() == 2 && c.s.chance(1, 2)) {
        std::swap(vs[0], vs[1]);
      }
      for (int v : vs) {
        x["Share"].push_back(d.vars[static_cast<std::size_t>(v)].name);
      }
    }
    if (c.s.chance(1, 10)) {
      x["comment"] = "not considered";
    }
    j["Potentials"].push_back(x);
  }
  return j;
}

using DocContent = std::tuple<std::vector<std::string>, std::vector<float>, bool,
                           float, bool>;

// the variables in the order of their names
inline DocContent sorted(DocContent f, const std::map<std::string, std::size_t> &size) {
  auto &names = std::get<0>(f);
  auto &raw = std::get<1>(f);
  if (names.size() == 2 && names[1] < names[0]) {
    const auto rows = size.at(names[0]), cols = size.at(names[1]);
    auto old = raw;
    for (std::size_t r = 0; r < rows; ++r) {
      for (std::size_t k = 0; k < cols; ++k) {
        raw[k * rows + r] = old[r * cols + k];
      }
    }
    std::swap(names[0], names[1]);
  }
  return f;
}

// anyOrder: the order of the variables of the factors does not matter
template <typename M>
void check(const Doc &d, M &m, bool field, bool anyOrder = false) {
  std::map<std::string, std::size_t> vars, ev, gotVars, gotEv;
  for (auto &v : d.vars) {
    if (v.used) {
      vars[v.name] = v.size;
    }
    if (v.ev >= 0) {
      ev[v.name] = static_cast<std::size_t>(v.ev);
    }
  }
  for (auto &v : m.getAllVariables()) {
    gotVars[v->name()] = v->size();
  }
  for (auto &[v, x] : m.getEvidences()) {
    gotEv[v->name()] = x;
  }
  PBT_CHECK(vars == gotVars, "other variables");
  PBT_CHECK(ev == gotEv, "other evidences");
  auto weightOf = [&d](const Doc::F &f) {
    return number(f.share >= 0 ? d.facs[static_cast<std::size_t>(f.share)].w
                               : f.w);
  };
  std::vector<DocContent> facs, gotFacs;
  std::map<std::size_t, std::set<std::set<std::string>>> clusters;
  for (std::size_t k = 0; k < d.facs.size(); ++k) {
    auto &f = d.facs[k];
    std::vector<std::string> names;
    for (int v : f.vars) {
      names.push_back(d.vars[static_cast<std::size_t>(v)].name);
    }
    const bool tun = field && f.tunable();
    facs.emplace_back(names, f.raw, f.weighted,
                      f.weighted ? (tun ? weightOf(f) : number(f.w)) : 0.f,
                      tun);
    if (tun) {
      clusters[f.share >= 0 ? static_cast<std::size_t>(f.share) : k].insert(
          {names.begin(), names.end()});
    }
  }
  auto describe = [](const factor::Immutable &f, bool tun) {
    std::vector<std::string> names;
    for (auto &v : f.function().vars().getVariables()) {
      names.push_back(v->name());
    }
    std::vector<float> raw;
    f.function().forEachCombination<false>(
        [&raw](const auto &, float x) { raw.push_back(x); });
    auto *e = dynamic_cast<const factor::FactorExponential *>(&f);
    return DocContent{names, raw, e != nullptr, e ? e->getWeight() : 0.f, tun};
  };
  for (auto &f : m.getConstFactors()) {
    gotFacs.push_back(describe(*f, false));
  }
  if (auto *t = dynamic_cast<train::FactorsTunableGetter *>(&m)) {
    std::set<std::set<std::set<std::string>>> exp, got;
    for (auto &[k, cl] : clusters) {
      exp.insert(cl);
    }
    for (auto &cl : t->getTunableClusters()) {
      std::set<std::set<std::string>> g;
      for (auto &f : clusterMembers(cl)) {
        gotFacs.push_back(describe(*f, true));
        auto &names = std::get<0>(gotFacs.back());
        g.insert({names.begin(), names.end()});
      }
      got.insert(g);
    }
    PBT_CHECK(exp == got, "other groups of factors sharing a weight");
  }
  if (anyOrder) {
    for (auto *all : {&facs, &gotFacs}) {
      for (auto &f : *all) {
        f = sorted(f, vars);
      }
    }
  }
  std::sort(facs.begin(), facs.end());
  std::sort(gotFacs.begin(), gotFacs.end());
  PBT_CHECK(facs.size() == gotFacs.size(), gotFacs.size()
                                               << " factors instead of "
                                               << facs.size());
  for (std::size_t k = 0; k < facs.size(); ++k) {
    auto &[n, r, e, w, t] = facs[k];
    auto &[n2, r2, e2, w2, t2] = gotFacs[k];
    PBT_CHECK(n == n2, "a factor connects other variables");
    PBT_CHECK(e == e2 && t == t2, "a factor is of another kind");
    PBT_CHECK(r == r2, "images " << fmt(r2) << " instead of " << fmt(r));
    PBT_CHECK(w == w2, "weight " << w2 << " instead of " << w);
  }
}
} // namespace
