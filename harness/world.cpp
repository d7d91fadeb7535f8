#include <cctype>
#include "world.h"

#include <algorithm>
#include <cmath>
#include <cstdio>
#include <iomanip>

namespace wld {
using pbt::Src;

std::string fmt(float v) {
  char b[40];
  snprintf(b, sizeof b, "%.6g", static_cast<double>(v));
  return b;
}
namespace {
template <typename V> std::string fmt_(const V &v) {
  std::string r = "[";
  for (std::size_t k = 0; k < v.size(); ++k) {
    char b[40];
    snprintf(b, sizeof b, "%.6g", static_cast<double>(v[k]));
    r += (k ? " " : "") + std::string(b);
  }
  return r + "]";
}
} // namespace
std::string fmt(const std::vector<float> &v) { return fmt_(v); }
std::string fmt(const std::vector<double> &v) { return fmt_(v); }
std::string fmt(const std::vector<std::size_t> &v) { return fmt_(v); }

void perturbHeap(Src &s) {
  auto n = s.below(24);
  std::vector<std::unique_ptr<char[]>> blocks;
  static const std::vector<std::size_t> sizes = {16,  24,  32,  48,  64, 80,
                                                 96,  112, 144, 160, 200, 240};
  for (std::uint64_t k = 0; k < n; ++k) {
    blocks.emplace_back(new char[s.pick(sizes)]);
  }
  thread_local std::vector<std::unique_ptr<char[]>> kept;
  for (auto &b : blocks) {
    if (s.chance(1, 2)) {
      kept.emplace_back(std::move(b));
    }
  }
  if (kept.size() > 3000) {
    kept.clear();
  }
}

std::vector<std::string> genNames(Src &s, std::size_t n, bool exotic) {
  std::vector<std::string> r;
  auto style = s.below(5);
  std::set<std::string> used;
  for (std::size_t k = 0; k < n; ++k) {
    std::string name;
    do {
      switch (style) {
      case 4:
        // names hardly different from the previous ones
        if (k == 0) {
          name = "Var" + std::to_string(s.below(20));
        } else {
          name = r[s.below(k)];
          auto &ch = name[s.below(name.size())];
          switch (s.below(4)) {
          case 0:
            if (std::isalpha(static_cast<unsigned char>(ch))) {
              ch = static_cast<char>(ch ^ 0x20); // other case
            }
            break;
          case 1:
            name += s.below(2) ? "0" : "_";
            break;
          case 2:
            name.insert(0, s.below(2) ? "0" : "_");
            break;
          default:
            if (name.size() > 1 && name.size() == r[0].size() &&
                static_cast<unsigned char>(name.back()) < 128) {
              name.pop_back();
            } else {
              name += name;
            }
          }
        }
        break;
      case 0:
        name = std::string(1, static_cast<char>('A' + k));
        break;
      case 1:
        name = "x" + std::to_string(s.below(1000));
        break;
      case 2:
        name = std::string(1 + s.below(30), 'v') + std::to_string(k);
        break;
      default:
        name.clear();
        for (std::uint64_t j = 0, l = 1 + s.below(8); j < l; ++j) {
          name += static_cast<char>('a' + s.below(26));
        }
      }
      if (exotic && s.chance(1, 3)) {
        static const std::vector<std::string> bits = {
            " ",   "\"",   "\\", "\n", "\t", "é", "/",  "{", "}",
            "中文", ",",   ":",  "[",  "]",  "'", "\\n", "%s", "0"};
        name.insert(s.below(2) ? 0 : name.size(), s.pick(bits));
      }
      if (used.count(name)) {
        name += "_" + std::to_string(k);
      }
    } while (!used.insert(name).second);
    r.push_back(name);
  }
  return r;
}

float genImage(Src &s, Images kind) {
  switch (kind) {
  case Images::ZEROS:
    if (s.chance(1, 3)) {
      return 0.f;
    }
    [[fallthrough]];
  case Images::POSITIVE: {
    static const std::vector<float> nice = {1.f, 2.f,  0.5f, 3.f, 0.1f,
                                            5.f, 0.25f, 10.f};
    if (s.chance(1, 2)) {
      return 0.02f + static_cast<float>(s.below(4000)) * 1e-3f;
    }
    return s.pick(nice);
  }
  case Images::WIDE: {
    float m = 1.f + static_cast<float>(s.below(900)) * 1e-2f;
    int e = static_cast<int>(s.below(9)) - 4;
    return m * std::pow(10.f, static_cast<float>(e));
  }
  case Images::WEAK:
    return std::exp((static_cast<float>(s.below(401)) - 200.f) / 200.f *
                    0.28f);
  case Images::MILD:
    return std::exp((static_cast<float>(s.below(401)) - 200.f) / 200.f * 0.9f);
  }
  return 1.f;
}

std::vector<float> genTable(Src &s, std::size_t n, Images kind) {
  std::vector<float> r(n);
  bool any = false;
  for (auto &v : r) {
    v = genImage(s, kind);
    any = any || v > 0;
  }
  if (!any) {
    r[s.below(n)] = 1.f;
  }
  if (kind != Images::WEAK && kind != Images::MILD && s.chance(1, 8)) {
    // the unit the images are expressed with does not matter
    const float scale =
        std::pow(10.f, static_cast<float>(s.below(15)) - 9.f);
    for (auto &v : r) {
      v *= scale;
    }
  }
  return r;
}

std::vector<float> genExpTable(Src &s, std::size_t n, float maxv) {
  std::vector<float> r(n);
  bool sparse = s.chance(1, 2);
  for (auto &v : r) {
    if (sparse && s.chance(1, 2)) {
      v = 0;
      continue;
    }
    static const std::vector<float> nice = {0.f, 1.f, 0.5f, 0.25f};
    v = s.chance(1, 2)
            ? static_cast<float>(s.below(1001)) * 1e-3f * maxv
            : s.pick(nice) * maxv;
  }
  return r;
}

FacPtr buildFactor(Src &s, const std::vector<VariablePtr> &vars,
                   const std::vector<float> &table) {
  auto f = std::make_shared<factor::Factor>(
      categoric::Group{categoric::VariablesSoup{vars.begin(), vars.end()}});
  std::vector<std::size_t> sizes;
  for (auto &v : vars) {
    sizes.push_back(v->size());
  }
  std::vector<std::vector<std::size_t>> combs;
  std::vector<std::size_t> comb(vars.size(), 0);
  do {
    combs.push_back(comb);
  } while (ref::next(comb, sizes));
  std::vector<std::size_t> order(combs.size());
  for (std::size_t k = 0; k < order.size(); ++k) {
    order[k] = k;
  }
  switch (s.below(4)) {
  case 0:
    break;
  case 1:
    std::reverse(order.begin(), order.end());
    break;
  default:
    s.shuffle(order);
  }
  const bool explicitZeros = s.chance(1, 3);
  const bool overwrite = s.chance(1, 4);
  if (overwrite) {
    if (s.chance(1, 4)) {
      for (auto &cb : combs) {
        f->set(cb, 3.25f);
      }
      f->clear();
    }
    for (auto k : order) {
      if (s.chance(1, 3)) {
        f->set(combs[k], genImage(s, Images::POSITIVE));
      }
    }
  }
  for (auto k : order) {
    if (table[k] == 0.f && !explicitZeros && !overwrite) {
      continue;
    }
    f->set(combs[k], table[k]);
  }
  return f;
}

bool close(double a, double b, double rel, double abs) {
  if (!std::isfinite(a)) {
    return false;
  }
  return std::abs(a - b) <= abs + rel * std::abs(b);
}

void compareDistribution(const std::vector<float> &got,
                         const std::vector<double> &expected,
                         const std::string &what, double rel, double abs) {
  bool ok = got.size() == expected.size();
  for (std::size_t k = 0; ok && k < got.size(); ++k) {
    ok = close(got[k], expected[k], rel, abs);
  }
  PBT_CHECK(ok, what << ": got " << fmt(got) << " expected " << fmt(expected));
}

void checkIsDistribution(const std::vector<float> &p, std::size_t size,
                         const std::string &what) {
  bool ok = p.size() == size;
  double sum = 0;
  for (auto v : p) {
    ok = ok && std::isfinite(v) && v >= 0;
    sum += v;
  }
  ok = ok && std::abs(sum - 1) < 1e-4;
  PBT_CHECK(ok, what << " is not a distribution over " << size
                     << " values: " << fmt(p));
}

std::string describe(const ref::Model &m) {
  std::ostringstream o;
  o << "vars:";
  for (auto &v : m.vars) {
    o << " " << v.name << "(" << v.size << ")";
  }
  for (auto &f : m.facs) {
    o << "\n " << (f.tunable ? "tunable" : "const")
      << (f.expo ? " exp w=" + fmt(f.w) : "") << " <";
    for (int v : f.vars) {
      o << m.vars[v].name << ",";
    }
    o << "> " << fmt(f.raw);
  }
  o << "\n evidence:";
  for (auto &[v, x] : m.ev) {
    o << " " << m.vars[v].name << "=" << x;
  }
  return o.str();
}

std::vector<double>
expectedGradient(const ref::Model &m,
                 const std::vector<std::vector<std::size_t>> &samples,
                 const std::vector<int> &observed, bool conditioned) {
  std::vector<double> r(m.clusters.size(), 0);
  ref::Model q = m;
  q.ev.clear();
  auto expectation = [&](const ref::Fac &f) {
    std::vector<int> hid;
    for (int v : f.vars) {
      if (q.hidden(v)) {
        hid.push_back(v);
      }
    }
    auto t = q.eliminate(hid);
    if (!t) {
      pbt::discard("impossible evidence");
    }
    double e = 0;
    std::vector<std::size_t> comb(hid.size(), 0);
    std::size_t at = 0;
    do {
      std::size_t fl = 0, h = 0;
      for (int v : f.vars) {
        auto val = q.hidden(v) ? comb[h++] : q.ev.at(v);
        fl = fl * q.vars[v].size + val;
      }
      e += t->v[at++] * static_cast<double>(f.raw[fl]);
    } while (ref::next(comb, t->sizes));
    return e;
  };
  auto value = [&](const ref::Fac &f, const std::vector<std::size_t> &smp) {
    std::size_t fl = 0;
    for (int v : f.vars) {
      fl = fl * m.vars[v].size + smp[static_cast<std::size_t>(v)];
    }
    return static_cast<double>(f.raw[fl]);
  };
  const double n = static_cast<double>(samples.size());
  for (std::size_t k = 0; k < m.clusters.size(); ++k) {
    for (int fi : m.clusters[k]) {
      for (auto &smp : samples) {
        r[k] += value(m.facs[fi], smp) / n;
      }
    }
  }
  if (conditioned) {
    std::map<std::vector<std::size_t>, std::pair<std::size_t, std::vector<double>>>
        byEvidence;
    for (auto &smp : samples) {
      std::vector<std::size_t> key;
      for (int o : observed) {
        key.push_back(smp[static_cast<std::size_t>(o)]);
      }
      auto &e = byEvidence[key];
      if (e.second.empty()) {
        q.ev.clear();
        for (std::size_t k = 0; k < observed.size(); ++k) {
          q.ev[observed[k]] = key[k];
        }
        for (auto &cl : m.clusters) {
          double x = 0;
          for (int fi : cl) {
            x += expectation(m.facs[fi]);
          }
          e.second.push_back(x);
        }
      }
      ++e.first;
    }
    for (auto &[_, e] : byEvidence) {
      for (std::size_t k = 0; k < r.size(); ++k) {
        r[k] -= e.second[k] * static_cast<double>(e.first) / n;
      }
    }
  } else {
    for (std::size_t k = 0; k < m.clusters.size(); ++k) {
      for (int fi : m.clusters[k]) {
        r[k] -= expectation(m.facs[fi]);
      }
    }
  }
  return r;
}

bool weaklyCoupled(const ref::Model &m, double limit) {
  // N(edge) = tanh(1/4 log of the maximum odds ratio). Propagation contracts
  // when, for every node, the N of all but one edge sum to less than 1
  const auto n = m.vars.size();
  std::vector<std::vector<double>> byNode(n);
  for (auto &f : m.facs) {
    if (f.vars.size() != 2 || !m.hidden(f.vars[0]) || !m.hidden(f.vars[1])) {
      continue;
    }
    const auto na = m.vars[static_cast<std::size_t>(f.vars[0])].size;
    const auto nb = m.vars[static_cast<std::size_t>(f.vars[1])].size;
    double worst = 0;
    for (std::size_t a = 0; a < na; ++a) {
      for (std::size_t a2 = 0; a2 < na; ++a2) {
        double lo = 1e300, hi = -1e300;
        for (std::size_t b = 0; b < nb; ++b) {
          const double x = f.image(a * nb + b), y = f.image(a2 * nb + b);
          if (x <= 0 || y <= 0) {
            return false;
          }
          const double l = std::log(x) - std::log(y);
          lo = std::min(lo, l);
          hi = std::max(hi, l);
        }
        worst = std::max(worst, hi - lo);
      }
    }
    const double c = std::tanh(0.25 * worst);
    byNode[static_cast<std::size_t>(f.vars[0])].push_back(c);
    byNode[static_cast<std::size_t>(f.vars[1])].push_back(c);
  }
  for (auto &e : byNode) {
    double sum = 0, least = 1e300;
    for (double c : e) {
      sum += c;
      least = std::min(least, c);
    }
    if (!e.empty() && sum - least > limit) {
      return false;
    }
  }
  return true;
}

std::map<int, std::vector<double>> loopyBeliefs(const ref::Model &m,
                                                bool maximise) {
  const auto n = m.vars.size();
  std::vector<std::vector<double>> unary(n);
  for (std::size_t v = 0; v < n; ++v) {
    unary[v].assign(m.vars[v].size, 1);
  }
  struct Edge {
    int a, b;
    std::vector<double> t;
    std::vector<double> ab, ba; // messages a->b (over b) and b->a (over a)
  };
  std::vector<Edge> edges;
  for (auto &f : m.facs) {
    std::vector<double> t(f.raw.size());
    for (std::size_t k = 0; k < t.size(); ++k) {
      t[k] = f.image(k);
    }
    const int a = f.vars[0];
    if (f.vars.size() == 1) {
      for (std::size_t k = 0; k < t.size(); ++k) {
        unary[static_cast<std::size_t>(a)][k] *= t[k];
      }
      continue;
    }
    const int b = f.vars[1];
    const auto na = m.vars[static_cast<std::size_t>(a)].size;
    const auto nb = m.vars[static_cast<std::size_t>(b)].size;
    if (m.hidden(a) && m.hidden(b)) {
      edges.push_back({a, b, t, std::vector<double>(nb, 1.0 / static_cast<double>(nb)),
                       std::vector<double>(na, 1.0 / static_cast<double>(na))});
    } else if (m.hidden(a)) {
      for (std::size_t k = 0; k < na; ++k) {
        unary[static_cast<std::size_t>(a)][k] *= t[k * nb + m.ev.at(b)];
      }
    } else if (m.hidden(b)) {
      for (std::size_t k = 0; k < nb; ++k) {
        unary[static_cast<std::size_t>(b)][k] *= t[m.ev.at(a) * nb + k];
      }
    }
  }
  auto normalise = [](std::vector<double> &v) {
    double sum = 0;
    for (double x : v) {
      sum += x;
    }
    for (double &x : v) {
      x /= sum;
    }
  };
  auto belief = [&](int v, const Edge *but) {
    auto r = unary[static_cast<std::size_t>(v)];
    for (auto &e : edges) {
      if (&e == but || (e.a != v && e.b != v)) {
        continue;
      }
      auto &msg = e.a == v ? e.ba : e.ab;
      for (std::size_t k = 0; k < r.size(); ++k) {
        r[k] *= msg[k];
      }
    }
    normalise(r);
    return r;
  };
  double change = 1;
  for (int iter = 0; iter < 300; ++iter) {
    change = 0;
    for (auto &e : edges) {
      auto ba = belief(e.a, &e), bb = belief(e.b, &e);
      const auto na = ba.size(), nb = bb.size();
      std::vector<double> ab(nb, 0), bam(na, 0);
      for (std::size_t x = 0; x < na; ++x) {
        for (std::size_t y = 0; y < nb; ++y) {
          const double toB = ba[x] * e.t[x * nb + y];
          const double toA = bb[y] * e.t[x * nb + y];
          ab[y] = maximise ? std::max(ab[y], toB) : ab[y] + toB;
          bam[x] = maximise ? std::max(bam[x], toA) : bam[x] + toA;
        }
      }
      normalise(ab);
      normalise(bam);
      for (std::size_t k = 0; k < nb; ++k) {
        change = std::max(change, std::abs(ab[k] - e.ab[k]));
      }
      for (std::size_t k = 0; k < na; ++k) {
        change = std::max(change, std::abs(bam[k] - e.ba[k]));
      }
      e.ab = ab;
      e.ba = bam;
    }
    if (change < 1e-12) {
      break;
    }
  }
  std::map<int, std::vector<double>> r;
  if (change >= 1e-12) {
    return r;
  }
  for (int v : m.hiddenVars()) {
    r[v] = belief(v, nullptr);
  }
  return r;
}

strct::QueryManager &Rebuilt::query() {
  if (field) {
    return *field;
  }
  return *graph;
}
strct::GibbsSampler &Rebuilt::sampler() {
  if (field) {
    return *field;
  }
  return *graph;
}
strct::FactorsAware &Rebuilt::factors() {
  if (field) {
    return *field;
  }
  return *graph;
}

Rebuilt rebuild(Src &s, const ref::Model &m, bool asField,
                bool newVariables) {
  perturbHeap(s);
  Rebuilt r;
  if (asField) {
    r.field = std::make_unique<model::RandomField>();
  } else {
    r.graph = std::make_unique<model::Graph>();
  }
  strct::FactorsConstInserter &ins =
      asField ? static_cast<strct::FactorsConstInserter &>(*r.field)
              : static_cast<strct::FactorsConstInserter &>(*r.graph);
  strct::EvidenceSetter &ev =
      asField ? static_cast<strct::EvidenceSetter &>(*r.field)
              : static_cast<strct::EvidenceSetter &>(*r.graph);
  for (auto &v : m.vars) {
    r.vars.push_back(newVariables ? categoric::make_variable(v.size, v.name)
                                  : v.ptr);
  }
  std::vector<std::size_t> order(m.facs.size());
  for (std::size_t k = 0; k < order.size(); ++k) {
    order[k] = k;
  }
  s.shuffle(order);
  std::set<int> present, observed;
  auto observe = [&](int v) {
    ev.setEvidence(r.vars[static_cast<std::size_t>(v)], m.ev.at(v));
    observed.insert(v);
  };
  std::map<std::size_t, std::size_t> clusterOf; // factor -> cluster
  for (std::size_t k = 0; k < m.clusters.size(); ++k) {
    for (int f : m.clusters[k]) {
      clusterOf[static_cast<std::size_t>(f)] = k;
    }
  }
  std::map<std::size_t, std::size_t> firstOf; // cluster -> inserted factor
  for (auto k : order) {
    auto &f = m.facs[k];
    // the roles of the variables of a binary factor can be exchanged
    std::vector<VariablePtr> vars;
    std::vector<float> table = f.raw;
    for (int v : f.vars) {
      vars.push_back(r.vars[static_cast<std::size_t>(v)]);
    }
    if (vars.size() == 2 && s.chance(1, 2)) {
      const auto na = vars[0]->size(), nb = vars[1]->size();
      for (std::size_t a = 0; a < na; ++a) {
        for (std::size_t b = 0; b < nb; ++b) {
          table[b * na + a] = f.raw[a * nb + b];
        }
      }
      std::swap(vars[0], vars[1]);
    }
    auto shape = buildFactor(s, vars, table);
    if (f.expo) {
      auto e = std::make_shared<factor::FactorExponential>(*shape, f.w);
      if (asField && f.tunable) {
        std::optional<categoric::VariablesSet> share;
        const auto cl = clusterOf.at(k);
        if (auto it = firstOf.find(cl); it != firstOf.end()) {
          share.emplace();
          for (int v : m.facs[it->second].vars) {
            share->emplace(r.vars[static_cast<std::size_t>(v)]);
          }
        } else {
          firstOf[cl] = k;
        }
        r.field->addTunableFactor(e, share);
      } else {
        ins.addConstFactor(e);
      }
    } else {
      ins.addConstFactor(shape);
    }
    for (int v : f.vars) {
      present.insert(v);
      if (!m.hidden(v) && !observed.count(v) && s.chance(1, 4)) {
        observe(v);
      }
    }
  }
  std::vector<int> left;
  for (auto &[v, _] : m.ev) {
    if (!observed.count(v)) {
      left.push_back(v);
    }
  }
  s.shuffle(left);
  for (int v : left) {
    observe(v);
  }
  return r;
}

// ------------------------------------------------------------------ World
World::World(pbt::Case &cs, const Options &o) : c(cs), s(cs.s), opt(o) {
  perturbHeap(s);
  // drawn also when not used: shrinking keeps the alignment of the choices
  const bool bigger = s.chance(1, 12) && opt.large;
  const bool more = s.chance(1, 16) && opt.large && opt.loops < 2;
  star = s.chance(1, 6);
  // most of the factors are tunable and share few weights, or none
  sharing = s.chance(1, 10) ? 1 + static_cast<int>(s.below(2)) : 0;
  if (sharing != 0 && opt.tunable) {
    opt.tunableOften = true;
  }
  if (bigger) {
    opt.maxSize = 4 + s.below(6);
  }
  if (more) {
    opt.maxVars += 6 + s.below(8);
  }
  const auto n = 2 + s.below(opt.maxVars - 1);
  auto names = genNames(s, n, opt.exoticNames);
  for (auto &name : names) {
    // size 1 is legal but rarely interesting
    std::size_t size =
        s.chance(1, 16) ? 1 : 2 + s.below(opt.maxSize - 1);
    pool.push_back({categoric::make_variable(size, name), -1});
  }
  if (s.chance(1, 40) && opt.huge) {
    // a variable with many values
    auto &p = pool[s.below(pool.size())];
    const bool hundreds = opt.hundreds && s.chance(1, 2);
    p.ptr = categoric::make_variable(
        hundreds ? 250 + s.below(300) : 10 + s.below(50), p.ptr->name());
  }
  if (opt.tunable) {
    field = std::make_unique<model::RandomField>();
  } else {
    graph = std::make_unique<model::Graph>();
  }
}

strct::EvidenceSetter &World::setter() {
  if (field) {
    return *field;
  }
  return *graph;
}
strct::EvidenceRemover &World::remover() {
  if (field) {
    return *field;
  }
  return *graph;
}
strct::FactorsConstInserter &World::inserter() {
  if (field) {
    return *field;
  }
  return *graph;
}
strct::GibbsSampler &World::sampler() {
  if (field) {
    return *field;
  }
  return *graph;
}
strct::QueryManager &World::query() {
  if (field) {
    return *field;
  }
  return *graph;
}
strct::FactorsAware &World::factors() {
  if (field) {
    return *field;
  }
  return *graph;
}
train::FactorsTunableInserter &World::tunables() { return *field; }

std::size_t World::genThreads() {
  return s.chance(1, 12) ? 2 + s.below(3) : 1;
}

int World::registerVar(int p) {
  auto &pv = pool[static_cast<std::size_t>(p)];
  if (pv.inModel < 0) {
    pv.inModel = static_cast<int>(ref.vars.size());
    ref.vars.push_back({pv.ptr->size(), pv.ptr->name(), pv.ptr});
  }
  return pv.inModel;
}

void World::insert(const std::vector<int> &poolVars, std::vector<float> table,
                   bool expo, float w, bool tunable, int share) {
  std::vector<VariablePtr> vars;
  ref::Fac rf;
  for (int p : poolVars) {
    vars.push_back(pool[static_cast<std::size_t>(p)].ptr);
    rf.vars.push_back(registerVar(p));
  }
  rf.raw = table;
  rf.expo = expo;
  rf.tunable = tunable;
  rf.w = w;
  // keep the current evidence possible
  ref.facs.push_back(rf);
  bool positive = true;
  for (std::size_t k = 0; k < rf.raw.size(); ++k) {
    positive = positive && rf.image(k) > 0;
  }
  if (!positive && !ref.possible()) {
    for (auto &v : ref.facs.back().raw) {
      v += 0.5f;
    }
    table = ref.facs.back().raw;
  }
  auto shape = buildFactor(s, vars, table);
  const bool copy = s.chance(1, 3);
  c.d << "\n add " << (tunable ? "tunable" : "const") << (copy ? " copy" : "")
      << (expo ? " exp w=" + fmt(w) : std::string{}) << " <";
  for (auto &v : vars) {
    c.d << v->name() << "(" << v->size() << "),";
  }
  c.d << "> " << fmt(table);
  factor::ImmutablePtr ptr = shape;
  ExpPtr asExp;
  if (expo) {
    asExp = std::make_shared<factor::FactorExponential>(*shape, w);
    ptr = asExp;
  }
  if (tunable) {
    std::optional<categoric::VariablesSet> group;
    if (share >= 0) {
      auto &cl = ref.clusters[static_cast<std::size_t>(share)];
      auto &owner = ref.facs[static_cast<std::size_t>(s.pick(cl))];
      group.emplace();
      c.d << " sharing with <";
      for (int v : owner.vars) {
        group->emplace(ref.vars[static_cast<std::size_t>(v)].ptr);
        c.d << ref.vars[static_cast<std::size_t>(v)].name << ",";
      }
      c.d << ">";
      ref.facs.back().w = ref.facs[static_cast<std::size_t>(cl.front())].w;
      cl.push_back(static_cast<int>(ref.facs.size()) - 1);
    } else {
      ref.clusters.push_back({static_cast<int>(ref.facs.size()) - 1});
    }
    if (copy) {
      tunables().copyTunableFactor(*asExp, group);
      asExp->setWeight(77.f); // must not affect the copy
    } else {
      tunables().addTunableFactor(asExp, group);
      ref.facs.back().ptr = asExp;
    }
  } else {
    if (copy) {
      inserter().copyConstFactor(*ptr);
      // copies of exponential factors become plain ones with the same images
      if (asExp) {
        asExp->setWeight(77.f);
      }
      shape->clear();
    } else {
      inserter().addConstFactor(ptr);
      ref.facs.back().ptr = ptr;
    }
  }
  ++mutations;
}

namespace {
Images pickKind(Src &s, const Options &o, bool unary) {
  if (o.weak && !(unary && o.strongUnaries)) {
    return Images::WEAK;
  }
  std::vector<unsigned> w = {4, o.zeros ? 3u : 0u, o.wide ? 3u : 0u, 1};
  static const std::vector<Images> k = {Images::POSITIVE, Images::ZEROS,
                                        Images::WIDE, Images::MILD};
  return k[s.weighted(w)];
}

std::vector<float> correlation(std::size_t a, std::size_t b, bool anti) {
  std::vector<float> r(a * b, anti ? 1.f : 0.f);
  for (std::size_t k = 0; k < std::min(a, b); ++k) {
    r[k * b + k] = anti ? 0.f : 1.f;
  }
  return r;
}
} // namespace

namespace {
void rescale(pbt::Src &s, const Options &opt, std::vector<float> &images) {
  if (opt.units && s.chance(1, 2)) {
    const float scale =
        std::pow(10.f, static_cast<float>(s.below(41)) - 20.f);
    for (auto &x : images) {
      x *= scale;
    }
  }
}
} // namespace

int World::genShare() {
  if (ref.clusters.empty()) {
    return -1;
  }
  switch (sharing) {
  case 1: // all together
    return s.chance(7, 8) ? 0 : -1;
  case 2: // all apart
    return -1;
  default:
    return s.chance(1, 3) ? static_cast<int>(s.below(ref.clusters.size()))
                          : -1;
  }
}

bool World::addUnary() {
  const int p = static_cast<int>(s.below(pool.size()));
  const auto size = pool[static_cast<std::size_t>(p)].ptr->size();
  // const, exp const, tunable
  const auto kind = opt.tunable && opt.tunableOften && s.chance(1, 2)
                        ? 2
                        : s.below(opt.tunable ? 3 : 2);
  if (kind == 0) {
    auto t = genTable(s, size, pickKind(s, opt, true));
    rescale(s, opt, t);
    insert({p}, t, false, 1, false, -1);
    return true;
  }
  const float w =
      (static_cast<float>(s.below(2001)) - 1000.f) * 1e-3f * opt.maxWeight *
      (opt.weak && !opt.strongUnaries ? 0.1f : 1.f);
  int share = -1;
  const bool tunable = kind == 2;
  if (tunable) {
    // a variable hosts at most one tunable unary factor: groups identify the
    // factor to share with
    if (pool[static_cast<std::size_t>(p)].inModel >= 0) {
      for (auto &f : ref.facs) {
        if (f.tunable && f.vars.size() == 1 &&
            f.vars[0] == pool[static_cast<std::size_t>(p)].inModel) {
          return false;
        }
      }
    }
    share = genShare();
  }
  insert({p}, genExpTable(s, size), true, w, tunable, share);
  return true;
}

bool World::addBinary() {
  if (pool.size() < 2) {
    return false;
  }
  int a = static_cast<int>(s.below(pool.size()));
  int b = static_cast<int>(s.below(pool.size() - 1));
  if (b >= a) {
    ++b;
  }
  if (star && a != 0 && b != 0 && s.chance(3, 4)) {
    (s.chance(1, 2) ? a : b) = 0;
  }
  const auto &pa = pool[static_cast<std::size_t>(a)];
  const auto &pb = pool[static_cast<std::size_t>(b)];
  if (pa.inModel >= 0 && pb.inModel >= 0) {
    if (ref.connected(pa.inModel, pb.inModel)) {
      return false;
    }
    ref::Model free = ref;
    free.ev.clear();
    auto comps = free.components();
    const bool loopEver = free.componentOf(comps, pa.inModel) ==
                          free.componentOf(comps, pb.inModel);
    auto compsNow = ref.components();
    const bool loopNow =
        ref.hidden(pa.inModel) && ref.hidden(pb.inModel) &&
        ref.componentOf(compsNow, pa.inModel) ==
            ref.componentOf(compsNow, pb.inModel);
    if (loopNow && !s.chance(opt.loops, 8)) {
      return false;
    }
    if (loopEver && !loopNow && !s.chance(opt.loops > 0 ? 6 : 0, 8)) {
      return false;
    }
  }
  const auto na = pa.ptr->size(), nb = pb.ptr->size();
  const auto kind = opt.tunable && opt.tunableOften && s.chance(1, 2)
                        ? 2
                        : s.below(opt.tunable ? 3 : 2);
  if (kind == 0) {
    std::vector<float> t;
    if (na == nb && na > 1 && opt.zeros && s.chance(1, 5)) {
      t = correlation(na, nb, s.chance(1, 2));
    } else {
      t = genTable(s, na * nb, pickKind(s, opt, false));
    }
    rescale(s, opt, t);
    insert({a, b}, t, false, 1, false, -1);
    return true;
  }
  const float w =
      (static_cast<float>(s.below(2001)) - 1000.f) * 1e-3f * opt.maxWeight *
      (opt.weak ? 0.1f : 1.f);
  int share = -1;
  if (kind == 2) {
    share = genShare();
  }
  std::vector<float> t;
  if (na == nb && na > 1 && s.chance(1, 3)) {
    t = correlation(na, nb, s.chance(1, 2));
  } else {
    t = genExpTable(s, na * nb);
  }
  insert({a, b}, t, true, w, kind == 2, share);
  return true;
}

bool World::addEvidence() {
  auto hid = ref.hiddenVars();
  if (!opt.evidence || hid.empty()) {
    return false;
  }
  int v = s.pick(hid);
  auto first = s.below(ref.vars[static_cast<std::size_t>(v)].size);
  for (std::size_t k = 0; k < ref.vars[static_cast<std::size_t>(v)].size;
       ++k) {
    auto x = (first + k) % ref.vars[static_cast<std::size_t>(v)].size;
    ref.ev[v] = x;
    if (ref.possible()) {
      const bool byName = s.chance(1, 2);
      c.d << "\n setEvidence " << ref.vars[static_cast<std::size_t>(v)].name
          << "=" << x;
      if (byName) {
        setter().setEvidence(ref.vars[static_cast<std::size_t>(v)].name, x);
      } else {
        setter().setEvidence(var(v), x);
      }
      ++mutations;
      return true;
    }
  }
  ref.ev.erase(v);
  return false;
}

bool World::updateEvidence() {
  if (ref.ev.empty()) {
    return false;
  }
  auto it = ref.ev.begin();
  std::advance(it, static_cast<long>(s.below(ref.ev.size())));
  const auto old = it->second;
  it->second = s.below(ref.vars[static_cast<std::size_t>(it->first)].size);
  if (!ref.possible()) {
    it->second = old;
    return false;
  }
  c.d << "\n updateEvidence "
      << ref.vars[static_cast<std::size_t>(it->first)].name << "="
      << it->second;
  if (s.chance(1, 2)) {
    setter().setEvidence(ref.vars[static_cast<std::size_t>(it->first)].name,
                         it->second);
  } else {
    setter().setEvidence(var(it->first), it->second);
  }
  ++mutations;
  return true;
}

bool World::removeOne() {
  if (ref.ev.empty()) {
    return false;
  }
  auto it = ref.ev.begin();
  std::advance(it, static_cast<long>(s.below(ref.ev.size())));
  int v = it->first;
  ref.ev.erase(it);
  c.d << "\n removeEvidence " << ref.vars[static_cast<std::size_t>(v)].name;
  if (s.chance(1, 2)) {
    remover().removeEvidence(ref.vars[static_cast<std::size_t>(v)].name);
  } else {
    remover().removeEvidence(var(v));
  }
  ++mutations;
  return true;
}

bool World::removeSome() {
  if (ref.ev.empty()) {
    return false;
  }
  categoric::VariablesSet set;
  std::unordered_set<std::string> names;
  c.d << "\n removeEvidences";
  for (auto it = ref.ev.begin(); it != ref.ev.end();) {
    if (s.chance(1, 2)) {
      set.emplace(var(it->first));
      names.emplace(var(it->first)->name());
      c.d << " " << var(it->first)->name();
      it = ref.ev.erase(it);
    } else {
      ++it;
    }
  }
  if (s.chance(1, 2)) {
    remover().removeEvidences(names);
  } else {
    remover().removeEvidences(set);
  }
  ++mutations;
  return true;
}

bool World::removeAll() {
  c.d << "\n removeAllEvidences";
  ref.ev.clear();
  remover().removeAllEvidences();
  ++mutations;
  return true;
}

bool World::changeWeights() {
  if (!field || ref.clusters.empty()) {
    return false;
  }
  const float most = opt.maxWeight * (opt.weak ? 0.1f : 1.f);
  const auto order = clusterOrder();
  std::vector<float> w;
  for (auto at : order) {
    w.push_back(
        ref.facs[static_cast<std::size_t>(ref.clusters[at].front())].w);
  }
  const auto some = s.below(w.size());
  const auto other = s.below(w.size());
  switch (s.weighted({6, 1, 1, 1, 1, 1})) {
  case 0:
    for (auto &v : w) {
      if (s.chance(2, 3)) {
        v = (static_cast<float>(s.below(2001)) - 1000.f) * 1e-3f * most;
      }
    }
    break;
  case 1:
    std::swap(w[some], w[other]);
    break;
  case 2:
    w[some] = -w[some];
    break;
  case 3:
    w[some] = 0;
    break;
  case 4: {
    // opposite variations
    const float d = std::min(most - w[some], most + w[other]);
    if (d > 0 && some != other) {
      w[some] += 0.5f * d;
      w[other] -= 0.5f * d;
    }
    break;
  }
  default:
    w[some] = w[some] * 0.97f; // just one, slightly
    break;
  }
  for (std::size_t k = 0; k < order.size(); ++k) {
    for (int f : ref.clusters[order[k]]) {
      ref.facs[static_cast<std::size_t>(f)].w = w[k];
    }
  }
  c.d << "\n setWeights " << fmt(w);
  field->setWeights(w);
  ++mutations;
  return true;
}

bool World::mutate() {
  switch (s.weighted({3, 6, 4, 2, 2, 1, 1, opt.tunable ? 2u : 0u})) {
  case 0:
    return addUnary();
  case 1:
    return addBinary();
  case 2:
    return addEvidence();
  case 3:
    return updateEvidence();
  case 4:
    return removeOne();
  case 5:
    return removeSome();
  case 6:
    return removeAll();
  default:
    return changeWeights();
  }
}

void World::grow(std::size_t n) {
  for (int k = 0; k < 60 && ref.vars.size() < std::min(n, pool.size()); ++k) {
    if (s.chance(1, 3)) {
      addUnary();
    } else {
      addBinary();
    }
  }
}

void World::buildHub() {
  pool.clear();
  const auto leaves = 2 + s.below(s.chance(1, 2) ? 8 : 40);
  const auto hubs = 1 + s.below(2);
  for (std::uint64_t k = 0; k < hubs + leaves; ++k) {
    pool.push_back(
        {categoric::make_variable(k < hubs ? 2 + s.below(s.chance(1, 3) ? 7 : 2)
                                           : 2 + s.below(2),
                                  "v" + std::to_string(k)),
         -1});
  }
  static const std::vector<float> scales = {1.f,   10.f,  1e2f, 1e3f,
                                            1e-1f, 1e-2f, 1e-3f};
  const float scale = s.pick(scales);
  c.d << "hub with " << leaves << " leaves, scale " << scale;
  auto connect = [&](int a, int b) {
    std::vector<int> ab = {a, b};
    s.shuffle(ab);
    if (field && opt.tunableOften && s.chance(1, 4)) {
      const auto tot = pool[static_cast<std::size_t>(a)].ptr->size() *
                       pool[static_cast<std::size_t>(b)].ptr->size();
      const float w = (static_cast<float>(s.below(2001)) - 1000.f) * 1e-3f *
                      opt.maxWeight;
      insert(ab, genExpTable(s, tot), true, w, true,
             !ref.clusters.empty() && s.chance(1, 4)
                 ? static_cast<int>(s.below(ref.clusters.size()))
                 : -1);
      return;
    }
    auto t = genTable(s,
                      pool[static_cast<std::size_t>(a)].ptr->size() *
                          pool[static_cast<std::size_t>(b)].ptr->size(),
                      s.chance(1, 2) ? Images::POSITIVE : Images::MILD);
    for (auto &x : t) {
      x *= scale;
    }
    insert(ab, t, false, 1, false, -1);
  };
  if (hubs == 2) {
    connect(0, 1);
  }
  for (std::uint64_t k = hubs; k < hubs + leaves; ++k) {
    connect(static_cast<int>(s.below(hubs)), static_cast<int>(k));
    if (s.chance(1, 4)) {
      auto p = static_cast<int>(s.below(2) ? k : 0);
      auto t = genTable(s, pool[static_cast<std::size_t>(p)].ptr->size(),
                        Images::MILD);
      for (auto &x : t) {
        x *= scale;
      }
      insert({p}, t, false, 1, false, -1);
    }
  }
  const auto observed = s.below(leaves);
  for (std::uint64_t k = 0; k < observed; ++k) {
    if (s.chance(1, 2)) {
      addEvidence();
    }
  }
}

std::vector<int> World::buildForest(std::size_t maxVars) {
  pool.clear();
  const auto n = 8 + s.below(maxVars - 7);
  for (std::uint64_t k = 0; k < n; ++k) {
    pool.push_back({categoric::make_variable(2 + s.below(s.chance(1, 8) ? 4 : 2),
                                             "v" + std::to_string(k)),
                    -1});
  }
  if (s.chance(1, 3)) {
    auto &p = pool[s.below(pool.size())];
    p.ptr = categoric::make_variable(10 + s.below(90), p.ptr->name());
  }
  const auto shape = s.below(3);
  const auto images = s.pick(std::vector<Images>{
      Images::POSITIVE, Images::MILD, Images::WEAK,
      opt.zeros ? Images::ZEROS : Images::POSITIVE});
  c.d << "forest of " << n << " variables, shape " << shape << ", images "
      << static_cast<int>(images);
  std::vector<std::vector<int>> links;
  for (std::uint64_t k = 1; k < n; ++k) {
    if (s.chance(1, 30)) {
      continue; // another tree
    }
    std::uint64_t other = k - 1;
    if (shape == 1) {
      other = s.below(k);
    } else if (shape == 2) {
      other = k - 1 - s.below(std::min<std::uint64_t>(k, 4));
    }
    links.push_back({static_cast<int>(k), static_cast<int>(other)});
  }
  if (s.chance(1, 2)) {
    s.shuffle(links);
  }
  for (auto &ab : links) {
    if (s.chance(1, 2)) {
      std::swap(ab[0], ab[1]);
    }
    const auto tot = pool[static_cast<std::size_t>(ab[0])].ptr->size() *
                     pool[static_cast<std::size_t>(ab[1])].ptr->size();
    if (s.chance(1, opt.tunableOften ? 3 : 6)) {
      const bool tun = field && s.chance(1, 2);
      insert(ab, genExpTable(s, tot), true,
             (static_cast<float>(s.below(2001)) - 1000.f) * 1e-3f, tun,
             tun ? genShare() : -1);
    } else {
      // null images only here and there: contradictions otherwise
      insert(ab,
             genTable(s, tot,
                      images == Images::ZEROS && s.chance(3, 4)
                          ? Images::POSITIVE
                          : images),
             false, 1, false, -1);
    }
    if (s.chance(1, 4)) {
      insert({ab[0]},
             genTable(s, pool[static_cast<std::size_t>(ab[0])].ptr->size(),
                      Images::MILD),
             false, 1, false, -1);
    }
  }
  for (auto k = s.below(s.chance(1, 3) ? 12 : 4); k > 0; --k) {
    addEvidence();
  }
  std::vector<int> some;
  for (int k = 0; k < 6 && !ref.vars.empty(); ++k) {
    some.push_back(static_cast<int>(s.below(ref.vars.size())));
  }
  return some;
}

void World::noise() {
  if (ref.vars.empty()) {
    return;
  }
  const auto v = static_cast<std::size_t>(s.below(ref.vars.size()));
  const auto th = genThreads();
  // keep queries on loopy parts cheap
  switch (s.below(6)) {
  case 0:
    c.d << "\n query marginal " << ref.vars[v].name;
    query().getMarginalDistribution(ref.vars[v].ptr, th);
    break;
  case 1:
    c.d << "\n query MAP " << ref.vars[v].name;
    query().getMAP(ref.vars[v].name, th);
    break;
  case 2:
    c.d << "\n query hidden MAP";
    query().getHiddenSetMAP(th);
    break;
  case 3:
    c.d << "\n query joint of " << ref.vars[v].name;
    query().getJointMarginalDistribution(categoric::Group{ref.vars[v].ptr},
                                         th);
    break;
  case 4: {
    c.d << "\n draw samples";
    strct::GibbsSampler::SamplesGenerationContext ctx;
    ctx.samples_number = 1 + s.below(3);
    ctx.delta_iterations = 1;
    ctx.transient = 1;
    ctx.seed = s.below(100);
    sampler().makeSamples(ctx, th);
    break;
  }
  default:
    if (field && ref.ev.empty() && !ref.clusters.empty()) {
      c.d << "\n query gradient";
      std::vector<std::size_t> smp;
      for (auto &x : ref.vars) {
        smp.push_back(s.below(x.size));
      }
      train::TrainSet set{{smp}};
      field->getWeightsGradient(set.makeIterator(), th);
    }
  }
}

void World::checkMarginal(int v, std::size_t threads) {
  auto &rv = ref.vars[static_cast<std::size_t>(v)];
  std::vector<float> got;
  if (s.chance(1, 2)) {
    got = query().getMarginalDistribution(rv.name, threads);
  } else {
    got = query().getMarginalDistribution(rv.ptr, threads);
  }
  ++checks;
  if (!ref.hidden(v)) {
    std::vector<double> e(rv.size, 0);
    e[ref.ev[v]] = 1;
    compareDistribution(got, e, "marginal of observed " + rv.name);
    return;
  }
  auto comps = ref.components();
  auto &comp = comps[static_cast<std::size_t>(ref.componentOf(comps, v))];
  if (!comp.tree()) {
    if (!opt.zeros) {
      checkIsDistribution(got, rv.size, "marginal of " + rv.name);
    }
    return;
  }
  auto e = ref.eliminate({v});
  if (!e) {
    pbt::discard("impossible evidence");
  }
  if (comp.vars.size() > 1) {
    ++exactChecks;
  }
  compareDistribution(got, e->v, "marginal of " + rv.name);
}

void World::checkAllMarginals(std::size_t threads) {
  for (int v = 0; v < static_cast<int>(ref.vars.size()); ++v) {
    checkMarginal(v, threads);
  }
}

void World::checkMap(int v, std::size_t threads) {
  auto &rv = ref.vars[static_cast<std::size_t>(v)];
  std::size_t got = s.chance(1, 2) ? query().getMAP(rv.name, threads)
                                   : query().getMAP(rv.ptr, threads);
  ++checks;
  PBT_CHECK(got < rv.size, "MAP of " << rv.name << " out of domain: " << got);
  if (!ref.hidden(v)) {
    PBT_CHECK(got == ref.ev[v], "MAP of observed " << rv.name << " is " << got
                                                   << " instead of "
                                                   << ref.ev[v]);
    return;
  }
  auto comps = ref.components();
  auto &comp = comps[static_cast<std::size_t>(ref.componentOf(comps, v))];
  if (!comp.tree()) {
    return;
  }
  auto e = ref.eliminate({v}, true);
  if (!e) {
    pbt::discard("impossible evidence");
  }
  if (comp.vars.size() > 1) {
    ++exactChecks;
  }
  PBT_CHECK(e->v[got] >= 1 - 1e-3, "MAP of "
                                       << rv.name << " is " << got
                                       << " but the max-marginals are "
                                       << fmt(e->v));
}

void World::checkHiddenMap(std::size_t threads) {
  auto got = query().getHiddenSetMAP(threads);
  auto hid = factors().getHiddenVariables();
  ++checks;
  PBT_CHECK(got.size() == hid.size(), "hidden set MAP has "
                                          << got.size() << " values for "
                                          << hid.size() << " variables");
  auto comps = ref.components();
  std::size_t k = 0;
  for (auto &h : hid) {
    int v = ref.find(h->name());
    PBT_CHECK(v >= 0 && ref.hidden(v), h->name() << " is not hidden");
    PBT_CHECK(got[k] < h->size(),
              "hidden set MAP out of domain for " << h->name());
    auto &comp = comps[static_cast<std::size_t>(ref.componentOf(comps, v))];
    if (comp.tree()) {
      auto e = ref.eliminate({v}, true);
      if (!e) {
        pbt::discard("impossible evidence");
      }
      if (comp.vars.size() > 1) {
        ++exactChecks;
      }
      PBT_CHECK(e->v[got[k]] >= 1 - 1e-3,
                "hidden set MAP: " << h->name() << " is " << got[k]
                                   << " but the max-marginals are "
                                   << fmt(e->v));
    }
    ++k;
  }
}

void World::checkJoint(std::size_t threads) {
  // hidden variables: a connected portion of some tree components
  auto comps = ref.components();
  std::vector<int> chosen;
  std::size_t space = 1;
  for (auto &comp : comps) {
    if (!comp.tree() || !s.chance(2, 3)) {
      continue;
    }
    std::vector<int> part = {s.pick(comp.vars)};
    const auto want = 1 + s.below(comp.vars.size());
    while (part.size() < want) {
      std::vector<int> border;
      for (int v : comp.vars) {
        if (std::find(part.begin(), part.end(), v) != part.end()) {
          continue;
        }
        for (int p : part) {
          if (ref.connected(p, v)) {
            border.push_back(v);
            break;
          }
        }
      }
      if (border.empty()) {
        break;
      }
      part.push_back(s.pick(border));
    }
    for (int v : part) {
      if (space * ref.vars[static_cast<std::size_t>(v)].size <= 2000) {
        space *= ref.vars[static_cast<std::size_t>(v)].size;
        chosen.push_back(v);
      } else {
        break; // stay connected
      }
    }
  }
  const std::size_t hiddenChosen = chosen.size();
  for (auto &[v, _] : ref.ev) {
    if (s.chance(1, 3) &&
        space * ref.vars[static_cast<std::size_t>(v)].size <= 3000) {
      space *= ref.vars[static_cast<std::size_t>(v)].size;
      chosen.push_back(v);
    }
  }
  if (chosen.empty()) {
    return;
  }
  std::vector<int> hid{chosen.begin(),
                       chosen.begin() + static_cast<long>(hiddenChosen)};
  // the images of the joint distribution should be representable
  {
    double hi = 0, lo = 0;
    for (auto &f : ref.facs) {
      if (f.vars.size() != 2 ||
          std::find(hid.begin(), hid.end(), f.vars[0]) == hid.end() ||
          std::find(hid.begin(), hid.end(), f.vars[1]) == hid.end()) {
        continue;
      }
      double h = -1e9, l = 1e9;
      for (std::size_t k = 0; k < f.raw.size(); ++k) {
        if (f.image(k) > 0) {
          h = std::max(h, std::log10(f.image(k)));
          l = std::min(l, std::log10(f.image(k)));
        }
      }
      hi += h;
      lo += l;
    }
    // whatever the unit of each factor is
    if (hi - lo > 25) {
      return;
    }
  }
  s.shuffle(chosen);
  std::vector<std::string> names;
  categoric::VariablesSoup soup;
  c.d << "\n joint of";
  for (int v : chosen) {
    names.push_back(ref.vars[static_cast<std::size_t>(v)].name);
    soup.push_back(var(v));
    c.d << " " << names.back();
  }
  const bool byName = s.chance(1, 2);
  factor::Factor got =
      byName ? query().getJointMarginalDistribution(names, threads)
             : query().getJointMarginalDistribution(categoric::Group{soup},
                                                    threads);
  ++checks;
  PBT_CHECK(got.function().vars().getVariables() == soup,
            "the joint distribution does not follow the requested order");
  auto e = ref.eliminate(hid);
  if (!e) {
    pbt::discard("impossible evidence");
  }
  std::vector<double> expected;
  std::vector<std::size_t> sizes, comb(chosen.size(), 0);
  for (int v : chosen) {
    sizes.push_back(ref.vars[static_cast<std::size_t>(v)].size);
  }
  do {
    bool ok = true;
    std::vector<std::size_t> hc(hid.size(), 0);
    for (std::size_t k = 0; k < chosen.size(); ++k) {
      auto it = ref.ev.find(chosen[k]);
      if (it != ref.ev.end()) {
        ok = ok && it->second == comb[k];
      } else {
        hc[static_cast<std::size_t>(
            std::find(hid.begin(), hid.end(), chosen[k]) - hid.begin())] =
            comb[k];
      }
    }
    expected.push_back(ok ? e->at(hc) : 0);
  } while (ref::next(comb, sizes));
  if (chosen.size() > 1) {
    ++exactChecks;
  }
  compareDistribution(got.getProbabilities(), expected, "joint distribution",
                      2e-3, 1e-7);
}

train::TrainSet World::genTrainSet() {
  std::vector<std::vector<std::size_t>> lib;
  const auto n = 1 + s.below(s.chance(1, 10) ? 40 : 6);
  c.d << "\n train set:";
  for (std::uint64_t k = 0; k < n; ++k) {
    lib.emplace_back();
    for (auto &v : factors().getAllVariables()) {
      lib.back().push_back(s.below(v->size()));
    }
    c.d << " " << fmt(lib.back());
  }
  if (s.chance(1, 25)) {
    // many samples
    const auto first = lib;
    for (auto &comb : first) {
      const auto copies = s.below(s.chance(1, 8) ? 2000 : 120);
      c.d << " x" << copies + 1;
      lib.insert(lib.end(), copies, comb);
    }
    c.label("many samples");
  }
  return train::TrainSet{lib};
}

void World::checkGradient(std::size_t threads) {
  if (!field || ref.clusters.empty()) {
    return;
  }
  auto set = genTrainSet();
  checkGradient(set.makeIterator(), threads);
}

void World::checkGradient(const train::TrainSet::Iterator &it,
                          std::size_t threads) {
  if (!field || ref.clusters.empty()) {
    return;
  }
  ref::Model free = ref;
  free.ev.clear();
  for (auto &comp : free.components()) {
    if (!comp.tree()) {
      return;
    }
  }
  std::vector<std::vector<std::size_t>> samples; // in ref order
  it.forEachSample([&](const std::vector<std::size_t> &comb) {
    samples.emplace_back(ref.vars.size(), 0);
    std::size_t pos = 0;
    for (auto &v : factors().getAllVariables()) {
      samples.back()[static_cast<std::size_t>(ref.find(v->name()))] =
          comb[pos++];
    }
  });
  auto expected_ = expectedGradient(ref, samples, {}, false);
  std::vector<double> expected;
  for (auto at : clusterOrder()) {
    expected.push_back(expected_[at]);
  }
  c.d << "\n gradient";
  const auto weights = field->getWeights();
  auto got = field->getWeightsGradient(it, threads);
  PBT_CHECK(field->getWeights() == weights,
            "the gradient changed the weights: "
                << fmt(field->getWeights()) << " instead of " << fmt(weights));
  ref.ev.clear(); // learning assumes no evidence
  for (auto &[v, x] : factors().getEvidences()) {
    ref.ev[ref.find(v->name())] = x;
  }
  ++checks;
  ++exactChecks;
  compareGradient(got, expected, "gradient");
}

bool World::observeForConditional(bool hiddenTrees) {
  if (!field) {
    return false;
  }
  for (int attempt = 0; attempt < 12; ++attempt) {
    ref::Model m = ref;
    m.ev.clear();
    for (std::size_t v = 0; v < m.vars.size(); ++v) {
      if (s.chance(1, 1 + attempt % 3 + 1)) {
        m.ev[static_cast<int>(v)] = s.below(m.vars[v].size);
      }
    }
    bool ok = !m.ev.empty() && m.ev.size() < m.vars.size();
    for (auto &f : m.facs) {
      bool hidden = false;
      for (int v : f.vars) {
        hidden = hidden || m.hidden(v);
      }
      ok = ok && (hidden || !f.tunable);
    }
    if (ok && hiddenTrees) {
      for (auto &comp : m.components()) {
        ok = ok && comp.tree();
      }
    }
    if (!ok || !m.possible()) {
      continue;
    }
    if (!ref.ev.empty()) {
      removeAll();
    }
    for (auto &[v, x] : m.ev) {
      c.d << "\n setEvidence " << ref.vars[static_cast<std::size_t>(v)].name
          << "=" << x;
      setter().setEvidence(var(v), x);
      ref.ev[v] = x;
    }
    return true;
  }
  return false;
}

void compareGradient(const std::vector<float> &got,
                     const std::vector<double> &expected,
                     const std::string &what) {
  bool ok = got.size() == expected.size();
  for (std::size_t k = 0; ok && k < got.size(); ++k) {
    ok = close(got[k], expected[k], 1e-3, 2e-4);
  }
  PBT_CHECK(ok, what << " " << fmt(got) << " expected " << fmt(expected));
}

void World::checkState() {
  auto &m = factors();
  ++checks;
  std::set<std::string> all, hid, obs;
  for (auto &v : m.getAllVariables()) {
    PBT_CHECK(all.insert(v->name()).second,
              v->name() << " appears twice among the variables");
    int k = ref.find(v->name());
    PBT_CHECK(k >= 0 && ref.vars[static_cast<std::size_t>(k)].ptr == v,
              v->name() << " should not be part of the model");
    PBT_CHECK(m.findVariable(v->name()) == v,
              "findVariable returns another variable for " << v->name());
  }
  PBT_CHECK(all.size() == ref.vars.size(), "the model has "
                                               << all.size()
                                               << " variables instead of "
                                               << ref.vars.size());
  for (auto &v : m.getHiddenVariables()) {
    int k = ref.find(v->name());
    PBT_CHECK(hid.insert(v->name()).second && k >= 0 && ref.hidden(k),
              v->name() << " should not be hidden");
  }
  for (auto &v : m.getObservedVariables()) {
    int k = ref.find(v->name());
    PBT_CHECK(obs.insert(v->name()).second && k >= 0 && !ref.hidden(k),
              v->name() << " should not be observed");
  }
  PBT_CHECK(hid.size() + obs.size() == all.size() &&
                obs.size() == ref.ev.size(),
            "hidden " << hid.size() << " + observed " << obs.size()
                      << " variables out of " << all.size() << ", evidence is "
                      << ref.ev.size());
  PBT_CHECK(m.getEvidences().size() == ref.ev.size(), "wrong evidence number");
  for (auto &[v, x] : m.getEvidences()) {
    int k = ref.find(v->name());
    PBT_CHECK(k >= 0 && !ref.hidden(k) && ref.ev[k] == x,
              "wrong evidence for " << v->name() << ": " << x);
  }
  PBT_CHECK(m.getAllFactors().size() == ref.facs.size(),
            "the model has " << m.getAllFactors().size()
                             << " factors instead of " << ref.facs.size());
  std::size_t tun = 0;
  for (auto &f : ref.facs) {
    tun += f.tunable;
    if (f.ptr) {
      PBT_CHECK(m.getAllFactors().count(f.ptr),
                "an inserted factor is not in the model");
      PBT_CHECK(inserter().getConstFactors().count(f.ptr) ==
                    (f.tunable ? 0u : 1u),
                "a factor is not properly listed among the constant ones");
    }
  }
  PBT_CHECK(inserter().getConstFactors().size() == ref.facs.size() - tun,
            "wrong number of constant factors");
  if (field) {
    PBT_CHECK(field->getTunableFactors().size() == tun,
              "wrong number of tunable factors");
    for (auto &f : ref.facs) {
      if (f.ptr && f.tunable) {
        PBT_CHECK(field->getTunableFactors().count(
                      std::dynamic_pointer_cast<factor::FactorExponential>(
                          f.ptr)),
                  "a factor is not listed among the tunable ones");
      }
    }
  }
}

void World::checkPropagationResult(strct::PropagationKind kind) {
  auto &m = factors();
  ++checks;
  PBT_CHECK(m.hasPropagationResult(), "no propagation result after a query");
  auto &r = m.getLastPropagationResult();
  PBT_CHECK(r.propagation_kind_done == kind, "wrong kind of propagation");
  std::multiset<std::pair<bool, std::size_t>> got, expected;
  bool loopy = false;
  for (auto &st : r.structures) {
    got.emplace(st.tree_or_loopy_graph, st.size);
  }
  for (auto &comp : ref.components()) {
    expected.emplace(comp.tree(), comp.vars.size());
    loopy = loopy || !comp.tree();
  }
  std::ostringstream o;
  for (auto &[t, n] : got) {
    o << (t ? " tree:" : " loopy:") << n;
  }
  o << " expected";
  for (auto &[t, n] : expected) {
    o << (t ? " tree:" : " loopy:") << n;
  }
  PBT_CHECK(got == expected, "clusters of the last propagation:" << o.str());
  PBT_CHECK(loopy || r.was_completed,
            "propagation over trees reported as not completed");
}

void World::checkWeights() {
  if (!field) {
    return;
  }
  ++checks;
  auto w = field->getWeights();
  auto cl = field->getTunableClusters();
  PBT_CHECK(w.size() == ref.clusters.size() && cl.size() == w.size(),
            "there are " << w.size() << " weights and " << cl.size()
                         << " clusters instead of " << ref.clusters.size());
  auto order = clusterOrder();
  std::set<std::size_t> seen;
  for (std::size_t k = 0; k < w.size(); ++k) {
    auto &rc = ref.clusters[order[k]];
    PBT_CHECK(seen.insert(order[k]).second, "a cluster is listed twice");
    const float e = ref.facs[static_cast<std::size_t>(rc.front())].w;
    PBT_CHECK(w[k] == e, "weight " << k << " is " << w[k] << " instead of "
                                   << e);
    auto members = clusterMembers(cl[k]);
    PBT_CHECK(members.size() == rc.size(),
              "cluster " << k << " has " << members.size()
                         << " factors instead of " << rc.size());
    std::set<int> found;
    for (std::size_t j = 0; j < members.size(); ++j) {
      PBT_CHECK(members[j]->getWeight() == e,
                "factor " << j << " of cluster " << k << " has weight "
                          << members[j]->getWeight() << " instead of " << e);
      int f = findTunable(*members[j]);
      PBT_CHECK(f >= 0 && found.insert(f).second &&
                    std::find(rc.begin(), rc.end(), f) != rc.end(),
                "unexpected factor in cluster " << k);
      auto &rf = ref.facs[static_cast<std::size_t>(f)];
      PBT_CHECK(!rf.ptr || rf.ptr.get() == members[j].get(),
                "unexpected factor in cluster " << k);
      PBT_CHECK(field->getTunableFactors().count(members[j]),
                "a factor of a cluster is not listed as tunable");
    }
  }
}

std::vector<ExpPtr>
clusterMembers(const std::variant<train::FactorExponentialPtr,
                                  train::TunableClusters> &cl) {
  if (auto *one = std::get_if<train::FactorExponentialPtr>(&cl)) {
    return {*one};
  }
  return std::get<train::TunableClusters>(cl);
}

int World::findTunable(const factor::Immutable &f) const {
  return wld::findTunable(ref, f);
}

int findTunable(const ref::Model &ref, const factor::Immutable &f) {
  std::set<int> vars;
  for (auto &v : f.function().vars().getVariables()) {
    vars.insert(ref.find(v->name()));
  }
  for (std::size_t k = 0; k < ref.facs.size(); ++k) {
    if (ref.facs[k].tunable &&
        vars == std::set<int>{ref.facs[k].vars.begin(),
                              ref.facs[k].vars.end()}) {
      return static_cast<int>(k);
    }
  }
  return -1;
}

std::vector<std::size_t>
clusterOrder(const ref::Model &ref, const train::FactorsTunableGetter &m) {
  std::vector<std::size_t> r;
  for (auto &cl : m.getTunableClusters()) {
    auto members = clusterMembers(cl);
    PBT_CHECK(!members.empty(), "empty cluster of tunable factors");
    int f = findTunable(ref, *members.front());
    std::size_t at = ref.clusters.size();
    for (std::size_t k = 0; k < ref.clusters.size(); ++k) {
      if (std::find(ref.clusters[k].begin(), ref.clusters[k].end(), f) !=
          ref.clusters[k].end()) {
        at = k;
      }
    }
    PBT_CHECK(at < ref.clusters.size(), "unexpected cluster");
    r.push_back(at);
  }
  PBT_CHECK(r.size() == ref.clusters.size(),
            "there are " << r.size() << " clusters of tunable factors instead of "
                         << ref.clusters.size());
  return r;
}

std::vector<std::size_t> World::clusterOrder() const {
  return wld::clusterOrder(ref, *field);
}
} // namespace wld
