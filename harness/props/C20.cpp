// Operations between factors: products, permutations, clones, correlations.
#include "../world.h"

#include <EasyFactorGraph/Error.h>
#include <EasyFactorGraph/categoric/GroupRange.h>

#include <cmath>
using namespace wld;
using pbt::Case;

namespace {
using Comb = std::vector<std::size_t>;

struct Item {
  std::shared_ptr<factor::Immutable> lib;
  std::vector<VariablePtr> vars;
  std::vector<float> raw;
  bool expo = false;
  float w = 1;

  double image(const std::map<std::string, std::size_t> &values) const {
    Comb comb;
    std::vector<std::size_t> sizes;
    for (auto &v : vars) {
      comb.push_back(values.at(v->name()));
      sizes.push_back(v->size());
    }
    const double x = raw[ref::flat(comb, sizes)];
    return expo ? std::exp(static_cast<double>(w) * x) : x;
  }
};

std::vector<VariablePtr> genPool(Case &c) {
  std::vector<VariablePtr> r;
  const bool large = c.s.chance(1, 20);
  const auto n = 2 + c.s.below(large ? 2 : 4);
  for (auto &name : genNames(c.s, n)) {
    r.push_back(categoric::make_variable(
        c.s.chance(1, 10) ? 1 : 2 + c.s.below(large ? 9 : 3), name));
  }
  return r;
}

Item genItem(Case &c, const std::vector<VariablePtr> &pool,
             float scale = 1) {
  Item r;
  r.vars = pool;
  c.s.shuffle(r.vars);
  r.vars.resize(1 + c.s.below(std::min<std::size_t>(3, pool.size())));
  std::size_t n = 1;
  for (auto &v : r.vars) {
    n *= v->size();
  }
  r.expo = scale == 1 && c.s.chance(1, 3);
  if (r.expo) {
    r.raw = genExpTable(c.s, n);
    r.w = -2.f + 0.01f * static_cast<float>(c.s.below(400));
  } else {
    r.raw = genTable(c.s, n,
                     scale != 1          ? Images::MILD
                     : c.s.chance(1, 2) ? Images::ZEROS
                                        : Images::POSITIVE);
    for (auto &x : r.raw) {
      x *= scale != 1 && c.s.chance(1, 8) ? 0 : scale;
    }
  }
  auto f = buildFactor(c.s, r.vars, r.raw);
  if (r.expo) {
    r.lib = std::make_shared<factor::FactorExponential>(*f, r.w);
  } else {
    r.lib = f;
  }
  c.d << "\n " << (r.expo ? "exp w=" + fmt(r.w) + " " : std::string{}) << "<";
  for (auto &v : r.vars) {
    c.d << v->name() << "(" << v->size() << "),";
  }
  c.d << "> " << fmt(r.raw);
  return r;
}

// values of a combination of a factor, by name
std::map<std::string, std::size_t> named(const factor::Immutable &f,
                                         const Comb &comb) {
  std::map<std::string, std::size_t> r;
  auto &vars = f.function().vars().getVariables();
  for (std::size_t k = 0; k < comb.size(); ++k) {
    r[vars[k]->name()] = comb[k];
  }
  return r;
}

void checkIs(const factor::Immutable &got, const std::vector<Item> &items,
             const std::set<std::string> &names, const std::string &what,
             double least = 1e-30) {
  std::set<std::string> gotNames;
  for (auto &v : got.function().vars().getVariables()) {
    gotNames.insert(v->name());
  }
  PBT_CHECK(gotNames == names, what << ": variables of the result");
  got.function().forEachCombination<true>([&](const Comb &comb, float img) {
    const auto values = named(got, comb);
    double e = 1;
    for (auto &i : items) {
      e *= i.image(values);
    }
    PBT_CHECK(close(img, e, 1e-4, least), what << ": image of " << fmt(comb)
                                               << " is " << img
                                               << " instead of " << e);
  });
}

void products(Case &c) {
  auto pool = genPool(c);
  std::vector<Item> items;
  for (auto k = 1 + c.s.below(c.s.chance(1, 20) ? 9 : 4); k > 0; --k) {
    items.push_back(genItem(c, pool));
  }
  std::set<std::string> names;
  std::vector<const factor::Immutable *> ptrs;
  for (auto &i : items) {
    ptrs.push_back(i.lib.get());
    for (auto &v : i.vars) {
      names.insert(v->name());
    }
  }
  factor::Factor merged{ptrs};
  checkIs(merged, items, names, "product");
  c.s.shuffle(ptrs);
  factor::Factor shuffled{ptrs};
  checkIs(shuffled, items, names, "product in another order");
  if (ptrs.size() > 1) {
    auto pairwise = std::make_unique<factor::Factor>(
        std::vector<const factor::Immutable *>{ptrs[0], ptrs[1]});
    for (std::size_t k = 2; k < ptrs.size(); ++k) {
      pairwise = std::make_unique<factor::Factor>(
          factor::Factor::merge(*ptrs[k], *pairwise));
    }
    checkIs(*pairwise, items, names, "product of products");
    c.nontrivial = true;
  }
  if (ptrs.size() == 3) {
    checkIs(factor::Factor::merge(*ptrs[0], *ptrs[1], *ptrs[2]), items, names,
            "product of three");
  }
  // the factors are still what they were
  for (auto &i : items) {
    std::set<std::string> own;
    for (auto &v : i.vars) {
      own.insert(v->name());
    }
    checkIs(*i.lib, {i}, own, "factor after being merged");
  }
  // another instance of one of the variables
  if (c.s.chance(1, 4)) {
    auto &v = items.front().vars.front();
    auto other = categoric::make_variable(v->size(), v->name());
    factor::Factor f{categoric::Group{other}};
    bool refused = false;
    try {
      factor::Factor::merge(*items.front().lib, f);
    } catch (const EFG::Error &) {
      refused = true;
    }
    PBT_CHECK(refused, "factors referring to different instances of the same "
                       "variable are merged");
  }
}

// images near the limits of what can be represented
void extremes(Case &c) {
  auto pool = genPool(c);
  const bool big = c.s.chance(1, 2);
  std::vector<Item> items;
  items.push_back(genItem(c, pool, big ? 1e30f : 1e-32f));
  items.push_back(genItem(c, pool, big ? 1e3f : 1e-2f));
  if (big) {
    c.label("huge");
  }
  c.s.shuffle(items);
  std::set<std::string> names;
  for (auto &i : items) {
    for (auto &v : i.vars) {
      names.insert(v->name());
    }
  }
  checkIs(factor::Factor::merge(*items[0].lib, *items[1].lib), items, names,
          "product", 1e-37);
  c.nontrivial = true;
}

void permutations(Case &c) {
  auto pool = genPool(c);
  auto item = genItem(c, pool);
  if (item.expo) {
    // permutations are an operation of plain factors
    item.expo = false;
    item.lib = buildFactor(c.s, item.vars, item.raw);
  }
  auto &f = static_cast<factor::Factor &>(*item.lib);
  std::set<std::string> names;
  for (auto &v : item.vars) {
    names.insert(v->name());
  }
  auto order = item.vars;
  c.s.shuffle(order);
  auto permuted = f.cloneWithPermutedGroup(categoric::Group{order});
  PBT_CHECK(permuted.function().vars().getVariables() == order,
            "order of the permuted variables");
  checkIs(permuted, {item}, names, "permuted");
  auto back = permuted.cloneWithPermutedGroup(categoric::Group{item.vars});
  PBT_CHECK(back.function().vars().getVariables() == item.vars,
            "order of the variables permuted back");
  checkIs(back, {item}, names, "permuted back");
  checkIs(f, {item}, names, "permuted factor");
  c.nontrivial = order.size() > 1;
  // not a permutation
  auto bad = order;
  switch (c.s.below(3)) {
  case 0:
    bad.push_back(categoric::make_variable(2, "?more"));
    break;
  case 1:
    bad.back() = categoric::make_variable(bad.back()->size(), "?other");
    break;
  default:
    bad.back() =
        categoric::make_variable(bad.back()->size() + 1, bad.back()->name());
  }
  bool refused = false;
  try {
    f.cloneWithPermutedGroup(categoric::Group{bad});
  } catch (const EFG::Error &) {
    refused = true;
  }
  PBT_CHECK(refused, "a group which is not a permutation was accepted");
}

void clones(Case &c) {
  auto pool = genPool(c);
  auto item = genItem(c, pool);
  std::set<std::string> names;
  for (auto &v : item.vars) {
    names.insert(v->name());
  }
  factor::Factor clone{*item.lib, factor::Factor::CloneTrasformedImagesTag{}};
  PBT_CHECK(clone.function().vars().getVariables() == item.vars,
            "variables of the clone");
  checkIs(clone, {item}, names, "clone of the transformed images");
  clone.function().forEachCombination<false>([&](const Comb &x, float img) {
    PBT_CHECK(close(img, item.image(named(clone, x)), 1e-4, 1e-30),
              "raw image of the clone");
  });
  // independent
  if (item.expo) {
    static_cast<factor::FactorExponential &>(*item.lib).setWeight(5.f);
  } else {
    static_cast<factor::Factor &>(*item.lib).clear();
  }
  checkIs(clone, {item}, names, "clone after the source changed");
  c.nontrivial = item.raw.size() > 1;
}

void correlations(Case &c) {
  const auto n = 1 + c.s.below(4);
  const auto size = c.s.chance(1, 8)    ? 1
                    : c.s.chance(1, 20) ? 8 + c.s.below(n > 2 ? 6 : 60)
                                        : 2 + c.s.below(n > 2 ? 3 : 5);
  std::vector<VariablePtr> vars;
  for (std::uint64_t k = 0; k < n; ++k) {
    vars.push_back(categoric::make_variable(size, "v" + std::to_string(k)));
  }
  bool valid = n > 1;
  if (n > 1 && c.s.chance(1, 5)) {
    const auto at = c.s.below(n);
    vars[at] = categoric::make_variable(size + 1 + c.s.below(2), "other");
    valid = false;
  }
  const bool anti = c.s.chance(1, 2);
  c.d << (anti ? "anti " : "") << "correlation of " << n << " variables of size "
      << size << (valid ? "" : " invalid");
  std::unique_ptr<factor::Factor> f;
  try {
    if (anti) {
      f = std::make_unique<factor::Factor>(
          categoric::Group{vars}, factor::Factor::SimplyAntiCorrelatedTag{});
    } else {
      f = std::make_unique<factor::Factor>(
          categoric::Group{vars}, factor::Factor::SimplyCorrelatedTag{});
    }
  } catch (const EFG::Error &) {
  }
  PBT_CHECK((f != nullptr) == valid,
            (valid ? "valid correlation refused"
                   : "invalid correlation accepted"));
  if (!valid) {
    c.label("refused");
    return;
  }
  auto verify = [&](const factor::Factor &x, const std::string &what) {
    x.function().forEachCombination<true>([&](const Comb &comb, float img) {
      bool same = true;
      for (auto v : comb) {
        same = same && v == comb.front();
      }
      const float e = same != anti ? 1.f : 0.f;
      PBT_CHECK(img == e && x.function().findImage(comb) == e,
                what << ": image of " << fmt(comb) << " is " << img);
    });
  };
  verify(*f, "correlation");
  factor::Factor copy{*f};
  verify(copy, "copy");
  // still a factor like the others
  const Comb zero(n, 0);
  copy.set(zero, 7.f);
  PBT_CHECK(copy.function().findImage(zero) == 7.f, "set after the copy");
  verify(*f, "correlation after its copy changed");
  f->clear();
  f->function().forEachCombination<true>([&](const Comb &, float img) {
    PBT_CHECK(img == 0, "image after clear");
  });
  c.nontrivial = size > 1;
}
} // namespace

const pbt::Property pbt::PROPERTY = {
    "C20",
    "non-trivial: two or more factors are multiplied, two or more variables "
    "permuted, correlations of domains with two or more values, clones of "
    "factors with two or more combinations",
    {"images are compared with a relative tolerance of 1e-4"},
    {{"products", products, 36000, 750000},
     {"extremes", extremes, 6000, 100000},
     {"permutations", permutations, 28000, 600000},
     {"clones", clones, 16000, 300000},
     {"correlations", correlations, 10000, 100000}}};
