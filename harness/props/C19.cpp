// A factor is a map from the combinations of its variables to images.
#include "../world.h"

#include <EasyFactorGraph/Error.h>
#include <EasyFactorGraph/categoric/GroupRange.h>

#include <cmath>
#include <limits>
using namespace wld;
using pbt::Case;

namespace {
using Comb = std::vector<std::size_t>;

struct Pair {
  FacPtr lib;
  std::vector<VariablePtr> vars;
  std::map<Comb, float> map;

  std::vector<std::size_t> sizes() const {
    std::vector<std::size_t> r;
    for (auto &v : vars) {
      r.push_back(v->size());
    }
    return r;
  }
  float at(const Comb &c) const {
    auto it = map.find(c);
    return it == map.end() ? 0.f : it->second;
  }
};

std::vector<VariablePtr> genVars(Case &c, const std::string &prefix) {
  std::vector<VariablePtr> r;
  const auto n = 1 + c.s.weighted({3, 5, 3, 2});
  std::size_t tot = 1;
  auto names = genNames(c.s, n);
  const bool large = n < 3 && c.s.chance(1, 16);
  for (std::size_t k = 0; k < n; ++k) {
    auto size = c.s.chance(1, 10) ? 1
                : large           ? 2 + c.s.below(24)
                                  : 2 + c.s.below(n > 2 ? 3 : 5);
    tot *= size;
    r.push_back(categoric::make_variable(size, prefix + names[k]));
  }
  return r;
}

Comb genComb(pbt::Src &s, const std::vector<std::size_t> &sizes) {
  Comb r;
  for (auto z : sizes) {
    r.push_back(s.below(z));
  }
  return r;
}

float genValue(pbt::Src &s) {
  switch (s.below(8)) {
  case 0:
    return 0.f;
  case 1:
    return 1.f;
  case 2:
    return (s.chance(1, 4) ? 1e-36f : 1e-20f) *
           static_cast<float>(1 + s.below(1000));
  case 3:
    return (s.chance(1, 4) ? 1e27f : 1e10f) *
           static_cast<float>(1 + s.below(1000));
  default:
    return 1e-3f * static_cast<float>(s.below(4000));
  }
}

std::string show(const Comb &c) { return fmt(c); }

void check(Case &c, const Pair &p, double tolerance = 1e-3) {
  const auto sizes = p.sizes();
  auto &f = p.lib->function();
  PBT_CHECK(f.vars().getVariables() == p.vars, "variables of the factor");
  PBT_CHECK(f.getInfo().sizes == sizes, "sizes of the factor");
  // every combination, through all the ways to read it
  Comb comb(sizes.size(), 0);
  std::vector<std::pair<Comb, float>> all;
  do {
    all.push_back({comb, p.at(comb)});
    PBT_CHECK(f.findImage(comb) == p.at(comb),
              "image of " << show(comb) << " is " << f.findImage(comb)
                          << " instead of " << p.at(comb));
    PBT_CHECK(f.findTransformed(comb) == p.at(comb),
              "image of " << show(comb) << " is " << f.findTransformed(comb)
                          << " instead of " << p.at(comb));
  } while (ref::next(comb, sizes));
  std::vector<std::pair<Comb, float>> raw, transformed;
  f.forEachCombination<false>(
      [&](const Comb &x, float img) { raw.push_back({x, img}); });
  f.forEachCombination<true>(
      [&](const Comb &x, float img) { transformed.push_back({x, img}); });
  PBT_CHECK(raw == all, "iteration of the combinations");
  PBT_CHECK(transformed == all, "iteration of the transformed images");
  std::map<Comb, float> nonNull;
  f.forEachNonNullCombination<true>([&](const Comb &x, float img) {
    PBT_CHECK(nonNull.emplace(x, img).second,
              "combination " << show(x) << " visited twice");
    PBT_CHECK(img == p.at(x), "image of " << show(x)
                                          << " while iterating the non null");
  });
  for (auto &[x, img] : all) {
    PBT_CHECK(img == 0 || nonNull.count(x),
              "non null combination " << show(x) << " not visited");
  }
  // probabilities
  double sum = 0;
  for (auto &x : all) {
    sum += static_cast<double>(x.second);
  }
  auto probs = p.lib->getProbabilities();
  PBT_CHECK(probs.size() == all.size(), "number of probabilities");
  for (std::size_t k = 0; k < all.size(); ++k) {
    const double e = sum == 0 ? 1.0 / static_cast<double>(all.size())
                              : static_cast<double>(all[k].second) / sum;
    PBT_CHECK(close(probs[k], e, tolerance, 1e-9),
              "probability of " << show(all[k].first) << " is " << probs[k]
                                << " instead of " << e);
  }
  // from a bigger group, in another order
  if (c.s.chance(1, 3)) {
    std::vector<VariablePtr> bigger = p.vars;
    for (auto k = c.s.below(3); k > 0; --k) {
      bigger.push_back(
          categoric::make_variable(2, "?bigger" + std::to_string(k)));
    }
    c.s.shuffle(bigger);
    auto finder = p.lib->makeFinder(bigger);
    for (int j = 0; j < 8; ++j) {
      Comb big;
      for (auto &v : bigger) {
        big.push_back(c.s.below(v->size()));
      }
      Comb small;
      for (auto &v : p.vars) {
        small.push_back(
            big[static_cast<std::size_t>(
                std::find(bigger.begin(), bigger.end(), v) - bigger.begin())]);
      }
      PBT_CHECK(finder.findImage(big) == p.at(small) &&
                    finder.findTransformed(big) == p.at(small),
                "image found from a bigger combination " << show(big));
    }
    // a group missing a variable
    if (bigger.size() > 1) {
      std::vector<VariablePtr> missing;
      for (auto &v : bigger) {
        if (v != p.vars.front()) {
          missing.push_back(v);
        }
      }
      bool refused = false;
      try {
        p.lib->makeFinder(missing);
      } catch (const EFG::Error &) {
        refused = true;
      }
      PBT_CHECK(refused, "finder over a group missing a variable accepted");
    }
  }
}

void refusedSet(Case &c, Pair &p) {
  auto comb = genComb(c.s, p.sizes());
  float value = genValue(c.s);
  switch (c.s.below(4)) {
  case 0:
    value = -1e-3f * static_cast<float>(1 + c.s.below(1000));
    if (c.s.chance(1, 8)) {
      value = c.s.pick(std::vector<float>{
          std::numeric_limits<float>::quiet_NaN(),
          -std::numeric_limits<float>::infinity(),
          -std::numeric_limits<float>::denorm_min(),
          -std::numeric_limits<float>::max()});
    }
    break;
  case 1:
    comb.push_back(0);
    break;
  case 2:
    comb.pop_back();
    break;
  default: {
    const auto k = c.s.below(comb.size());
    const auto valid = comb[k];
    comb[k] = p.vars[k]->size() + c.s.below(2);
    if (c.s.chance(1, 4)) {
      comb[k] = c.s.pick(std::vector<std::size_t>{
          std::numeric_limits<std::size_t>::max(),
          valid + (std::size_t{1} << 32), valid + 65536, valid + 256});
    }
  }
  }
  c.d << "\n invalid set " << show(comb) << " " << value;
  bool refused = false;
  try {
    p.lib->set(comb, value);
  } catch (const EFG::Error &) {
    refused = true;
  }
  PBT_CHECK(refused, "invalid set accepted");
}

void history(Case &c) {
  Pair p;
  p.vars = genVars(c, "");
  p.lib = std::make_shared<factor::Factor>(categoric::Group{p.vars});
  c.d << "factor of sizes " << fmt(p.sizes());
  std::size_t tot = 1;
  for (auto z : p.sizes()) {
    tot *= z;
  }
  std::vector<Pair> frozen; // copies, which should not change anymore
  const auto steps = 1 + c.s.below(2 * tot + 10);
  const bool tiny = c.s.chance(1, 15); // all the images
  check(c, p);
  std::size_t generation = 0;
  for (std::uint64_t k = 0; k < steps; ++k) {
    switch (c.s.weighted({20, 2, 1, 2, 2, 1, 1})) {
    case 0: {
      auto comb = genComb(c.s, p.sizes());
      auto value = genValue(c.s);
      if (tiny) {
        value = 2e-38f * static_cast<float>(c.s.below(100));
      }
      c.d << "\n set " << show(comb) << " " << value;
      p.lib->set(comb, value);
      p.map[comb] = value;
      break;
    }
    case 1:
      refusedSet(c, p);
      break;
    case 2:
      if (c.s.chance(1, 3)) {
        c.d << "\n clear";
        p.lib->clear();
        p.map.clear();
      }
      break;
    case 3: {
      c.d << "\n copy";
      Pair copy = p;
      copy.lib = std::make_shared<factor::Factor>(*p.lib);
      check(c, copy);
      if (c.s.chance(1, 2)) {
        std::swap(copy, p);
      }
      frozen.push_back(copy);
      break;
    }
    case 4: {
      ++generation;
      std::vector<VariablePtr> next;
      for (auto &v : p.vars) {
        next.push_back(
            c.s.chance(1, 3)
                ? v
                : categoric::make_variable(
                      v->size(), v->name() + "'" + std::to_string(generation)));
      }
      c.d << "\n replace the variables";
      p.lib->replaceVariables(next);
      p.vars = next;
      break;
    }
    case 5: {
      // other sizes
      auto next = p.vars;
      const auto at = c.s.below(next.size());
      next[at] = categoric::make_variable(next[at]->size() + 1, "?other");
      bool refused = false;
      try {
        p.lib->replaceVariables(next);
      } catch (const EFG::Error &) {
        refused = true;
      }
      PBT_CHECK(refused, "variables with other sizes accepted");
      break;
    }
    default: {
      // the content of an exponential factor
      static const std::vector<float> extremes = {
          0.f, 25.f, -25.f, 70.f, -70.f, 1e5f, -1e5f, 1e-5f, 3e38f, -1e-40f};
      const float w = c.s.chance(1, 6)
                          ? c.s.pick(extremes)
                          : -2.f + 0.01f * static_cast<float>(c.s.below(400));
      factor::FactorExponential e{*p.lib, w};
      factor::FactorExponential e2{e};
      const float w2 = w * 0.5f;
      e.setWeight(w2);
      PBT_CHECK(e.getWeight() == w2 && e2.getWeight() == w, "weights");
      Comb comb(p.vars.size(), 0);
      do {
        PBT_CHECK(e.function().findImage(comb) == p.at(comb) &&
                      e2.function().findImage(comb) == p.at(comb),
                  "raw value of an exponential factor");
        const double x = static_cast<double>(p.at(comb));
        if (std::abs(x * static_cast<double>(w)) < 87) {
          PBT_CHECK(close(e.function().findTransformed(comb),
                          std::exp(w2 * x), 1e-4, 0) &&
                        close(e2.function().findTransformed(comb),
                              std::exp(w * x), 1e-4, 0),
                    "image of an exponential factor");
        }
      } while (ref::next(comb, p.sizes()));
    }
    }
    if (c.s.chance(1, 4)) {
      check(c, p);
    }
  }
  check(c, p);
  for (auto &f : frozen) {
    check(c, f);
  }
  c.nontrivial = p.map.size() > 1 || !frozen.empty();
  // the representation changes when enough combinations are set
  if (p.map.size() > tot / 2 && p.map.size() > 6) {
    c.label("dense");
  }
}
// many combinations: the content is a function of few choices
// domains too large to be enumerated, few combinations set
void vast(Case &c) {
  Pair p;
  double tot = 0;
  const auto bits = 17 + c.s.below(44);
  while (tot < static_cast<double>(bits) && tot < 56) {
    const auto size = 2 + c.s.below(c.s.chance(1, 4) ? 60 : 4);
    tot += std::log2(static_cast<double>(size));
    p.vars.push_back(
        categoric::make_variable(size, "v" + std::to_string(p.vars.size())));
  }
  p.lib = std::make_shared<factor::Factor>(categoric::Group{p.vars});
  const auto sizes = p.sizes();
  c.d << "sizes " << fmt(sizes);
  std::vector<Comb> seen;
  for (auto k = 1 + c.s.below(40); k > 0; --k) {
    Comb x;
    if (!seen.empty() && c.s.chance(1, 2)) {
      // differs from another one by a single value, or not at all
      x = c.s.pick(seen);
      if (c.s.chance(3, 4)) {
        const auto at = c.s.below(x.size());
        x[at] = c.s.below(sizes[at]);
      }
    } else {
      x = genComb(c.s, sizes);
    }
    seen.push_back(x);
    if (c.s.chance(2, 3)) {
      const float img = genValue(c.s);
      p.lib->set(x, img);
      p.map[x] = img;
    }
    if (c.s.chance(1, 30)) {
      p.lib->clear();
      p.map.clear();
    }
  }
  auto verify = [&](const factor::Immutable &f, const std::string &what) {
    for (auto &x : seen) {
      PBT_CHECK(f.function().findImage(x) == p.at(x),
                what << ": image of " << fmt(x) << " is "
                     << f.function().findImage(x) << " instead of " << p.at(x));
    }
    std::map<Comb, float> visited;
    f.function().forEachNonNullCombination<false>(
        [&](const Comb &x, float img) {
          if (img != 0) {
            PBT_CHECK(visited.emplace(x, img).second, what << ": visited twice");
          }
        });
    std::map<Comb, float> expected;
    for (auto &[x, img] : p.map) {
      if (img != 0) {
        expected[x] = img;
      }
    }
    PBT_CHECK(visited == expected, what << ": visit of the combinations");
  };
  verify(*p.lib, "factor");
  factor::Factor copy{*p.lib};
  verify(copy, "copy");
  copy.set(seen.front(), 9.f);
  verify(*p.lib, "factor after changing the copy");
  auto bigger = p.vars;
  c.s.shuffle(bigger);
  bigger.push_back(categoric::make_variable(3, "another"));
  auto finder = p.lib->makeFinder(bigger);
  for (auto &x : seen) {
    Comb y;
    for (auto &v : bigger) {
      const auto at = std::find(p.vars.begin(), p.vars.end(), v);
      y.push_back(at == p.vars.end()
                      ? 1
                      : x[static_cast<std::size_t>(at - p.vars.begin())]);
    }
    PBT_CHECK(finder.findImage(y) == p.at(x), "finder: image of " << fmt(x));
  }
  c.nontrivial = p.map.size() > 1;
}

void large(Case &c) {
  Pair p;
  const std::size_t target = c.s.pick(std::vector<std::size_t>{
      200 + c.s.below(800), 3000 + c.s.below(6000), 66000 + c.s.below(9000)});
  const auto n = 1 + c.s.below(4);
  const auto side = std::max<std::size_t>(
      2, static_cast<std::size_t>(std::ceil(
             std::pow(static_cast<double>(target), 1.0 / static_cast<double>(n)))));
  std::size_t tot = 1;
  for (std::uint64_t k = 0; k < n; ++k) {
    const auto size = side + c.s.below(3);
    tot *= size;
    p.vars.push_back(categoric::make_variable(size, "v" + std::to_string(k)));
  }
  p.lib = std::make_shared<factor::Factor>(categoric::Group{p.vars});
  const auto sizes = p.sizes();
  const auto salt = c.s.below(1000000);
  const auto part = c.s.pick(std::vector<std::size_t>{2, 40, 55, 80, 100});
  c.d << "sizes " << fmt(sizes) << " about " << part << "% set, salt " << salt;
  auto mix = [&](std::uint64_t x) {
    x = (x + salt) * 0x9e3779b97f4a7c15ull;
    return (x ^ (x >> 29)) * 0xbf58476d1ce4e5b9ull >> 40;
  };
  Comb comb(sizes.size(), 0);
  std::uint64_t at = 0;
  std::vector<Comb> order;
  do {
    if (mix(2 * at) % 100 < part) {
      order.push_back(comb);
    }
    ++at;
  } while (ref::next(comb, sizes));
  if (c.s.chance(1, 2)) {
    std::reverse(order.begin(), order.end());
  }
  at = 0;
  for (auto &x : order) {
    const float img = static_cast<float>(1 + mix(2 * ++at + 1) % 4000) * 1e-3f;
    p.lib->set(x, img);
    p.map[x] = img;
  }
  for (auto k = c.s.below(6); k > 0; --k) {
    auto x = genComb(c.s, sizes);
    const float img = genValue(c.s) > 1 ? 3.f : 0.f;
    p.lib->set(x, img);
    p.map[x] = img;
  }
  check(c, p, 1e-2);
  // an independent copy
  Pair q = p;
  q.lib = std::make_shared<factor::Factor>(*p.lib);
  auto x = genComb(c.s, sizes);
  q.lib->set(x, 7.f);
  q.map[x] = 7.f;
  check(c, q, 1e-2);
  PBT_CHECK(p.lib->function().findImage(x) == p.at(x), "the original changed");
  const float w = c.s.chance(1, 2) ? -0.5f : 1.25f;
  factor::FactorExponential e{*p.lib, w};
  Comb y(sizes.size(), 0);
  do {
    PBT_CHECK(e.function().findImage(y) == p.at(y),
              "image of " << show(y) << " of the exponential factor");
    PBT_CHECK(close(e.function().findTransformed(y),
                    std::exp(static_cast<double>(w) *
                             static_cast<double>(p.at(y))),
                    1e-4, 0),
              "image of " << show(y) << " of the exponential factor");
  } while (ref::next(y, sizes));
  if (c.s.chance(1, 3)) {
    p.lib->clear();
    p.map.clear();
    p.lib->set(x, 2.f);
    p.map[x] = 2.f;
    check(c, p, 1e-2);
  }
  c.nontrivial = order.size() > 1;
  c.label(tot > 65536  ? "more than 65536 combinations"
          : tot > 4096 ? "more than 4096 combinations"
                       : "less combinations");
}
} // namespace

const pbt::Property pbt::PROPERTY = {
    "C19",
    "non-trivial: at least two combinations are set, or a copy is done, before "
    "the whole content is compared with the model",
    {"images are finite and not negative; the combinations visited as non null "
     "may include null ones explicitly set"},
    {{"history", history, 24000, 480000}, {"vast", vast, 4000, 80000},
     {"large", large, 120, 2400}}};
