// Variables, groups of variables and the iteration of their joint domain.
#include "../world.h"

#include <cmath>

#include <EasyFactorGraph/Error.h>
#include <EasyFactorGraph/categoric/GroupRange.h>

using namespace wld;
using pbt::Case;
using categoric::Group;
using categoric::GroupRange;

namespace {
using Comb = std::vector<std::size_t>;

// few names and sizes: collisions are frequent
VariablePtr genVar(Case &c, std::size_t size = 0) {
  static const std::vector<std::string> names = {"A", "B", "C",  "D",
                                                 "E", "a", "A ", "AB"};
  static const std::vector<std::size_t> limits = {12, 300, 100000};
  return categoric::make_variable(
      size ? size : 1 + c.s.below(c.s.chance(1, 16) ? c.s.pick(limits) : 3),
      c.s.pick(names));
}

std::string show(const std::vector<VariablePtr> &v) {
  std::ostringstream o;
  o << "<";
  for (auto &x : v) {
    o << x->name() << "(" << x->size() << "),";
  }
  o << ">";
  return o.str();
}

bool distinctNames(const std::vector<VariablePtr> &v) {
  std::set<std::string> n;
  for (auto &x : v) {
    n.insert(x->name());
  }
  return n.size() == v.size();
}

void check(const Group &g, const std::vector<VariablePtr> &e) {
  PBT_CHECK(g.getVariables() == e, "variables of the group are "
                                       << show(g.getVariables()) << " instead of "
                                       << show(e));
  std::size_t size = 1;
  for (auto &v : e) {
    size *= v->size();
    PBT_CHECK(g.getVariablesSet().count(v), v->name() << " not in the set");
  }
  PBT_CHECK(g.getVariablesSet().size() == e.size(), "size of the set");
  PBT_CHECK(g.size() == size, "size of the group is " << g.size()
                                                      << " instead of "
                                                      << size);
}

template <typename Fn> bool refused(const Fn &fn) {
  try {
    fn();
  } catch (const EFG::Error &) {
    return true;
  }
  return false;
}

void groups(Case &c) {
  std::vector<VariablePtr> vars;
  for (auto k = c.s.below(5); k > 0; --k) {
    vars.push_back(!vars.empty() && c.s.chance(1, 10) ? c.s.pick(vars)
                                                      : genVar(c));
  }
  if (c.s.chance(1, 32)) {
    // many variables; names may be repeated far away
    for (auto k = 4 + c.s.below(60), j = k; k > 0; --k) {
      vars.push_back(categoric::make_variable(
          1 + c.s.below(2),
          "n" + std::to_string(c.s.chance(1, 200) ? c.s.below(j) : k)));
    }
    c.label("many variables");
  }
  const bool valid = !vars.empty() && distinctNames(vars);
  c.d << "group " << show(vars);
  std::unique_ptr<Group> g;
  const bool no = refused([&]() {
    switch (vars.size()) {
    case 1:
      if (c.s.chance(1, 2)) {
        g = std::make_unique<Group>(vars.front());
        break;
      }
      g = std::make_unique<Group>(vars);
      break;
    case 2:
      if (c.s.chance(1, 2)) {
        g = std::make_unique<Group>(vars[0], vars[1]);
        break;
      }
      g = std::make_unique<Group>(vars);
      break;
    case 3:
      if (c.s.chance(1, 2)) {
        g = std::make_unique<Group>(vars[0], vars[1], vars[2]);
        break;
      }
      g = std::make_unique<Group>(vars);
      break;
    default:
      g = std::make_unique<Group>(vars);
    }
  });
  PBT_CHECK(no == !valid, "group " << (no ? "refused" : "accepted"));
  if (!valid) {
    c.label("refused");
    return;
  }
  check(*g, vars);
  const auto steps = c.s.below(8);
  for (std::uint64_t k = 0; k < steps; ++k) {
    switch (c.s.below(4)) {
    case 0:
    case 1: {
      auto v = c.s.chance(1, 6) ? c.s.pick(vars) : genVar(c);
      c.d << "\n add " << v->name() << "(" << v->size() << ")";
      auto next = vars;
      next.push_back(v);
      const bool ok = distinctNames(next);
      const bool no2 = refused([&]() { g->add(v); });
      PBT_CHECK(no2 == !ok, "add " << (no2 ? "refused" : "accepted"));
      if (ok) {
        vars = next;
      }
      break;
    }
    case 2: {
      std::vector<VariablePtr> next;
      bool ok = true;
      for (auto &v : vars) {
        const bool other = c.s.chance(1, 12);
        next.push_back(c.s.chance(1, 3)
                           ? v
                           : genVar(c, other ? v->size() + 1 : v->size()));
        ok = ok && next.back()->size() == v->size();
      }
      if (c.s.chance(1, 8)) {
        next.pop_back();
        ok = false;
      } else if (c.s.chance(1, 8)) {
        // one more
        next.push_back(c.s.chance(1, 2) ? c.s.pick(next) : genVar(c));
        ok = false;
      }
      ok = ok && distinctNames(next);
      c.d << "\n replace with " << show(next);
      const bool no2 = refused([&]() { g->replaceVariables(next); });
      PBT_CHECK(no2 == !ok, "replacement " << (no2 ? "refused" : "accepted"));
      if (ok) {
        vars = next;
        c.label("replaced");
      }
      break;
    }
    default: {
      // equality: same variables, whatever the order
      auto other = vars;
      c.s.shuffle(other);
      Group h{other};
      PBT_CHECK(*g == h && h == *g, "groups with the same variables differ");
      Group copy{*g};
      check(copy, vars);
      copy.add(categoric::make_variable(2, "?one more"));
      PBT_CHECK(!(copy == *g) && !(*g == copy),
                "groups with different variables are equal");
    }
    }
    check(*g, vars);
  }
  c.nontrivial = vars.size() > 1;
}

void ranges(Case &c) {
  std::vector<std::size_t> sizes;
  std::vector<VariablePtr> vars;
  const bool many = c.s.chance(1, 100);
  const bool wide = c.s.chance(1, 100);
  for (auto k = 1 + c.s.below(many ? 11 : wide ? 2 : 5); k > 0; --k) {
    sizes.push_back(c.s.chance(1, 6) ? 1
                    : many           ? 2
                    : wide           ? 2 + c.s.below(70)
                                     : 2 + c.s.below(3));
    vars.push_back(
        categoric::make_variable(sizes.back(), "v" + std::to_string(k)));
  }
  c.d << "sizes " << fmt(sizes);
  auto range = c.s.chance(1, 2) ? GroupRange{sizes} : GroupRange{Group{vars}};
  Comb expected(sizes.size(), 0);
  std::vector<Comb> all;
  do {
    all.push_back(expected);
  } while (ref::next(expected, sizes));
  std::unique_ptr<GroupRange> checkpoint;
  std::size_t at = 0, saved = 0;
  const auto when = c.s.below(all.size());
  // equal to another one exactly when both are at the same combination
  auto other = GroupRange{sizes};
  const auto stop = c.s.below(all.size());
  for (std::uint64_t k = 0; k < stop; ++k) {
    ++other;
  }
  for (; at < all.size(); ++at) {
    PBT_CHECK(range != categoric::RANGE_END && !(range == GroupRange::end()),
              "the range ends after " << at << " combinations out of "
                                      << all.size());
    PBT_CHECK(*range == all[at] && range->size() == sizes.size(),
              "combination " << at << " is " << fmt(*range) << " instead of "
                             << fmt(all[at]));
    PBT_CHECK((range == other) == (at == stop) &&
                  (range != other) == (at != stop),
              "ranges at " << fmt(*range) << " and " << fmt(*other)
                           << " compared as "
                           << (range == other ? "equal" : "different"));
    if (at == when) {
      checkpoint = std::make_unique<GroupRange>(range);
      saved = at;
      PBT_CHECK(*checkpoint == range, "a copy of the range is different");
    }
    ++range;
  }
  PBT_CHECK(range == categoric::RANGE_END && !(range != GroupRange::end()),
            "the range does not end after " << all.size() << " combinations");
  PBT_CHECK(refused([&]() { ++range; }),
            "the end of the range is incrementable");
  // a copy is independent, and iterates what is left
  std::vector<Comb> left;
  categoric::for_each_combination(
      *checkpoint, [&](const Comb &x) { left.push_back(x); });
  PBT_CHECK(left == std::vector<Comb>(all.begin() +
                                          static_cast<std::ptrdiff_t>(saved),
                                      all.end()),
            "a copy of the range does not iterate what is left");
  c.nontrivial = all.size() > 2;
}

// joint domains too large to be enumerated: the range is visited lazily
void vast(Case &c) {
  std::vector<std::size_t> sizes;
  std::vector<VariablePtr> vars;
  double tot = 0;
  const auto bits = 20 + c.s.below(43);
  while (tot < static_cast<double>(bits)) {
    sizes.push_back(c.s.chance(1, 8) ? 1
                                     : 2 + c.s.below(c.s.chance(1, 4) ? 60 : 4));
    tot += std::log2(static_cast<double>(sizes.back()));
    vars.push_back(categoric::make_variable(
        sizes.back(), "v" + std::to_string(vars.size())));
  }
  c.d << "sizes " << fmt(sizes);
  Group group{vars};
  if (tot < 63) {
    std::size_t prod = 1;
    for (auto x : sizes) {
      prod *= x;
    }
    PBT_CHECK(group.size() == prod,
              "size of the group is " << group.size() << " instead of " << prod);
  }
  GroupRange range{group};
  Comb expected(sizes.size(), 0);
  for (auto k = 1 + c.s.below(3000); k > 0; --k) {
    PBT_CHECK(range != categoric::RANGE_END, "the range ended");
    PBT_CHECK(*range == expected, "combination " << fmt(*range)
                                                 << " instead of "
                                                 << fmt(expected));
    ++range;
    ref::next(expected, sizes);
  }
  GroupRange copy{range};
  ++copy;
  PBT_CHECK(copy != range && *range == expected, "copies are not independent");
  c.nontrivial = true;
}

void variables(Case &c) {
  const auto size = c.s.chance(1, 3) ? 0 : 1 + c.s.below(1000);
  const std::string name = c.s.chance(1, 3) ? "" : genNames(c.s, 1, true)[0];
  c.d << "variable '" << name << "' of size " << size;
  VariablePtr v;
  const bool no =
      refused([&]() { v = categoric::make_variable(size, name); });
  PBT_CHECK(no == (size == 0 || name.empty()),
            "variable " << (no ? "refused" : "accepted"));
  if (v) {
    PBT_CHECK(v->size() == size && v->name() == name, "content");
    PBT_CHECK(*v == categoric::Variable(size, name), "equality");
    PBT_CHECK(!(*v == categoric::Variable(size + 1, name)) &&
                  !(*v == categoric::Variable(size, name + "x")),
              "inequality");
    c.nontrivial = true;
  }
}

void sets(Case &c) {
  std::vector<VariablePtr> all;
  for (auto k = c.s.below(10); k > 0; --k) {
    all.push_back(
        categoric::make_variable(1 + c.s.below(3), "v" + std::to_string(k)));
  }
  categoric::VariablesSet whole, part;
  std::set<std::string> expected;
  for (auto &v : all) {
    whole.emplace(v);
    if (c.s.chance(1, 2)) {
      // another instance of the same variable
      part.emplace(c.s.chance(1, 2)
                       ? v
                       : categoric::make_variable(v->size(), v->name()));
    } else {
      expected.insert(v->name());
    }
  }
  for (auto k = c.s.below(3); k > 0; --k) {
    part.emplace(categoric::make_variable(2, "?" + std::to_string(k)));
  }
  PBT_CHECK(categoric::to_vars_set(all).size() == all.size(), "to_vars_set");
  auto rest = categoric::get_complementary(whole, part);
  auto subject = whole;
  subject -= part;
  for (auto *x : {&rest, &subject}) {
    std::set<std::string> names;
    for (auto &v : *x) {
      names.insert(v->name());
    }
    PBT_CHECK(names == expected, "difference between sets of variables");
  }
  PBT_CHECK(whole.size() == all.size(), "the set changed");
  c.nontrivial = !expected.empty() && !part.empty();
}
} // namespace

const pbt::Property pbt::PROPERTY = {
    "C21",
    "non-trivial: groups of two or more variables, joint domains of three or "
    "more combinations, valid variables, non trivial set differences",
    {},
    {{"groups", groups, 300000, 6000000},
     {"vast", vast, 1500, 30000},
     {"ranges", ranges, 100000, 1800000},
     {"variables", variables, 37500, 600000},
     {"sets", sets, 37500, 600000}}};
