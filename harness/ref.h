// Reference semantics of a factor graph: a plain list of variables, factor
// tables and evidences, with answers computed by variable elimination in
// double precision. Written independently of the library under test.
#pragma once
#include <EasyFactorGraph/factor/Factor.h>
#include <EasyFactorGraph/factor/FactorExponential.h>

#include <map>
#include <optional>
#include <string>
#include <vector>

namespace ref {
using EFG::categoric::VariablePtr;

struct Var {
  std::size_t size;
  std::string name;
  VariablePtr ptr;
};

struct Fac {
  std::vector<int> vars;  // in the order of the factor's group
  std::vector<float> raw; // row major: last variable is the fastest
  bool expo = false;
  float w = 1.f;
  bool tunable = false;
  EFG::factor::ImmutablePtr ptr; // object held by the model, when known

  double image(std::size_t flat) const;
};

struct Table {
  std::vector<int> vars;
  std::vector<std::size_t> sizes;
  std::vector<double> v;

  double at(const std::vector<std::size_t> &comb) const;
};

struct Component {
  std::vector<int> vars;
  std::size_t edges = 0;
  bool tree() const { return edges + 1 == vars.size(); }
};

struct Model {
  std::vector<Var> vars; // those which are part of the model
  std::vector<Fac> facs;
  std::map<int, std::size_t> ev;
  std::vector<std::vector<int>> clusters; // tunable factors sharing a weight

  bool hidden(int v) const { return ev.find(v) == ev.end(); }
  int find(const std::string &name) const;
  std::vector<int> hiddenVars() const;
  bool connected(int a, int b) const; // a binary factor links the two
  std::vector<Component> components() const;
  int componentOf(const std::vector<Component> &c, int v) const;

  // table over `keep` (all hidden), everything else summed (or maximised)
  // out, evidences applied. Normalised: sum = 1 (max = 1 when maximising).
  // nullopt when the evidence has null probability.
  std::optional<Table> eliminate(const std::vector<int> &keep,
                                 bool maximise = false) const;
  bool possible() const;
  // probability of the whole assignment up to a constant (no evidence used)
  double weight(const std::vector<std::size_t> &assignment) const;
};

std::size_t flat(const std::vector<std::size_t> &comb,
                 const std::vector<std::size_t> &sizes);
bool next(std::vector<std::size_t> &comb,
          const std::vector<std::size_t> &sizes);
} // namespace ref
