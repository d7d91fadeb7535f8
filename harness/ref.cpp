#include "ref.h"

#include <algorithm>
#include <cmath>
#include <functional>
#include <set>
#include <stdexcept>

namespace ref {
std::size_t flat(const std::vector<std::size_t> &comb,
                 const std::vector<std::size_t> &sizes) {
  std::size_t r = 0;
  for (std::size_t k = 0; k < comb.size(); ++k) {
    r = r * sizes[k] + comb[k];
  }
  return r;
}

bool next(std::vector<std::size_t> &comb,
          const std::vector<std::size_t> &sizes) {
  for (std::size_t k = comb.size(); k-- > 0;) {
    if (++comb[k] < sizes[k]) {
      return true;
    }
    comb[k] = 0;
  }
  return false;
}

double Fac::image(std::size_t f) const {
  return expo ? std::exp(static_cast<double>(w) * static_cast<double>(raw[f]))
              : static_cast<double>(raw[f]);
}

double Table::at(const std::vector<std::size_t> &comb) const {
  return v[flat(comb, sizes)];
}

int Model::find(const std::string &name) const {
  for (std::size_t k = 0; k < vars.size(); ++k) {
    if (vars[k].name == name) {
      return static_cast<int>(k);
    }
  }
  return -1;
}

std::vector<int> Model::hiddenVars() const {
  std::vector<int> r;
  for (int k = 0; k < static_cast<int>(vars.size()); ++k) {
    if (hidden(k)) {
      r.push_back(k);
    }
  }
  return r;
}

bool Model::connected(int a, int b) const {
  for (auto &f : facs) {
    if (f.vars.size() == 2 && ((f.vars[0] == a && f.vars[1] == b) ||
                               (f.vars[0] == b && f.vars[1] == a))) {
      return true;
    }
  }
  return false;
}

std::vector<Component> Model::components() const {
  std::vector<int> parent(vars.size());
  for (std::size_t k = 0; k < parent.size(); ++k) {
    parent[k] = static_cast<int>(k);
  }
  std::function<int(int)> root = [&](int x) {
    while (parent[x] != x) {
      x = parent[x] = parent[parent[x]];
    }
    return x;
  };
  for (auto &f : facs) {
    if (f.vars.size() == 2 && hidden(f.vars[0]) && hidden(f.vars[1])) {
      parent[root(f.vars[0])] = root(f.vars[1]);
    }
  }
  std::map<int, Component> byRoot;
  for (int h : hiddenVars()) {
    byRoot[root(h)].vars.push_back(h);
  }
  for (auto &f : facs) {
    if (f.vars.size() == 2 && hidden(f.vars[0]) && hidden(f.vars[1])) {
      ++byRoot[root(f.vars[0])].edges;
    }
  }
  std::vector<Component> r;
  for (auto &[_, c] : byRoot) {
    r.push_back(c);
  }
  return r;
}

int Model::componentOf(const std::vector<Component> &c, int v) const {
  for (std::size_t k = 0; k < c.size(); ++k) {
    if (std::find(c[k].vars.begin(), c[k].vars.end(), v) != c[k].vars.end()) {
      return static_cast<int>(k);
    }
  }
  return -1;
}

namespace {
// false if all values are null
bool rescale(Table &t) {
  double m = 0;
  for (auto v : t.v) {
    m = std::max(m, v);
  }
  if (m == 0) {
    return false;
  }
  for (auto &v : t.v) {
    v /= m;
  }
  return true;
}

Table product(const std::vector<const Table *> &in, const Model &m) {
  Table r;
  for (auto *t : in) {
    for (int v : t->vars) {
      if (std::find(r.vars.begin(), r.vars.end(), v) == r.vars.end()) {
        r.vars.push_back(v);
      }
    }
  }
  std::size_t tot = 1;
  for (int v : r.vars) {
    r.sizes.push_back(m.vars[v].size);
    tot *= m.vars[v].size;
    if (tot > 4000000) {
      throw std::length_error("oracle table too big");
    }
  }
  std::vector<std::vector<std::size_t>> pos(in.size());
  for (std::size_t k = 0; k < in.size(); ++k) {
    for (int v : in[k]->vars) {
      pos[k].push_back(static_cast<std::size_t>(
          std::find(r.vars.begin(), r.vars.end(), v) - r.vars.begin()));
    }
  }
  r.v.reserve(tot);
  std::vector<std::size_t> comb(r.vars.size(), 0), sub;
  do {
    double val = 1;
    for (std::size_t k = 0; k < in.size(); ++k) {
      std::size_t f = 0;
      for (std::size_t j = 0; j < pos[k].size(); ++j) {
        f = f * in[k]->sizes[j] + comb[pos[k][j]];
      }
      val *= in[k]->v[f];
    }
    r.v.push_back(val);
  } while (next(comb, r.sizes));
  return r;
}

Table reduceTo(const Table &t, const std::vector<int> &keep, const Model &m,
               bool maximise) {
  Table r;
  r.vars = keep;
  std::size_t tot = 1;
  std::vector<std::size_t> pos;
  for (int v : keep) {
    r.sizes.push_back(m.vars[v].size);
    tot *= m.vars[v].size;
    pos.push_back(static_cast<std::size_t>(
        std::find(t.vars.begin(), t.vars.end(), v) - t.vars.begin()));
  }
  r.v.assign(tot, 0);
  std::vector<std::size_t> comb(t.vars.size(), 0);
  std::size_t at = 0;
  do {
    std::size_t f = 0;
    for (std::size_t j = 0; j < pos.size(); ++j) {
      f = f * r.sizes[j] + comb[pos[j]];
    }
    if (maximise) {
      r.v[f] = std::max(r.v[f], t.v[at]);
    } else {
      r.v[f] += t.v[at];
    }
    ++at;
  } while (next(comb, t.sizes));
  return r;
}
} // namespace

bool Model::possible() const {
  for (auto &f : facs) {
    for (std::size_t k = 0; k < f.raw.size(); ++k) {
      if (!(f.image(k) > 0)) {
        return eliminate({}).has_value();
      }
    }
  }
  return true;
}

std::optional<Table> Model::eliminate(const std::vector<int> &keep,
                                      bool maximise) const {
  std::vector<Table> tables;
  for (auto &f : facs) {
    Table t;
    for (int v : f.vars) {
      if (hidden(v)) {
        t.vars.push_back(v);
        t.sizes.push_back(vars[v].size);
      }
    }
    std::vector<std::size_t> sizes, comb(f.vars.size(), 0);
    for (int v : f.vars) {
      sizes.push_back(vars[v].size);
    }
    std::size_t at = 0;
    do {
      bool ok = true;
      for (std::size_t k = 0; k < f.vars.size(); ++k) {
        auto it = ev.find(f.vars[k]);
        ok = ok && (it == ev.end() || it->second == comb[k]);
      }
      if (ok) {
        t.v.push_back(f.image(at));
      }
      ++at;
    } while (next(comb, sizes));
    if (!rescale(t)) {
      return std::nullopt;
    }
    if (!t.vars.empty()) {
      tables.push_back(std::move(t));
    }
  }
  std::set<int> todo;
  for (int h : hiddenVars()) {
    if (std::find(keep.begin(), keep.end(), h) == keep.end()) {
      todo.insert(h);
    }
  }
  while (!todo.empty()) {
    int best = -1;
    double bestCost = 0;
    for (int c : todo) {
      std::set<int> scope;
      for (auto &t : tables) {
        if (std::find(t.vars.begin(), t.vars.end(), c) != t.vars.end()) {
          scope.insert(t.vars.begin(), t.vars.end());
        }
      }
      double cost = 1;
      for (int v : scope) {
        cost *= static_cast<double>(vars[v].size);
      }
      if (best < 0 || cost < bestCost) {
        best = c;
        bestCost = cost;
      }
      if (scope.size() < 3) {
        break; // a leaf: any order is exact, this one is cheap
      }
    }
    todo.erase(best);
    std::vector<const Table *> in;
    std::vector<Table> rest;
    for (auto &t : tables) {
      if (std::find(t.vars.begin(), t.vars.end(), best) != t.vars.end()) {
        in.push_back(&t);
      }
    }
    if (in.empty()) {
      continue;
    }
    // multiply a few at a time so that nothing overflows
    Table prod = product({in[0]}, *this);
    for (std::size_t k = 1; k < in.size(); ++k) {
      prod = product({&prod, in[k]}, *this);
      if (!rescale(prod)) {
        return std::nullopt;
      }
    }
    std::vector<int> left;
    for (int v : prod.vars) {
      if (v != best) {
        left.push_back(v);
      }
    }
    Table red = reduceTo(prod, left, *this, maximise);
    for (auto &t : tables) {
      if (std::find(t.vars.begin(), t.vars.end(), best) == t.vars.end()) {
        rest.push_back(std::move(t));
      }
    }
    if (!rescale(red)) {
      return std::nullopt;
    }
    if (!left.empty()) {
      rest.push_back(std::move(red));
    }
    tables = std::move(rest);
  }
  Table all;
  for (int v : keep) {
    all.vars.push_back(v);
    all.sizes.push_back(vars[v].size);
  }
  std::size_t tot = 1;
  for (auto s : all.sizes) {
    tot *= s;
  }
  all.v.assign(tot, 1.0);
  for (auto &t : tables) {
    all = reduceTo(product({&all, &t}, *this), keep, *this, true);
    if (!rescale(all)) {
      return std::nullopt;
    }
  }
  double norm = 0;
  for (auto v : all.v) {
    norm = maximise ? std::max(norm, v) : norm + v;
  }
  if (norm == 0) {
    return std::nullopt;
  }
  for (auto &v : all.v) {
    v /= norm;
  }
  return all;
}

double Model::weight(const std::vector<std::size_t> &assignment) const {
  double r = 1;
  for (auto &f : facs) {
    std::size_t at = 0;
    for (int v : f.vars) {
      at = at * vars[v].size + assignment[v];
    }
    r *= f.image(at);
  }
  return r;
}
} // namespace ref
