// A model exported to json and imported back is the same model.
#include "../image.h"

#include <EasyFactorGraph/io/json/Exporter.h>
#include <EasyFactorGraph/io/json/Importer.h>

#include <cstdio>

namespace {
// through a json object, its text, or a file
template <typename From>
nlohmann::json carry(Case &c, const From &from, std::string &file) {
  file.clear();
  switch (c.s.below(3)) {
  case 0:
    c.label("object");
    return io::json::Exporter::exportToJson(from);
  case 1:
    c.label("text");
    return nlohmann::json::parse(
        io::json::Exporter::exportToJson(from).dump(c.s.chance(1, 2) ? 2 : -1));
  default:
    c.label("file");
    file = pbt::scratch_dir() + "/model.json";
    if (c.s.chance(1, 4)) {
      std::remove(file.c_str());
    }
    io::json::Exporter::exportToFile(from, file);
    return nullptr;
  }
}

template <typename To>
void load(To &to, const nlohmann::json &j, const std::string &file) {
  if (file.empty()) {
    io::json::Importer::importFromJson(to, j);
  } else {
    io::json::Importer::importFromFile(to, file);
  }
}

void build(World &w, bool anySize = false) {
  auto &s = w.s;
  if (anySize && s.chance(1, 60)) {
    w.buildForest(80);
  }
  w.grow(1 + s.below(4));
  for (auto k = s.below(10); k > 0; --k) {
    w.mutate();
    if (s.chance(1, 4)) {
      w.noise();
    }
  }
}

bool interesting(const ref::Model &m) {
  return m.vars.size() >= 2 && m.facs.size() >= 2;
}

void labels(Case &c, const ref::Model &m) {
  if (!m.ev.empty()) {
    c.label("evidence");
  }
  for (auto &cl : m.clusters) {
    if (cl.size() > 1) {
      c.label("shared weight");
    }
  }
  for (auto &v : m.vars) {
    if (v.name.find('"') != std::string::npos ||
        v.name.find('\\') != std::string::npos) {
      c.label("name to escape");
    }
  }
}

void roundTrip(Case &c) {
  World w{c, options(c)};
  build(w, true);
  if (c.s.chance(1, 2)) {
    anyValues(w);
    c.label("any value");
  }
  std::string file;
  const bool conditional = w.field && c.s.chance(1, 5) &&
                           w.observeForConditional(false);
  Image expected = w.field ? image(*w.field) : image(*w.graph);
  nlohmann::json j;
  if (conditional) {
    model::ConditionalRandomField crf{*w.field, c.s.chance(1, 2)};
    expected = image(crf);
    j = carry(c, crf, file);
    c.label("conditional");
  } else if (w.field) {
    j = carry(c, *w.field, file);
  } else {
    j = carry(c, *w.graph, file);
  }
  c.d << "\n exported" << (file.empty() ? "" : " to file")
      << (conditional ? " as conditional" : "");
  if (c.s.chance(1, 2)) {
    c.d << ", imported in a random field";
    model::RandomField m;
    load(m, j, file);
    auto got = image(m);
    compare(got, expected, "imported in a random field");
    // and again
    if (c.s.chance(1, 3)) {
      auto j2 = carry(c, m, file);
      model::RandomField m2;
      load(m2, j2, file);
      compare(image(m2), expected, "imported twice");
    }
  } else {
    c.d << ", imported in a graph";
    model::Graph m;
    load(m, j, file);
    compare(image(m), constant(expected), "imported in a graph");
  }
  if (!conditional) {
    compare(w.field ? image(*w.field) : image(*w.graph), expected,
            "the exported model");
  }
  c.nontrivial = interesting(w.ref);
  labels(c, w.ref);
}

// what is answered by the imported model
void answers(Case &c) {
  auto o = options(c);
  o.wide = false;
  o.loops = 1;
  World w{c, o};
  build(w);
  if (w.ref.vars.empty() || !w.ref.possible()) {
    pbt::discard("nothing to ask");
  }
  std::string file;
  auto j = w.field ? carry(c, *w.field, file) : carry(c, *w.graph, file);
  c.d << "\n imported";
  Options o2 = o;
  o2.tunable = w.field != nullptr;
  World d{c, o2};
  if (d.field) {
    load(*d.field, j, file);
  } else {
    load(*d.graph, j, file);
  }
  d.ref = w.ref;
  d.pool.clear();
  for (std::size_t k = 0; k < d.ref.vars.size(); ++k) {
    d.ref.vars[k].ptr = d.factors().findVariable(d.ref.vars[k].name);
    d.pool.push_back({d.ref.vars[k].ptr, static_cast<int>(k)});
  }
  for (auto &f : d.ref.facs) {
    f.ptr = nullptr;
  }
  for (int round = 0; round < 2; ++round) {
    d.checkState();
    d.checkWeights();
    d.checkAllMarginals();
    d.checkHiddenMap();
    for (auto k = 1 + c.s.below(4); k > 0; --k) {
      d.mutate();
    }
  }
  c.nontrivial = interesting(w.ref);
  labels(c, w.ref);
}

// imported in a model which is not empty
void existing(Case &c) {
  World a{c, options(c)};
  build(a);
  Options o = options(c);
  World b{c, o};
  // no variable in common
  std::size_t k = 0;
  for (auto &p : b.pool) {
    p.ptr = categoric::make_variable(p.ptr->size(), p.ptr->name() + "#" +
                                                        std::to_string(k++));
  }
  c.d << "\n [recipient]";
  build(b);
  std::string file;
  auto j = a.field ? carry(c, *a.field, file) : carry(c, *a.graph, file);
  auto add = a.field ? image(*a.field) : image(*a.graph);
  auto expected = b.field ? image(*b.field) : image(*b.graph);
  expected.vars.insert(add.vars.begin(), add.vars.end());
  expected.ev.insert(add.ev.begin(), add.ev.end());
  if (b.field) {
    load(*b.field, j, file);
    expected.clusters.insert(expected.clusters.end(), add.clusters.begin(),
                             add.clusters.end());
    expected.weights.insert(expected.weights.end(), add.weights.begin(),
                            add.weights.end());
  } else {
    load(*b.graph, j, file);
    add = constant(add);
  }
  expected.facs.insert(expected.facs.end(), add.facs.begin(), add.facs.end());
  std::sort(expected.facs.begin(), expected.facs.end());
  compare(b.field ? image(*b.field) : image(*b.graph), expected,
          "imported in an existing model");
  c.nontrivial = interesting(a.ref) && interesting(b.ref);
  labels(c, a.ref);
}
} // namespace

namespace pbt {
const Property PROPERTY = {
    "C17",
    "the exported model has at least 2 variables and 2 factors (for the "
    "import in an existing model: both models)",
    {"names are valid UTF-8",
     "a variable hosts at most one tunable unary factor: the json refers to "
     "the factor to share the weight with by its variables"},
    {{"round-trip", roundTrip, 12000, 240000},
     {"answers", answers, 4800, 80000},
     {"existing", existing, 4000, 80000}},
};
}
