// Models to and from xml. Built with a stand-in of the external xml parser.
#include "../doc.h"
#include "../image.h"

#include <EasyFactorGraph/Error.h>
#include <EasyFactorGraph/io/xml/Exporter.h>
#include <EasyFactorGraph/io/xml/Importer.h>

#include <cstdio>
#include <filesystem>
#include <fstream>

namespace {
// the order of the attributes, and then of the variables, of the factors and
// of the clusters, is not kept by the parser
Image anyOrder(Image i) {
  auto one = [&i](::Content &f) {
    if (f.vars.size() == 2 && f.vars[1] < f.vars[0]) {
      const auto rows = i.vars.at(f.vars[0]), cols = i.vars.at(f.vars[1]);
      auto old = f.raw;
      for (std::size_t r = 0; r < rows; ++r) {
        for (std::size_t k = 0; k < cols; ++k) {
          f.raw[k * rows + r] = old[r * cols + k];
        }
      }
      std::swap(f.vars[0], f.vars[1]);
    }
  };
  for (auto &f : i.facs) {
    one(f);
  }
  std::sort(i.facs.begin(), i.facs.end());
  for (auto &cl : i.clusters) {
    for (auto &f : cl) {
      one(f);
    }
    std::sort(cl.begin(), cl.end());
  }
  std::sort(i.clusters.begin(), i.clusters.end());
  i.weights.clear(); // already in the content of the factors
  return i;
}

void write(const std::string &file, const std::string &text) {
  std::ofstream stream{file};
  stream << text;
}

template <typename From>
void save(Case &c, const From &from, const std::string &file) {
  if (c.s.chance(1, 2)) {
    c.label("text");
    write(file, io::xml::Exporter::exportToString(from, "Model"));
    return;
  }
  c.label("file");
  if (c.s.chance(1, 4)) {
    std::remove(file.c_str());
  }
  io::xml::Exporter::exportToFile(from, io::xml::ExportInfo{file, "M"});
}

void roundTrip(Case &c) {
  auto o = options(c);
  o.exoticNames = false;
  World w{c, o};
  w.grow(1 + c.s.below(4));
  for (auto k = c.s.below(10); k > 0; --k) {
    w.mutate();
    if (c.s.chance(1, 4)) {
      w.noise();
    }
  }
  if (c.s.chance(1, 2)) {
    anyValues(w);
    c.label("any value");
  }
  const auto file = pbt::scratch_dir() + "/model.xml";
  const bool conditional =
      w.field && c.s.chance(1, 5) && w.observeForConditional(false);
  Image expected = w.field ? image(*w.field) : image(*w.graph);
  if (conditional) {
    model::ConditionalRandomField crf{*w.field, c.s.chance(1, 2)};
    expected = image(crf);
    save(c, crf, file);
    c.label("conditional");
  } else if (w.field) {
    save(c, *w.field, file);
    compare(image(*w.field), expected, "the exported model");
  } else {
    save(c, *w.graph, file);
    compare(image(*w.graph), expected, "the exported model");
  }
  c.d << "\n exported" << (conditional ? " as conditional" : "");
  if (c.s.chance(1, 2)) {
    c.d << ", imported in a random field";
    model::RandomField m;
    io::xml::Importer::importFromFile(m, file);
    compare(anyOrder(image(m)), anyOrder(expected),
            "imported in a random field");
  } else {
    c.d << ", imported in a graph";
    model::Graph m;
    io::xml::Importer::importFromFile(m, file);
    compare(anyOrder(image(m)), anyOrder(constant(expected)),
            "imported in a graph");
  }
  for (auto &cl : w.ref.clusters) {
    if (cl.size() > 1) {
      c.label("shared weight");
    }
  }
  c.nontrivial = w.ref.vars.size() >= 2 && w.ref.facs.size() >= 2;
}

// ---- documents
struct XTag {
  std::string name;
  std::vector<std::pair<std::string, std::string>> attributes;
  std::vector<XTag> nested;

  void erase(const std::string &key) {
    for (auto it = attributes.begin(); it != attributes.end();) {
      it = it->first == key ? attributes.erase(it) : std::next(it);
    }
  }
  void set(const std::string &key, const std::string &value) {
    erase(key);
    attributes.emplace_back(key, value);
  }
};

void print(std::ostream &o, const XTag &t, bool compact) {
  o << "<" << t.name;
  for (auto &[k, v] : t.attributes) {
    o << " " << k << "=\"" << v << "\"";
  }
  if (t.nested.empty() && compact) {
    o << "/>\n";
    return;
  }
  o << ">\n";
  for (auto &n : t.nested) {
    print(o, n, compact);
  }
  o << "</" << t.name << ">\n";
}

// the first tags are the variables, then the factors; files: values of the
// factors, beside the document
XTag toXml(Case &c, const Doc &d, std::map<std::string, std::string> &files) {
  XTag root{"Model", {}, {}};
  for (auto &v : d.vars) {
    XTag t{"Variable",
           {{"name", v.name}, {"Size", std::to_string(v.size)}},
           {}};
    if (v.ev >= 0) {
      t.attributes.emplace_back("evidence", std::to_string(v.ev));
    }
    c.s.shuffle(t.attributes);
    root.nested.push_back(t);
  }
  for (auto &f : d.facs) {
    XTag t{"Potential", {}, {}};
    auto name = [&d](int v) {
      return d.vars[static_cast<std::size_t>(v)].name;
    };
    if (f.weighted) {
      t.attributes.emplace_back("weight", f.w);
    }
    for (int v : f.vars) {
      t.attributes.emplace_back("var", name(v));
    }
    if (f.corr) {
      t.attributes.emplace_back("Correlation", std::string(1, f.corr));
    } else if (f.vars.size() == 1 && c.s.chance(1, 2)) {
      // the columns would follow the order of the variables, which the parser
      // does not keep
      const auto file = "values" + std::to_string(files.size()) + ".txt";
      t.attributes.emplace_back("Source", file);
      std::ostringstream rows;
      for (auto &[comb, val] : f.val) {
        for (auto k : comb) {
          rows << k << (c.s.chance(1, 4) ? "\t" : " ");
        }
        rows << val << "\n";
      }
      files[file] = rows.str();
      c.label("source");
    } else {
      for (auto &[comb, val] : f.val) {
        XTag e{"Distr_val", {}, {}};
        const bool first = c.s.chance(1, 2);
        if (first) {
          e.attributes.emplace_back("D", val);
        }
        for (auto k : comb) {
          e.attributes.emplace_back("v", std::to_string(k));
        }
        if (!first) {
          e.attributes.emplace_back("D", val);
        }
        t.nested.push_back(e);
      }
    }
    if (f.tunab) {
      t.attributes.emplace_back("tunability", std::string(1, f.tunab));
    }
    if (f.share >= 0) {
      XTag sh{"Share", {}, {}};
      for (int v : d.facs[static_cast<std::size_t>(f.share)].vars) {
        sh.attributes.emplace_back("var", name(v));
      }
      c.s.shuffle(sh.attributes);
      t.nested.push_back(sh);
      c.s.shuffle(t.nested);
    }
    root.nested.push_back(t);
  }
  return root;
}

std::string store(Case &c, XTag root,
                  const std::map<std::string, std::string> &files) {
  c.s.shuffle(root.nested);
  std::ostringstream text;
  if (c.s.chance(1, 2)) {
    text << "<?xml version=\"1.0\"?>\n";
  }
  print(text, root, c.s.chance(1, 2));
  c.d << text.str();
  const auto dir = pbt::scratch_dir();
  for (auto &[name, rows] : files) {
    c.d << name << ":\n" << rows;
    write(dir + "/" + name, rows);
  }
  write(dir + "/model.xml", text.str());
  return dir + "/model.xml";
}

// works in a folder for a while
struct Inside {
  Inside(const std::string &dir) : before(std::filesystem::current_path()) {
    std::filesystem::current_path(dir);
  }
  ~Inside() { std::filesystem::current_path(before); }
  std::filesystem::path before;
};

void meaning(Case &c) {
  auto d = genDoc(c, false, false);
  std::map<std::string, std::string> files;
  auto file = store(c, toXml(c, d, files), files);
  std::unique_ptr<Inside> inside;
  if (c.s.chance(1, 4)) {
    // a relative path
    const std::filesystem::path dir = pbt::scratch_dir();
    const bool above = c.s.chance(1, 2);
    inside = std::make_unique<Inside>(
        (above ? dir.parent_path() : dir).string());
    file = above ? dir.filename().string() + "/model.xml"
                 : c.s.pick(std::vector<std::string>{"model.xml",
                                                     "./model.xml"});
    c.d << "\n path " << file;
  }
  if (c.s.chance(2, 3)) {
    model::RandomField m;
    io::xml::Importer::importFromFile(m, file);
    check(d, m, true, true);
  } else {
    model::Graph m;
    io::xml::Importer::importFromFile(m, file);
    check(d, m, false, true);
    c.label("graph");
  }
  for (auto &f : d.facs) {
    if (f.share >= 0) {
      c.label("share");
    }
    if (f.corr) {
      c.label("correlation");
    }
  }
  c.nontrivial = d.facs.size() >= 2;
}

std::string damage(Case &c, const Doc &d, XTag &root,
                   std::map<std::string, std::string> &files) {
  auto &s = c.s;
  auto &v = root.nested[s.below(d.vars.size())];
  const auto fk = s.below(d.facs.size());
  auto &fac = d.facs[fk];
  auto &p = root.nested[d.vars.size() + fk];
  XTag *value = nullptr;
  XTag *share = nullptr;
  for (auto &n : p.nested) {
    (n.name == "Share" ? share : value) = &n;
  }
  std::string source;
  for (auto &[k, x] : p.attributes) {
    if (k == "Source") {
      source = x;
    }
  }
  std::size_t largest = 0;
  for (auto &var : d.vars) {
    largest = std::max<std::size_t>(largest, var.size);
  }
  switch (s.below(17)) {
  case 0:
    v.erase("name");
    return "variable without name";
  case 1:
    v.erase("Size");
    return "variable without size";
  case 2:
    v.set("Size", s.chance(1, 2) ? "0" : "-" + std::to_string(1 + s.below(3)));
    return "variable without values";
  case 3:
    v.set("name", "");
    return "empty name";
  case 4: {
    auto t = v;
    if (s.chance(1, 2)) {
      t.set("Size", "7");
    }
    root.nested.push_back(t);
    return "variable defined twice";
  }
  case 5:
    p.erase("var");
    return "factor without variables";
  case 6:
    p.set("var", "nobody");
    return "factor with an unknown variable";
  case 7:
    p.attributes.emplace_back("var", d.vars[static_cast<std::size_t>(
                                                fac.vars[0])]
                                         .name);
    return "factor with the same variable twice";
  case 8:
    if (!value) {
      return "";
    }
    value->erase("D");
    return "value without image";
  case 9:
    if (!value) {
      return "";
    }
    value->erase("v");
    return "value without combination";
  case 10:
    if (!value) {
      return "";
    }
    for (auto &[k, x] : value->attributes) {
      if (k == "v") {
        x = std::to_string(largest + s.below(1000));
        break;
      }
    }
    return "combination out of range";
  case 11:
    p.set("Correlation", s.chance(1, 2) ? "X" : "TRUE");
    return "unknown correlation";
  case 12: {
    for (auto &x : d.vars) {
      for (auto &[k, n] : v.attributes) {
        if (k == "name" && n == x.name) {
          v.set("evidence", std::to_string(x.size + s.below(3)));
          return "evidence out of range";
        }
      }
    }
    return "";
  }
  case 13:
    if (!share) {
      return "";
    }
    share->set("var", "nobody");
    return "weight shared with an unknown variable";
  case 14:
    if (source.empty()) {
      return "";
    }
    files.erase(source);
    std::remove((pbt::scratch_dir() + "/" + source).c_str());
    return "missing file of values";
  case 15:
    if (source.empty()) {
      return "";
    }
    files[source] += s.chance(1, 2) ? "0 0 0 1\n"
                                     : "0 " + std::to_string(largest) + " 1\n";
    return "invalid row in a file of values";
  default:
    if (fac.vars.size() != 2) {
      return "";
    }
    {
      auto t = p;
      t.nested.clear();
      root.nested.push_back(t);
    }
    return "variables connected twice";
  }
}

void refusal(Case &c) {
  auto d = genDoc(c, false, false);
  std::map<std::string, std::string> files;
  auto root = toXml(c, d, files);
  std::string what;
  std::string file;
  if (c.s.chance(1, 20)) {
    what = "missing document";
    file = pbt::scratch_dir() + "/nowhere.xml";
  } else {
    what = damage(c, d, root, files);
    if (what.empty()) {
      pbt::discard("not applicable");
    }
    c.d << what << ": ";
    file = store(c, root, files);
  }
  c.label(what);
  bool refused = false;
  try {
    if (c.s.chance(1, 2)) {
      model::RandomField m;
      io::xml::Importer::importFromFile(m, file);
    } else {
      model::Graph m;
      io::xml::Importer::importFromFile(m, file);
    }
  } catch (const std::exception &) {
    refused = true;
  }
  PBT_CHECK(refused, "accepted a document with: " << what);
  c.nontrivial = true;
}
} // namespace

const pbt::Property pbt::PROPERTY = {
    "C24",
    "round-trip: at least 2 variables and 2 factors; meaning: at least 2 "
    "factors; refusal: every document",
    {"the external xml parser is replaced by a stand-in with the same "
     "interface; names made of letters and digits",
     "the parser does not keep the order of the tags and of the attributes: "
     "factors are compared up to the order of their variables, and a "
     "combination is defined once",
     "a variable hosts at most one tunable unary factor"},
    {{"round-trip", roundTrip, 20000, 400000},
     {"meaning", meaning, 24000, 500000},
     {"refusal", refusal, 24000, 500000}}};
