// Meaning of the json documents accepted by the importer, and refusal of the
// other ones.
#include "../doc.h"

#include <EasyFactorGraph/Error.h>
#include <EasyFactorGraph/io/json/Importer.h>

#include <cmath>

namespace {
void meaning(Case &c) {
  auto d = genDoc(c);
  auto j = toJson(c, d);
  c.d << j.dump();
  if (c.s.chance(2, 3)) {
    model::RandomField m;
    io::json::Importer::importFromJson(m, j);
    check(d, m, true);
  } else {
    model::Graph m;
    io::json::Importer::importFromJson(m, j);
    check(d, m, false);
    c.label("graph");
  }
  for (auto &f : d.facs) {
    if (f.share >= 0) {
      c.label("share");
    }
    if (f.corr) {
      c.label("correlation");
    }
  }
  c.nontrivial = d.facs.size() >= 2;
}

// a defect that makes the document meaningless
std::string damage(Case &c, const Doc &d, json &j) {
  auto &s = c.s;
  auto &vars = j["Variables"];
  auto &pots = j["Potentials"];
  auto &v = vars[s.below(vars.size())];
  const std::size_t fk = s.below(d.facs.size());
  auto &fac = d.facs[fk];
  auto &p = pots[fk];
  auto freeName = [&d]() {
    std::string n = "nobody";
    for (auto &x : d.vars) {
      n += x.name;
    }
    return n;
  };
  auto value = [&]() -> json * {
    if (fac.corr || fac.val.empty()) {
      return nullptr;
    }
    return &p["Distr_val"][s.below(fac.val.size())];
  };
  switch (s.below(22)) {
  case 0:
    j.erase("Variables");
    return "no variables";
  case 1:
    j.erase("Potentials");
    return "no potentials";
  case 2:
    v.erase("name");
    return "variable without name";
  case 3:
    v.erase("Size");
    return "variable without size";
  case 4:
    v["Size"] = s.chance(1, 2) ? "0" : "-" + std::to_string(1 + s.below(3));
    return "variable without values";
  case 5:
    v["name"] = "";
    return "empty name";
  case 6: {
    json w = v;
    if (s.chance(1, 2)) {
      w["Size"] = "7";
    }
    vars.push_back(w);
    return "variable defined twice";
  }
  case 7:
    p.erase("Variables");
    return "factor without variables";
  case 8:
    p["Variables"][s.below(fac.vars.size())] = freeName();
    return "factor with an unknown variable";
  case 9:
    p["Variables"] = json::array();
    return "factor with no variable";
  case 10:
    p["Variables"] = {p["Variables"][0], p["Variables"][0]};
    return "factor with the same variable twice";
  case 11:
    if (fac.corr) {
      return "";
    }
    p.erase("Distr_val");
    return "factor without values";
  case 12:
    if (auto *e = value()) {
      e->erase("D");
      return "value without image";
    }
    return "";
  case 13:
    if (auto *e = value()) {
      e->erase("v");
      return "value without combination";
    }
    return "";
  case 14:
    if (auto *e = value()) {
      auto k = s.below(fac.vars.size());
      (*e)["v"][k] = std::to_string(
          d.vars[static_cast<std::size_t>(fac.vars[k])].size + s.below(3));
      return "combination out of range";
    }
    return "";
  case 15:
    if (auto *e = value()) {
      if (s.chance(1, 2)) {
        (*e)["v"].push_back("0");
      } else {
        (*e)["v"].erase(0);
      }
      return "combination of another size";
    }
    return "";
  case 16:
    p["Correlation"] = s.chance(1, 2) ? "X" : "TRUE";
    return "unknown correlation";
  case 17: {
    bool used = false;
    for (auto &x : d.vars) {
      if (x.name == v["name"].get<std::string>()) {
        used = x.used;
        v["evidence"] = std::to_string(x.size + s.below(3));
      }
    }
    (void)used; // unknown to the model otherwise
    return "evidence out of range";
  }
  case 18:
    if (fac.tunable()) {
      p["Share"] = {freeName()};
      return "weight shared with an unknown variable";
    }
    return "";
  case 19: {
    // a group of variables without a tunable factor
    if (!fac.tunable()) {
      return "";
    }
    for (std::size_t k = 0; k < d.vars.size(); ++k) {
      bool free = true;
      for (auto &f : d.facs) {
        free = free && !(f.tunable() && f.vars.size() == 1 &&
                         f.vars[0] == static_cast<int>(k));
      }
      if (free) {
        p["Share"] = {d.vars[k].name};
        return "weight shared with an inexistent factor";
      }
    }
    return "";
  }
  case 20: {
    // wrong type
    static const std::vector<json> wrong = {nullptr, 3, 2.5, true,
                                            json::array(), json::object()};
    auto &x = s.pick(wrong);
    switch (s.below(6)) {
    case 0:
      v["name"] = x;
      return "name is not a string";
    case 1:
      v["Size"] = x;
      return "size is not a string";
    case 2:
      p["Variables"][0] = x;
      return "a variable of a factor is not a string";
    case 3:
      if (!fac.weighted) {
        return "";
      }
      p["weight"] = x;
      return "weight is not a string";
    case 4:
      if (auto *e = value()) {
        (*e)["D"] = x;
        return "image is not a string";
      }
      return "";
    default:
      if (auto *e = value()) {
        (*e)["v"][0] = x;
        return "an element of a combination is not a string";
      }
      return "";
    }
  }
  default:
    if (fac.vars.size() != 2) {
      return "";
    }
    pots.push_back(p);
    pots.back().erase("Share");
    if (s.chance(1, 2)) {
      auto &n = pots.back()["Variables"];
      std::swap(n[0], n[1]);
      pots.back().erase("Correlation");
      pots.back()["Distr_val"] = json::array();
    }
    return "variables connected twice";
  }
}

void refusal(Case &c) {
  auto d = genDoc(c);
  auto j = toJson(c, d);
  auto what = damage(c, d, j);
  if (what.empty()) {
    pbt::discard("not applicable");
  }
  c.d << what << ": " << j.dump();
  c.label(what);
  // the refusal can not depend on the kind of model, unless it is about the
  // weights
  const bool field = what.find("shared with an inexistent") !=
                         std::string::npos ||
                     c.s.chance(1, 2);
  bool refused = false;
  try {
    if (field) {
      model::RandomField m;
      io::json::Importer::importFromJson(m, j);
    } else {
      model::Graph m;
      io::json::Importer::importFromJson(m, j);
    }
  } catch (const std::exception &) {
    refused = true;
  }
  PBT_CHECK(refused, "accepted a document with " << what);
  c.nontrivial = true;
}

// any json: imported or refused, without undefined behaviour
json chaos(Case &c, int depth) {
  auto &s = c.s;
  static const std::vector<std::string> texts = {
      "A", "B", "0", "1", "2", "-1", "", "T", "Y", "N", "F", "1e9", "abc",
      "99"};
  switch (s.below(depth > 0 ? 8 : 5)) {
  case 0:
    return s.pick(texts);
  case 1:
    return nullptr;
  case 2:
    return static_cast<int>(s.below(5)) - 2;
  case 3:
    return s.chance(1, 2);
  case 4:
    return 1.5;
  case 5:
  case 6: {
    json a = json::array();
    for (auto k = s.below(4); k > 0; --k) {
      a.push_back(chaos(c, depth - 1));
    }
    return a;
  }
  default: {
    static const std::vector<std::string> keys = {
        "Variables", "Potentials", "name", "Size",   "evidence",   "Distr_val",
        "D",         "v",          "weight", "Share", "tunability", "Correlation"};
    json o = json::object();
    for (auto k = s.below(5); k > 0; --k) {
      o[s.pick(keys)] = chaos(c, depth - 1);
    }
    return o;
  }
  }
}

void replaceSome(Case &c, json &j, int &left) {
  if (left <= 0) {
    return;
  }
  if (c.s.chance(1, 12)) {
    --left;
    j = chaos(c, 2);
    return;
  }
  if (j.is_structured()) {
    for (auto &x : j) {
      replaceSome(c, x, left);
    }
    if (j.is_object() && !j.empty() && c.s.chance(1, 16)) {
      --left;
      auto it = j.begin();
      std::advance(it, static_cast<long>(c.s.below(j.size())));
      j.erase(it);
    }
  }
}

void anything(Case &c) {
  json j;
  if (c.s.chance(1, 6)) {
    j = chaos(c, 4);
  } else {
    j = toJson(c, genDoc(c));
    int left = 1 + static_cast<int>(c.s.below(3));
    replaceSome(c, j, left);
  }
  c.d << j.dump();
  bool refused = false;
  try {
    if (c.s.chance(1, 2)) {
      model::RandomField m;
      io::json::Importer::importFromJson(m, j);
    } else {
      model::Graph m;
      io::json::Importer::importFromJson(m, j);
    }
  } catch (const std::exception &) {
    refused = true;
  }
  c.label(refused ? "refused" : "accepted");
  c.nontrivial = j.is_structured() && j.size() > 1;
}

} // namespace

namespace pbt {
const Property PROPERTY = {
    "C18",
    "meaning: at least 2 factors; refusal: every document; anything: the "
    "document is an object with several members",
    {"numbers are written as decimal strings",
     "a variable hosts at most one tunable unary factor, and weights are "
     "shared with a factor which is not itself sharing, or which comes before "
     "and does",
     "a refusal is any exception derived from std::exception"},
    {{"meaning", meaning, 40000, 800000},
     {"refusal", refusal, 40000, 800000},
     {"anything", anything, 40000, 800000}},
};
}
