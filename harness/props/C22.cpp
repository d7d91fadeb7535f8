// Train sets, their iterators and their import from text.
#include "../world.h"

#include <EasyFactorGraph/Error.h>
#include <EasyFactorGraph/io/TrainSetImport.h>
#include <EasyFactorGraph/trainable/TrainSet.h>

#include <cmath>
#include <fstream>

using namespace wld;
using pbt::Case;
using train::TrainSet;

namespace {
using Combs = std::vector<std::vector<std::size_t>>;

Combs genCombs(Case &c, std::size_t maxRows) {
  auto &s = c.s;
  const auto rows = 1 + s.below(maxRows), 
             cols = 1 + s.below(rows <= 40 && s.chance(1, 20) ? 300 : 5);
  static const std::vector<std::size_t> tops = {2, 3, 12, 1001, 2147483647};
  const auto top = s.pick(tops);
  Combs r(rows);
  for (auto &row : r) {
    for (std::uint64_t k = 0; k < cols; ++k) {
      row.push_back(s.below(top));
    }
  }
  return r;
}

std::string show(const Combs &m) {
  std::ostringstream o;
  for (auto &r : m) {
    o << fmt(r) << ";";
  }
  return o.str();
}

template <typename Fn> bool refused(const Fn &fn) {
  try {
    fn();
  } catch (const EFG::Error &) {
    return true;
  }
  return false;
}

Combs visit(const TrainSet::Iterator &it) {
  Combs r;
  it.forEachSample(
      [&r](const std::vector<std::size_t> &sample) { r.push_back(sample); });
  return r;
}

void sets(Case &c) {
  auto m = genCombs(c, c.s.chance(1, 40) ? 2500 : 40);
  bool valid = true;
  if (c.s.chance(1, 6)) {
    m.clear();
    valid = false;
  } else if (c.s.chance(1, 4)) {
    auto &row = m[c.s.below(m.size())];
    switch (c.s.below(3)) {
    case 0:
      row.push_back(0);
      break;
    case 1:
      row.pop_back();
      break;
    default:
      row.clear();
    }
    for (auto &r : m) {
      valid = valid && r.size() == m.front().size() && !r.empty();
    }
  }
  c.d << show(m);
  std::unique_ptr<TrainSet> t;
  const bool no = refused([&]() { t = std::make_unique<TrainSet>(m); });
  PBT_CHECK(no == !valid, "train set " << (no ? "refused" : "accepted"));
  if (no) {
    c.label("refused");
    return;
  }
  PBT_CHECK(t->getCombinations() == m, "the train set has other combinations");
  // the iterators outlive the set
  auto all = t->makeIterator();
  const std::size_t N = m.size();
  std::vector<std::pair<float, TrainSet::Iterator>> subs;
  for (auto k = 1 + c.s.below(3); k > 0; --k) {
    float p;
    switch (c.s.below(4)) {
    case 0:
      p = 1.f;
      break;
    case 1: // exactly a number of samples
      p = static_cast<float>(1 + c.s.below(N)) / static_cast<float>(N);
      break;
    default:
      p = static_cast<float>(1 + c.s.below(1000)) * 1e-3f;
    }
    c.d << " subset " << p;
    subs.emplace_back(p, t->makeSubSetIterator(p));
  }
  static const std::vector<float> bad = {0.f, -0.5f, 1.001f, 2.f, -1e-6f,
                                         100.f,
                                         std::nanf(""),
                                         INFINITY,
                                         -INFINITY};
  const float b = c.s.pick(bad);
  PBT_CHECK(refused([&]() { t->makeSubSetIterator(b); }),
            "accepted percentage " << b);
  t.reset();
  PBT_CHECK(all.size() == N, "iterator over " << all.size() << " samples");
  PBT_CHECK(visit(all) == m, "the iterator visits other samples");
  const std::set<std::vector<std::size_t>> content{m.begin(), m.end()};
  for (auto &[p, it] : subs) {
    auto v = visit(it);
    PBT_CHECK(v.size() == it.size(), "subset of size " << it.size()
                                                       << " visits "
                                                       << v.size());
    const double e = static_cast<double>(p) * static_cast<double>(N);
    PBT_CHECK(static_cast<double>(v.size()) <= e + 1e-3 * (1 + e) &&
                  static_cast<double>(v.size()) > e - 1 - 1e-3 * (1 + e),
              "subset " << p << " of " << N << " has " << v.size());
    if (p == 1.f) {
      PBT_CHECK(v == m, "whole subset visits other samples");
    }
    for (auto &x : v) {
      PBT_CHECK(content.count(x), "sample not in the train set");
    }
    PBT_CHECK(visit(it) == v, "a second visit differs");
  }
  c.nontrivial = N >= 3;
}

// every sample can be drawn, about evenly
void coverage(Case &c) {
  const std::size_t N = 2 + c.s.below(6);
  Combs m;
  for (std::size_t k = 0; k < N; ++k) {
    m.push_back({k});
  }
  TrainSet t{m};
  // at least one sample
  const float p =
      c.s.chance(1, 2)
          ? 0.99f
          : std::min(0.99f, static_cast<float>(1 + c.s.below(N)) /
                                    static_cast<float>(N) +
                                0.01f);
  std::vector<std::size_t> hits(N, 0);
  std::size_t tot = 0;
  c.d << N << " samples, portion " << p;
  while (tot < 600 * N) {
    auto it = t.makeSubSetIterator(p);
    it.forEachSample([&](const std::vector<std::size_t> &x) {
      ++hits[x.front()];
      ++tot;
    });
  }
  // 600 expected hits for each, deviations above 250 have a probability below
  // 1e-20
  for (std::size_t k = 0; k < N; ++k) {
    const double e = static_cast<double>(tot) / static_cast<double>(N);
    PBT_CHECK(std::abs(static_cast<double>(hits[k]) - e) < 250,
              "sample " << k << " drawn " << hits[k] << " times instead of "
                        << e);
  }
  c.nontrivial = true;
}

// as above, with many samples: counted by groups of near ones
void coverageLarge(Case &c) {
  const std::size_t N = 300 + c.s.below(c.s.chance(1, 50)   ? 1000000
                                   : c.s.chance(1, 8) ? 70000
                                                      : 3000);
  Combs m;
  m.reserve(N);
  for (std::size_t k = 0; k < N; ++k) {
    m.push_back({k});
  }
  TrainSet t{m};
  const float p = 0.05f + static_cast<float>(c.s.below(94)) * 1e-2f;
  const std::size_t buckets = 10;
  std::vector<double> hits(buckets, 0), expected(buckets, 0);
  for (std::size_t k = 0; k < N; ++k) {
    expected[k * buckets / N] += 1.0 / static_cast<double>(N);
  }
  double tot = 0;
  c.d << N << " samples, portion " << p;
  while (tot < 20000) {
    auto it = t.makeSubSetIterator(p);
    const double e = static_cast<double>(p) * static_cast<double>(N);
    PBT_CHECK(static_cast<double>(it.size()) <= e + 1e-5 * (1 + e) &&
                  static_cast<double>(it.size()) > e - 1 - 1e-5 * (1 + e),
              "size of the subset " << it.size());
    it.forEachSample([&](const std::vector<std::size_t> &x) {
      hits[x.front() * buckets / N] += 1;
      tot += 1;
    });
  }
  // about 10% in each: deviations above 2.5% have a probability below e^-25
  for (std::size_t k = 0; k < buckets; ++k) {
    PBT_CHECK(std::abs(hits[k] / tot - expected[k]) < 0.025,
              "a portion " << hits[k] / tot << " of the samples comes from part "
                           << k << " of the set, instead of " << expected[k]);
  }
  c.nontrivial = true;
}

void text(Case &c) {
  auto m = genCombs(c, c.s.chance(1, 60) ? 1200 : 15);
  auto &s = c.s;
  std::ostringstream o;
  static const std::vector<std::string> seps = {" ", "  ", "\t", " \t "};
  const bool ends = s.chance(1, 2);
  bool valid = true;
  int bad = -1;
  const auto damage = s.below(8);
  if (damage == 0 && m.size() > 1) {
    bad = static_cast<int>(s.below(m.size()));
    valid = false;
  }
  for (std::size_t r = 0; r < m.size(); ++r) {
    if (s.chance(1, 10)) {
      o << s.pick(seps);
    }
    auto row = m[r];
    if (bad == static_cast<int>(r)) {
      if (row.size() > 1 && s.chance(1, 2)) {
        row.pop_back();
      } else {
        row.push_back(s.below(3));
      }
    }
    for (std::size_t k = 0; k < row.size(); ++k) {
      if (k) {
        o << s.pick(seps);
      }
      o << row[k];
    }
    if (s.chance(1, 10)) {
      o << s.pick(seps);
    }
    if (r + 1 < m.size() || ends) {
      o << "\n";
    }
  }
  c.label(ends ? "final newline" : "no final newline");
  auto file = pbt::scratch_dir() + "/set.txt";
  auto content = o.str();
  c.d << "file:\n" << content << "<EOF>";
  if (damage == 1) {
    content.clear();
    valid = false;
    c.label("empty file");
  }
  {
    std::ofstream f{file};
    f << content;
  }
  if (damage == 2) {
    file += ".missing";
    valid = false;
    c.label("missing file");
  }
  std::unique_ptr<TrainSet> t;
  const bool no = refused(
      [&]() { t = std::make_unique<TrainSet>(io::import_train_set(file)); });
  PBT_CHECK(no == !valid, "file " << (no ? "refused" : "accepted"));
  c.nontrivial = true;
  if (no) {
    c.label("refused");
    return;
  }
  PBT_CHECK(t->getCombinations() == m,
            "imported " << show(t->getCombinations()) << " instead of "
                        << show(m));
}

// text whose meaning is not specified: imported or refused
void anyText(Case &c) {
  auto &s = c.s;
  std::string content;
  static const std::vector<std::string> bits = {
      "0", "1", "7", " ", "\n", "\t", "\r\n", "-1", "abc", "1.5", "\n\n",
      "99999999999999999999", std::string(1, '\0'), "1 2\n", ","};
  for (auto k = s.below(30); k > 0; --k) {
    content += s.pick(bits);
  }
  auto file = pbt::scratch_dir() + "/set.txt";
  {
    std::ofstream f{file, std::ios::binary};
    f << content;
  }
  c.d << "file:\n" << content << "<EOF>";
  try {
    auto t = io::import_train_set(file);
    for (auto &r : t.getCombinations()) {
      PBT_CHECK(r.size() == t.getCombinations().front().size() && !r.empty(),
                "irregular train set");
    }
    c.label("accepted");
  } catch (const std::exception &) {
    c.label("refused");
  }
  c.nontrivial = content.size() > 3;
}
} // namespace

namespace pbt {
const Property PROPERTY = {
    "C22",
    "sets: at least 3 samples; any-text: more than 3 characters; the others: "
    "every case",
    {"values of the train sets imported from text are below 2^31"},
    {{"sets", sets, 100000, 1800000},
     {"coverage-large", coverageLarge, 200, 4000},
     {"coverage", coverage, 300, 3600},
     {"text", text, 40000, 600000},
     {"any-text", anyText, 40000, 600000}},
};
}
