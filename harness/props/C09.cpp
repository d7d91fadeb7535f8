// The pool runs every task exactly once, and all of them before returning.
#include "../world.h"

#include <EasyFactorGraph/Error.h>
#include <EasyFactorGraph/structure/bases/PoolAware.h>

#include <atomic>
#include <thread>
using namespace wld;
using pbt::Case;

namespace {
// the work a task does
void work(std::size_t amount) {
  volatile std::size_t x = 0;
  for (std::size_t k = 0; k < amount; ++k) {
    x = x + k;
  }
  if (amount % 7 == 3) {
    std::this_thread::yield();
  }
}

struct Batch {
  std::vector<std::size_t> amount; // of each task
  std::vector<std::size_t> plain;  // written by the tasks, not atomic
  std::vector<std::atomic<int>> runs;
  using Inside = std::vector<std::atomic<int>>; // per thread id
  std::shared_ptr<Inside> inside; // shared by the users of a pool
  std::atomic<int> badId{0}, overlaps{0};
  strct::Tasks tasks;

  Batch(pbt::Src &s, std::size_t poolSize, std::size_t n,
        std::shared_ptr<Inside> shared = nullptr)
      : plain(n, 0), runs(n),
        inside(shared ? shared : std::make_shared<Inside>(poolSize)) {
    const bool heavy = s.chance(1, 3);
    for (std::size_t k = 0; k < n; ++k) {
      amount.push_back(s.chance(1, 6) ? s.below(heavy ? 20000 : 1500)
                                      : s.below(60));
    }
    for (std::size_t k = 0; k < n; ++k) {
      tasks.emplace_back([this, k](const std::size_t id) {
        if (id >= inside->size()) {
          ++badId;
          ++runs[k];
          return;
        }
        if ((*inside)[id].fetch_add(1) != 0) {
          ++overlaps;
        }
        work(amount[k]);
        // visible without further synchronization after parallelFor
        plain[k] = plain[k] * 31 + k + 1;
        ++runs[k];
        (*inside)[id].fetch_sub(1);
      });
    }
  }

  void check(int times, const std::string &what) {
    std::vector<std::size_t> expected(plain.size(), 0);
    for (std::size_t k = 0; k < plain.size(); ++k) {
      PBT_CHECK(runs[k].load() == times,
                what << ": task " << k << " of " << plain.size() << " ran "
                     << runs[k].load() << " times instead of " << times);
      std::size_t e = 0;
      for (int t = 0; t < times; ++t) {
        e = e * 31 + k + 1;
      }
      PBT_CHECK(plain[k] == e,
                what << ": the effects of task " << k << " are not visible");
    }
    PBT_CHECK(badId.load() == 0, what << ": thread id out of range");
    PBT_CHECK(overlaps.load() == 0,
              what << ": two tasks run at the same time with the same id");
  }
};

std::size_t genPool(pbt::Src &s) {
  // busy waiting workers: more threads than cores would just take long
  if (s.chance(1, 200)) {
    return 9 + s.below(9);
  }
  return s.chance(1, 16) ? 5 + s.below(4) : 1 + s.below(4);
}

std::size_t genSize(pbt::Src &s) {
  switch (s.below(6)) {
  case 0:
    return 0;
  case 1:
    return 1;
  case 2:
    return 2 + s.below(8);
  case 4:
    if (s.chance(1, 40)) {
      return 500 + s.below(2500);
    }
    return s.below(60);
  case 3:
    // around the powers of two
    return (std::size_t(1) << (2 + s.below(7))) - 1 + s.below(3);
  default:
    return s.below(60);
  }
}

void sequence(Case &c) {
  const auto size = genPool(c.s);
  c.d << "pool of " << size;
  strct::Pool pool{size};
  PBT_CHECK(pool.size() == size, "size() of the pool");
  const auto batches = 1 + c.s.below(30);
  for (std::uint64_t k = 0; k < batches; ++k) {
    const auto n = genSize(c.s);
    const auto times = static_cast<int>(1 + c.s.below(3));
    c.d << "\n " << n << " tasks, " << times << " times";
    auto b = std::make_unique<Batch>(c.s, size, n);
    for (int t = 0; t < times; ++t) {
      pool.parallelFor(b->tasks);
      b->check(t + 1, "batch " + std::to_string(k));
    }
    // freed here: nobody should use the tasks after parallelFor
    if (n > 0 && size > 1) {
      c.nontrivial = true;
    }
  }
}

// several threads use the same pool
void callers(Case &c) {
  const auto size = 1 + c.s.below(4);
  const auto users = 2 + c.s.below(3);
  c.d << "pool of " << size << ", callers " << users;
  strct::Pool pool{size};
  std::vector<std::vector<std::unique_ptr<Batch>>> batches(users);
  auto inside = std::make_shared<Batch::Inside>(size);
  for (auto &u : batches) {
    c.d << ", batches of";
    for (auto k = 1 + c.s.below(8); k > 0; --k) {
      const auto n = genSize(c.s);
      c.d << " " << n;
      u.push_back(std::make_unique<Batch>(c.s, size, n, inside));
    }
  }
  std::vector<std::string> errors(users);
  std::vector<std::thread> threads;
  for (std::uint64_t u = 0; u < users; ++u) {
    threads.emplace_back([&, u]() {
      try {
        std::size_t k = 0;
        for (auto &b : batches[u]) {
          pool.parallelFor(b->tasks);
          b->check(1, "caller " + std::to_string(u) + " batch " +
                          std::to_string(k++));
          // nobody should use the tasks anymore
          b->tasks.clear();
        }
      } catch (const pbt::Fail &f) {
        errors[u] = f.msg;
      }
    });
  }
  for (auto &t : threads) {
    t.join();
  }
  for (auto &e : errors) {
    PBT_CHECK(e.empty(), e);
  }
  c.nontrivial = true;
}

// creation and destruction, also without any task
void lifetime(Case &c) {
  const auto n = 1 + c.s.below(10);
  for (std::uint64_t k = 0; k < n; ++k) {
    const auto size = c.s.chance(1, 8) ? 0 : genPool(c.s);
    c.d << " pool of " << size;
    bool refused = false;
    try {
      strct::Pool pool{size};
      if (c.s.chance(1, 2)) {
        auto b = std::make_unique<Batch>(c.s, size, genSize(c.s));
        pool.parallelFor(b->tasks);
        b->check(1, "lifetime");
        b.reset();
        if (c.s.chance(1, 2)) {
          std::this_thread::yield();
        }
      }
    } catch (const EFG::Error &) {
      refused = true;
    }
    PBT_CHECK(refused == (size == 0),
              "pool of size " << size << (refused ? " refused" : " accepted"));
    c.nontrivial = c.nontrivial || size > 1;
  }
}

struct Aware : public strct::PoolAware {
  using strct::PoolAware::getPool;
  using strct::PoolAware::resetPool;
  using strct::PoolAware::ScopedPoolActivator;
  using strct::PoolAware::setPoolSize;
};

struct Interruption {};

// the pool of a model has the requested size within a scope, one otherwise
void activation(Case &c) {
  Aware a;
  PBT_CHECK(a.getPool().size() == 1, "initial size");
  const auto n = 1 + c.s.below(8);
  for (std::uint64_t k = 0; k < n; ++k) {
    const auto size = c.s.chance(1, 6) ? 0 : genPool(c.s);
    c.d << " activate " << size;
    try {
      Aware::ScopedPoolActivator act{a, size};
      PBT_CHECK(size != 0, "size 0 accepted");
      PBT_CHECK(a.getPool().size() == size, "size within the scope");
      auto b = std::make_unique<Batch>(c.s, size, genSize(c.s));
      a.getPool().parallelFor(b->tasks);
      b->check(1, "activation");
      if (c.s.chance(1, 3)) {
        c.d << " throw";
        throw Interruption{};
      }
    } catch (const EFG::Error &) {
      PBT_CHECK(size == 0, "size " << size << " refused");
    } catch (const Interruption &) {
      c.label("exception");
    }
    PBT_CHECK(a.getPool().size() == 1, "size after the scope");
    auto b = std::make_unique<Batch>(c.s, 1, genSize(c.s));
    a.getPool().parallelFor(b->tasks);
    b->check(1, "after the scope");
    c.nontrivial = c.nontrivial || size > 1;
  }
}
} // namespace

const pbt::Property pbt::PROPERTY = {
    "C09",
    "non-trivial: a pool of two or more threads processes at least one task "
    "(sequence, callers), or is created and destroyed (lifetime, activation)",
    {"schedules are the ones the operating system produces while several "
     "workers compete for the cores; they are not enumerated",
     "the same cases run a second time under ThreadSanitizer when it works in "
     "the sandbox"},
    {{"sequence", sequence, 1500, 27000},
     {"callers", callers, 750, 15000},
     {"lifetime", lifetime, 750, 15000},
     {"activation", activation, 450, 9000}},
    80,
    2};
