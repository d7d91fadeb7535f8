#include "engine.h"

#include <algorithm>
#include <atomic>
#include <chrono>
#include <csignal>
#include <cstring>
#include <exception>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <map>
#include <unordered_set>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:abort_on_error=1:quarantine_size_mb=24:"
         "allocator_may_return_null=0:max_allocation_size_mb=4000:"
         "detect_stack_use_after_return=0:handle_abort=0";
}
extern "C" const char *__tsan_default_options() {
  return "halt_on_error=1:exitcode=66:report_signal_unsafe=0";
}

namespace pbt {
namespace fs = std::filesystem;
using Clock = std::chrono::steady_clock;

void fail(const std::string &msg) { throw Fail{msg}; }
void discard(const std::string &why) { throw Discard{why}; }

namespace {
// choices made by the case running in an isolated child, readable by the
// parent also after a crash
constexpr std::size_t TRACE_MAX = 200000;
std::uint64_t *g_trace = nullptr;
} // namespace

std::uint64_t Src::below(std::uint64_t n) {
  if (n == 0) {
    throw Discard{"empty choice"};
  }
  std::uint64_t v;
  if (replaying) {
    v = pos < choices.size() ? choices[pos++] : 0;
    if (v >= n) {
      v = v % n;
    }
  } else {
    if (used.size() > 200000) {
      throw Discard{"too many choices"};
    }
    v = rng() % n;
  }
  used.push_back(v);
  if (g_trace != nullptr && traced && used.size() < TRACE_MAX) {
    g_trace[used.size()] = v;
    g_trace[0] = used.size();
  }
  return v;
}

std::size_t Src::weighted(const std::vector<unsigned> &w) {
  std::uint64_t tot = 0;
  for (auto x : w) {
    tot += x;
  }
  auto r = below(tot);
  for (std::size_t k = 0; k < w.size(); ++k) {
    if (r < w[k]) {
      return k;
    }
    r -= w[k];
  }
  return w.size() - 1;
}

namespace {
std::string g_scratch;
} // namespace
std::string scratch_dir() { return g_scratch; }

namespace {
std::uint64_t mix(std::uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}

std::uint64_t hash_str(const std::string &s) {
  std::uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) {
    h = (h ^ c) * 1099511628211ull;
  }
  return mix(h);
}

enum class Kind { PASS, FAIL, DISCARD, CRASH, HANG };

struct Outcome {
  Kind kind = Kind::PASS;
  std::string msg;
  std::string desc;
  std::vector<std::uint64_t> choices;
};

// runs a case in this process
Outcome run_inline(const Sub &sub, Src &src, Case &c) {
  Outcome o;
  try {
    sub.fn(c);
  } catch (const Fail &f) {
    o.kind = Kind::FAIL;
    o.msg = f.msg;
  } catch (const Discard &f) {
    o.kind = Kind::DISCARD;
    o.msg = f.why;
  } catch (const std::exception &e) {
    o.kind = Kind::FAIL;
    o.msg = std::string("unexpected exception: ") + e.what();
  } catch (...) {
    o.kind = Kind::FAIL;
    o.msg = "unexpected exception of unknown type";
  }
  o.choices = src.recorded();
  return o;
}

void write_all(int fd, const std::string &s) {
  std::size_t done = 0;
  while (done < s.size()) {
    auto n = ::write(fd, s.data() + done, s.size() - done);
    if (n <= 0) {
      return;
    }
    done += static_cast<std::size_t>(n);
  }
}

std::string slurp(const fs::path &p, std::size_t max = 1 << 26) {
  std::ifstream f(p, std::ios::binary);
  std::string s((std::istreambuf_iterator<char>(f)),
                std::istreambuf_iterator<char>());
  if (s.size() > max) {
    s = s.substr(0, max);
  }
  return s;
}

// The part of a sanitizer / assertion output worth keeping.
std::string summarize_stderr(const std::string &s) {
  std::istringstream in(s);
  std::string line, out;
  int kept = 0;
  while (std::getline(in, line) && kept < 12) {
    if (line.find("ERROR:") != std::string::npos ||
        line.find("WARNING: ThreadSanitizer") != std::string::npos ||
        line.find("Assertion") != std::string::npos ||
        line.find("terminate") != std::string::npos ||
        line.find("what()") != std::string::npos ||
        (line.find("    #") == 0 && line.find("EFG::") != std::string::npos)) {
      out += line.substr(0, 300) + " | ";
      ++kept;
    }
  }
  return out;
}

struct Env {
  int tier = 0;
  fs::path tmp;
};

// runs a case in a child process
// a case needs a few megabytes: a runaway one is stopped before it exhausts
// the memory of the machine
bool too_big(pid_t pid) {
  std::ifstream f("/proc/" + std::to_string(pid) + "/statm");
  std::size_t total = 0, resident = 0;
  f >> total >> resident;
  return f && resident * static_cast<std::size_t>(sysconf(_SC_PAGESIZE)) >
                  (std::size_t(3) << 30);
}

Outcome run_isolated(const Env &env, const Sub &sub,
                     const std::vector<std::uint64_t> &choices,
                     unsigned limit_seconds) {
  static int counter = 0;
  const fs::path err = env.tmp / ("iso" + std::to_string(++counter) + ".err");
  const fs::path res = env.tmp / ("iso" + std::to_string(counter) + ".res");
  const fs::path scr = env.tmp / ("iso" + std::to_string(counter) + ".d");
  fs::create_directories(scr);
  static auto *trace = static_cast<std::uint64_t *>(
      mmap(nullptr, sizeof(std::uint64_t) * TRACE_MAX, PROT_READ | PROT_WRITE,
           MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  trace[0] = 0;
  pid_t pid = fork();
  if (pid == 0) {
    g_trace = trace;
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    int efd = ::open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    dup2(efd, 2);
    dup2(efd, 1);
    g_scratch = scr.string();
    Src src{choices};
    Case c{src};
    c.tier = env.tier;
    auto o = run_inline(sub, src, c);
    int fd = ::open(res.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    std::ostringstream s;
    s << static_cast<int>(o.kind) << "\n" << o.choices.size() << "\n";
    for (auto v : o.choices) {
      s << v << " ";
    }
    s << "\n" << o.msg.size() << "\n" << o.msg << c.d.str();
    write_all(fd, s.str());
    ::close(fd);
    _exit(0);
  }
  Outcome o;
  auto start = Clock::now();
  int status = 0;
  bool hang = false;
  unsigned polls = 0;
  while (true) {
    auto r = waitpid(pid, &status, WNOHANG);
    if (r == pid) {
      break;
    }
    if (Clock::now() - start > std::chrono::seconds(limit_seconds) ||
        (++polls % 300 == 0 && too_big(pid))) {
      kill(pid, SIGKILL);
      waitpid(pid, &status, 0);
      hang = true;
      break;
    }
    std::this_thread::sleep_for(std::chrono::microseconds(300));
  }
  if (hang) {
    o.kind = Kind::HANG;
    o.msg = "no answer within " + std::to_string(limit_seconds) +
            " s and 3 GB of memory";
    o.choices.assign(trace + 1, trace + 1 + trace[0]);
  } else if (WIFEXITED(status) && WEXITSTATUS(status) == 0 &&
             fs::exists(res)) {
    std::ifstream f(res, std::ios::binary);
    int k;
    std::size_t n, ml;
    f >> k >> n;
    o.kind = static_cast<Kind>(k);
    o.choices.resize(n);
    for (auto &v : o.choices) {
      f >> v;
    }
    f >> ml;
    f.get();
    o.msg.resize(ml);
    f.read(o.msg.data(), static_cast<std::streamsize>(ml));
    o.desc.assign((std::istreambuf_iterator<char>(f)),
                  std::istreambuf_iterator<char>());
  } else {
    o.kind = Kind::CRASH;
    std::ostringstream s;
    if (WIFSIGNALED(status)) {
      s << "crash: signal " << WTERMSIG(status) << " ("
        << strsignal(WTERMSIG(status)) << ") ";
    } else {
      s << "abnormal exit " << WEXITSTATUS(status) << " ";
    }
    s << summarize_stderr(slurp(err));
    o.msg = s.str();
    o.choices.assign(trace + 1, trace + 1 + trace[0]);
  }
  std::error_code ec;
  fs::remove(err, ec);
  fs::remove(res, ec);
  fs::remove_all(scr, ec);
  return o;
}

bool is_bad(Kind k) {
  return k == Kind::FAIL || k == Kind::CRASH || k == Kind::HANG;
}

// shared memory slot of a worker
struct Slot {
  std::atomic<std::uint64_t> case_index; // 1 + index of the case being run
  std::atomic<std::uint64_t> done;       // number of finished cases
  std::atomic<int> failed;               // 1 when the oracle reported
};

struct Stats {
  std::uint64_t evaluations = 0, nontrivial = 0, discarded = 0;
  std::map<std::string, std::uint64_t> labels;
  std::map<std::string, std::uint64_t> per_sub;
  std::unordered_set<std::uint64_t> distinct;
  std::map<std::string, std::vector<std::string>> samples;
};

std::string esc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    switch (c) {
    case '"':
      o += "\\\"";
      break;
    case '\\':
      o += "\\\\";
      break;
    case '\n':
      o += "\\n";
      break;
    case '\t':
      o += "\\t";
      break;
    default:
      if (c < 0x20 || c >= 0x7f) {
        char b[8];
        snprintf(b, sizeof b, "\\u%04x", c);
        o += b;
      } else {
        o += static_cast<char>(c);
      }
    }
  }
  return o;
}

void dump_stats(const Stats &s, const fs::path &p) {
  std::ofstream f(p, std::ios::binary);
  f << s.evaluations << " " << s.nontrivial << " " << s.discarded << "\n";
  f << s.labels.size() << "\n";
  for (auto &[k, v] : s.labels) {
    f << v << " " << k << "\n";
  }
  f << s.per_sub.size() << "\n";
  for (auto &[k, v] : s.per_sub) {
    f << v << " " << k << "\n";
  }
  f << s.distinct.size() << "\n";
  for (auto h : s.distinct) {
    f << h << " ";
  }
  f << "\n";
  std::size_t n = 0;
  for (auto &[k, v] : s.samples) {
    n += v.size();
  }
  f << n << "\n";
  for (auto &[k, v] : s.samples) {
    for (auto &x : v) {
      f << k << "\n" << x.size() << "\n" << x << "\n";
    }
  }
}

void load_stats(Stats &s, const fs::path &p) {
  std::ifstream f(p, std::ios::binary);
  if (!f) {
    return;
  }
  std::uint64_t a, b, c, n;
  f >> a >> b >> c;
  s.evaluations += a;
  s.nontrivial += b;
  s.discarded += c;
  std::string line;
  for (int pass = 0; pass < 2; ++pass) {
    f >> n;
    for (std::uint64_t k = 0; k < n; ++k) {
      std::uint64_t v;
      f >> v;
      f.get();
      std::getline(f, line);
      (pass ? s.per_sub : s.labels)[line] += v;
    }
  }
  f >> n;
  for (std::uint64_t k = 0; k < n; ++k) {
    std::uint64_t h;
    f >> h;
    s.distinct.insert(h);
  }
  f >> n;
  f.get();
  for (std::uint64_t k = 0; k < n; ++k) {
    std::string key;
    std::getline(f, key);
    std::size_t l;
    f >> l;
    f.get();
    std::string v(l, ' ');
    f.read(v.data(), static_cast<std::streamsize>(l));
    f.get();
    auto &dst = s.samples[key];
    if (dst.size() < 2) {
      dst.push_back(v);
    }
  }
}

struct Plan {
  struct Item {
    std::size_t sub;
    std::uint64_t local; // index inside the sub check
  };
  std::vector<Item> items;
};

// interleaves the sub checks so that an interrupted run covers all of them
Plan make_plan(const Property &p, int tier, double scale,
               const std::string &only) {
  Plan plan;
  std::vector<std::uint64_t> n;
  std::uint64_t total = 0;
  for (auto &s : p.subs) {
    std::uint64_t k = static_cast<std::uint64_t>(
        (tier == 0 ? s.quick : s.thorough) * scale + 0.5);
    if (k == 0 && (tier == 0 ? s.quick : s.thorough) > 0) {
      k = 1;
    }
    if (!only.empty() &&
        ("," + only + ",").find("," + s.name + ",") == std::string::npos) {
      k = 0;
    }
    n.push_back(k);
    total += k;
  }
  std::vector<double> credit(n.size(), 0);
  std::vector<std::uint64_t> done(n.size(), 0);
  for (std::uint64_t i = 0; i < total; ++i) {
    std::size_t best = n.size();
    for (std::size_t k = 0; k < n.size(); ++k) {
      if (done[k] >= n[k]) {
        continue;
      }
      credit[k] += static_cast<double>(n[k]) / static_cast<double>(total);
      if (best == n.size() || credit[k] > credit[best]) {
        best = k;
      }
    }
    credit[best] -= 1;
    plan.items.push_back({best, done[best]++});
  }
  return plan;
}

std::uint64_t case_seed(std::uint64_t seed, const Property &p, const Sub &s,
                        std::uint64_t local) {
  return mix(mix(seed) ^ hash_str(p.id + "/" + s.name) ^
             mix(local * 7919 + 13));
}

void worker_main(const Env &env, const Property &p, const Plan &plan,
                 std::uint64_t seed, std::uint64_t first, std::uint64_t jobs,
                 std::uint64_t start_at, Slot &slot, const fs::path &stats_path,
                 const fs::path &fail_path, Clock::time_point deadline) {
  Stats st;
  load_stats(st, stats_path);
  auto last_dump = Clock::now();
  for (std::uint64_t i = first; i < plan.items.size(); i += jobs) {
    if (i < start_at) {
      continue;
    }
    if (Clock::now() > deadline) {
      break;
    }
    const auto &item = plan.items[i];
    const auto &sub = p.subs[item.sub];
    slot.case_index.store(i + 1);
    Src src{case_seed(seed, p, sub, item.local)};
    Case c{src};
    c.tier = env.tier;
    auto o = run_inline(sub, src, c);
    slot.done.fetch_add(1);
    if (o.kind == Kind::FAIL) {
      std::ofstream f(fail_path, std::ios::binary);
      f << o.msg;
      f.close();
      slot.failed.store(1);
      dump_stats(st, stats_path);
      _exit(3);
    }
    if (o.kind == Kind::DISCARD) {
      ++st.discarded;
      ++st.labels["discarded: " + o.msg];
      continue;
    }
    ++st.evaluations;
    ++st.per_sub[sub.name];
    for (auto &l : c.labels) {
      ++st.labels[l];
    }
    if (c.nontrivial) {
      ++st.nontrivial;
      auto desc = c.d.str();
      st.distinct.insert(hash_str(sub.name + desc));
      auto &smp = st.samples[sub.name];
      if (smp.size() < 1 && desc.size() < 3000 && item.local > 3) {
        smp.push_back(desc);
      }
    }
    if (Clock::now() - last_dump > std::chrono::seconds(5)) {
      dump_stats(st, stats_path);
      last_dump = Clock::now();
    }
  }
  slot.case_index.store(0);
  dump_stats(st, stats_path);
  _exit(0);
}

struct Candidate {
  std::uint64_t index = 0;
  std::string msg;
};

struct Violation {
  const Sub *sub = nullptr;
  Outcome outcome;
  fs::path replay;
};

Outcome shrink(const Env &env, const Sub &sub, Outcome best, unsigned hang,
               double seconds) {
  const bool was_hang = best.kind == Kind::HANG;
  if (was_hang) {
    return best; // every attempt costs a whole timeout
  }
  auto start = Clock::now();
  int runs = 0;
  auto timeleft = [&] {
    return Clock::now() - start < std::chrono::duration<double>(seconds) &&
           runs < 4000;
  };
  auto attempt = [&](const std::vector<std::uint64_t> &c) {
    for (int k = 0; k < 2; ++k) {
      ++runs;
      auto o = run_isolated(env, sub, c, hang);
      if (o.kind == best.kind) {
        if (o.choices.size() > c.size()) {
          o.choices = c;
        }
        best = o;
        return true;
      }
      if (o.kind == Kind::DISCARD || k == 1) {
        return false;
      }
    }
    return false;
  };
  bool progress = true;
  while (progress && timeleft()) {
    progress = false;
    // remove blocks
    for (std::size_t len = std::max<std::size_t>(1, best.choices.size() / 2);
         len >= 1 && timeleft(); len /= 2) {
      for (std::size_t at = 0; at < best.choices.size() && timeleft();) {
        auto c = best.choices;
        auto to = std::min(c.size(), at + len);
        c.erase(c.begin() + at, c.begin() + to);
        if (attempt(c)) {
          progress = true;
        } else {
          at += len;
        }
      }
    }
    // zero blocks
    for (std::size_t len = 8; len >= 1 && timeleft(); len /= 2) {
      for (std::size_t at = 0; at < best.choices.size() && timeleft();
           at += len) {
        auto c = best.choices;
        bool any = false;
        for (std::size_t k = at; k < std::min(c.size(), at + len); ++k) {
          any = any || c[k] != 0;
          c[k] = 0;
        }
        if (any && attempt(c)) {
          progress = true;
        }
      }
    }
    // lower values
    for (std::size_t at = 0; at < best.choices.size() && timeleft(); ++at) {
      std::uint64_t lo = 0;
      while (at < best.choices.size() && lo < best.choices[at] && timeleft()) {
        auto c = best.choices;
        auto v = lo + (c[at] - lo) / 2;
        if (v == c[at]) {
          break;
        }
        c[at] = v;
        if (attempt(c)) {
          progress = true;
        } else {
          lo = v + 1;
        }
      }
    }
  }
  return best;
}

fs::path write_replay(const fs::path &dir, const Property &p, const Sub &sub,
                      const Outcome &o, std::uint64_t seed, int tier) {
  fs::create_directories(dir);
  std::uint64_t h = hash_str(sub.name);
  for (auto v : o.choices) {
    h = mix(h ^ v);
  }
  char b[32];
  snprintf(b, sizeof b, "%08x", static_cast<unsigned>(h));
  auto path = dir / (p.id + "-" + sub.name + "-" + b + ".replay");
  std::ofstream f(path, std::ios::binary);
  f << "property " << p.id << "\nsub " << sub.name << "\nseed " << seed
    << "\ntier " << tier << "\nchoices " << o.choices.size() << "\n";
  for (auto v : o.choices) {
    f << v << " ";
  }
  f << "\n# message\n" << o.msg << "\n# case\n" << o.desc << "\n";
  return path;
}

void append_json_list(std::ostream &o, const std::vector<std::string> &v) {
  o << "[";
  for (std::size_t k = 0; k < v.size(); ++k) {
    o << (k ? ", " : "") << "\"" << esc(v[k]) << "\"";
  }
  o << "]";
}

int do_replay(const Env &env, const Property &p, const std::string &file,
              int times, unsigned hang) {
  std::ifstream f(file);
  std::string word, sub_name;
  std::size_t n = 0;
  while (f >> word) {
    if (word == "sub") {
      f >> sub_name;
    } else if (word == "choices") {
      f >> n;
      break;
    }
  }
  std::vector<std::uint64_t> ch(n);
  for (auto &v : ch) {
    f >> v;
  }
  for (auto &s : p.subs) {
    if (s.name == sub_name) {
      int bad = 0;
      for (int k = 0; k < times; ++k) {
        auto o = run_isolated(env, s, ch, hang);
        std::cout << "run " << k << ": "
                  << (is_bad(o.kind) ? "VIOLATED "
                                     : (o.kind == Kind::PASS ? "held "
                                                             : "discarded "))
                  << o.msg << "\n";
        if (k == 0) {
          std::cout << o.desc << "\n";
        }
        bad += is_bad(o.kind);
      }
      if (bad) {
        std::cout << "VIOLATION property=" << p.id << " replay=" << file
                  << "\n";
      }
      return bad ? 1 : 0;
    }
  }
  std::cout << "unknown sub check in replay file\n";
  return 2;
}
} // namespace
} // namespace pbt

int main(int argc, char **argv) {
  using namespace pbt;
  // a fixed address space layout makes runs as repeatable as possible
  if (getenv("EFG_PBT_REEXEC") == nullptr) {
    int cur = personality(0xffffffff);
    if (cur != -1 && !(cur & ADDR_NO_RANDOMIZE) &&
        personality(static_cast<unsigned long>(cur) | ADDR_NO_RANDOMIZE) !=
            -1) {
      setenv("EFG_PBT_REEXEC", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  std::map<std::string, std::string> opt;
  for (int k = 1; k + 1 < argc; k += 2) {
    opt[argv[k]] = argv[k + 1];
  }
  auto get = [&](const std::string &k, const std::string &def) {
    auto it = opt.find(k);
    return it == opt.end() ? def : it->second;
  };
  const Property &p = PROPERTY;
  Env env;
  env.tier = get("--tier", "quick") == "thorough" ? 1 : 0;
  const std::uint64_t seed = std::stoull(get("--seed", "1"));
  const double scale = std::stod(get("--scale", "1"));
  const double max_time =
      std::stod(get("--time", env.tier == 0 ? "150" : "600"));
  const fs::path out = get("--out", ".");
  const std::string evidence = get("--evidence", "");
  const std::string only = get("--only", "");
  const double shrink_time = std::stod(get("--shrink", "25"));
  std::uint64_t jobs =
      std::stoull(get("--jobs", std::to_string(
                                    p.jobs ? p.jobs
                                           : std::max(1u, std::thread::
                                                              hardware_concurrency()))));
  jobs = std::min<std::uint64_t>(std::max<std::uint64_t>(jobs, 1), 16);
  const auto t0 = Clock::now();
  char tmpl[] = "/tmp/efgpbt.XXXXXX";
  env.tmp = mkdtemp(tmpl);
  struct Cleaner {
    fs::path p;
    ~Cleaner() {
      std::error_code ec;
      fs::remove_all(p, ec);
    }
  } cleaner{env.tmp};

  if (opt.count("--replay")) {
    return do_replay(env, p, opt["--replay"], std::stoi(get("--times", "3")),
                     p.hang_seconds);
  }

  const auto plan = make_plan(p, env.tier, scale, only);
  const auto deadline =
      t0 + std::chrono::milliseconds(static_cast<long>(max_time * 1000));
  auto *slots = static_cast<Slot *>(mmap(nullptr, sizeof(Slot) * jobs,
                                         PROT_READ | PROT_WRITE,
                                         MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  std::vector<pid_t> pids(jobs, 0);
  std::vector<std::uint64_t> last_done(jobs, 0);
  std::vector<Clock::time_point> last_change(jobs, Clock::now());
  std::vector<unsigned> polls(jobs, 0);
  std::vector<std::string> notes;

  auto spawn = [&](std::uint64_t j, std::uint64_t start_at) {
    slots[j].case_index = 0;
    slots[j].failed = 0;
    const auto scr = env.tmp / ("w" + std::to_string(j));
    fs::create_directories(scr);
    last_change[j] = Clock::now();
    std::cout.flush();
    pid_t pid = fork();
    if (pid == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      g_scratch = scr.string();
      int efd = ::open((env.tmp / ("w" + std::to_string(j) + ".err")).c_str(),
                       O_CREAT | O_TRUNC | O_WRONLY, 0644);
      dup2(efd, 2);
      dup2(efd, 1);
      worker_main(env, p, plan, seed, j, jobs, start_at, slots[j],
                  env.tmp / ("w" + std::to_string(j) + ".stats"),
                  env.tmp / ("w" + std::to_string(j) + ".fail"), deadline);
    }
    pids[j] = pid;
  };
  for (std::uint64_t j = 0; j < jobs; ++j) {
    spawn(j, 0);
  }

  std::vector<Violation> violations;
  int unconfirmed = 0;
  std::pair<int, Violation> best_flaky{0, {}};
  std::size_t alive = jobs;
  while (alive > 0) {
    bool idle = true;
    for (std::uint64_t j = 0; j < jobs && violations.empty(); ++j) {
      if (pids[j] == 0) {
        continue;
      }
      int status = 0;
      auto r = waitpid(pids[j], &status, WNOHANG);
      bool hang = false;
      if (r == 0) {
        auto d = slots[j].done.load();
        if (d != last_done[j]) {
          last_done[j] = d;
          last_change[j] = Clock::now();
        } else if (slots[j].case_index.load() != 0 &&
                   (Clock::now() - last_change[j] >
                        std::chrono::seconds(p.hang_seconds) ||
                    (++polls[j] % 100 == 0 && too_big(pids[j])))) {
          hang = true;
          kill(pids[j], SIGKILL);
          waitpid(pids[j], &status, 0);
        } else {
          continue;
        }
        if (!hang) {
          continue;
        }
      }
      idle = false;
      pids[j] = 0;
      --alive;
      if (!hang && WIFEXITED(status) && WEXITSTATUS(status) == 0) {
        continue;
      }
      // something went wrong at the current case
      const auto idx = slots[j].case_index.load();
      if (idx == 0) {
        notes.push_back("a worker ended outside of a case, status " +
                        std::to_string(status));
        continue;
      }
      const auto &item = plan.items[idx - 1];
      const auto &sub = p.subs[item.sub];
      std::string first_msg =
          hang ? std::string("hang")
               : (slots[j].failed.load()
                      ? slurp(env.tmp / ("w" + std::to_string(j) + ".fail"))
                      : "crash " + summarize_stderr(
                                       slurp(env.tmp / ("w" + std::to_string(j) +
                                                        ".err"))));
      // confirm: regenerate the case alone
      std::vector<std::uint64_t> choices;
      {
        // the generator's stream; only the choices really made are kept
        std::mt19937_64 rng(case_seed(seed, p, sub, item.local));
        choices.resize(TRACE_MAX);
        for (auto &v : choices) {
          v = rng();
        }
      }
      int bad = 0, tries = 0; // on top of the failure just seen
      Outcome best;
      const int max_tries = hang ? 2 : 24;
      const auto confirm_start = Clock::now();
      while (bad < (hang ? 2 : 3) && tries < max_tries &&
             (tries < 3 || Clock::now() - confirm_start <
                               std::chrono::seconds(120))) {
        auto o = run_isolated(env, sub, choices, p.hang_seconds);
        ++tries;
        if (is_bad(o.kind)) {
          ++bad;
          best = o;
          choices = o.choices;
          if (o.kind == Kind::HANG && bad >= 2) {
            break;
          }
        }
      }
      if (bad >= 2) {
        auto shrunk =
            shrink(env, sub, best, p.hang_seconds, shrink_time);
        // keep the shrunk one only if it keeps failing
        int again = best.kind == Kind::HANG ? 3 : 0;
        for (int k = 0; k < 3 && best.kind != Kind::HANG; ++k) {
          again += is_bad(
              run_isolated(env, sub, shrunk.choices, p.hang_seconds).kind);
        }
        Violation v;
        v.sub = &sub;
        v.outcome = again == 3 ? shrunk : best;
        v.replay = write_replay(out, p, sub, v.outcome, seed, env.tier);
        violations.push_back(v);
      } else {
        const bool killed = WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL;
        if (!hang && !killed) {
          ++unconfirmed;
          if (bad >= best_flaky.first) {
            Violation v;
            v.sub = &sub;
            v.outcome = best;
            v.outcome.choices = choices;
            if (best.choices.empty()) {
              // dump the choices of a run
              v.outcome.choices =
                  run_isolated(env, sub, choices, p.hang_seconds).choices;
            }
            v.outcome.msg = "intermittent: " + first_msg;
            best_flaky = {bad, v};
          }
        }
        notes.push_back("not reproduced alone (" + std::to_string(bad) + "/" +
                        std::to_string(tries) + "): " + sub.name + ": " +
                        first_msg.substr(0, 400));
        if (unconfirmed >= 4) {
          // oracles are exact: this many failures are no coincidence
          auto v = best_flaky.second;
          v.replay = write_replay(out, p, *v.sub, v.outcome, seed, env.tier);
          violations.push_back(v);
        } else {
          spawn(j, idx); // continue after the case
          ++alive;
        }
      }
    }
    if (!violations.empty()) {
      for (std::uint64_t j = 0; j < jobs; ++j) {
        if (pids[j] != 0) {
          kill(pids[j], SIGKILL);
          waitpid(pids[j], nullptr, 0);
        }
      }
      break;
    }
    if (idle) {
      std::this_thread::sleep_for(std::chrono::milliseconds(5));
    }
  }

  Stats st;
  for (std::uint64_t j = 0; j < jobs; ++j) {
    load_stats(st, env.tmp / ("w" + std::to_string(j) + ".stats"));
  }
  const double wall = std::chrono::duration<double>(Clock::now() - t0).count();

  if (!evidence.empty()) {
    std::ostringstream o;
    o << "{\n  \"property\": \"" << p.id << "\",\n  \"tier\": \""
      << (env.tier ? "thorough" : "quick") << "\",\n  \"seed\": " << seed
      << ",\n  \"level\": \"exploration\",\n  \"coverage\": {\n"
      << "    \"evaluations\": " << st.evaluations
      << ",\n    \"distinct_nontrivial\": " << st.distinct.size()
      << ",\n    \"rule\": \"" << esc(p.rule) << "\",\n    \"samples\": ";
    std::vector<std::string> samples;
    for (auto &[k, v] : st.samples) {
      for (auto &x : v) {
        samples.push_back(k + ": " + x.substr(0, 1500));
      }
    }
    append_json_list(o, samples);
    o << ",\n    \"planned\": " << plan.items.size()
      << ",\n    \"nontrivial\": " << st.nontrivial
      << ",\n    \"discarded\": " << st.discarded << ",\n    \"per_sub_check\": {";
    bool first = true;
    for (auto &[k, v] : st.per_sub) {
      o << (first ? "" : ", ") << "\"" << esc(k) << "\": " << v;
      first = false;
    }
    o << "},\n    \"labels\": {";
    first = true;
    for (auto &[k, v] : st.labels) {
      o << (first ? "" : ", ") << "\"" << esc(k) << "\": " << v;
      first = false;
    }
    o << "},\n    \"notes\": ";
    append_json_list(o, notes);
    o << ",\n    \"violation_details\": [";
    for (std::size_t k = 0; k < violations.size(); ++k) {
      o << (k ? ", " : "") << "{\"replay\": \""
        << esc(violations[k].replay.string()) << "\", \"sub_check\": \""
        << esc(violations[k].sub->name) << "\", \"what\": \""
        << esc(violations[k].outcome.msg.substr(0, 1500)) << "\"}";
    }
    o << "]\n  },\n  \"assumptions\": ";
    append_json_list(o, p.assumptions);
    o << ",\n  \"wall_s\": " << wall
      << ",\n  \"violations\": " << violations.size() << "\n}\n";

    std::ofstream f(evidence);
    f << o.str();
  }
  std::cout << p.id << " " << (env.tier ? "thorough" : "quick")
            << " seed=" << seed << ": " << st.evaluations << "/"
            << plan.items.size() << " cases, " << st.nontrivial
            << " non-trivial (" << st.distinct.size() << " distinct), "
            << st.discarded << " discarded, " << wall << " s\n";
  if (getenv("EFG_PBT_VERBOSE")) {
    for (auto &[k, v] : st.labels) {
      std::cout << "  " << v << " " << k << "\n";
    }
  }
  for (auto &n : notes) {
    std::cout << "note: " << n << "\n";
  }
  for (auto &v : violations) {
    std::cout << v.sub->name << ": " << v.outcome.msg << "\n"
              << v.outcome.desc << "\n";
    std::cout << "VIOLATION property=" << p.id
              << " replay=" << v.replay.string() << "\n";
  }
  return violations.empty() ? 0 : 1;
}
