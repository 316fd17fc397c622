#include "pbt.hpp"

#include <dirent.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <iostream>
#include <map>
#include <set>

extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:exitcode=77:abort_on_error=0:handle_abort=1:handle_sigfpe=1:hard_rss_limit_mb=6000:max_malloc_fill_size=65536:"
         "malloc_fill_byte=190:alloc_dealloc_mismatch=1:detect_stack_use_after_return=0:print_legend=0:symbolize=1";
}
extern "C" const char* __ubsan_default_options() { return "halt_on_error=1:print_stacktrace=1:exitcode=77"; }

namespace pbt {

static uint64_t SplitMix(uint64_t& s) {
  uint64_t z = (s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static uint64_t HashStr(const std::string& s, uint64_t h = 1469598103934665603ull) {
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return h;
}
struct Shared {
  volatile long current;  // index of the running case in the batch
  volatile int hang;
  volatile uint64_t n_words;  // choices of the running case, so that a crash or hang can be shrunk too
  uint64_t words[1 << 18];
  char description[4096];
};
static Shared* g_shared = nullptr;
uint64_t Case::Next() { return SplitMix(state_); }
uint64_t Case::Raw(uint64_t bound) {
  uint64_t v;
  if (replaying_) {
    v = pos_ < input_.size() ? input_[pos_] : 0;
    pos_++;
    if (bound && v >= bound) v = v % bound;
  } else {
    v = bound ? Next() % bound : Next();
  }
  words.push_back(v);
  if (g_shared && g_shared->n_words < (1 << 18)) {
    g_shared->words[g_shared->n_words] = v;
    g_shared->n_words = g_shared->n_words + 1;
  }
  return v;
}
int64_t Case::Int(int64_t lo, int64_t hi) {
  const uint64_t n = (uint64_t)hi - (uint64_t)lo + 1;
  return (int64_t)((uint64_t)lo + Raw(n));
}
int64_t Case::EdgeInt(int64_t lo, int64_t hi) {
  switch (Raw(8)) {
    case 6: return lo + (hi > lo ? Int(0, std::min<int64_t>(2, hi - lo)) : 0);
    case 7: return hi - (hi > lo ? Int(0, std::min<int64_t>(2, hi - lo)) : 0);
    default: return Int(lo, hi);
  }
}
double Case::Unit() { return (double)Raw(1ull << 53) / 9007199254740992.0; }
double Case::EdgeReal(double lo, double hi) {
  switch (Raw(12)) {
    case 9: return lo;
    case 10: return hi;
    case 11: return (lo < 0 && hi > 0) ? 0.0 : 0.5 * (lo + hi);
    default: return Real(lo, hi);
  }
}
double Case::LogReal(double lo, double hi) { return std::exp(Real(std::log(lo), std::log(hi))); }
double Case::Signed(double lo, double hi) {
  const bool neg = Bool();
  const double v = LogReal(lo, hi);
  return neg ? -v : v;
}
double Case::Gauss() {
  const double u = (double)(Raw(1ull << 53) + 1) / 9007199254740993.0, v = Unit();
  return std::sqrt(-2 * std::log(u)) * std::cos(2 * M_PI * v);
}
std::array<double, 3> Case::Dir() {
  static const double ax[7][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {-1, 0, 0}, {0, -1, 0}, {0, 0, -1}, {0.6, 0.8, 0}};
  if (Raw(8) == 0) {
    const double* a = ax[Raw(7)];
    return {a[0], a[1], a[2]};
  }
  const double z = Real(-1, 1), ph = Real(0, 2 * M_PI), s = std::sqrt(std::max(0.0, 1 - z * z));
  std::array<double, 3> r{s * std::cos(ph), s * std::sin(ph), z};
  const double n = std::sqrt(r[0] * r[0] + r[1] * r[1] + r[2] * r[2]);
  for (auto& x : r) x /= n;
  return r;
}
std::array<double, 4> Case::Quat() {
  const uint64_t k = Raw(10);
  if (k == 0) return {0, 0, 0, 1};
  if (k == 1) {
    const auto d = Dir();
    const double a = Of<double>({M_PI, M_PI / 2, -M_PI / 2, 1e-9, M_PI - 1e-9, M_PI * 2 / 3, 1e-4});
    return {d[0] * std::sin(a / 2), d[1] * std::sin(a / 2), d[2] * std::sin(a / 2), std::cos(a / 2)};
  }
  const double u = Unit(), v = Real(0, 2 * M_PI), w = Real(0, 2 * M_PI);
  std::array<double, 4> q{std::sqrt(1 - u) * std::sin(v), std::sqrt(1 - u) * std::cos(v), std::sqrt(u) * std::sin(w), std::sqrt(u) * std::cos(w)};
  const double n = std::sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]);
  for (auto& x : q) x /= n;
  return q;
}
std::string Case::Word(const char* al, size_t lo, size_t hi) {
  const size_t n = (size_t)Int((int64_t)lo, (int64_t)hi), m = strlen(al);
  std::string s;
  for (size_t i = 0; i < n; i++) s += al[Raw(m)];
  return s;
}
void Case::Near(double got, double want, double at, double rt, const std::string& key, const std::string& what) {
  checks++;
  if (!(std::fabs(got - want) <= at + rt * std::fabs(want))) Fail(key, what, " got ", got, " want ", want, " tolerance ", at + rt * std::fabs(want));
}
static void RemoveTree(const std::string& d) {
  if (d.compare(0, 5, "/tmp/") != 0 && d.compare(0, 9, "/dev/shm/") != 0) return;
  DIR* p = opendir(d.c_str());
  if (!p) return;
  while (auto* e = readdir(p)) {
    if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
    const std::string f = d + "/" + e->d_name;
    struct stat st;
    if (lstat(f.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) RemoveTree(f);
    else unlink(f.c_str());
  }
  closedir(p);
  rmdir(d.c_str());
}
void Case::Publish() {
  if (!g_shared) return;
  strncpy(g_shared->description, description.c_str(), sizeof g_shared->description - 1);
}
static std::string g_scratch;
std::string Case::TempDir() {
  if (temp_.empty()) {
    char b[256];
    snprintf(b, sizeof b, "%s/case_XXXXXX", g_scratch.c_str());
    temp_ = mkdtemp(b);
  }
  return temp_;
}

// --- runner --------------------------------------------------------------------------------------------------------------------
static double Now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Outcome {
  bool failed = false, discarded = false, nontrivial = false;
  long checks = 0;
  std::string key, message, description;
  std::vector<uint64_t> words;
  std::vector<std::string> labels;
};
static void OnCpu(int) {
  g_shared->hang = 1;
  _exit(99);
}
static void Put(std::string& o, const std::string& s) {
  uint32_t n = (uint32_t)s.size();
  o.append((char*)&n, 4);
  o += s;
}
static std::string Encode(long index, const Outcome& r) {
  std::string o;
  o.append((char*)&index, sizeof index);
  char f = (char)((r.failed ? 1 : 0) | (r.discarded ? 2 : 0) | (r.nontrivial ? 4 : 0));
  o += f;
  o.append((const char*)&r.checks, sizeof(long));
  Put(o, r.key);
  Put(o, r.message);
  Put(o, r.description);
  std::string w((const char*)r.words.data(), r.words.size() * 8);
  Put(o, w);
  std::string l;
  for (auto& x : r.labels) l += x + "\n";
  Put(o, l);
  std::string framed;
  Put(framed, o);
  return framed;
}
static std::string Get(const std::string& b, size_t& p) {
  uint32_t n;
  memcpy(&n, b.data() + p, 4);
  p += 4;
  std::string s = b.substr(p, n);
  p += n;
  return s;
}
static bool Decode(std::string& buf, long& index, Outcome& r) {
  if (buf.size() < 4) return false;
  uint32_t n;
  memcpy(&n, buf.data(), 4);
  if (buf.size() < 4 + (size_t)n) return false;
  std::string b = buf.substr(4, n);
  buf.erase(0, 4 + (size_t)n);
  size_t p = 0;
  memcpy(&index, b.data(), sizeof index);
  p += sizeof index;
  const char f = b[p++];
  r.failed = f & 1;
  r.discarded = f & 2;
  r.nontrivial = f & 4;
  memcpy(&r.checks, b.data() + p, sizeof(long));
  p += sizeof(long);
  r.key = Get(b, p);
  r.message = Get(b, p);
  r.description = Get(b, p);
  std::string w = Get(b, p);
  r.words.resize(w.size() / 8);
  if (!w.empty()) memcpy(r.words.data(), w.data(), w.size());
  std::stringstream l(Get(b, p));
  for (std::string x; std::getline(l, x);) r.labels.push_back(x);
  return true;
}

struct Plan {  // one case to run
  long index = 0;
  bool use_words = false;
  uint64_t seed = 0;
  std::vector<uint64_t> words;
};

struct Runner {
  static Outcome RunHere(const Facet& f, const Plan& p) {
    Case c = p.use_words ? Case(p.words) : Case(p.seed);
    Outcome o;
    struct itimerval t {};
    t.it_value.tv_sec = (long)f.cpu_limit_s;
    t.it_value.tv_usec = (long)((f.cpu_limit_s - (long)f.cpu_limit_s) * 1e6);
    setitimer(ITIMER_PROF, &t, nullptr);
    try {
      f.fn(c);
    } catch (const Failure& e) {
      o.failed = true;
      o.key = e.key;
      o.message = e.message;
    } catch (const Discard&) {
      o.discarded = true;
    } catch (const std::exception& e) {
      o.failed = true;
      o.key = "exception";
      o.message = std::string("uncaught exception: ") + e.what();
    } catch (...) {
      o.failed = true;
      o.key = "exception";
      o.message = "uncaught exception of unknown type";
    }
    struct itimerval z {};
    setitimer(ITIMER_PROF, &z, nullptr);
    if (!c.temp_.empty()) RemoveTree(c.temp_);
    o.nontrivial = c.nontrivial;
    o.checks = c.checks;
    o.description = c.description;
    o.words = c.words;
    o.labels = c.labels;
    return o;
  }

  struct Worker {
    pid_t pid = -1;
    int fd = -1;
    std::vector<Plan> plans;
    std::string buf, errfile;
    Shared* shared = nullptr;
    size_t reported = 0;
    double started = 0;
    std::string scratch;
  };
  static Worker Spawn(const Facet& f, std::vector<Plan> plans) {
    Worker w;
    w.plans = std::move(plans);
    int fd[2];
    if (pipe(fd)) {
      perror("pipe");
      exit(2);
    }
    w.shared = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    w.shared->current = -1;
    w.shared->hang = 0;
    static long serial = 0;
    w.scratch = g_scratch + "/w" + std::to_string(++serial);
    mkdir(w.scratch.c_str(), 0700);
    w.errfile = g_scratch + "/err" + std::to_string(serial);
    w.started = Now();
    fflush(nullptr);
    w.pid = fork();
    if (w.pid < 0) {
      perror("fork");
      exit(2);
    }
    if (w.pid == 0) {
      close(fd[0]);
      setpgid(0, 0);
      g_shared = w.shared;
      g_scratch = w.scratch;
      int nul = open("/dev/null", O_RDWR), ef = open(w.errfile.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600);
      dup2(nul, 0);
      dup2(nul, 1);
      dup2(ef, 2);
      // keep the pipe on a high descriptor, away from the code under test
      int out = fcntl(fd[1], F_DUPFD, 200);
      close(fd[1]);
      signal(SIGPROF, OnCpu);
      signal(SIGPIPE, SIG_IGN);
      for (size_t i = 0; i < w.plans.size(); i++) {
        w.shared->current = (long)i;
        w.shared->n_words = 0;
        w.shared->description[0] = 0;
        if (ftruncate(ef, 0) == 0) lseek(ef, 0, SEEK_SET);
        Outcome o = RunHere(f, w.plans[i]);
        fflush(nullptr);
        std::string s = Encode((long)i, o);
        size_t k = 0;
        while (k < s.size()) {
          ssize_t n = write(out, s.data() + k, s.size() - k);
          if (n <= 0) _exit(98);
          k += (size_t)n;
        }
        if (o.failed) break;  // state may be poisoned: the parent reschedules the rest
      }
      _exit(0);
    }
    close(fd[1]);
    w.fd = fd[0];
    return w;
  }
  static std::string Tail(const std::string& file) {
    std::ifstream in(file);
    std::string line, summary, first;
    std::vector<std::string> lines;
    while (std::getline(in, line) && lines.size() < 4000) {
      if (first.empty() && (line.find("ERROR: AddressSanitizer") != std::string::npos || line.find("runtime error:") != std::string::npos)) first = line;
      lines.push_back(line);
    }
    std::string out = first;
    int frames = 0;
    for (auto& l : lines)
      if (l.find(" in ") != std::string::npos && l.find("#") != std::string::npos && l.find("src/") != std::string::npos && frames < 6) {
        out += "\n  " + l;
        frames++;
      }
    if (out.empty())
      for (size_t i = lines.size() > 5 ? lines.size() - 5 : 0; i < lines.size(); i++) out += lines[i] + "\n";
    return out;
  }
  // Called when the worker's pipe reached EOF: reaps it and, if a case was left unreported, makes an outcome for it.
  static bool Reap(Worker& w, Outcome& o) {
    int st = 0;
    waitpid(w.pid, &st, 0);
    close(w.fd);
    kill(-w.pid, SIGKILL);
    bool abnormal = false;
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
      abnormal = true;
      o = Outcome();
      o.failed = true;
      o.words.assign(w.shared->words, w.shared->words + w.shared->n_words);
      o.description = w.shared->description;
      if (w.shared->hang) {
        o.key = "hang";
        o.message = "the case used more CPU time than allowed";
      } else if (WIFEXITED(st) && WEXITSTATUS(st) != 77) {
        o.key = "exit";
        o.message = "the code under test ended the process with status " + std::to_string(WEXITSTATUS(st)) + "\n" + Tail(w.errfile);
      } else {
        o.key = "crash";
        o.message = (WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) + "\n" : std::string()) + Tail(w.errfile);
      }
    } else if (w.reported < w.plans.size() && w.shared->current >= (long)w.reported) {
      // exit(0) in the middle of a case
      abnormal = true;
      o = Outcome();
      o.failed = true;
      o.words.assign(w.shared->words, w.shared->words + w.shared->n_words);
      o.description = w.shared->description;
      o.key = "exit";
      o.message = "the code under test ended the process with status 0";
    }
    unlink(w.errfile.c_str());
    RemoveTree(w.scratch);
    munmap(w.shared, sizeof(Shared));
    return abnormal;
  }
  // Runs plans one after another in one fresh process; returns the outcome of the last one run (a failure stops it).
  static Outcome RunFresh(const Facet& f, std::vector<Plan> plans, double wall_limit = 180) {
    Worker w = Spawn(f, std::move(plans));
    Outcome last;
    while (true) {
      struct pollfd p {
        w.fd, POLLIN, 0
      };
      const int k = poll(&p, 1, 1000);
      if (k > 0) {
        char b[65536];
        const ssize_t n = read(w.fd, b, sizeof b);
        if (n <= 0) break;
        w.buf.append(b, (size_t)n);
        long i;
        Outcome o;
        while (Decode(w.buf, i, o)) {
          w.reported++;
          last = o;
          o = Outcome();
        }
      }
      if (Now() - w.started > wall_limit) {
        kill(-w.pid, SIGKILL);
        kill(w.pid, SIGKILL);
      }
    }
    Outcome o;
    if (Reap(w, o)) {
      last = o;
    }
    return last;
  }
};

static std::string Json(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += (char)c;
    } else if (c == '\n')
      o += "\\n";
    else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else
      o += (char)c;
  }
  return o + "\"";
}

static bool SameFailure(const Outcome& a, const Outcome& b) { return b.failed && a.key == b.key; }

static Outcome RunWords(const Facet& f, const std::vector<uint64_t>& w) {
  Plan p;
  p.use_words = true;
  p.words = w;
  return Runner::RunFresh(f, {p});
}

static std::vector<uint64_t> Shrink(const Facet& f, std::vector<uint64_t> best, const Outcome& target, Outcome& best_out, double budget_s, int max_runs) {
  const double t0 = Now();
  int runs = 0;
  auto attempt = [&](const std::vector<uint64_t>& cand) {
    if (Now() - t0 > budget_s || runs >= max_runs) return false;
    runs++;
    Outcome o = RunWords(f, cand);
    if (!SameFailure(target, o)) return false;
    best = cand;
    best_out = o;
    return true;
  };
  bool progress = true;
  while (progress && Now() - t0 < budget_s && runs < max_runs) {
    progress = false;
    // shorter tail
    for (size_t cut = best.size() / 2; cut >= 1; cut /= 2) {
      while (best.size() > cut) {
        auto c = best;
        c.resize(c.size() - cut);
        if (!attempt(c)) break;
        progress = true;
      }
      if (cut == 1) break;
    }
    // deleted blocks
    for (size_t len : {8u, 4u, 2u, 1u}) {
      for (size_t i = 0; i + len <= best.size();) {
        auto c = best;
        c.erase(c.begin() + (long)i, c.begin() + (long)(i + len));
        if (attempt(c))
          progress = true;
        else
          i += len;
        if (runs >= max_runs) break;
      }
    }
    // zero, halve, coarsen single words
    for (size_t i = 0; i < best.size(); i++) {
      if (best[i] == 0) continue;
      auto c = best;
      c[i] = 0;
      if (attempt(c)) {
        progress = true;
        continue;
      }
      for (int sh = 48; sh >= 8; sh -= 8) {
        if (i >= best.size()) break;
        const uint64_t v = (best[i] >> sh) << sh;
        if (v == best[i] || v == 0) continue;
        c = best;
        c[i] = v;
        if (attempt(c)) {
          progress = true;
          break;
        }
      }
      while (i < best.size() && best[i] > 0 && best[i] < (1u << 20)) {
        c = best;
        c[i] = best[i] - std::max<uint64_t>(1, best[i] / 2);
        bool ok = attempt(c);
        if (!ok && best[i] > 1) {
          c = best;
          c[i] = best[i] - 1;
          ok = attempt(c);
        }
        if (!ok) break;
        progress = true;
      }
    }
  }
  return best;
}

struct Known {
  std::string property, facet, key, text;
};
static std::vector<Known> LoadKnown(const std::string& property) {
  std::vector<Known> v;
  std::ifstream in(std::string(VERIF_DIR) + "/known_findings.txt");
  for (std::string line; std::getline(in, line);) {
    if (line.empty() || line[0] == '#' || line.compare(0, 6, "fixed:") == 0) continue;
    std::istringstream s(line);
    Known k;
    std::string t;
    while (s >> t) {
      if (t.compare(0, 9, "property=") == 0 && k.property.empty()) k.property = t.substr(9);
      else if (t.compare(0, 6, "facet=") == 0 && k.facet.empty()) k.facet = t.substr(6);
      else if (t.compare(0, 4, "key=") == 0 && k.key.empty()) k.key = t.substr(4);
      else {
        std::string rest;
        std::getline(s, rest);
        k.text = t + rest;
        break;
      }
    }
    if (k.property == property) v.push_back(k);
  }
  return v;
}

int Main(int argc, char** argv, const std::string& property, const std::string& rule, const std::vector<Facet>& given,
         const std::vector<std::string>& assumptions) {
  const double t0 = Now();
  std::vector<Facet> facets = given;
  for (auto& f : facets) std::replace(f.name.begin(), f.name.end(), ' ', '-');
  const char* es = getenv("VERIF_SEED");
  const char* et = getenv("VERIF_TIER");
  uint64_t seed = es ? strtoull(es, nullptr, 10) : 1;
  bool thorough = et && std::string(et) == "thorough";
  std::string only, replay;
  int jobs = 8;
  double scale = 1;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--seed" && i + 1 < argc) seed = strtoull(argv[++i], nullptr, 10);
    else if (a == "--thorough") thorough = true;
    else if (a == "--quick") thorough = false;
    else if (a == "--facet" && i + 1 < argc) only = argv[++i];
    else if (a == "--replay" && i + 1 < argc) replay = argv[++i];
    else if (a == "--jobs" && i + 1 < argc) jobs = atoi(argv[++i]);
    else if (a == "--scale" && i + 1 < argc) scale = atof(argv[++i]);
    else { std::cerr << "unknown argument " << a << "\n"; return 2; }
  }
  setvbuf(stdout, nullptr, _IOLBF, 0);
  {
    struct stat sb;
    const char* base = stat("/dev/shm", &sb) == 0 && access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
    char b[256];
    snprintf(b, sizeof b, "%s/s2epbt_XXXXXX", base);
    if (!mkdtemp(b)) {
      snprintf(b, sizeof b, "/tmp/s2epbt_XXXXXX");
      if (!mkdtemp(b)) return 2;
    }
    g_scratch = b;
  }
  const std::string scratch = g_scratch;
  if (!replay.empty()) {
    std::ifstream in(replay);
    std::string line, facet;
    std::vector<Plan> plans;
    while (std::getline(in, line)) {
      std::istringstream s(line);
      std::string k;
      s >> k;
      if (k == "facet") s >> facet;
      if (k == "words") {
        Plan p;
        p.use_words = true;
        for (uint64_t x; s >> x;) p.words.push_back(x);
        plans.push_back(p);
      }
      if (k == "seed") {
        Plan p;
        s >> p.seed;
        plans.push_back(p);
      }
    }
    for (auto& f : facets)
      if (f.name == facet) {
        Outcome o = Runner::RunFresh(f, plans);
        std::cout << (o.failed ? "FAILS" : "passes") << " facet=" << facet << " key=" << o.key << "\n" << o.message << "\ncase: " << o.description << "\n";
        RemoveTree(scratch);
        if (o.failed) std::cout << "VIOLATION property=" << property << " replay=" << replay << "\n";
        return o.failed ? 1 : 0;
      }
    std::cerr << "replay file names no facet of this property\n";
    RemoveTree(scratch);
    return 2;
  }

  const auto known = LoadKnown(property);
  if (DIR* d = opendir((std::string(VERIF_DIR) + "/replays").c_str())) {  // stale replay files of earlier runs
    while (auto* e = readdir(d))
      if (std::string(e->d_name).compare(0, property.size() + 1, property + "-") == 0) unlink((std::string(VERIF_DIR) + "/replays/" + e->d_name).c_str());
    closedir(d);
  }
  const double guard = thorough ? 780 : 420;
  long evaluations = 0, discarded = 0, checks = 0;
  std::set<uint64_t> distinct;
  std::map<std::string, std::map<std::string, long>> labels;
  std::map<std::string, std::array<long, 4>> facet_counts;
  std::vector<std::string> samples, notes;
  std::vector<std::string> violations, known_hits;

  for (auto& f : facets) {
    if (!only.empty() && f.name != only) continue;
    long total = (long)((thorough ? std::max(f.thorough, 4 * f.quick) : 4 * f.quick) * scale);
    if (total < 1) total = 1;
    const uint64_t base = HashStr(property + "/" + f.name, seed * 0x9E3779B97F4A7C15ull + 0x1234567);
    auto plan = [&](long i) {
      Plan p;
      p.index = i;
      uint64_t s = base + (uint64_t)i * 0xD1342543DE82EF95ull;
      p.seed = SplitMix(s);
      return p;
    };
    const double facet_t0 = Now();
    const int batch = std::max(1, f.batch);
    long next = 0;
    std::vector<std::vector<Plan>> requeue;
    std::vector<Runner::Worker> ws;
    bool have_failure = false, timed_out = false;
    struct Failed {
      Plan plan;
      std::vector<Plan> history;
      Outcome out;
    };
    std::vector<Failed> fails;
    std::set<std::string> seen_keys;
    int facet_samples = 0;
    auto account = [&](const Outcome& o) {
      evaluations++;
      auto& fc = facet_counts[f.name];
      fc[0]++;
      checks += o.checks;
      if (o.discarded) {
        discarded++;
        fc[2]++;
        return;
      }
      uint64_t h = HashStr(f.name);
      for (auto w : o.words) h = (h ^ w) * 1099511628211ull, h ^= h >> 29;
      if (o.nontrivial) {
        if (distinct.insert(h).second) fc[1]++;
      }
      for (auto& l : o.labels) labels[f.name][l]++;
      if (o.nontrivial && facet_samples < 2 && !o.description.empty()) {
        facet_samples++;
        samples.push_back(f.name + ": " + o.description.substr(0, 600));
      }
    };
    while (true) {
      while ((int)ws.size() < jobs && fails.size() < 3 && !timed_out) {
        std::vector<Plan> b;
        if (!requeue.empty()) {
          b = requeue.back();
          requeue.pop_back();
        } else {
          for (int k = 0; k < batch && next < total; k++) b.push_back(plan(next++));
        }
        if (b.empty()) break;
        ws.push_back(Runner::Spawn(f, b));
      }
      if (ws.empty()) break;
      std::vector<struct pollfd> ps;
      for (auto& w : ws) ps.push_back({w.fd, POLLIN, 0});
      poll(ps.data(), ps.size(), 500);
      for (size_t k = 0; k < ws.size();) {
        auto& w = ws[k];
        bool eof = false;
        if (ps[k].revents) {
          char b[65536];
          const ssize_t n = read(w.fd, b, sizeof b);
          if (n <= 0) eof = true;
          else w.buf.append(b, (size_t)n);
          long i;
          Outcome o;
          while (Decode(w.buf, i, o)) {
            w.reported = (size_t)i + 1;
            account(o);
            if (o.failed) {
              fails.push_back({w.plans[(size_t)i], std::vector<Plan>(w.plans.begin(), w.plans.begin() + i + 1), o});
            }
            o = Outcome();
          }
        } else if (Now() - w.started > 400) {
          kill(w.pid, SIGKILL);
        }
        if (eof) {
          Outcome o;
          const size_t at = w.reported;
          bool failed_reported = !fails.empty() && at > 0 && fails.back().plan.seed == w.plans[at - 1].seed;
          if (Runner::Reap(w, o) && at < w.plans.size()) {
            account(o);
            fails.push_back({w.plans[at], std::vector<Plan>(w.plans.begin(), w.plans.begin() + (long)at + 1), o});
            if (at + 1 < w.plans.size()) requeue.push_back(std::vector<Plan>(w.plans.begin() + (long)at + 1, w.plans.end()));
          } else if (failed_reported && at < w.plans.size()) {
            requeue.push_back(std::vector<Plan>(w.plans.begin() + (long)at, w.plans.end()));
          }
          ws.erase(ws.begin() + (long)k);
          ps.erase(ps.begin() + (long)k);
        } else
          k++;
      }
      if (Now() - t0 > guard && !timed_out) {
        timed_out = true;
        notes.push_back("facet " + f.name + " stopped by the time guard after " + std::to_string(next) + " of " + std::to_string(total) + " cases");
      }
      // known findings do not stop the search: drop the listed ones right away
      for (size_t k = 0; k < fails.size();) {
        bool listed = false;
        for (auto& kn : known)
          if (kn.facet == f.name && kn.key == fails[k].out.key) {
            listed = true;
            std::string line = "KNOWN-FINDING: property=" + property + " facet=" + f.name + " key=" + kn.key + " " + kn.text;
            if (std::find(known_hits.begin(), known_hits.end(), line) == known_hits.end()) known_hits.push_back(line);
          }
        if (listed) fails.erase(fails.begin() + (long)k);
        else k++;
      }
    }
    (void)have_failure;
    if (getenv("VERIF_FAST") && !fails.empty()) {  // only whether there is a failure (tools/mutate.py)
      std::cout << "FAILED property=" << property << " facet=" << f.name << " key=" << fails[0].out.key << " " << fails[0].out.message.substr(0, 200) << std::endl;
      RemoveTree(scratch);
      return 1;
    }
    for (auto& fl : fails) {
      if (seen_keys.count(fl.out.key)) continue;
      // confirm alone, three times, else with its batch history
      std::vector<Plan> history;
      Outcome confirm;
      Plan alone = fl.plan;
      int good = 0;
      for (int r = 0; r < 3; r++) {
        confirm = Runner::RunFresh(f, {alone});
        if (SameFailure(fl.out, confirm)) good++;
      }
      bool use_history = false;
      if (good < 3) {
        good = 0;
        for (int r = 0; r < 3; r++) {
          confirm = Runner::RunFresh(f, fl.history);
          if (SameFailure(fl.out, confirm)) good++;
        }
        use_history = true;
      }
      if (good < 3) {
        notes.push_back("facet " + f.name + ": failure '" + fl.out.key + "' of case " + std::to_string(fl.plan.index) + " did not replay three times: " + fl.out.message.substr(0, 200));
        std::cout << "note: unreproducible failure in facet " << f.name << " key=" << fl.out.key << ": " << fl.out.message << "\n";
        continue;
      }
      seen_keys.insert(fl.out.key);
      const std::string dir = std::string(VERIF_DIR) + "/replays";
      mkdir(dir.c_str(), 0755);
      const std::string path = dir + "/" + property + "-" + f.name + "-" + std::to_string(violations.size()) + ".txt";
      std::ofstream out(path);
      out << "property " << property << "\nfacet " << f.name << "\n";
      Outcome best = fl.out;
      if (!use_history) {
        std::vector<uint64_t> w = fl.out.words;
        if (w.empty()) {  // crash: words unknown, regenerate by replaying the seed through a recording run
          out << "seed " << fl.plan.seed << "\n";
        } else {
          Outcome chk = RunWords(f, w);
          if (SameFailure(fl.out, chk)) {
            best = chk;
            w = Shrink(f, w, fl.out, best, thorough ? 60 : 25, 400);
            out << "words";
            for (auto x : w) out << " " << x;
            out << "\n";
          } else
            out << "seed " << fl.plan.seed << "\n";
        }
      } else {
        for (auto& p : fl.history) out << "seed " << p.seed << "\n";
      }
      out << "key " << best.key << "\nmessage " << best.message << "\ncase " << best.description << "\n";
      std::cout << "facet " << f.name << " key=" << best.key << "\n  " << best.message << "\n  case: " << best.description.substr(0, 2000) << "\n";
      std::cout << "VIOLATION property=" << property << " replay=" << path << std::endl;
      violations.push_back(path);
    }
    if (getenv("VERIF_VERBOSE"))
      std::cout << "facet " << f.name << ": " << facet_counts[f.name][0] << " cases, " << facet_counts[f.name][1] << " non-trivial, " << facet_counts[f.name][2]
                << " discarded, " << (Now() - facet_t0) << " s\n";
    if (!violations.empty() && Now() - t0 > guard / 2) break;
  }
  for (auto& k : known_hits) std::cout << k << std::endl;
  // evidence
  {
    std::ofstream o(std::string(VERIF_DIR) + "/evidence/" + property + ".json");
    o << "{\n \"property\": " << Json(property) << ",\n \"tier\": \"" << (thorough ? "thorough" : "quick") << "\",\n \"seed\": " << seed
      << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << evaluations << ",\n  \"distinct_nontrivial\": " << distinct.size()
      << ",\n  \"discarded\": " << discarded << ",\n  \"oracle_comparisons\": " << checks << ",\n  \"rule\": " << Json(rule) << ",\n  \"samples\": [";
    for (size_t i = 0; i < samples.size(); i++) o << (i ? ",\n   " : "\n   ") << Json(samples[i]);
    o << "],\n  \"facets\": {";
    bool first = true;
    for (auto& f : facet_counts) {
      o << (first ? "\n   " : ",\n   ") << Json(f.first) << ": {\"cases\": " << f.second[0] << ", \"distinct_nontrivial\": " << f.second[1]
        << ", \"discarded\": " << f.second[2] << ", \"labels\": {";
      bool fl = true;
      for (auto& l : labels[f.first]) {
        o << (fl ? "" : ", ") << Json(l.first) << ": " << l.second;
        fl = false;
      }
      o << "}}";
      first = false;
    }
    o << "},\n  \"notes\": [";
    for (size_t i = 0; i < notes.size(); i++) o << (i ? ", " : "") << Json(notes[i]);
    o << "]\n },\n \"assumptions\": [";
    for (size_t i = 0; i < assumptions.size(); i++) o << (i ? ", " : "") << Json(assumptions[i]);
    o << "],\n \"wall_s\": " << (Now() - t0) << ",\n \"violations\": " << violations.size() << "\n}\n";
  }
  std::cout << "property " << property << ": " << evaluations << " cases, " << distinct.size() << " distinct non-trivial, " << checks
            << " oracle comparisons, " << violations.size() << " violation(s), " << (Now() - t0) << " s" << std::endl;
  RemoveTree(scratch);
  return violations.empty() ? 0 : 1;
}

}  // namespace pbt
