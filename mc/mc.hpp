// Bounded-exhaustive exploration runtime.
//
// A harness registers sections; a section is a finite, fully enumerated list of
// cases (an initial state plus the histories hanging off it). Cases are spread
// over forked workers, so that an abort/segfault/hang inside the code under
// test is contained, attributed to the exact case and reported, and the
// exploration carries on with the next case. The reached-state set and all the
// counters live in shared memory.
#pragma once
#include <atomic>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <string>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc {

inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdULL;
  h ^= h >> 33;
  return h;
}
inline uint64_t hstr(const std::string &s, uint64_t h = 1469598103934665603ULL) {
  for (unsigned char c : s) {
    h ^= c;
    h *= 1099511628211ULL;
  }
  return mix(h, s.size());
}
inline uint64_t hdbl(double v, double quantum = 1e-6) {
  if (std::isnan(v)) return 0x7ff8ULL;
  if (std::fabs(v) > 1e12) return (uint64_t)(std::log(std::fabs(v)) * 1e6) + (v < 0);
  return (uint64_t)(int64_t)std::llround(v / quantum);
}

constexpr size_t kNote = 4096, kSlots = 64, kMaxViol = 256, kMaxSample = 12;
constexpr size_t kSetSize = size_t(1) << 25; // 32M entries * 8 byte, lazily mapped

struct Viol {
  char section[64];
  uint64_t index;
  char key[160];
  char msg[2048];
  char note[kNote];
};
struct Slot {
  std::atomic<int> pid;
  std::atomic<int64_t> section, index;
  std::atomic<double> t0;
  char note[kNote];
};
struct Shared {
  std::atomic<uint64_t> states, transitions, traces, evals, distinct_outcomes;
  std::atomic<uint64_t> nviol, nsample, setfull;
  std::atomic<uint64_t> next, secviol;
  std::atomic<int> stop;
  char sample[kMaxSample][2048];
  Viol viol[kMaxViol];
  Slot slot[kSlots];
};
inline Shared *S = nullptr;
inline std::atomic<uint64_t> *SET = nullptr;
inline bool THOROUGH = false;
inline bool REPLAY = false;
inline int SLOT = 0;

inline double now() {
  using namespace std::chrono;
  return duration<double>(steady_clock::now().time_since_epoch()).count();
}

// true when the hash was not there yet
inline bool set_insert(uint64_t h) {
  if (h == 0) h = 0x1234567;
  size_t i = (h * 0x9e3779b97f4a7c15ULL) & (kSetSize - 1);
  for (size_t k = 0; k < 4096; k++) {
    uint64_t cur = SET[i].load(std::memory_order_relaxed);
    if (cur == h) return false;
    if (cur == 0) {
      uint64_t exp = 0;
      if (SET[i].compare_exchange_strong(exp, h)) return true;
      if (exp == h) return false;
    }
    i = (i + 1) & (kSetSize - 1);
  }
  S->setfull = 1;
  return false;
}

struct Ctx {
  std::string section;
  uint64_t index = 0;
  bool failed = false;
  void note(const char *fmt, ...) __attribute__((format(printf, 2, 3))) {
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(S->slot[SLOT].note, kNote, fmt, ap);
    va_end(ap);
  }
  void note_s(const std::string &s) {
    size_t n = std::min(s.size(), kNote - 1);
    memcpy(S->slot[SLOT].note, s.data(), n);
    S->slot[SLOT].note[n] = 0;
  }
  std::string get_note() const { return S->slot[SLOT].note; }
  bool state(uint64_t h) {
    bool fresh = set_insert(h);
    if (fresh) S->states++;
    return fresh;
  }
  void trans(uint64_t n = 1) { S->transitions += n; }
  void trace(uint64_t n = 1) { S->traces += n; }
  void eval(uint64_t n = 1) { S->evals += n; }
  void sample(const std::string &s) {
    if (S->nsample.load() >= kMaxSample) return;
    uint64_t k = S->nsample++;
    if (k < kMaxSample) snprintf(S->sample[k], sizeof S->sample[k], "%s", s.c_str());
  }
  void fail(const std::string &key, const std::string &msg) {
    if (failed && !REPLAY) return; // one report per case
    failed = true;
    S->secviol++;
    uint64_t k = S->nviol++;
    if (k < kMaxViol) {
      Viol &v = S->viol[k];
      snprintf(v.section, sizeof v.section, "%s", section.c_str());
      v.index = index;
      snprintf(v.key, sizeof v.key, "%s", key.c_str());
      snprintf(v.msg, sizeof v.msg, "%s", msg.c_str());
      memcpy(v.note, S->slot[SLOT].note, kNote);
    }
    if (REPLAY)
      fprintf(stderr, "REPLAY-FAIL key=%s msg=%s\n  case: %s\n", key.c_str(), msg.c_str(),
              S->slot[SLOT].note);
  }
  // relative/absolute closeness; scale widens the absolute part
  bool close(long double got, long double want, long double tol, const std::string &key,
             const std::string &what, long double scale = 1.0L) {
    eval();
    bool ok = std::isfinite((double)got) && std::isfinite((double)want) &&
              fabsl(got - want) <= tol * (scale + fabsl(want));
    if (!ok) {
      char b[512];
      snprintf(b, sizeof b, "%s: got %.17Lg expected %.17Lg (tol %.2Lg)", what.c_str(), got, want,
               tol * (scale + fabsl(want)));
      fail(key, b);
    }
    return ok;
  }
  bool check(bool cond, const std::string &key, const std::string &what) {
    eval();
    if (!cond) fail(key, what);
    return cond;
  }
};

inline std::string fmt(const char *f, ...) {
  char b[4096];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}

struct Section {
  std::string name;
  uint64_t n;
  std::function<void(Ctx &, uint64_t)> run;
  double case_timeout = 120;
  uint64_t chunk = 0;
};
struct Registry {
  std::vector<Section> secs;
  void add(const std::string &name, uint64_t n, std::function<void(Ctx &, uint64_t)> f,
           double timeout = 120, uint64_t chunk = 0) {
    secs.push_back({name, n, std::move(f), timeout, chunk});
  }
};

inline std::string jstr(const char *s) {
  std::string o = "\"";
  for (; *s; s++) {
    unsigned char c = *s;
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c == '\n')
      o += "\\n";
    else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else
      o += c;
  }
  return o + "\"";
}

inline void run_one(Section &s, size_t si, uint64_t i) {
  Slot &sl = S->slot[SLOT];
  sl.note[0] = 0;
  sl.t0 = now();
  sl.section = (int64_t)si;
  sl.index = (int64_t)i;
  Ctx c;
  c.section = s.name;
  c.index = i;
  try {
    s.run(c, i);
  } catch (const std::exception &e) {
    c.fail("exception", std::string("unexpected exception: ") + e.what());
  } catch (...) {
    c.fail("exception", "unexpected exception of unknown type");
  }
  sl.index = -1;
}

inline int run(int argc, char **argv, const std::function<void(Registry &)> &setup) {
  std::string out = "/dev/stdout", rsec;
  uint64_t ridx = 0;
  int jobs = 8;
  double tscale = 1;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--thorough") THOROUGH = true;
    else if (a == "--out") out = argv[++i];
    else if (a == "--jobs") jobs = atoi(argv[++i]);
    else if (a == "--tscale") tscale = atof(argv[++i]);
    else if (a == "--replay") {
      REPLAY = true;
      rsec = argv[++i];
      ridx = strtoull(argv[++i], nullptr, 10);
    }
  }
  S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  SET = (std::atomic<uint64_t> *)mmap(nullptr, kSetSize * 8, PROT_READ | PROT_WRITE,
                                      MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  Registry R;
  setup(R);
  if (REPLAY) {
    for (size_t si = 0; si < R.secs.size(); si++)
      if (R.secs[si].name == rsec) {
        if (freopen("/dev/null", "w", stdout)) {}
        pid_t p = fork();
        if (p == 0) {
          alarm((unsigned)(R.secs[si].case_timeout * tscale * 3));
          run_one(R.secs[si], si, ridx);
          _exit(S->nviol.load() ? 1 : 0);
        }
        int st = 0;
        waitpid(p, &st, 0);
        if (WIFSIGNALED(st)) {
          fprintf(stderr, "REPLAY-CRASH signal %d\n  case: %s\n", WTERMSIG(st), S->slot[0].note);
          return 1;
        }
        if (WEXITSTATUS(st) > 1)
          fprintf(stderr, "REPLAY-ABORT exit %d\n  case: %s\n", WEXITSTATUS(st), S->slot[0].note);
        return WEXITSTATUS(st) ? 1 : 0;
      }
    fprintf(stderr, "no such section\n");
    return 3;
  }
  double t0 = now();
  std::string secjson;
  for (size_t si = 0; si < R.secs.size(); si++) {
    Section &sec = R.secs[si];
    S->next = 0;
    S->secviol = 0;
    uint64_t st0 = S->states, tr0 = S->transitions, ev0 = S->evals;
    double ts = now();
    uint64_t crashes = 0;
    bool capped = false;
    int J = (int)std::min<uint64_t>(jobs, std::max<uint64_t>(1, sec.n));
    uint64_t chunk = sec.chunk ? sec.chunk : std::max<uint64_t>(1, std::min<uint64_t>(64, sec.n / (J * 8) ));
    struct W { pid_t pid; uint64_t lo, hi; };
    // per-worker remaining range in shared memory
    static std::atomic<uint64_t> *rng = nullptr;
    if (!rng)
      rng = (std::atomic<uint64_t> *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (int j = 0; j < J; j++) rng[2 * j] = rng[2 * j + 1] = 0;
    auto spawn = [&](int j) -> pid_t {
      fflush(nullptr);
      pid_t p = fork();
      if (p) return p;
      SLOT = j;
      int dn = open("/dev/null", O_WRONLY);
      dup2(dn, 1);
      if (!getenv("MC_STDERR")) dup2(dn, 2);
      for (;;) {
        while (rng[2 * j] < rng[2 * j + 1]) {
          uint64_t i = rng[2 * j]++;
          if (S->secviol.load() >= 24) _exit(0);
          run_one(sec, si, i);
        }
        uint64_t a = S->next.fetch_add(chunk);
        if (a >= sec.n) _exit(0);
        rng[2 * j + 1] = std::min(sec.n, a + chunk);
        rng[2 * j] = a;
      }
    };
    std::vector<pid_t> pids(J);
    int alive = J;
    for (int j = 0; j < J; j++) {
      S->slot[j].index = -1;
      pids[j] = spawn(j);
    }
    while (alive > 0) {
      int st = 0;
      pid_t p = waitpid(-1, &st, WNOHANG);
      if (p <= 0) {
        usleep(2000);
        double tn = now();
        for (int j = 0; j < J; j++)
          if (pids[j] > 0 && S->slot[j].index >= 0 && tn - S->slot[j].t0 > sec.case_timeout * tscale)
            kill(pids[j], SIGKILL);
        continue;
      }
      int j = -1;
      for (int k = 0; k < J; k++)
        if (pids[k] == p) j = k;
      if (j < 0) continue;
      bool bad = WIFSIGNALED(st) || WEXITSTATUS(st) != 0;
      if (bad) {
        crashes++;
        int64_t idx = S->slot[j].index;
        uint64_t k = S->nviol++;
        S->secviol++;
        bool hang = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL;
        if (k < kMaxViol) {
          Viol &v = S->viol[k];
          snprintf(v.section, sizeof v.section, "%s", sec.name.c_str());
          v.index = idx < 0 ? 0 : (uint64_t)idx;
          snprintf(v.key, sizeof v.key, hang ? "hang" : "crash");
          snprintf(v.msg, sizeof v.msg,
                   hang ? "no answer within the case time limit" : "process died (signal %d / exit %d)",
                   WIFSIGNALED(st) ? WTERMSIG(st) : 0, WIFSIGNALED(st) ? 0 : WEXITSTATUS(st));
          memcpy(v.note, S->slot[j].note, kNote);
        }
        if (S->secviol < 24) {
          S->slot[j].index = -1;
          pids[j] = spawn(j);
          continue;
        }
      }
      pids[j] = -1;
      alive--;
    }
    capped = S->secviol >= 24;
    secjson += fmt("%s{\"section\":%s,\"cases\":%llu,\"states\":%llu,\"transitions\":%llu,\"comparisons\":%llu,"
                   "\"violations\":%llu,\"stopped_early\":%s,\"seconds\":%.2f}",
                   si ? "," : "", jstr(sec.name.c_str()).c_str(), (unsigned long long)sec.n,
                   (unsigned long long)(S->states - st0), (unsigned long long)(S->transitions - tr0),
                   (unsigned long long)(S->evals - ev0), (unsigned long long)S->secviol.load(),
                   capped ? "true" : "false", now() - ts);
  }
  FILE *f = fopen(out.c_str(), "w");
  if (!f) return 3;
  fprintf(f, "{\"states\":%llu,\"transitions\":%llu,\"traces\":%llu,\"comparisons\":%llu,\"setfull\":%llu,\"seconds\":%.2f,\n",
          (unsigned long long)S->states.load(), (unsigned long long)S->transitions.load(),
          (unsigned long long)S->traces.load(), (unsigned long long)S->evals.load(),
          (unsigned long long)S->setfull.load(), now() - t0);
  fprintf(f, "\"sections\":[%s],\n\"samples\":[", secjson.c_str());
  for (uint64_t k = 0; k < std::min<uint64_t>(S->nsample, kMaxSample); k++)
    fprintf(f, "%s%s", k ? "," : "", jstr(S->sample[k]).c_str());
  fprintf(f, "],\n\"violations\":[");
  for (uint64_t k = 0; k < std::min<uint64_t>(S->nviol, kMaxViol); k++) {
    Viol &v = S->viol[k];
    fprintf(f, "%s{\"section\":%s,\"index\":%llu,\"key\":%s,\"msg\":%s,\"note\":%s}", k ? ",\n" : "",
            jstr(v.section).c_str(), (unsigned long long)v.index, jstr(v.key).c_str(), jstr(v.msg).c_str(),
            jstr(v.note).c_str());
  }
  fprintf(f, "]}\n");
  fclose(f);
  return 0;
}

} // namespace mc
