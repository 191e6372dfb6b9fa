// Controlled scheduler and access recorder behind -fsanitize=thread instrumentation.
//
// The library and the programs (c20.cpp) are compiled with -fsanitize=thread, but linked against this
// file instead of libtsan: every memory access of library code calls a hook below. Two real threads run
// under a baton (only one runs at a time). In recording mode the hooks collect the footprint of each
// thread; two threads whose footprints do not conflict have exactly one Mazurkiewicz trace, so the two
// serial orders cover every interleaving. When they do conflict, each access to a conflicting location is
// a scheduling point, and all schedules with up to `bound` preemptions at those points are executed, each
// in a fresh process from the same initial state.
#include "mc.hpp"
#include "c20.hpp"
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <algorithm>
#include <cxxabi.h>

extern "C" void *__libc_malloc(size_t);
extern "C" void *__libc_calloc(size_t, size_t);
extern "C" void *__libc_realloc(void *, size_t);
extern "C" void *__libc_memalign(size_t, size_t);
extern "C" void __libc_free(void *);

namespace {
enum Mode { OFF, RECORD, SCHED };
constexpr size_t kArena = size_t(64) << 20, kStack = size_t(4) << 20;
constexpr size_t kTab = size_t(1) << 18;
char *g_arena[3];               // 0: objects prepared beforehand, 1/2: the two threads
size_t g_top[3];
char *g_stack[3];
volatile int g_mode = OFF;
__thread int t_id = 0;          // 0: not under control, 1/2: threads
__thread int t_arena = -1;
__thread int t_guard = 0;       // >0: inside the initialisation of a function-local static

struct Ent {
  uintptr_t key;
  uint32_t flags;
};
Ent g_tab[kTab];
size_t g_ntab;
bool g_tabfull;
// flags per thread (shift 8*(id-1)): bit0 read, bit1 write, bit2 read outside init, bit3 write outside init, bit4 non-atomic

Ent *tab_get(uintptr_t k, bool ins) {
  size_t i = (k * 0x9e3779b97f4a7c15ULL >> 20) & (kTab - 1);
  for (;;) {
    if (g_tab[i].key == k) return &g_tab[i];
    if (!g_tab[i].key) {
      if (!ins) return nullptr;
      if (g_ntab * 4 > kTab * 3) {
        g_tabfull = true;
        return nullptr;
      }
      g_ntab++;
      g_tab[i].key = k;
      return &g_tab[i];
    }
    i = (i + 1) & (kTab - 1);
  }
}

// ---- shared with the parent
constexpr size_t kMaxConf = 1 << 16;
struct Share {
  Result res[3];
  volatile int done[3];
  uint64_t npoints[3];
  uint64_t accesses[3];
  uint64_t nconf, nconf_data;
  uint32_t tabfull, preempt_hit, deadlock;
  uintptr_t conf[kMaxConf];
  char where[3][256];
} *H;

// ---- schedule
struct Sched {
  int first;        // thread that starts
  int np;
  uint64_t at[4];   // at[i]: the running thread is preempted before its at[i]-th point (counted per thread)
} g_s;
int g_next;         // next preemption
bool g_fin[3];
sem_t g_sem[3];
uint64_t g_pts[3];

void hand_over(int to) {
  sem_post(&g_sem[to]);
  while (sem_wait(&g_sem[t_id]) != 0) {}
}
void yield_blocked() { // the other thread holds a lock we need
  int o = 3 - t_id;
  if (g_fin[o]) {
    H->deadlock = 1;
    _exit(77);
  }
  hand_over(o);
}

inline void touch(const void *p, size_t n, bool wr, bool atomic) {
  int id = t_id;
  if (!id || g_mode == OFF) return;
  char *a = (char *)p;
  if (a >= g_stack[id] && a < g_stack[id] + kStack) return;
  uintptr_t k0 = (uintptr_t)a >> 3, k1 = ((uintptr_t)a + (n ? n - 1 : 0)) >> 3;
  if (g_mode == RECORD) {
    H->accesses[id]++;
    uint32_t f = (wr ? 2u : 1u) | (t_guard ? 0 : (wr ? 8u : 4u)) | (atomic ? 0 : 16u);
    for (uintptr_t k = k0; k <= k1; k++)
      if (Ent *e = tab_get(k, true)) e->flags |= f << (8 * (id - 1));
    return;
  }
  bool hit = false;
  for (uintptr_t k = k0; k <= k1 && !hit; k++) hit = tab_get(k, false) != nullptr;
  if (!hit || t_guard) return;
  uint64_t n_ = ++g_pts[id];
  if (g_next < g_s.np && n_ == g_s.at[g_next]) {
    g_next++;
    H->preempt_hit++;
    if (!g_fin[3 - id]) hand_over(3 - id);
  }
}

void *bump(size_t n, size_t al) {
  int a = t_arena;
  size_t t = (g_top[a] + 16 + al - 1) / al * al;
  if (t + n + 16 > kArena) _exit(78);
  *(size_t *)(g_arena[a] + t - 8) = n;
  g_top[a] = t + n;
  return g_arena[a] + t;
}
bool in_arena(void *p) {
  for (int i = 0; i < 3; i++)
    if (g_arena[i] && (char *)p >= g_arena[i] && (char *)p < g_arena[i] + kArena) return true;
  return false;
}
} // namespace

// ---- allocation: never reused, so that two threads can only meet at a location they really share;
// freed blocks are filled with 0xff, so that a use after free is visible in the results
extern "C" {
void *malloc(size_t n) { return t_arena >= 0 ? bump(n, 16) : __libc_malloc(n); }
void free(void *p) {
  if (!p) return;
  if (in_arena(p)) {
    size_t n = *(size_t *)((char *)p - 8);
    touch(p, n, true, false);
    memset(p, 0xff, n);
    return;
  }
  __libc_free(p);
}
void *calloc(size_t a, size_t b) {
  if (t_arena < 0) return __libc_calloc(a, b);
  void *p = bump(a * b, 16);
  memset(p, 0, a * b);
  return p;
}
void *realloc(void *p, size_t n) {
  if (p && !in_arena(p)) {
    if (t_arena < 0) return __libc_realloc(p, n);
    return nullptr;
  }
  if (t_arena < 0 && !p) return __libc_malloc(n);
  if (t_arena < 0) _exit(79);
  void *q = bump(n, 16);
  if (p) {
    size_t o = *(size_t *)((char *)p - 8);
    memcpy(q, p, o < n ? o : n);
    free(p);
  }
  return q;
}
void *memalign(size_t al, size_t n) { return t_arena >= 0 ? bump(n, al < 16 ? 16 : al) : __libc_memalign(al, n); }
void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void **p, size_t al, size_t n) {
  *p = memalign(al, n);
  return *p ? 0 : ENOMEM;
}

// ---- instrumentation hooks
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **p, void *) { touch(p, 8, true, false); }
void __tsan_vptr_read(void **p) { touch(p, 8, false, false); }
#define RW(N)                                                                                                          \
  void __tsan_read##N(void *p) { touch(p, N, false, false); }                                                          \
  void __tsan_write##N(void *p) { touch(p, N, true, false); }                                                          \
  void __tsan_unaligned_read##N(void *p) { touch(p, N, false, false); }                                                \
  void __tsan_unaligned_write##N(void *p) { touch(p, N, true, false); }                                                \
  void __tsan_volatile_read##N(void *p) { touch(p, N, false, false); }                                                 \
  void __tsan_volatile_write##N(void *p) { touch(p, N, true, false); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { touch(p, n, false, false); }
void __tsan_write_range(void *p, size_t n) { touch(p, n, true, false); }
#define AT(B, T)                                                                                                       \
  T __tsan_atomic##B##_load(const T *p, int) { touch(p, sizeof(T), false, true); return __atomic_load_n(p, 5); }       \
  void __tsan_atomic##B##_store(T *p, T v, int) { touch(p, sizeof(T), true, true); __atomic_store_n(p, v, 5); }        \
  T __tsan_atomic##B##_exchange(T *p, T v, int) { touch(p, sizeof(T), true, true); return __atomic_exchange_n(p, v, 5); } \
  T __tsan_atomic##B##_fetch_add(T *p, T v, int) { touch(p, sizeof(T), true, true); return __atomic_fetch_add(p, v, 5); } \
  T __tsan_atomic##B##_fetch_sub(T *p, T v, int) { touch(p, sizeof(T), true, true); return __atomic_fetch_sub(p, v, 5); } \
  T __tsan_atomic##B##_fetch_and(T *p, T v, int) { touch(p, sizeof(T), true, true); return __atomic_fetch_and(p, v, 5); } \
  T __tsan_atomic##B##_fetch_or(T *p, T v, int) { touch(p, sizeof(T), true, true); return __atomic_fetch_or(p, v, 5); } \
  T __tsan_atomic##B##_fetch_xor(T *p, T v, int) { touch(p, sizeof(T), true, true); return __atomic_fetch_xor(p, v, 5); } \
  T __tsan_atomic##B##_fetch_nand(T *p, T v, int) { touch(p, sizeof(T), true, true); return __atomic_fetch_nand(p, v, 5); } \
  int __tsan_atomic##B##_compare_exchange_strong(T *p, T *e, T v, int, int) { touch(p, sizeof(T), true, true); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
  int __tsan_atomic##B##_compare_exchange_weak(T *p, T *e, T v, int, int) { touch(p, sizeof(T), true, true); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
  T __tsan_atomic##B##_compare_exchange_val(T *p, T e, T v, int, int) { touch(p, sizeof(T), true, true); __atomic_compare_exchange_n(p, &e, v, 0, 5, 5); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ---- library functions called by instrumented code (linked with --wrap)
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) {
  if (n) touch(s, n, false, false), touch(d, n, true, false);
  return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n) {
  if (n) touch(s, n, false, false), touch(d, n, true, false);
  return __real_memmove(d, s, n);
}
void *__wrap_memset(void *d, int c, size_t n) {
  if (n) touch(d, n, true, false);
  return __real_memset(d, c, n);
}
int __real___cxa_guard_acquire(uint64_t *g);
void __real___cxa_guard_release(uint64_t *g);
void __real___cxa_guard_abort(uint64_t *g);
int __wrap___cxa_guard_acquire(uint64_t *g) { // never preempted while initialising, so it cannot block
  int r = __real___cxa_guard_acquire(g);
  if (r) t_guard++;
  return r;
}
void __wrap___cxa_guard_release(uint64_t *g) {
  t_guard--;
  __real___cxa_guard_release(g);
}
void __wrap___cxa_guard_abort(uint64_t *g) {
  t_guard--;
  __real___cxa_guard_abort(g);
}
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
  if (!t_id || g_mode == OFF) return __real_pthread_mutex_lock(m);
  for (;;) {
    int r = pthread_mutex_trylock(m);
    if (r != EBUSY) return r;
    yield_blocked();
  }
}
int __real_pthread_rwlock_wrlock(pthread_rwlock_t *);
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m) {
  if (!t_id || g_mode == OFF) return __real_pthread_rwlock_wrlock(m);
  for (;;) {
    int r = pthread_rwlock_trywrlock(m);
    if (r != EBUSY) return r;
    yield_blocked();
  }
}
int __real_pthread_rwlock_rdlock(pthread_rwlock_t *);
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m) {
  if (!t_id || g_mode == OFF) return __real_pthread_rwlock_rdlock(m);
  for (;;) {
    int r = pthread_rwlock_tryrdlock(m);
    if (r != EBUSY) return r;
    yield_blocked();
  }
}
}

namespace {
void *body(void *arg) {
  int id = (int)(intptr_t)arg;
  t_id = id;
  while (sem_wait(&g_sem[id]) != 0) {}
  t_arena = id;
  c20_run(id, &H->res[id]);
  t_arena = -1;
  t_id = 0;
  g_fin[id] = true;
  H->done[id] = 1;
  H->npoints[id] = g_pts[id];
  if (!g_fin[3 - id]) sem_post(&g_sem[3 - id]);
  return nullptr;
}
// one execution in a child process. order: which threads run (bit 0: thread 1, bit 1: thread 2)
int execute(int pa, int pb, int who, Mode mode, const Sched &s, const std::vector<uintptr_t> *conf) {
  H->done[1] = H->done[2] = 0;
  H->res[1].n = H->res[2].n = 0;
  H->preempt_hit = H->deadlock = H->tabfull = 0;
  H->nconf = H->nconf_data = 0;
  H->npoints[1] = H->npoints[2] = H->accesses[1] = H->accesses[2] = 0;
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    alarm(30);
    for (int i = 0; i < 3; i++) {
      sem_init(&g_sem[i], 0, 0);
      g_fin[i] = false;
      g_pts[i] = 0;
    }
    if (conf)
      for (uintptr_t k : *conf) tab_get(k, true);
    g_s = s;
    g_next = 0;
    t_arena = 0;
    c20_prepare(1, pa);
    c20_prepare(2, pb);
    t_arena = -1;
    pthread_t th[3];
    for (int i = 1; i <= 2; i++) {
      if (!(who & i)) {
        g_fin[i] = true;
        continue;
      }
      pthread_attr_t at;
      pthread_attr_init(&at);
      pthread_attr_setstack(&at, g_stack[i], kStack);
      if (pthread_create(&th[i], &at, body, (void *)(intptr_t)i)) _exit(80);
    }
    g_mode = mode;
    sem_post(&g_sem[s.first]);
    for (int i = 1; i <= 2; i++)
      if (who & i) pthread_join(th[i], nullptr);
    g_mode = OFF;
    if (mode == RECORD) {
      for (size_t i = 0; i < kTab; i++) {
        uint32_t f = g_tab[i].flags, a = f & 255, b = (f >> 8) & 255;
        if (!a || !b) continue;
        if (!((a | b) & 2)) continue;         // only reads
        if (!((a | b) & 8) && (a & 2) + (b & 2) == 2) continue; // written once, while initialising a local static
        if (H->nconf < kMaxConf) H->conf[H->nconf++] = g_tab[i].key;
        else H->tabfull = 1;
        if ((a | b) & 16) H->nconf_data++;
      }
      if (g_tabfull) H->tabfull = 1;
    }
    _exit(0);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (WIFSIGNALED(st)) return 1000 + WTERMSIG(st);
  return WEXITSTATUS(st);
}
bool same(const Result &a, const Result &b) {
  return a.n == b.n && memcmp(a.v, b.v, a.n * sizeof(double)) == 0;
}
std::string diff(const Result &a, const Result &b) {
  if (a.n != b.n) return mc::fmt("%zu results instead of %zu", (size_t)a.n, (size_t)b.n);
  for (size_t i = 0; i < a.n; i++)
    if (memcmp(&a.v[i], &b.v[i], 8)) return mc::fmt("result %zu is %.17g instead of %.17g", i, a.v[i], b.v[i]);
  return "equal";
}
uint64_t hres(const Result &r) {
  uint64_t h = r.n;
  for (size_t i = 0; i < r.n; i++) h = mc::mix(h, *(const uint64_t *)&r.v[i]);
  return h;
}
} // namespace

static void pair_case(mc::Ctx &c, int pa, int pb) {
  static Result alone[3];
  auto name = [&](const char *how) { c.note("threads: [%s] and [%s]; %s", c20_name(pa), c20_name(pb), how); };
  Sched s0{1, 0, {}};
  auto ran = [&](int st, int who) {
    if (st == 0 && (!(who & 1) || H->done[1]) && (!(who & 2) || H->done[2])) return true;
    c.fail("crash", H->deadlock ? "deadlock" : mc::fmt("the process died (code %d)", st));
    return false;
  };
  for (int i = 1; i <= 2; i++) {
    name(mc::fmt("thread %d alone", i).c_str());
    Sched s{i, 0, {}};
    int st = execute(pa, pb, i, OFF, s, nullptr);
    c.trans();
    if (!ran(st, i)) return;
    alone[i] = H->res[i];
    if (alone[i].n == 0 || alone[i].overflow) {
      c.fail("harness", "program without results");
      return;
    }
    c.state(mc::mix(mc::hstr(c20_name(i == 1 ? pa : pb)), hres(alone[i])));
  }
  auto agree = [&]() {
    for (int i = 1; i <= 2; i++) {
      c.eval(alone[i].n);
      if (!same(H->res[i], alone[i])) {
        c.fail("interference", mc::fmt("thread %d (%s): ", i, c20_name(i == 1 ? pa : pb)) + diff(H->res[i], alone[i]) + " (what it obtains alone)");
        return false;
      }
    }
    return true;
  };
  std::vector<uintptr_t> conf;
  uint64_t nacc = 0;
  for (int f = 1; f <= 2; f++) {
    name(mc::fmt("thread %d first, then the other", f).c_str());
    Sched s{f, 0, {}};
    int st = execute(pa, pb, 3, RECORD, s, nullptr);
    c.trans();
    if (!ran(st, 3)) return;
    if (H->tabfull) {
      c.fail("harness", "footprint table full");
      return;
    }
    if (H->accesses[1] == 0 && H->accesses[2] == 0) {
      c.fail("harness", "no access recorded");
      return;
    }
    nacc = H->accesses[1] + H->accesses[2];
    if (!agree()) return;
    c.trace();
    conf.insert(conf.end(), H->conf, H->conf + H->nconf);
  }
  std::sort(conf.begin(), conf.end());
  conf.erase(std::unique(conf.begin(), conf.end()), conf.end());
  c.state(mc::mix(mc::mix(hres(alone[1]), hres(alone[2])), conf.size()));
  if (conf.empty()) {
    c.sample(mc::fmt("[%s] || [%s]: %llu accesses, no conflicting location: one trace", c20_name(pa), c20_name(pb), (unsigned long long)nacc));
    return;
  }
  // preemptions at conflicting accesses
  uint64_t N[3] = {0, 0, 0}, total = 0;
  const uint64_t two = mc::THOROUGH ? 60 : 14, three = mc::THOROUGH ? 14 : 0;
  auto go = [&](const Sched &s) -> int { // 1: ok and all preemptions taken, 0: not all taken, -1: failed
    std::string how = mc::fmt("thread %d starts", s.first);
    for (int i = 0; i < s.np; i++) how += mc::fmt(", preempted before conflicting access %llu", (unsigned long long)s.at[i]);
    name(how.c_str());
    int st = execute(pa, pb, 3, SCHED, s, &conf);
    c.trans();
    if (!ran(st, 3)) return -1;
    if (!agree()) return -1;
    if ((int)H->preempt_hit < s.np) return 0;
    c.trace();
    total++;
    return 1;
  };
  for (int f = 1; f <= 2; f++) {
    Sched s{f, 0, {}};
    if (go(s) < 0) return;
    N[f] = H->npoints[f];
  }
  for (int f = 1; f <= 2; f++)
    for (uint64_t k = 1; k <= N[f]; k++) {
      Sched s{f, 1, {k}};
      int r = go(s);
      if (r < 0) return;
      if (N[1] + N[2] > two) continue;
      for (uint64_t m = 1;; m++) {
        Sched s2{f, 2, {k, m}};
        int r2 = go(s2);
        if (r2 < 0) return;
        if (!r2) break;
        if (N[1] + N[2] > three) continue;
        for (uint64_t q = k + 1;; q++) {
          Sched s3{f, 3, {k, m, q}};
          int r3 = go(s3);
          if (r3 < 0) return;
          if (!r3) break;
        }
      }
    }
  c.state(mc::mix(total, mc::mix(N[1], N[2])));
  c.sample(mc::fmt("[%s] || [%s]: %llu accesses, %zu conflicting locations, %llu+%llu scheduling points, %llu preempted schedules", c20_name(pa),
                   c20_name(pb), (unsigned long long)nacc, conf.size(), (unsigned long long)N[1], (unsigned long long)N[2], (unsigned long long)total));
}

int main(int argc, char **argv) {
  for (int i = 0; i < 3; i++) {
    g_arena[i] = (char *)mmap(nullptr, kArena, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_stack[i] = (char *)mmap(nullptr, kStack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  }
  return mc::run(argc, argv, [](mc::Registry &R) {
    static int n = c20_count();
    R.add("pairs", (uint64_t)n * n, [](mc::Ctx &c, uint64_t i) {
      int a = (int)(i / n), b = (int)(i % n);
      if (!mc::THOROUGH && b < a) return; // the roles are symmetric up to the data each thread uses
      if (!H) H = (Share *)mmap(nullptr, sizeof(Share), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      pair_case(c, a, b);
    }, 300, 4);
  });
}
