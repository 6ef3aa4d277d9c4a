#include "rt.h"
#include <pthread.h>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <sys/time.h>
#include <sys/random.h>
#include <random>
#include <atomic>

extern "C" void *__libc_malloc(size_t);
extern "C" void *__libc_calloc(size_t, size_t);
extern "C" void *__libc_realloc(void *, size_t);
extern "C" void __libc_free(void *);
extern "C" void *__libc_memalign(size_t, size_t);

namespace sim {

#define TLS static __thread __attribute__((tls_model("initial-exec")))

uint64_t hash_str(const char *s) { uint64_t h = 1469598103934665603ull; for (; *s; ++s) h = (h ^ (unsigned char)*s) * 1099511628211ull; return h; }

void (*fail_hook)(const char *, const std::string &) = nullptr;
static void real_write(int fd, const void *p, size_t n) { syscall(SYS_write, fd, p, n); }
void fail(const char *cls, const char *fmt, ...) {
  char buf[4096];
  va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  if (fail_hook) fail_hook(cls, buf);
  real_write(2, cls, strlen(cls)); real_write(2, " ", 1); real_write(2, buf, strlen(buf)); real_write(2, "\n", 1);
  _exit(3);
}

// ------------------------------------------------------------------ threads
struct Team;
struct Thr {
  int id = 0;
  pthread_t pt;
  std::atomic<int> sem{0};
  bool live = false;          // has a job
  bool runnable = false;
  void (*fn)(void *) = nullptr;
  void *arg = nullptr;
  // openmp context to install
  Team *team = nullptr; int tid = 0;
  bool armed = false;
  uint64_t prio = 0;
  void *waiting = nullptr;
};
struct Team {
  int n = 1;
  Team *parent = nullptr; int parent_tid = 0;
  int barrier_count = 0; uint64_t barrier_gen = 0;
  // work sharing constructs, by construct index
  struct Ws { long next, end, incr, chunk; bool init = false; bool dynamic = true; bool guided = false; int done = 0; long single = 0; void *copy = nullptr; unsigned long long unext, uend, uincr, uchunk; };
  std::vector<Ws> ws;
};

static const int MAXT = 64;
static Thr *g_thr[MAXT];
static int g_nthr = 0;
static int g_live = 1;               // live simulated threads (incl. main)
static int g_cur = 0;
TLS Thr *tl_self = nullptr;
TLS int tl_nopre = 0;
TLS Team *tl_team = nullptr;
TLS int tl_tid = 0;
TLS int tl_wsidx = 0;
TLS bool tl_armed = false;

static SchedCfg g_sc;
static Rng g_srng(1);
static std::vector<Switch> g_trace;
static uint64_t g_steps = 0;          // accesses/yields while >1 live thread
static uint64_t g_total = 0;          // all instrumented accesses
static uint64_t g_cap = 0;
static uint64_t g_nswitch = 0, g_shash = 0, g_conf = 0, g_regions = 0;
static int64_t g_countdown = 0;
static size_t g_tpos = 0;
static bool g_on = false;
static uint64_t g_epoch = 1;
static std::vector<uint64_t> g_pct_points;

static void fwait(Thr *t) {
  while (true) {
    int v = t->sem.load(std::memory_order_acquire);
    if (v > 0) { t->sem.store(0, std::memory_order_release); return; }
    syscall(SYS_futex, (int *)&t->sem, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  }
}
static void fpost(Thr *t) {
  t->sem.store(1, std::memory_order_release);
  syscall(SYS_futex, (int *)&t->sem, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
static Thr *self() {
  if (!tl_self) {
    if (g_nthr == 0) {
      Thr *t = new Thr(); t->id = 0; t->live = t->runnable = true; t->pt = pthread_self();
      g_thr[0] = t; g_nthr = 1; tl_self = t;
    } else {
      // a thread the simulator did not create: the run is not controlled
      const char m[] = "UNCONTROLLED-THREAD\n"; real_write(2, m, sizeof m - 1); _exit(97);
    }
  }
  return tl_self;
}
int cur_thread() { return g_cur; }

static void switch_to(Thr *t) {
  Thr *me = tl_self;
  if (t == me) return;
  g_nswitch++;
  g_shash = mix(g_shash, (g_steps << 6) ^ (uint64_t)t->id);
  if (g_trace.size() < 400000) g_trace.push_back(Switch{g_steps, t->id});
  g_cur = t->id;
  fpost(t);
  fwait(me);
}
static int pick_runnable(Thr **out) { int n = 0; for (int i = 0; i < g_nthr; i++) if (g_thr[i]->live && g_thr[i]->runnable) out[n++] = g_thr[i]; return n; }

static void draw_countdown() {
  switch (g_sc.policy) {
    case POL_RANDOM: g_countdown = 1 + (int64_t)g_srng.below(2 * (uint64_t)g_sc.gap); break;
    case POL_HOT: g_countdown = 1 + (int64_t)g_srng.below(4 * (uint64_t)g_sc.gap); break;
    default: g_countdown = INT64_MAX; break;
  }
}
static Thr *choose(bool forced) {
  Thr *r[MAXT]; int n = pick_runnable(r);
  if (n == 0) return nullptr;
  if (g_sc.replay) {
    // next recorded switch at this step?
    while (g_tpos < g_sc.trace.size() && g_sc.trace[g_tpos].step < g_steps) g_tpos++;
    if (g_tpos < g_sc.trace.size() && g_sc.trace[g_tpos].step == g_steps) {
      int want = g_sc.trace[g_tpos].tid; g_tpos++;
      for (int i = 0; i < n; i++) if (r[i]->id == want) return r[i];
    }
    if (!forced) return tl_self;
    for (int i = 0; i < n; i++) if (r[i] != tl_self) return r[i];
    return r[0];
  }
  if (g_sc.policy == POL_RUN) {
    if (!forced) return tl_self;
    return r[0];
  }
  if (g_sc.policy == POL_PCT) { Thr *b = r[0]; for (int i = 1; i < n; i++) if (r[i]->prio > b->prio) b = r[i]; return b; }
  return r[g_srng.below(n)];
}
static void deadlock() { fail("deadlock", "no runnable simulated thread at step %llu", (unsigned long long)g_steps); }

// cooperative preemption (current thread stays runnable)
static void maybe_switch() {
  if (g_nswitch >= g_sc.max_switches && !g_sc.replay) return;
  Thr *t = choose(false);
  if (t && t != tl_self) switch_to(t);
}
// current thread blocks until `runnable` is set again by someone
static void block_self() {
  Thr *me = tl_self;
  me->runnable = false;
  while (!me->runnable) {
    g_steps++;
    Thr *t = choose(true);
    if (!t) deadlock();
    switch_to(t);
  }
}

// shadow table for conflict-guided preemption
struct Sh { uintptr_t a; uint32_t epoch; uint16_t tid; uint16_t w; };
static const int SHN = 1 << 15;
static Sh g_sh[SHN];
static const int HOTN = 1 << 12;
static uintptr_t g_hot[HOTN];

static inline void on_access(void *addr, bool w, void *pc) {
  if (__builtin_expect(++g_total == g_cap, 0)) fail("livelock", "step cap %llu of instrumented memory accesses exceeded", (unsigned long long)g_cap);
  if (__builtin_expect(g_live < 2 || !g_on, 1)) return;
  if (tl_nopre || !tl_self) return;
  g_steps++;
  if (g_sc.replay) {
    if (g_tpos < g_sc.trace.size() && g_sc.trace[g_tpos].step <= g_steps) maybe_switch();
    return;
  }
  if (g_sc.policy == POL_HOT) {
    uintptr_t a = (uintptr_t)addr >> 3;
    Sh &s = g_sh[(a * 0x9E3779B97F4A7C15ull) >> 49];
    uintptr_t p = (uintptr_t)pc;
    uintptr_t &h = g_hot[(p * 0x9E3779B97F4A7C15ull) >> 52];
    if (s.a == a && s.epoch == (uint32_t)g_epoch) {
      if (s.tid != tl_self->id && (w || s.w)) {
        g_conf++; h = p;
        s.tid = tl_self->id; s.w = w;
        if (g_srng.below(2)) { maybe_switch(); return; }
      } else if (w) { s.w = 1; s.tid = tl_self->id; }
    } else { s.a = a; s.epoch = (uint32_t)g_epoch; s.tid = tl_self->id; s.w = w; }
    if (h == p) { int64_t c = 1 + (int64_t)g_srng.below(3); if (c < g_countdown) g_countdown = c; if (g_srng.below(4) == 0) { maybe_switch(); return; } }
  } else if (g_sc.policy == POL_PCT) {
    if (g_tpos < g_pct_points.size() && g_steps >= g_pct_points[g_tpos]) { g_tpos++; tl_self->prio = g_pct_points.size() - g_tpos; maybe_switch(); }
    return;
  }
  if (--g_countdown <= 0) { draw_countdown(); maybe_switch(); }
}

void yield_point() {
  if (g_live < 2 || !g_on || tl_nopre || !tl_self) return;
  g_steps++;
  if (g_sc.replay) { if (g_tpos < g_sc.trace.size() && g_sc.trace[g_tpos].step <= g_steps) maybe_switch(); return; }
  if (g_sc.policy == POL_RUN) return;
  if (g_sc.policy == POL_PCT) { if (g_srng.below(64) == 0) { tl_self->prio = g_srng.below(1000); maybe_switch(); } return; }
  if (g_srng.below(2)) maybe_switch();
}

void sched_begin(const SchedCfg &c) {
  self();
  bool was = tl_armed; tl_armed = false;   // the simulator's own memory never fails
  g_sc = c; g_srng = Rng(c.seed); g_trace.clear(); g_trace.reserve(400000); g_steps = 0; g_nswitch = 0; g_shash = 0; g_conf = 0; g_tpos = 0;
  g_pct_points.clear();
  if (c.policy == POL_PCT) {
    int d = 1 + (int)g_srng.below(6); uint64_t hor = 200ull << g_srng.below(10);
    for (int i = 0; i < d; i++) g_pct_points.push_back(g_srng.below(hor));
    for (size_t i = 1; i < g_pct_points.size(); i++) for (size_t j = i; j > 0 && g_pct_points[j] < g_pct_points[j - 1]; j--) std::swap(g_pct_points[j], g_pct_points[j - 1]);
    for (int i = 0; i < g_nthr; i++) g_thr[i]->prio = 1000 + g_srng.below(1000);
  }
  memset(g_hot, 0, sizeof g_hot); g_epoch++;
  draw_countdown();
  tl_armed = was;
  g_on = true;
}
void sched_end() { g_on = false; }
const std::vector<Switch> &sched_trace() { return g_trace; }
uint64_t sched_hash() { return g_shash; }
uint64_t sched_switches() { return g_nswitch; }
uint64_t sched_steps() { return g_steps; }
uint64_t sched_conflicts() { return g_conf; }
uint64_t par_regions() { return g_regions; }
void set_step_cap(uint64_t cap) { g_total = 0; g_cap = cap; }
uint64_t total_steps() { return g_total; }
NoPreempt::NoPreempt() { tl_nopre++; }
NoPreempt::~NoPreempt() { tl_nopre--; }

static void *worker_main(void *p) {
  Thr *t = (Thr *)p;
  tl_self = t;
  while (true) {
    fwait(t);
    tl_team = t->team; tl_tid = t->tid; tl_wsidx = 0; tl_armed = t->armed; tl_nopre = 0;
    t->fn(t->arg);
    tl_armed = false; tl_team = nullptr; tl_tid = 0;
    // finished: hand the token to someone else
    t->live = false; t->runnable = false; g_live--;
    for (int i = 0; i < g_nthr; i++) if (g_thr[i]->waiting == t) { g_thr[i]->waiting = nullptr; g_thr[i]->runnable = true; }
    g_steps++;
    Thr *n = choose(true);
    if (!n) deadlock();
    g_nswitch++; g_shash = mix(g_shash, (g_steps << 6) ^ (uint64_t)n->id);
    if (g_trace.size() < 400000) g_trace.push_back(Switch{g_steps, n->id});
    g_cur = n->id;
    fpost(n);
  }
  return nullptr;
}
static Thr *new_thread(void (*fn)(void *), void *arg) {
  self();
  Thr *t = nullptr;
  bool was = tl_armed; tl_armed = false;
  for (int i = 1; i < g_nthr; i++) if (!g_thr[i]->live) { t = g_thr[i]; break; }
  if (!t) {
    if (g_nthr >= MAXT) fail("harness", "too many simulated threads");
    t = new Thr(); t->id = g_nthr; g_thr[g_nthr++] = t;
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1 << 20);
    if (pthread_create(&t->pt, &at, worker_main, t)) fail("harness", "pthread_create failed");
    pthread_attr_destroy(&at);
  }
  tl_armed = was;
  t->fn = fn; t->arg = arg; t->team = nullptr; t->tid = 0; t->armed = tl_armed;
  t->live = t->runnable = true; t->waiting = nullptr; g_live++;
  if (g_sc.policy == POL_PCT) t->prio = 1000 + g_srng.below(1000);
  return t;
}
int spawn(void (*fn)(void *), void *arg) { Thr *t = new_thread(fn, arg); t->armed = false; g_epoch++; return t->id; }
void join(int h) {
  Thr *t = g_thr[h];
  while (t->live) { tl_self->waiting = t; block_self(); }
}

// ------------------------------------------------------------------ OpenMP
struct ParJob { void (*fn)(void *); void *data; };
static void par_entry(void *p) { ParJob *j = (ParJob *)p; j->fn(j->data); }

static void run_team(void (*fn)(void *), void *data, unsigned nt, Team::Ws *ws0) {
  self();
  Team team; team.parent = tl_team; team.parent_tid = tl_tid;
  int savews = tl_wsidx;
  int n = nt ? (int)nt : g_sc.nthreads;
  if (tl_team && tl_team->n > 1) n = 1;   // nested parallelism off, as by default
  if (n > 32) n = 32;
  if (!g_on) n = 1;
  team.n = n;
  if (ws0) { bool was = tl_armed; tl_armed = false; team.ws.push_back(*ws0); tl_armed = was; }
  if (n == 1) {
    tl_team = &team; tl_tid = 0; tl_wsidx = 0;
    fn(data);
    tl_team = team.parent; tl_tid = team.parent_tid; tl_wsidx = savews;
    return;
  }
  g_regions++; g_epoch++;
  ParJob j{fn, data};
  Thr *th[32];
  for (int i = 1; i < n; i++) { th[i] = new_thread(par_entry, &j); th[i]->team = &team; th[i]->tid = i; th[i]->armed = tl_armed; }
  tl_team = &team; tl_tid = 0; tl_wsidx = 0;
  yield_point();
  fn(data);
  for (int i = 1; i < n; i++) join(th[i]->id);
  tl_team = team.parent; tl_tid = team.parent_tid; tl_wsidx = savews;
  g_epoch++;
}
static void team_barrier() {
  Team *t = tl_team;
  if (!t || t->n <= 1) return;
  uint64_t gen = t->barrier_gen;
  if (++t->barrier_count == t->n) {
    t->barrier_count = 0; t->barrier_gen++;
    for (int i = 0; i < g_nthr; i++) if (g_thr[i]->waiting == (void *)t) { g_thr[i]->waiting = nullptr; g_thr[i]->runnable = true; }
    yield_point();
  } else {
    while (t->barrier_gen == gen) { tl_self->waiting = t; block_self(); }
  }
}
static Team::Ws &cur_ws(bool advance) {
  static Team root;                      // orphaned construct outside a region
  Team *t = tl_team ? tl_team : &root;
  if (t == &root) { root.n = 1; }
  size_t idx = (size_t)tl_wsidx;
  if (advance) tl_wsidx++;
  if (t->ws.size() <= idx) { bool was = tl_armed; tl_armed = false; t->ws.resize(idx + 1); tl_armed = was; }
  return t->ws[idx];
}
static bool ws_next(long *is, long *ie) {
  Team::Ws &w = tl_team ? tl_team->ws[tl_wsidx - 1] : cur_ws(false);
  yield_point();
  bool up = w.incr > 0;
  if (up ? w.next >= w.end : w.next <= w.end) return false;
  long chunk = w.chunk > 0 ? w.chunk : 1;
  *is = w.next;
  long e = w.next + chunk * w.incr;
  if (up ? e > w.end : e < w.end) e = w.end;
  *ie = e; w.next = e;
  return true;
}
static bool ws_start(long s, long e, long inc, long chunk, long *is, long *ie) {
  Team::Ws &w = cur_ws(true);
  if (!w.init) { w.init = true; w.next = s; w.end = e; w.incr = inc; w.chunk = chunk; }
  return ws_next(is, ie);
}

// mutual exclusion for simulated threads, keyed by address
static std::map<void *, std::pair<int, int>> *g_locks;   // owner, depth
static void lock_key(void *k, bool recursive) {
  self();
  NoPreempt *np = nullptr; (void)np;
  bool was = tl_armed; tl_armed = false;
  if (!g_locks) g_locks = new std::map<void *, std::pair<int, int>>();
  tl_armed = was;
  yield_point();
  while (true) {
    tl_armed = false;
    auto &e = (*g_locks)[k];
    tl_armed = was;
    if (e.second == 0 || (recursive && e.first == tl_self->id)) { e.first = tl_self->id; e.second++; return; }
    tl_self->waiting = k; block_self();
  }
}
static bool trylock_key(void *k) {
  self(); bool was = tl_armed; tl_armed = false;
  if (!g_locks) g_locks = new std::map<void *, std::pair<int, int>>();
  auto &e = (*g_locks)[k]; tl_armed = was;
  if (e.second) return false;
  e.first = tl_self->id; e.second = 1; return true;
}
static void unlock_key(void *k) {
  if (!g_locks) return;
  auto it = g_locks->find(k);
  if (it == g_locks->end() || it->second.second == 0) return;
  if (--it->second.second == 0)
    for (int i = 0; i < g_nthr; i++) if (g_thr[i]->waiting == k) { g_thr[i]->waiting = nullptr; g_thr[i]->runnable = true; }
  yield_point();
}

// ------------------------------------------------------------------ clocks
static ClockCfg g_cc; static Rng g_crng(1);
static int64_t g_mono = 0, g_skew = 0, g_cpu = 0 /* processor time: stands still while the process waits */; static uint64_t g_creads = 0, g_cjumps = 0; static bool g_clock_on = false;
void clock_begin(const ClockCfg &c) { g_cc = c; g_crng = Rng(c.seed); g_mono = 0; g_skew = 0; g_cpu = 0; g_creads = 0; g_cjumps = 0; g_clock_on = true; }
void clock_advance(int64_t ns) { g_mono += ns; }
int64_t mono_now() { return g_cc.mono0_ns + g_mono; }
int64_t wall_now() { return g_cc.wall0_ns + g_mono + g_skew; }
uint64_t clock_reads() { return g_creads; }
uint64_t clock_jumps_fired() { return g_cjumps; }
static void clock_tick() {
  g_creads++;
  int64_t d = 1 + (int64_t)g_crng.below((uint64_t)g_cc.tick_max_ns + 1); g_mono += d; g_cpu += d;
  for (auto &j : g_cc.jumps) if (j.read_no == g_creads) { g_skew += j.delta_ns; g_cjumps++; }
}

// ------------------------------------------------------------------ entropy
static Rng g_erng(1), g_rrng(1); static uint64_t g_ereads = 0, g_rcalls = 0;
void entropy_begin(uint64_t seed) { g_erng = Rng(seed); g_rrng = Rng(seed ^ 0x5555); g_ereads = g_rcalls = 0; }
uint64_t entropy_reads() { return g_ereads; }
uint64_t rand_calls() { return g_rcalls; }

// ------------------------------------------------------------------ memory
static MemCfg g_mc; static uint64_t g_allocs = 0, g_failed = 0; static uint64_t g_fillctr = 0;
void mem_begin(const MemCfg &c) { g_mc = c; g_allocs = 0; g_failed = 0; g_fillctr = c.fill_seed; }
void mem_arm(bool on) { tl_armed = on; }
bool mem_armed() { return tl_armed; }
uint64_t mem_allocs() { return g_allocs; }
uint64_t mem_failed() { return g_failed; }
MemOff::MemOff() : was(tl_armed) { tl_armed = false; }
MemOff::~MemOff() { tl_armed = was; }
static bool should_fail(size_t n) {
  if (!tl_armed) return false;
  if (n < g_mc.fail_min) return false;
  g_allocs++;
  if (g_mc.fail_at && g_allocs >= g_mc.fail_at && g_allocs < g_mc.fail_at + g_mc.fail_count) { g_failed++; return true; }
  return false;
}
static void fill(void *p, size_t n) {
  if (g_mc.fill < 0 || !p) return;
  if (g_mc.fill < 256) { memset(p, g_mc.fill, n); return; }
  uint64_t x = g_mc.fill_seed * 0x9E3779B97F4A7C15ull; unsigned char *q = (unsigned char *)p;
  size_t i = 0;
  for (; i + 8 <= n; i += 8) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; memcpy(q + i, &x, 8); }
  for (; i < n; i++) q[i] = (unsigned char)(x >> (8 * (i & 7)));
}
__attribute__((noinline)) void scribble_stack(int f) {
  volatile char buf[96 * 1024];
  uint64_t x = (uint64_t)f * 0x9E3779B97F4A7C15ull + 77;
  for (size_t i = 0; i < sizeof buf; i++) {
    if (f < 256) buf[i] = (char)f; else { if ((i & 7) == 0) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; } buf[i] = (char)(x >> (8 * (i & 7))); }
  }
}

// ------------------------------------------------------------------ files
static IoCfg g_ioc; static std::map<std::string, std::string> *g_files; static std::map<int, std::string> *g_fds;
static uint64_t g_ioops = 0; static uint64_t g_iofired[8];
static int64_t g_disk_used = 0; static int g_iodead = 0;
void io_begin(const IoCfg &c) {
  g_ioc = c; g_ioops = 0; memset(g_iofired, 0, sizeof g_iofired); g_disk_used = 0; g_iodead = 0;
  if (!g_files) { g_files = new std::map<std::string, std::string>(); g_fds = new std::map<int, std::string>(); }
  g_files->clear();
}
std::string io_content(const std::string &p) { if (!g_files) return ""; auto it = g_files->find(p); return it == g_files->end() ? std::string() : it->second; }
bool io_exists(const std::string &p) { return g_files && g_files->count(p); }
uint64_t io_ops() { return g_ioops; }
uint64_t io_fired(int k) { return g_iofired[k]; }
static ssize_t sim_write(int fd, const char *p, size_t n) {
  NoPreempt np; MemOff mo;
  g_ioops++;
  if (g_iodead) { g_iofired[g_iodead]++; errno = g_iodead == IO_EIO ? EIO : ENOSPC; return -1; } // device errors and full disks persist
  size_t take = n;
  for (auto &f : g_ioc.faults) if (f.op == g_ioops) {
    switch (f.kind) {
      case IO_SHORT: if (n > 1) { g_iofired[IO_SHORT]++; take = 1 + f.arg % (n - 1); } break;
      case IO_EINTR: g_iofired[IO_EINTR]++; errno = EINTR; return -1;
      case IO_ENOSPC: g_iodead = IO_ENOSPC; g_iofired[IO_ENOSPC]++; errno = ENOSPC; return -1;
      case IO_EIO: g_iodead = IO_EIO; g_iofired[IO_EIO]++; errno = EIO; return -1;
      default: break;
    }
  }
  if (g_ioc.disk_limit >= 0) {
    int64_t room = g_ioc.disk_limit - g_disk_used;
    if (room <= 0) { g_iofired[IO_ENOSPC]++; errno = ENOSPC; return -1; }
    if ((int64_t)take > room) { g_iofired[IO_SHORT]++; take = (size_t)room; }
  }
  (*g_files)[(*g_fds)[fd]].append(p, take);
  g_disk_used += take;
  return (ssize_t)take;
}
static bool is_simfd(int fd) { return g_fds && g_fds->count(fd); }
template <class F> static F real_sym(const char *n) { return (F)dlsym(RTLD_NEXT, n); }

void pool_quiesce() {}
} // namespace sim

using namespace sim;
#define PC __builtin_return_address(0)
extern "C" {
// ---- instrumentation callbacks (the compiler emits calls; we are the runtime) ----
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_read1(void *a) { on_access(a, false, PC); }
void __tsan_read2(void *a) { on_access(a, false, PC); }
void __tsan_read4(void *a) { on_access(a, false, PC); }
void __tsan_read8(void *a) { on_access(a, false, PC); }
void __tsan_read16(void *a) { on_access(a, false, PC); }
void __tsan_write1(void *a) { on_access(a, true, PC); }
void __tsan_write2(void *a) { on_access(a, true, PC); }
void __tsan_write4(void *a) { on_access(a, true, PC); }
void __tsan_write8(void *a) { on_access(a, true, PC); }
void __tsan_write16(void *a) { on_access(a, true, PC); }
void __tsan_unaligned_read2(void *a) { on_access(a, false, PC); }
void __tsan_unaligned_read4(void *a) { on_access(a, false, PC); }
void __tsan_unaligned_read8(void *a) { on_access(a, false, PC); }
void __tsan_unaligned_read16(void *a) { on_access(a, false, PC); }
void __tsan_unaligned_write2(void *a) { on_access(a, true, PC); }
void __tsan_unaligned_write4(void *a) { on_access(a, true, PC); }
void __tsan_unaligned_write8(void *a) { on_access(a, true, PC); }
void __tsan_unaligned_write16(void *a) { on_access(a, true, PC); }
void __tsan_volatile_read1(void *a) { on_access(a, false, PC); }
void __tsan_volatile_read2(void *a) { on_access(a, false, PC); }
void __tsan_volatile_read4(void *a) { on_access(a, false, PC); }
void __tsan_volatile_read8(void *a) { on_access(a, false, PC); }
void __tsan_volatile_read16(void *a) { on_access(a, false, PC); }
void __tsan_volatile_write1(void *a) { on_access(a, true, PC); }
void __tsan_volatile_write2(void *a) { on_access(a, true, PC); }
void __tsan_volatile_write4(void *a) { on_access(a, true, PC); }
void __tsan_volatile_write8(void *a) { on_access(a, true, PC); }
void __tsan_volatile_write16(void *a) { on_access(a, true, PC); }
void __tsan_read_range(void *a, size_t) { on_access(a, false, PC); }
void __tsan_write_range(void *a, size_t) { on_access(a, true, PC); }
void __tsan_vptr_update(void **a, void *) { on_access((void *)a, true, PC); }
void __tsan_vptr_read(void **a) { on_access((void *)a, false, PC); }
#define ATOMICS(N, T)                                                                                        \
  T __tsan_atomic##N##_load(const volatile T *a, int) { yield_point(); return __atomic_load_n(a, 5); }       \
  void __tsan_atomic##N##_store(volatile T *a, T v, int) { yield_point(); __atomic_store_n(a, v, 5); }       \
  T __tsan_atomic##N##_exchange(volatile T *a, T v, int) { yield_point(); return __atomic_exchange_n(a, v, 5); } \
  T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int) { yield_point(); return __atomic_fetch_add(a, v, 5); } \
  T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int) { yield_point(); return __atomic_fetch_sub(a, v, 5); } \
  T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int) { yield_point(); return __atomic_fetch_and(a, v, 5); } \
  T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int) { yield_point(); return __atomic_fetch_or(a, v, 5); } \
  T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int) { yield_point(); return __atomic_fetch_xor(a, v, 5); } \
  T __tsan_atomic##N##_fetch_nand(volatile T *a, T v, int) { yield_point(); return __atomic_fetch_nand(a, v, 5); } \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { yield_point(); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { yield_point(); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
  T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T c, T v, int, int) { yield_point(); __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ---- OpenMP runtime ---------------------------------------------------------
void GOMP_parallel(void (*fn)(void *), void *data, unsigned nt, unsigned) { run_team(fn, data, nt, nullptr); }
void GOMP_barrier() { team_barrier(); }
bool GOMP_cancellation_point(int) { return false; }
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_barrier_cancel() { team_barrier(); return false; }
static char g_crit, g_atom;
void GOMP_critical_start() { lock_key(&g_crit, false); }
void GOMP_critical_end() { unlock_key(&g_crit); }
void GOMP_critical_name_start(void **p) { lock_key(p, false); }
void GOMP_critical_name_end(void **p) { unlock_key(p); }
void GOMP_atomic_start() { lock_key(&g_atom, false); }
void GOMP_atomic_end() { unlock_key(&g_atom); }
bool GOMP_single_start() { Team::Ws &w = cur_ws(true); yield_point(); if (!w.init) { w.init = true; return true; } return false; }
void *GOMP_single_copy_start() { Team::Ws &w = cur_ws(true); yield_point(); if (!w.init) { w.init = true; return nullptr; } team_barrier(); return w.copy; }
void GOMP_single_copy_end(void *d) { if (tl_team) tl_team->ws[tl_wsidx - 1].copy = d; team_barrier(); }
void GOMP_ordered_start() {}
void GOMP_ordered_end() {}
void GOMP_loop_end() { team_barrier(); }
bool GOMP_loop_end_cancel() { team_barrier(); return false; }
void GOMP_loop_end_nowait() {}
#define LOOPK(K)                                                                                              \
  bool GOMP_loop_##K##_start(long s, long e, long i, long c, long *a, long *b) { return ws_start(s, e, i, c, a, b); } \
  bool GOMP_loop_##K##_next(long *a, long *b) { return ws_next(a, b); }                                        \
  void GOMP_parallel_loop_##K(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, long c, unsigned) { \
    Team::Ws w; w.init = true; w.next = s; w.end = e; w.incr = i; w.chunk = c; run_team(fn, d, nt, &w); }
static void first_ws() { if (tl_wsidx == 0) tl_wsidx = 1; }
LOOPK(static)
#undef LOOPK
#define LOOPK(K)                                                                                              \
  bool GOMP_loop_##K##_start(long s, long e, long i, long c, long *a, long *b) { return ws_start(s, e, i, c, a, b); } \
  bool GOMP_loop_##K##_next(long *a, long *b) { first_ws(); return ws_next(a, b); }                             \
  void GOMP_parallel_loop_##K(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, long c, unsigned) { \
    Team::Ws w; w.init = true; w.next = s; w.end = e; w.incr = i; w.chunk = c; run_team(fn, d, nt, &w); }
LOOPK(dynamic)
LOOPK(guided)
LOOPK(nonmonotonic_dynamic)
LOOPK(nonmonotonic_guided)
#undef LOOPK
#define LOOPR(K)                                                                                              \
  bool GOMP_loop_##K##_start(long s, long e, long i, long *a, long *b) { return ws_start(s, e, i, 1, a, b); }   \
  bool GOMP_loop_##K##_next(long *a, long *b) { first_ws(); return ws_next(a, b); }                             \
  void GOMP_parallel_loop_##K(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, unsigned) {    \
    Team::Ws w; w.init = true; w.next = s; w.end = e; w.incr = i; w.chunk = 1; run_team(fn, d, nt, &w); }
LOOPR(runtime)
LOOPR(nonmonotonic_runtime)
LOOPR(maybe_nonmonotonic_runtime)
unsigned GOMP_sections_start(unsigned n) { long a, b; return ws_start(1, (long)n + 1, 1, 1, &a, &b) ? (unsigned)a : 0; }
unsigned GOMP_sections_next() { long a, b; first_ws(); return ws_next(&a, &b) ? (unsigned)a : 0; }
void GOMP_sections_end() { team_barrier(); }
void GOMP_sections_end_nowait() {}
void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned nt, unsigned n, unsigned) {
  Team::Ws w; w.init = true; w.next = 1; w.end = (long)n + 1; w.incr = 1; w.chunk = 1; run_team(fn, d, nt, &w); }
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long sz, long al, bool, unsigned, void **, int) {
  if (cpy) { char *buf = (char *)alloca(sz + al); char *arg = (char *)(((uintptr_t)buf + al - 1) & ~(uintptr_t)(al - 1)); cpy(arg, data); fn(arg); }
  else fn(data);
}
void GOMP_taskwait() {}
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
void GOMP_taskyield() { yield_point(); }
int omp_get_thread_num() { return tl_tid; }
int omp_get_num_threads() { return tl_team ? tl_team->n : 1; }
int omp_get_max_threads() { return g_sc.nthreads; }
int omp_get_num_procs() { return g_sc.nthreads; }
void omp_set_num_threads(int n) { if (n > 0) g_sc.nthreads = n; }
int omp_in_parallel() { return tl_team && tl_team->n > 1; }
int omp_get_level() { int l = 0; for (Team *t = tl_team; t; t = t->parent) l++; return l; }
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return 0; }
void omp_set_nested(int) {}
int omp_get_thread_limit() { return 32; }
double omp_get_wtime() { clock_tick(); return mono_now() * 1e-9; }
struct omp_lk { int x; };
void omp_init_lock(void *) {}
void omp_destroy_lock(void *) {}
void omp_set_lock(void *l) { lock_key(l, false); }
void omp_unset_lock(void *l) { unlock_key(l); }
int omp_test_lock(void *l) { return trylock_key(l); }

// ---- locks and one-time initialisation ------------------------------------------
int pthread_mutex_lock(pthread_mutex_t *m) {
  if (g_on && tl_self) { lock_key(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE); return 0; }
  static auto r = real_sym<int (*)(pthread_mutex_t *)>("pthread_mutex_lock"); return r(m);
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
  if (g_on && tl_self) return trylock_key(m) ? 0 : EBUSY;
  static auto r = real_sym<int (*)(pthread_mutex_t *)>("pthread_mutex_trylock"); return r(m);
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  if (g_locks) { auto it = g_locks->find(m); if (it != g_locks->end() && it->second.second) { unlock_key(m); return 0; } }
  static auto r = real_sym<int (*)(pthread_mutex_t *)>("pthread_mutex_unlock"); return r(m);
}
int __cxa_guard_acquire(long long int *g) {
  volatile unsigned char *b = (volatile unsigned char *)g;
  if (b[0]) return 0;
  while (b[1] && !b[0]) {           // another simulated thread is initialising
    if (!g_on || !tl_self || g_live < 2) break;
    tl_self->waiting = (void *)g; block_self();
  }
  if (b[0]) return 0;
  b[1] = 1; return 1;
}
void __cxa_guard_release(long long int *g) {
  volatile unsigned char *b = (volatile unsigned char *)g; b[0] = 1; b[1] = 0;
  for (int i = 0; i < g_nthr; i++) if (g_thr[i]->waiting == (void *)g) { g_thr[i]->waiting = nullptr; g_thr[i]->runnable = true; }
}
void __cxa_guard_abort(long long int *g) {
  volatile unsigned char *b = (volatile unsigned char *)g; b[1] = 0;
  for (int i = 0; i < g_nthr; i++) if (g_thr[i]->waiting == (void *)g) { g_thr[i]->waiting = nullptr; g_thr[i]->runnable = true; }
}

// ---- time -------------------------------------------------------------------------
int clock_gettime(clockid_t c, struct timespec *ts) noexcept {
  if (!g_clock_on) return (int)syscall(SYS_clock_gettime, c, ts);
  clock_tick();
  int64_t v = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? wall_now() : (c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID) ? g_cpu : mono_now();
  ts->tv_sec = v / 1000000000; ts->tv_nsec = v % 1000000000; if (ts->tv_nsec < 0) { ts->tv_nsec += 1000000000; ts->tv_sec--; }
  return 0;
}
time_t time(time_t *t) noexcept {
  if (!g_clock_on) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
  clock_tick(); time_t v = wall_now() / 1000000000; if (t) *t = v; return v;
}
int gettimeofday(struct timeval *tv, void *) noexcept {
  struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
}
clock_t clock() noexcept { if (!g_clock_on) return 0; clock_tick(); return g_cpu / 1000; }
int nanosleep(const struct timespec *r, struct timespec *) { clock_advance(r->tv_sec * 1000000000ll + r->tv_nsec); yield_point(); return 0; }
int clock_nanosleep(clockid_t, int, const struct timespec *r, struct timespec *) { clock_advance(r->tv_sec * 1000000000ll + r->tv_nsec); yield_point(); return 0; }
int usleep(useconds_t u) { clock_advance((int64_t)u * 1000); yield_point(); return 0; }
int sched_yield() noexcept { yield_point(); return 0; }

// ---- entropy ------------------------------------------------------------------------
int rand() noexcept { g_rcalls++; return (int)(g_rrng.next() & 0x7fffffff); }
void srand(unsigned s) noexcept { g_rrng = Rng(s ^ 0x5555); }
long random() noexcept { g_rcalls++; return (long)(g_rrng.next() & 0x7fffffff); }
void srandom(unsigned s) noexcept { g_rrng = Rng(s ^ 0x5555); }
double drand48() noexcept { g_rcalls++; return g_rrng.unit(); }
int getentropy(void *p, size_t n) noexcept { g_ereads++; for (size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = (unsigned char)g_erng.next(); return 0; }
ssize_t getrandom(void *p, size_t n, unsigned) noexcept { int rc = getentropy(p, n); (void)rc; return (ssize_t)n; }
uint32_t arc4random() noexcept { g_ereads++; return (uint32_t)g_erng.next(); }

// ---- memory -----------------------------------------------------------------------------
void *malloc(size_t n) noexcept { if (should_fail(n)) { errno = ENOMEM; return nullptr; } void *p = __libc_malloc(n); fill(p, n); return p; }
void *calloc(size_t a, size_t b) noexcept { if (should_fail(a * b)) { errno = ENOMEM; return nullptr; } return __libc_calloc(a, b); }
void *realloc(void *q, size_t n) noexcept { if (should_fail(n)) { errno = ENOMEM; return nullptr; } return __libc_realloc(q, n); }
void free(void *p) noexcept { __libc_free(p); }
void *memalign(size_t a, size_t n) noexcept { if (should_fail(n)) { errno = ENOMEM; return nullptr; } void *p = __libc_memalign(a, n); fill(p, n); return p; }
void *aligned_alloc(size_t a, size_t n) noexcept { return memalign(a, n); }
int posix_memalign(void **o, size_t a, size_t n) noexcept { if (should_fail(n)) return ENOMEM; void *p = __libc_memalign(a, n); if (!p) return ENOMEM; fill(p, n); *o = p; return 0; }

// ---- files ------------------------------------------------------------------------------------
static FILE *sim_fopen(const char *path, const char *mode, const char *sym) {
  if (strncmp(path, "/simfs/", 7) == 0 && g_files) {
    NoPreempt np; MemOff mo;
    g_ioops++;
    for (auto &f : g_ioc.faults) if (f.op == g_ioops && f.kind == IO_OPENFAIL) { g_iofired[IO_OPENFAIL]++; errno = f.arg & 1 ? EACCES : ENOSPC; return nullptr; }
    auto r = real_sym<FILE *(*)(const char *, const char *)>(sym);
    FILE *fp = r("/dev/null", mode);
    if (!fp) return nullptr;
    if (mode[0] == 'w') (*g_files)[path] = "";
    else (*g_files)[path];
    (*g_fds)[fileno(fp)] = path;
    return fp;
  }
  auto r = real_sym<FILE *(*)(const char *, const char *)>(sym);
  return r(path, mode);
}
FILE *fopen(const char *path, const char *mode) { return sim_fopen(path, mode, "fopen"); }
FILE *fopen64(const char *path, const char *mode) { return sim_fopen(path, mode, "fopen64"); }
int fclose(FILE *f) {
  static auto r = real_sym<int (*)(FILE *)>("fclose");
  if (g_fds && f) { MemOff mo; g_fds->erase(fileno(f)); }
  return r(f);
}
ssize_t write(int fd, const void *p, size_t n) {
  if (is_simfd(fd)) return sim_write(fd, (const char *)p, n);
  return syscall(SYS_write, fd, p, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (!is_simfd(fd)) return syscall(SYS_writev, fd, v, c);
  std::string s; { MemOff mo; for (int i = 0; i < c; i++) s.append((const char *)v[i].iov_base, v[i].iov_len); }
  ssize_t r = sim_write(fd, s.data(), s.size());
  { MemOff mo; std::string().swap(s); }
  return r;
}
}

// std::random_device draws from the simulator
namespace std {
void random_device::_M_init(const std::string &) {}
void random_device::_M_init_pretr1(const std::string &) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() { sim::g_ereads++; return (random_device::result_type)sim::g_erng.next(); }
random_device::result_type random_device::_M_getval_pretr1() { sim::g_ereads++; return (random_device::result_type)sim::g_erng.next(); }
}
