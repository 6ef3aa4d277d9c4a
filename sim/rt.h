// Simulator runtime: owns threads, clocks, entropy, allocation, file writes.
// Nothing in here is compiled with instrumentation.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <map>

namespace sim {

// small splittable PRNG (one stream per concern, so that logging or clock reads
// never perturb the schedule).
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  bool chance(double p) { return unit() < p; }
  int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo + 1)); }
};
inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h *= 0xFF51AFD7ED558CCDull; h ^= h >> 32; return h;
}
uint64_t hash_str(const char *s);

// ---- scheduling ---------------------------------------------------------
enum Policy { POL_RUN = 0, POL_RANDOM = 1, POL_HOT = 2, POL_PCT = 3, POL_COARSE = 4 };
struct Switch { uint64_t step; int tid; };
struct SchedCfg {
  int nthreads = 1;          // size of an OpenMP team
  int policy = POL_RUN;
  uint64_t seed = 1;
  int gap = 50;              // mean number of accesses between preemptions
  uint64_t max_switches = 20000;
  bool replay = false;       // follow `trace` instead of drawing
  std::vector<Switch> trace;
};
void sched_begin(const SchedCfg &c);   // (re)start scheduling decisions
void sched_end();
const std::vector<Switch> &sched_trace();
uint64_t sched_hash();                 // hash over the switch sequence
uint64_t sched_switches();
uint64_t sched_steps();
uint64_t sched_conflicts();
uint64_t par_regions();                // parallel regions with more than one thread
void yield_point();                    // explicit scheduling point
int spawn(void (*fn)(void *), void *arg); // new simulated thread, returns handle
void join(int h);
int cur_thread();
struct NoPreempt { NoPreempt(); ~NoPreempt(); };

// ---- liveness: deterministic step caps -----------------------------------
void set_step_cap(uint64_t cap);       // 0: none; exceeding calls fail("livelock")
uint64_t total_steps();
void fail(const char *cls, const char *fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
extern void (*fail_hook)(const char *cls, const std::string &detail); // must not return

// ---- clocks -----------------------------------------------------------------
struct ClockJump { uint64_t read_no; int64_t delta_ns; };
struct ClockCfg {
  int64_t wall0_ns = 1400000000ll * 1000000000ll;
  int64_t mono0_ns = 5000000000ll;
  uint64_t seed = 1;
  int64_t tick_max_ns = 2000;          // advance per clock read
  std::vector<ClockJump> jumps;        // wall clock steps
};
void clock_begin(const ClockCfg &c);
void clock_advance(int64_t ns);        // time passes (both clocks)
int64_t mono_now();
int64_t wall_now();
uint64_t clock_reads();
uint64_t clock_jumps_fired();

// ---- entropy / libc rand -------------------------------------------------------
void entropy_begin(uint64_t seed);
uint64_t entropy_reads();
uint64_t rand_calls();

// ---- memory ---------------------------------------------------------------------
struct MemCfg {
  int fill = -1;                       // -1: none, 0..255 byte, 256: pseudo-random bytes
  uint64_t fill_seed = 1;
  uint64_t fail_at = 0;                // 1-based index of failing allocation, 0: none
  uint64_t fail_count = 1;             // how many consecutive allocations fail
  size_t fail_min = 0;                 // only allocations >= this size count
};
void mem_begin(const MemCfg &c);
void mem_arm(bool on);                 // count/fail allocations of this simulated thread
bool mem_armed();
uint64_t mem_allocs();
uint64_t mem_failed();
struct MemOff { bool was; MemOff(); ~MemOff(); };
void scribble_stack(int fill);

// ---- files ------------------------------------------------------------------------
// A path that starts with /simfs/ is a simulated file: bytes go to memory.
enum IoKind { IO_SHORT = 1, IO_EINTR = 2, IO_ENOSPC = 3, IO_EIO = 4, IO_OPENFAIL = 5 };
struct IoFault { uint64_t op; int kind; uint64_t arg; };
struct IoCfg { std::vector<IoFault> faults; int64_t disk_limit = -1; };
void io_begin(const IoCfg &c);
std::string io_content(const std::string &path);
bool io_exists(const std::string &path);
uint64_t io_ops();
uint64_t io_fired(int kind);

void reset_all_counters();
void pool_quiesce();
}
