#pragma once
#include "case.h"
#include <functional>
#include <memory>
#include <libcmaes/cmasolutions.h>

struct SimEx { int id; };              // the exception type user code throws

struct Call { int gen; int kind; double f; int off; int thr; }; // kind 0: objective; value as the user returned it
struct Snap {
  int niter, fevals, status, ncalls, elapsed_last; int size;
  double sigma, bestf, seenf, worstf, maxeig, mineig, edm;
  bool finite, symmetric, noax, nocoor; double asym;
  uint64_t hash;                        // every public bit of state except durations
  int64_t mono;
  std::vector<double> cf;               // population values
  std::vector<double> cx;               // population, search space (size*dim)
  std::vector<double> cy;               // population, user space
  std::vector<double> bestx, besty, seenx, seeny, worstx, worsty, mean, meany, diag, eig, vmax;
  size_t plotlen; int plotlines; bool plotnl;
  int lambda;
  std::vector<double> cov, dsep; std::vector<int> ids; bool upd = true;   // filled when RunOpts::cov is set
};
struct RunTrace {
  std::vector<Call> calls; std::vector<double> xs;   // call i: xs[off..off+dim)
  std::vector<Snap> snaps;
  Snap fin; bool has_fin = false;
  int outcome = -1;                     // 0 returned, 1 bad_alloc, 2 SimEx, 3 std::exception, 4 int, 5 other
  int exid = 0; std::string what;
  int optret = 0;
  int elapsed_time = 0; int64_t mono0 = 0, mono1 = 0;
  bool torn = false;                    // an objective call saw its point change
  uint64_t ngrad = 0, ntrans = 0, nplot = 0, nanfired = 0;
  int thrown = 0; int late = 0;
  int ncb_after_cancel = 0, calls_at_cancel = 0, cancelled = 0;
  int farm_lost = 0, farm_crash = 0, farm_dup = 0, farm_reord = 0;
  uint64_t reported_seed = 0;
  int lambda0 = 0, dim = 0;
  int ntrain = 0, npredict = 0, maxtset = 0, lambdaprime = 0, surr_l = 0; std::string surr_bad; std::vector<int> gen_trains;
  double sigma0 = 0;
  std::vector<double> lb, ub;
  std::string msg;
  // profile likelihood: rows of 2*samples+1 points in user space, and their values
  bool pl_done = false, pl_stored = false, sol_changed = false; int pl_calls0 = 0, pl_rows = 0; std::vector<double> plf, plx; double plmin = 0, plmax = 0, plemin = 0, plemax = 0; uint64_t plhash = 0;
  std::vector<std::pair<double, double>> ctr;
  uint64_t hash_calls() const;          // order sensitive
  uint64_t hash_calls_sorted() const;   // by generation, order inside a generation ignored
  uint64_t hash_state() const;          // snapshots, final state and outcome
};
struct RunOpts {
  int mode = 0;                         // 0 cmaes(), 1 ask/tell farm, 2 optimize(evalf,askf,tellf), 3 object.optimize()
  const libcmaes::CMASolutions *resume = nullptr;
  libcmaes::CMASolutions *ckpt_out = nullptr;   // copy of the state at progress step case.ckpt
  bool *ckpt_taken = nullptr;
  bool arm = false;                     // count / fail allocations of this run
  int max_snaps = 6000; int max_cb = 2000000000;
  bool full = true;                     // record populations
  std::function<void(int)> on_call, on_progress;     // before objective call n returns
  libcmaes::CMASolutions *sol_out = nullptr;
  bool cov = false;                     // record covariances
  int max_calls = 0;                    // more objective calls than this count as not ending
};
static const int NCRIT = 12;
extern const int CRITS[NCRIT];
double fixed_value(const Case &c, int i);
struct Stepper { virtual ~Stepper() {} virtual bool step() = 0; virtual void finish() = 0; };

void run_opt(const Case &c, RunOpts &o, RunTrace &t);
std::unique_ptr<Stepper> make_stepper(const Case &c, RunOpts &o, RunTrace &t);
void run_surr0(const Case &c, RunOpts &o, RunTrace &t);
void run_surr1(const Case &c, RunOpts &o, RunTrace &t);
#define GPDECL(K) void run_gp##K(const Case &, RunOpts &, RunTrace &); std::unique_ptr<Stepper> step_gp##K(const Case &, RunOpts &, RunTrace &);
GPDECL(0) GPDECL(1) GPDECL(2) GPDECL(3)

void snap_cov(const libcmaes::CMASolutions &s, Snap &p);
void snap_sols(const libcmaes::CMASolutions &s, Snap &p, bool full);
uint64_t hash_sols(const libcmaes::CMASolutions &s);
void throw_kind(int kind, int id);
void bounds_of(const Case &c, std::vector<double> &lb, std::vector<double> &ub);
std::vector<double> x0_of(const Case &c);
double xform(const Case &c, double v);   // strictly increasing on doubles, exact
double optimum_at(const Case &c, int i);  // coordinate of the unconstrained optimum of the simple objectives
double objective(const Case &c, const double *x, int n, int gen, bool *faulty);

// the per-run context user callbacks see
struct Ctx {
  const Case *c; RunOpts *o; RunTrace *t;
  int gen = 0; int ncalls = 0; int inflight = 0; bool gen_done_calls = false; int ntrans = 0; int ngrad = 0; int ncb = 0; int nplot = 0; bool in_snap = false;
  Case cs;
  double obj(const double *x, int n);
  void trans(const double *x, double *y, int n, bool pheno);
  void maybe_throw(int site, int count);
};
inline uint64_t hb(uint64_t h, double d) { uint64_t u; __builtin_memcpy(&u, &d, 8); return sim::mix(h, u); }
