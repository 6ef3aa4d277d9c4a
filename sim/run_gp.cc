// Drives the real library for one genotype/phenotype class (compiled once per GPK).
#include "run.h"
#include <libcmaes/cmaes.h>
#ifndef SURR
#include <libcmaes/errstats.h>
#endif
#include <stdexcept>
#include <fstream>
#include <limits>
#include <cstring>
#include <new>
using namespace libcmaes;
#ifdef SURR
#include <libcmaes/surrogatestrategy.h>
#if GPK == 0
#define to_mat_vec to_mat_vec_0
#else
#define to_mat_vec to_mat_vec_1
#endif
#include <libcmaes/surrogates/rsvm_surr_strategy.hpp>
#endif
#if GPK == 0
typedef GenoPheno<NoBoundStrategy> GP;
#define RUNFN run_gp0
#define STEPFN step_gp0
#elif GPK == 1
typedef GenoPheno<pwqBoundStrategy> GP;
#define RUNFN run_gp1
#define STEPFN step_gp1
#elif GPK == 2
typedef GenoPheno<NoBoundStrategy, linScalingStrategy> GP;
#define RUNFN run_gp2
#define STEPFN step_gp2
#else
typedef GenoPheno<pwqBoundStrategy, linScalingStrategy> GP;
#define RUNFN run_gp3
#define STEPFN step_gp3
#endif
typedef CMAParameters<GP> P;
#ifdef SURR
#undef RUNFN
#undef STEPFN
#if GPK == 0
#define RUNFN run_surr0
#else
#define RUNFN run_surr1
#endif
#endif

namespace {
const char *ALGN[] = {"cmaes", "ipop", "bipop", "acmaes", "aipop", "abipop", "sepcmaes", "sepipop", "sepbipop", "sepacmaes", "", "", "vdcma", "vdipopcma", "vdbipopcma"};
bool is_sep_algo(int a) { return a >= 6 && a <= 11; }
bool is_vd_algo(int a) { return a >= 12; }

P make_params(const Case &c, Ctx &cx) {
  std::vector<double> x0, lb, ub;
  { sim::MemOff mo; x0 = x0_of(c); bounds_of(c, lb, ub); }
  uint64_t seed = c.autoseed ? 0 : c.seed;
  P *pp = nullptr; (void)pp;
  Ctx *cp = &cx;
  GP gp;
  TransFunc gf = [cp](const double *x, double *y, const int &n) { cp->trans(x, y, n, false); };
  TransFunc pf = [cp](const double *x, double *y, const int &n) { cp->trans(x, y, n, true); };
#if GPK == 0
  if (c.trans) gp = GP(gf, pf);
#else
  if (c.trans) gp = GP(gf, pf, &lb.front(), &ub.front(), c.dim);
  else gp = GP(&lb.front(), &ub.front(), c.dim);
#endif
  P p;
#if GPK >= 2
  if (c.gpc == 1) {
    std::vector<double> sg(c.dim);
    for (int i = 0; i < c.dim; i++) sg[i] = c.sigma * (1.0 + 0.5 * (i % 3));
    p = P(x0, sg, c.lambda, lb, ub, seed);
  } else
#endif
  if (c.apiset & 1) p = P(c.dim, &x0.front(), c.sigma, c.lambda, seed, gp);
  else p = P(x0, c.sigma, c.lambda, seed, gp);
  if (c.apiset & 2) p.set_seed(c.autoseed ? 0 : (int)c.seed);
  if (c.stralgo && ALGN[c.algo][0]) p.set_str_algo(ALGN[c.algo]); else p.set_algo(c.algo);
  if (c.noisy) p.set_noisy();
  if (c.x0mode == 1) p.set_x0(-2.0, 3.0);
  else if (c.x0mode == 2) p.set_x0(-std::numeric_limits<double>::max());
  else if (c.x0mode == 3) { std::vector<double> a(c.dim), b(c.dim); for (int i = 0; i < c.dim; i++) { a[i] = x0[i] - 0.5; b[i] = x0[i] + 0.7; } p.set_x0(a, b); }
  p.set_max_iter(c.maxiter);
  p.set_max_fevals(c.maxfe);
  p.set_restarts(c.restarts);
  if (c.useft) p.set_ftarget(c.ftarget);
  p.set_ftolerance(c.ftol); p.set_xtolerance(c.xtol);
  if (c.elitism) p.set_elitism(c.elitism);
  if (c.tpa != 1) p.set_tpa(c.tpa);
  p.set_uh(c.uh != 0);
  p.set_gradient(c.grad != 0);
  p.set_edm(c.edm != 0);
  p.set_mt_feval(c.mt != 0);
  p.set_initial_fvalue(c.ifv != 0);
  p.set_maximize(c.maximize != 0);
  p.set_lazy_update(c.lazy != 0);
  if (c.maxhist > 0) p.set_max_hist(c.maxhist);
  p.set_quiet(c.quiet != 0);
  for (int i = 0; i < c.dim; i++) if (c.fixmask >> i & 1) {
    if (c.fixtwice) p.set_fixed_p(i, c.fixval + 3 + i);
    if (c.fixtwice == 2) { p.unset_fixed_p(i); }
    p.set_fixed_p(i, fixed_value(c, i));
  }
  for (int i = 0; i < NCRIT; i++) if (c.stopoff >> i & 1) {
    if (c.apiset & 4) p.set_stopping_criteria(CRITS[i], true);
    p.set_stopping_criteria(CRITS[i], false);
  }
  if (c.fplot) { p.set_fplot("/simfs/plot"); if (c.fplot == 2) p.set_full_fplot(true); }
  return p;
}

void pheno_snap(Ctx &cx, const P &p, const CMASolutions &s, Snap &sn, bool full) {
  cx.in_snap = true;
  const GP gp = p.get_gp(); int n = p.dim();
  struct F { static std::vector<double> go(const GP &gp, const std::vector<double> &x) { if (x.empty()) return x; dVec v = Eigen::Map<const dVec>(x.data(), x.size()); dVec y = gp.pheno(v); return std::vector<double>(y.data(), y.data() + y.size()); } };
  sn.besty = F::go(gp, sn.bestx); sn.seeny = F::go(gp, sn.seenx); sn.worsty = F::go(gp, sn.worstx); sn.meany = F::go(gp, sn.mean);
  if (full && n) for (size_t i = 0; i + n <= sn.cx.size(); i += n) {
    dVec v = Eigen::Map<const dVec>(sn.cx.data() + i, n); dVec y = gp.pheno(v);
    sn.cy.insert(sn.cy.end(), y.data(), y.data() + n);
  }
  (void)s;
  sn.lambda = p.lambda();
  cx.in_snap = false;
}

typedef ProgressFunc<P, CMASolutions> PF;
typedef PlotFunc<P, CMASolutions> PLF;

int on_progress(Ctx &cx, const P &p, const CMASolutions &s) {
  const Case &c = *cx.c; RunTrace &t = *cx.t;
  int cb;
  {
    sim::NoPreempt np; sim::MemOff mo;
    cb = cx.ncb++; cx.gen++;
    if (cx.ncb > cx.o->max_cb) sim::fail("unbounded", "more than %d progress callbacks (niter=%d fevals=%d)", cx.o->max_cb, s.niter(), s.fevals());
    if ((int)t.snaps.size() < cx.o->max_snaps) {
      t.snaps.push_back(Snap()); Snap &sn = t.snaps.back();
      snap_sols(s, sn, cx.o->full); if (cx.o->cov) snap_cov(s, sn); pheno_snap(cx, p, s, sn, cx.o->full);
      sn.ncalls = (int)t.calls.size();
      if (c.fplot) { std::string f = sim::io_content("/simfs/plot"); sn.plotlen = f.size(); sn.plotnl = f.empty() || f[f.size() - 1] == '\n'; sn.plotlines = 0; for (size_t i = 0; i < f.size(); i++) if (f[i] == '\n') sn.plotlines++; }
    }
    if (t.cancelled) t.ncb_after_cancel++;
    if (cx.o->ckpt_out && cb == c.ckpt && !*cx.o->ckpt_taken) { *cx.o->ckpt_out = s; *cx.o->ckpt_taken = true; }
    if (cx.o->on_progress) cx.o->on_progress(cb);
  }
  cx.maybe_throw(4, cb);
  if (c.cancelat >= 0 && cb >= c.cancelat) {
    if (!t.cancelled) { t.cancelled = 1; t.calls_at_cancel = (int)t.calls.size(); }
    return 1;
  }
  return 0;
}
int on_plot(Ctx &cx, const P &p, const CMASolutions &s, std::ofstream &f) {
  int k = cx.nplot++; (void)p;
  cx.maybe_throw(5, k);
  f << "P " << s.niter() << " " << s.fevals() << " " << s.sigma() << std::endl;
  return 0;
}
dVec on_grad(Ctx &cx, const double *x, const int &n) {
  int k = cx.ngrad++; cx.t->ngrad++;
  sim::yield_point();
  cx.maybe_throw(3, k);
  dVec g(n); for (int i = 0; i < n; i++) g[i] = 2.0 * (x[i] - 0.1) + 1e-3; return g;
}
void final_snap(Ctx &cx, const P &p, const CMASolutions &s) {
  sim::NoPreempt np; sim::MemOff mo;
  RunTrace &t = *cx.t;
  snap_sols(s, t.fin, cx.o->full); pheno_snap(cx, p, s, t.fin, cx.o->full);
  t.fin.ncalls = (int)t.calls.size(); t.has_fin = true; t.elapsed_time = s.elapsed_time();
  if (cx.o->sol_out) *cx.o->sol_out = s;
}

// ---- evaluation farm for ask/tell -----------------------------------------
struct Farm {
  Ctx *cx; std::function<double(const double *, int)> fit; dMat cand, ph; CMASolutions *sol; std::vector<int> todo; size_t next; sim::Rng rng; int faults[6];
};
void farm_one(Farm &f, int r) {
  double v = f.fit(f.ph.col(r).data(), f.ph.rows());
  Candidate &c = f.sol->get_candidate(r);
  c.set_x(f.cand.col(r)); c.set_fvalue(v); c.set_id(r);
}
void farm_worker(void *a) {
  Farm &f = *(Farm *)a;
  while (true) {
    int r; { sim::NoPreempt np; if (f.next >= f.todo.size()) return; r = f.todo[f.next++]; }
    sim::yield_point();
    farm_one(f, r);
  }
}
template <class S> struct OptT : public ESOptimizer<S, P, CMASolutions> {
  typedef ESOptimizer<S, P, CMASolutions> B;
  OptT(FitFunc &f, P &p) : B(f, p) {}
  OptT(FitFunc &f, P &p, const CMASolutions &s) : B(f, p, s) {}
};

template <class O> void farm_generation(O &opt, Ctx &cx, sim::Rng &rng) {
  const Case &c = *cx.c;
  dMat cand = opt.ask();
  GP gp = opt.get_parameters().get_gp();
  if (c.variant == 0) { opt.eval(cand, gp.pheno(cand)); }
  else if (c.variant == 3) { opt.eval(cand); }
  else {
    dMat ph = gp.pheno(cand);
    Farm f; f.cx = &cx; f.cand = cand; f.ph = ph; f.sol = &opt.get_solutions(); f.next = 0; f.rng = rng;
    f.fit = [&opt](const double *x, int n) { return opt.fitfunc(x, n); };
    int n = cand.cols();
    for (int i = 0; i < n; i++) f.todo.push_back(i);
    for (int i = n - 1; i > 0; i--) std::swap(f.todo[i], f.todo[rng.below(i + 1)]);
    if (c.variant == 2) {
      int nw = 2 + (int)rng.below(4); int h[8];
      for (int i = 0; i < nw; i++) h[i] = sim::spawn(farm_worker, &f);
      for (int i = 0; i < nw; i++) sim::join(h[i]);
    } else {
      // message-passing farm: requests and replies may be lost, delayed, reordered, duplicated; workers crash
      std::vector<int> q = f.todo; std::vector<std::pair<int, double>> inbox; std::vector<char> got(n, 0); int left = n; size_t qi = 0; int guard = 0;
      while (left > 0) {
        if (++guard > 100000) sim::fail("harness", "farm does not finish");
        bool progress = rng.chance(0.6);
        if (progress && qi < q.size()) {
          int r = q[qi++];
          double u = rng.unit();
          if (u < 0.07) { cx.t->farm_lost++; q.push_back(r); continue; }             // request lost, retried
          double v = opt.fitfunc(ph.col(r).data(), ph.rows());
          if (u < 0.14) { cx.t->farm_crash++; q.push_back(r); continue; }            // worker died after evaluating
          inbox.push_back(std::make_pair(r, v));
          if (u < 0.24) { cx.t->farm_dup++; inbox.push_back(std::make_pair(r, v)); }
          if (u > 0.93) { cx.t->farm_dup++; q.push_back(r); }                        // speculative second evaluation
        } else if (!inbox.empty()) {
          size_t k = rng.below(inbox.size()); if (k) cx.t->farm_reord++;
          std::pair<int, double> m = inbox[k]; inbox.erase(inbox.begin() + k);
          Candidate &cd = opt.get_solutions().get_candidate(m.first);
          cd.set_fvalue(m.second); cd.set_x(cand.col(m.first)); cd.set_id(m.first);
          if (!got[m.first]) { got[m.first] = 1; left--; }
        }
      }
    }
    opt.update_fevals(n);
  }
  opt.tell();
  opt.inc_iter();
}

template <class S> void run_obj(const Case &c, RunOpts &o, RunTrace &t, Ctx &cx, FitFunc &func, P &p, PF &pf, GradFunc &gf, PLF &plf) {
  std::unique_ptr<OptT<S>> opt;
  if (o.resume) opt.reset(new OptT<S>(func, p, *o.resume)); else opt.reset(new OptT<S>(func, p));
  if (c.grad == 2) opt->set_gradient_func(gf);
  opt->set_progress_func(pf);
  if (c.fplot == 3) opt->set_plot_func(plf);
  if (o.mode == 1) {
    sim::Rng rng(c.fseed);
    while (!opt->stop()) farm_generation(*opt, cx, rng);
  } else if (o.mode == 2) {
    OptT<S> *q = opt.get();
    EvalFunc ef = [q](const dMat &a, const dMat &b) { q->eval(a, b); };
    AskFunc af = [q]() { return q->ask(); };
    TellFunc tf = [q]() { q->tell(); };
    t.optret = q->S::optimize(ef, af, tf);
  } else t.optret = opt->optimize();
  final_snap(cx, opt->get_parameters(), opt->get_solutions());
}
#ifdef SURR
#include "surr_drive.h"
#else
template <template <class> class D, class... A> void dispatch(int algo, A &&...a) {
  switch (algo) {
    case 0: case 6: D<CMAStrategy<CovarianceUpdate, GP>>::go(a...); break;
    case 1: case 7: D<IPOPCMAStrategy<CovarianceUpdate, GP>>::go(a...); break;
    case 2: case 8: D<BIPOPCMAStrategy<CovarianceUpdate, GP>>::go(a...); break;
    case 3: case 9: D<CMAStrategy<ACovarianceUpdate, GP>>::go(a...); break;
    case 4: case 10: D<IPOPCMAStrategy<ACovarianceUpdate, GP>>::go(a...); break;
    case 5: case 11: D<BIPOPCMAStrategy<ACovarianceUpdate, GP>>::go(a...); break;
    case 12: D<CMAStrategy<VDCMAUpdate, GP>>::go(a...); break;
    case 13: D<IPOPCMAStrategy<VDCMAUpdate, GP>>::go(a...); break;
    default: D<BIPOPCMAStrategy<VDCMAUpdate, GP>>::go(a...); break;
  }
}
template <class S> struct RunD {
  static void go(const Case &c, RunOpts &o, RunTrace &t, Ctx &cx, FitFunc &func, P &p, PF &pf, GradFunc &gf, PLF &plf) { run_obj<S>(c, o, t, cx, func, p, pf, gf, plf); }
};
#endif

#ifndef SURR
struct SolGuard {      // notices any change to the finished optimization's result, also when the computation is left by an exception
  const CMASolutions &s; RunTrace &t; uint64_t h;
  SolGuard(const CMASolutions &s_, RunTrace &t_) : s(s_), t(t_) { sim::NoPreempt np; sim::MemOff mo; h = hash_sols(s); }
  ~SolGuard() { sim::NoPreempt np; sim::MemOff mo; if (hash_sols(s) != h) t.sol_changed = true; }
};
void profile(const Case &c, RunTrace &t, Ctx &cx, FitFunc &func, const P &p, CMASolutions &s) {
  { sim::NoPreempt np; sim::MemOff mo; cx.gen = 1000000; t.pl_calls0 = (int)t.calls.size(); }
  SolGuard g(s, t);
  if (c.pl == 1) {
    pli le = errstats<GP>::profile_likelihood(func, p, s, c.plk, c.plcurve != 0, c.plsamples, c.plfup, c.pldelta, c.pliters);
    sim::NoPreempt np; sim::MemOff mo;
    dVec f = le.get_fvaluem(); dMat x = le.get_xm(); t.pl_rows = x.rows();
    t.plf.assign(f.data(), f.data() + f.size());
    for (int i = 0; i < x.rows(); i++) for (int j = 0; j < x.cols(); j++) t.plx.push_back(x(i, j));
    t.plmin = le.get_min(); t.plmax = le.get_max(); t.plemin = le.get_err_min(); t.plemax = le.get_err_max();
    pli st; dMat y; if (s.get_pli(c.plk, st)) y = st.get_xm(); t.pl_stored = st.get_k() == c.plk && y.size() == x.size() && !memcmp(y.data(), x.data(), sizeof(double) * x.size());
    t.pl_done = true;
  } else {
    contour ct = errstats<GP>::contour_points(func, c.plk, c.plk2, c.plpoints, c.plfup, p, s, c.pldelta, c.pliters);
    sim::NoPreempt np; sim::MemOff mo;
    t.ctr.assign(ct._points.begin(), ct._points.end()); t.pl_done = true;
  }
}
#endif
void body(const Case &c, RunOpts &o, RunTrace &t, Ctx &cx) {
  FitFunc func = [&cx](const double *x, const int n) { return cx.obj(x, n); };
  PF pf = [&cx](const P &p, const CMASolutions &s) { return on_progress(cx, p, s); };
  PLF plf = [&cx](const P &p, const CMASolutions &s, std::ofstream &f) { return on_plot(cx, p, s, f); };
  GradFunc gf = nullptr;
  if (c.grad == 2) gf = [&cx](const double *x, const int &n) { return on_grad(cx, x, n); };
  P p = make_params(c, cx);
  t.reported_seed = (uint64_t)(int64_t)p.get_seed(); t.lambda0 = p.lambda();
  t.mono0 = sim::mono_now();
#ifndef SURR
  if (o.mode == 0) {
    CMASolutions none;
    CMASolutions s = cmaes<GP>(func, p, pf, gf, o.resume ? *o.resume : none, c.fplot == 3 ? plf : CMAStrategy<CovarianceUpdate, GP>::_defaultFPFunc);
    t.mono1 = sim::mono_now();
    final_snap(cx, p, s);
    if (c.pl) profile(c, t, cx, func, p, s);
  } else
#endif
  {
    if (is_sep_algo(c.algo) && !p.is_sep()) p.set_sep();
    if (is_vd_algo(c.algo) && !p.is_vd()) p.set_vd();
#ifdef SURR
    surr_dispatch(c, o, t, cx, func, p, pf, gf, plf);
#else
    dispatch<RunD>(c.algo, c, o, t, cx, func, p, pf, gf, plf);
#endif
    t.mono1 = sim::mono_now();
  }
  t.outcome = 0;
}

#ifndef SURR
template <class S> struct StepT : public Stepper {
  Case cs; RunOpts &o; RunTrace &t; Ctx cx; FitFunc func; PF pf; std::unique_ptr<OptT<S>> opt; sim::Rng rng;
  StepT(const Case &c, RunOpts &o_, RunTrace &t_) : cs(c), o(o_), t(t_), rng(c.fseed) {
    t.dim = c.dim; cx.c = &cs; cx.o = &o; cx.t = &t;
    Ctx *q = &cx;
    func = [q](const double *x, const int n) { return q->obj(x, n); };
    pf = [q](const P &p, const CMASolutions &s) { return on_progress(*q, p, s); };
    P p = make_params(cs, cx);
    if (is_sep_algo(c.algo) && !p.is_sep()) p.set_sep();
    if (is_vd_algo(c.algo) && !p.is_vd()) p.set_vd();
    t.lambda0 = p.lambda();
    opt.reset(new OptT<S>(func, p));
    opt->set_progress_func(pf);
  }
  bool step() { if (opt->stop()) return false; farm_generation(*opt, cx, rng); return true; }
  void finish() { final_snap(cx, opt->get_parameters(), opt->get_solutions()); t.outcome = 0; }
};
#endif
}

void RUNFN(const Case &c, RunOpts &o, RunTrace &t) {
  Ctx cx; cx.c = &c; cx.o = &o; cx.t = &t; t.dim = c.dim; t.sigma0 = c.sigma;
  bounds_of(c, t.lb, t.ub);
  t.mono0 = sim::mono_now();
  if (o.arm) sim::mem_arm(true);
  try { body(c, o, t, cx); }
  catch (const SimEx &e) { sim::mem_arm(false); t.outcome = 2; t.exid = e.id; }
  catch (const std::bad_alloc &e) { sim::mem_arm(false); t.outcome = 1; t.what = "bad_alloc"; }
  catch (const std::exception &e) { sim::mem_arm(false); t.outcome = 3; t.what = e.what(); }
  catch (int e) { sim::mem_arm(false); t.outcome = 4; t.exid = e; }
  catch (...) { sim::mem_arm(false); t.outcome = 5; }
  sim::mem_arm(false);
  t.mono1 = sim::mono_now();
  if (cx.inflight && t.outcome == 0) t.late = cx.inflight;
}
#ifndef SURR
template <class S> struct StepD { static void go(std::unique_ptr<Stepper> &out, const Case &c, RunOpts &o, RunTrace &t) { out.reset(new StepT<S>(c, o, t)); } };
std::unique_ptr<Stepper> STEPFN(const Case &c, RunOpts &o, RunTrace &t) {
  std::unique_ptr<Stepper> out; bounds_of(c, t.lb, t.ub);
  dispatch<StepD>(c.algo, out, c, o, t);
  return out;
}
#endif
