// Case generators and oracles, one pair per property.
#include "props.h"
#include "model.h"
#include <cmath>
#include <cstring>
#include <algorithm>
#include <limits>
#include <set>
using sim::Rng;
#define BAD(cls, ...) sim::fail(cls, __VA_ARGS__)

Stats ST;
std::vector<sim::Switch> g_case_trace;
static uint64_t fbits(double d) { if (d != d) return 0x7ff8000000000000ull; if (d == 0) d = 0; uint64_t u; memcpy(&u, &d, 8); return u; }
static bool same(double a, double b) { return fbits(a) == fbits(b); }
static bool restart_algo(int a) { return a % 3 != 0; }
static bool bipop_algo(int a) { return a % 3 == 2; }
static bool bounded(const Case &c) { return c.gp == 1 || c.gp == 3; }

// ------------------------------------------------------------------ environment
static std::vector<sim::Switch> parse_trace(const std::string &s) {
  std::vector<sim::Switch> v; const char *p = s.c_str();
  while (*p) { char *e; unsigned long long a = strtoull(p, &e, 10); if (e == p || *e != ':') break; long b = strtol(e + 1, &e, 10); v.push_back(sim::Switch{a, (int)b}); p = *e == ',' ? e + 1 : e; if (*e != ',') break; }
  return v;
}
struct Env { bool par, jumps, io; uint64_t eseed, cseed; int fill; uint64_t fillseed; uint64_t oomat, oomcount; size_t oommin; int64_t wall0; };
static Env base_env() { Env e; e.par = false; e.jumps = false; e.io = false; e.eseed = 1; e.cseed = 1; e.fill = -1; e.fillseed = 1; e.oomat = 0; e.oomcount = 1; e.oommin = 0; e.wall0 = 1400000000ll * 1000000000ll; return e; }
static void env_begin(const Case &c, const Env &e) {
  sim::SchedCfg s;
  if (e.par) { s.nthreads = c.threads; s.policy = c.pol; s.seed = c.sseed; s.gap = c.gap; if (c.replay) { s.replay = true; s.trace = parse_trace(c.trace); } }
  sim::sched_begin(s);
  sim::ClockCfg k; k.seed = e.cseed; k.wall0_ns = e.wall0;
  if (e.jumps) {
    const char *p = c.jumps.c_str();
    while (*p) { char *q; unsigned long long a = strtoull(p, &q, 10); if (q == p || *q != ':') break; long long b = strtoll(q + 1, &q, 10); k.jumps.push_back(sim::ClockJump{a, b * 1000000ll}); p = *q == ',' ? q + 1 : q; if (*q != ',') break; }
  }
  sim::clock_begin(k);
  sim::entropy_begin(e.eseed);
  sim::MemCfg m; m.fill = e.fill; m.fill_seed = e.fillseed; m.fail_at = e.oomat; m.fail_count = e.oomcount; m.fail_min = e.oommin;
  sim::mem_begin(m);
  sim::IoCfg io;
  if (e.io) {
    const char *p = c.iofaults.c_str();
    while (*p) { char *q; unsigned long long a = strtoull(p, &q, 10); if (q == p || *q != ':') break; long b = strtol(q + 1, &q, 10); if (*q != ':') break; unsigned long long g = strtoull(q + 1, &q, 10); io.faults.push_back(sim::IoFault{a, (int)b, g}); p = *q == ',' ? q + 1 : q; if (*q != ',') break; }
    io.disk_limit = c.disk;
  }
  sim::io_begin(io);
}
static void env_end(const Env &e, const RunTrace &t) {
  if (e.par) g_case_trace = sim::sched_trace();
  ST.runs++; ST.calls += t.calls.size(); ST.gens += t.snaps.size();
  ST.switches += sim::sched_switches(); ST.steps += sim::sched_steps(); ST.conflicts += sim::sched_conflicts(); ST.regions = sim::par_regions();
  if (e.par) ST.shash = sim::mix(ST.shash, sim::sched_hash());
  ST.sthash = sim::mix(ST.sthash, t.hash_state());
  ST.simns += t.mono1 - t.mono0;
  ST.f_nan += t.nanfired; ST.f_throw += t.thrown; ST.f_oom += sim::mem_failed(); ST.f_cancel += t.cancelled;
  ST.f_io_short += sim::io_fired(sim::IO_SHORT); ST.f_io_eintr += sim::io_fired(sim::IO_EINTR); ST.f_io_enospc += sim::io_fired(sim::IO_ENOSPC);
  ST.f_io_eio += sim::io_fired(sim::IO_EIO); ST.f_io_open += sim::io_fired(sim::IO_OPENFAIL); ST.f_clock += sim::clock_jumps_fired();
  ST.f_lost += t.farm_lost; ST.f_crash += t.farm_crash; ST.f_dup += t.farm_dup; ST.f_reorder += t.farm_reord;
  if (e.fill >= 0) ST.f_fill++;
  if (t.snaps.size()) for (size_t i = 1; i < t.snaps.size(); i++) if (t.snaps[i].niter == 0) ST.f_restart++;
  sim::sched_end();
}
static void go(const Case &c, const Env &e, RunOpts &o, RunTrace &t) { env_begin(c, e); run_opt(c, o, t); env_end(e, t); }
static void serial(const Case &c, RunTrace &t) { RunOpts o; go(c, base_env(), o, t); }
static void need_return(const RunTrace &t, const char *who) {
  if (t.outcome != 0) BAD("unexpected-exception", "%s ended with exception outcome=%d what=%s", who, t.outcome, t.what.c_str());
}

// ------------------------------------------------------------------ shared oracles
// value as the library stores it
static double lib_value(const Case &c, double v) { return c.maximize ? -1.0 * v : v; }
static bool near_pt(const double *a, const double *b, int n) {
  for (int i = 0; i < n; i++) { double d = std::fabs(a[i] - b[i]); if (!(d <= 1e-9 * (1 + std::fabs(a[i])))) { if (a[i] == b[i] || (a[i] != a[i] && b[i] != b[i])) continue; return false; } }
  return true;
}
static bool evaluated(const Case &c, const RunTrace &t, const double *y, double f, int lo, int hi) {
  int n = t.dim;
  for (int j = hi - 1; j >= lo; j--) if (same(lib_value(c, t.calls[j].f), f) && near_pt(&t.xs[t.calls[j].off], y, n)) return true;
  return false;
}
// index of the first snapshot of each run (a restart begins with niter 0)
static std::vector<int> run_starts(const RunTrace &t) {
  std::vector<int> v; for (size_t i = 0; i < t.snaps.size(); i++) if (i == 0 || t.snaps[i].niter == 0) v.push_back((int)i);
  return v;
}
static void cmp_runs(const char *cls, const RunTrace &a, const RunTrace &b, const char *what, bool sorted_calls, bool calls = true) {
  if (a.outcome != b.outcome) BAD(cls, "%s: outcome %d instead of %d", what, b.outcome, a.outcome);
  size_t n = std::min(a.snaps.size(), b.snaps.size());
  for (size_t i = 0; i < n; i++) if (a.snaps[i].hash != b.snaps[i].hash)
    BAD(cls, "%s: search state differs at progress step %zu (niter %d/%d fevals %d/%d sigma %.17g/%.17g best %.17g/%.17g)", what, i, a.snaps[i].niter, b.snaps[i].niter, a.snaps[i].fevals, b.snaps[i].fevals, a.snaps[i].sigma, b.snaps[i].sigma, a.snaps[i].bestf, b.snaps[i].bestf);
  if (a.snaps.size() != b.snaps.size()) BAD(cls, "%s: %zu progress steps instead of %zu", what, b.snaps.size(), a.snaps.size());
  if (a.has_fin != b.has_fin || (a.has_fin && a.fin.hash != b.fin.hash)) BAD(cls, "%s: final solution differs (status %d/%d fevals %d/%d best %.17g/%.17g edm %.17g/%.17g)", what, a.fin.status, b.fin.status, a.fin.fevals, b.fin.fevals, a.fin.bestf, b.fin.bestf, a.fin.edm, b.fin.edm);
  if (calls) {
    uint64_t x = sorted_calls ? a.hash_calls_sorted() : a.hash_calls(), y = sorted_calls ? b.hash_calls_sorted() : b.hash_calls();
    if (x != y) BAD(cls, "%s: evaluated points differ (%zu/%zu calls)", what, a.calls.size(), b.calls.size());
  }
}
static void chk_counts(const Case &c, const RunTrace &t, const char *cls) {
  for (size_t i = 0; i < t.snaps.size(); i++) {
    const Snap &s = t.snaps[i];
    if (s.fevals != s.ncalls) BAD(cls, "progress step %zu (niter %d) reports %d evaluations, objective was called %d times", i, s.niter, s.fevals, s.ncalls);
    if (i == 0) { if (s.niter != 0) BAD(cls, "first progress step reports iteration %d", s.niter); }
    else {
      const Snap &p = t.snaps[i - 1];
      if (s.niter == 0) { if (!restart_algo(c.algo) && c.elitism != 3) BAD(cls, "iteration counter fell back to 0 at step %zu without a restart strategy", i); continue; }
      if (s.niter != p.niter + 1) BAD(cls, "iteration number went from %d to %d at step %zu", p.niter, s.niter, i);
      int got = s.ncalls - p.ncalls, want = s.size + (c.grad == 1 ? c.dim + 1 : 0);
      if (c.uh) { if (got <= want || got > 2 * want + 1) BAD(cls, "generation of %d candidates made %d objective calls with uncertainty handling", s.size, got); }
      else if (got != want) BAD(cls, "generation %d of %d candidates made %d objective calls instead of %d", s.niter, s.size, got, want);
    }
  }
  if (!t.has_fin || t.outcome != 0) return;
  std::vector<int> st = run_starts(t); bool ok = t.fin.fevals == (int)t.calls.size(), itok = false;
  for (size_t k = 0; k < st.size(); k++) if (t.fin.niter == t.snaps[(k + 1 < st.size() ? st[k + 1] : (int)t.snaps.size()) - 1].niter) itok = true;
  if (!itok && st.size()) BAD(cls, "returned iteration count %d is that of none of the %zu runs", t.fin.niter, st.size());
  if (!ok) BAD(cls, "returned solution reports %d evaluations, objective was called %zu times over %zu runs", t.fin.fevals, t.calls.size(), st.size());
  if (!restart_algo(c.algo) && t.snaps.size() && t.fin.niter != t.snaps.back().niter) BAD(cls, "returned iteration count %d, last progress step had %d", t.fin.niter, t.snaps.back().niter);
  if (t.late) BAD(cls, "%d objective calls still in flight after return", t.late);
}
static void chk_bijection(const Case &c, const RunTrace &t, const char *cls) {
  for (size_t i = 1; i < t.snaps.size(); i++) {
    const Snap &s = t.snaps[i]; if (s.niter == 0 || (int)s.cy.size() != s.size * t.dim) continue;
    int lo = t.snaps[i - 1].ncalls, hi = s.ncalls, miss = 0;
    std::vector<char> used(hi - lo, 0);
    for (int k = 0; k < s.size; k++) {
      bool f = false;
      for (int pass = 0; pass < 2 && !f; pass++) for (int j = lo; j < hi && !f; j++) if (!used[j - lo] && same(lib_value(c, t.calls[j].f), s.cf[k])) {
        const double *x = &t.xs[t.calls[j].off], *y = &s.cy[k * t.dim];
        if (pass == 0 ? memcmp(x, y, sizeof(double) * t.dim) == 0 : near_pt(x, y, t.dim)) { used[j - lo] = 1; f = true; }
      }
      if (!f) miss++;
    }
    int allow = c.elitism ? 1 : 0;
    if (miss > allow) BAD(cls, "generation %d: %d population members have no evaluation of their own in that generation", s.niter, miss);
  }
}
static void chk_bounds(const Case &c, const RunTrace &t, const char *cls) {
  int n = t.dim;
  struct In {
    const RunTrace &t; bool ok(const double *y, int *bad) const {
      for (int i = 0; i < t.dim; i++) { double tol = 1e-9 * (t.ub[i] - t.lb[i] + std::max(std::fabs(t.lb[i]), std::fabs(t.ub[i]))); if (!(y[i] >= t.lb[i] - tol && y[i] <= t.ub[i] + tol)) { *bad = i; return false; } }
      return true;
    }
  } in = {t};
  int b = 0; (void)c;
  for (size_t j = 0; j < t.calls.size(); j++) { const double *x = &t.xs[t.calls[j].off]; if (!in.ok(x, &b)) BAD(cls, "objective call %zu (step %d) got x[%d]=%.17g outside [%.17g,%.17g]", j, t.calls[j].gen, b, x[b], t.lb[b], t.ub[b]); }
  std::vector<const Snap *> v; for (size_t i = 0; i < t.snaps.size(); i++) v.push_back(&t.snaps[i]);
  if (t.has_fin) v.push_back(&t.fin);
  for (size_t i = 0; i < v.size(); i++) {
    const Snap &s = *v[i];
    if ((int)s.meany.size() == n && !in.ok(&s.meany[0], &b)) BAD(cls, "mean at step %zu maps to x[%d]=%.17g outside [%.17g,%.17g]", i, b, s.meany[b], t.lb[b], t.ub[b]);
    if ((int)s.besty.size() == n && !in.ok(&s.besty[0], &b)) BAD(cls, "best candidate at step %zu out of bounds in %d", i, b);
    if ((int)s.seeny.size() == n && !in.ok(&s.seeny[0], &b)) BAD(cls, "best seen candidate at step %zu out of bounds in %d", i, b);
    for (size_t k = 0; k + n <= s.cy.size(); k += n) if (!in.ok(&s.cy[k], &b)) BAD(cls, "candidate %zu at step %zu out of bounds in %d", k / n, i, b);
  }
}
static void chk_fixed(const Case &c, const RunTrace &t, const char *cls) {
  int n = t.dim;
  std::vector<const Snap *> v; for (size_t i = 0; i < t.snaps.size(); i++) v.push_back(&t.snaps[i]);
  if (t.has_fin) v.push_back(&t.fin);
  for (int d = 0; d < n; d++) if (c.fixmask >> d & 1) {
    double fv = fixed_value(c, d), pv = 0; bool hp = false;
    for (size_t i = 0; i < v.size(); i++) {
      const Snap &s = *v[i];
      if ((int)s.mean.size() == n && !(std::fabs(s.mean[d] - fv) <= 1e-12 * (1 + std::fabs(fv)))) BAD(cls, "mean[%d]=%.17g at step %zu, parameter fixed at %.17g", d, s.mean[d], i, fv);
      for (int k = 0; (k + 1) * n <= (int)s.cx.size(); k++) if (s.cx[k * n + d] != fv) {
        // the elitist / initial candidate carries the mean, equal up to rounding
        if (c.elitism && std::fabs(s.cx[k * n + d] - fv) <= 1e-12 * (1 + std::fabs(fv))) continue;
        BAD(cls, "candidate %d at step %zu has x[%d]=%.17g, fixed at %.17g", k, i, d, s.cx[k * n + d], fv);
      }
      if ((int)s.bestx.size() == n && !(std::fabs(s.bestx[d] - fv) <= 1e-12 * (1 + std::fabs(fv)))) BAD(cls, "best candidate at step %zu has x[%d]=%.17g, fixed at %.17g", i, d, s.bestx[d], fv);
      if ((int)s.seenx.size() == n && !(std::fabs(s.seenx[d] - fv) <= 1e-12 * (1 + std::fabs(fv)))) BAD(cls, "best seen candidate at step %zu has x[%d]=%.17g, fixed at %.17g", i, d, s.seenx[d], fv);
      if ((int)s.cy.size() >= n && !hp) { pv = s.cy[d]; hp = true; }
    }
    if (hp) for (size_t j = 0; j < t.calls.size(); j++) { double x = t.xs[t.calls[j].off + d]; if (!(std::fabs(x - pv) <= 1e-11 * (1 + std::fabs(pv)))) BAD(cls, "objective call %zu got x[%d]=%.17g, fixed parameter should map to %.17g", j, d, x, pv); }
  } else {
    // searched: at least two different values over the first generation's population
    for (size_t i = 0; i < t.snaps.size(); i++) if (t.snaps[i].niter == 1 && t.snaps[i].size >= 2 && (int)t.snaps[i].cx.size() == t.snaps[i].size * n) {
      bool var = false; for (int k = 1; k < t.snaps[i].size; k++) if (t.snaps[i].cx[k * n + d] != t.snaps[i].cx[d]) var = true;
      if (!var && t.snaps[i].sigma > 1e-8) BAD(cls, "parameter %d is not fixed but was never varied", d);
      break;
    }
  }
}
static bool off(const Case &c, int crit) { for (int i = 0; i < NCRIT; i++) if (CRITS[i] == crit) return c.stopoff >> i & 1; return false; }
static void chk_status(const Case &c, const RunTrace &t, const char *cls) {
  if (!t.has_fin || t.outcome != 0) return;
  std::vector<int> st = run_starts(t);
  const Snap &f = t.fin;
  // promptness
  for (size_t i = 0; i + 1 < t.snaps.size(); i++) {
    const Snap &s = t.snaps[i]; if (s.niter == 0 || t.snaps[i + 1].niter == 0) continue;
    if (!off(c, 10) && c.useft && s.bestf <= c.ftarget) BAD(cls, "run went on past step %zu (niter %d) with best value %.17g at or below the target %.17g", i, s.niter, s.bestf, c.ftarget);
    if (!off(c, 8) && c.maxfe > 0 && s.fevals >= c.maxfe) BAD(cls, "run went on past step %zu with %d evaluations, budget %d", i, s.fevals, c.maxfe);
    if (!off(c, 9) && c.maxiter > 0 && s.niter >= c.maxiter) BAD(cls, "run went on past iteration %d, limit %d", s.niter, c.maxiter);
  }
  if (t.cancelled) return;
  if (f.status == 0) BAD(cls, "run ended without being cancelled but reports status 0 (niter %d fevals %d)", f.niter, f.fevals);
  if (f.status != 0 && off(c, f.status)) BAD(cls, "run ended on criterion %d which was switched off", f.status);
  // the history of the run that was returned: find it by its last state
  int lo = -1, hi = -1;
  for (size_t k = 0; k < st.size(); k++) {
    int e = (k + 1 < st.size() ? st[k + 1] : (int)t.snaps.size()) - 1;
    if (t.snaps[e].niter == f.niter && t.snaps[e].mean.size() == f.mean.size() && memcmp(t.snaps[e].mean.data(), f.mean.data(), sizeof(double) * f.mean.size()) == 0) { lo = st[k]; hi = e; }
  }
  if (lo < 0) BAD(cls, "returned state is not the last state of any run");
  int lambda = f.size, dim = t.dim; double sig0 = t.snaps[lo].sigma;
  switch (f.status) {
    case 10: if (!(f.bestf <= (c.useft ? c.ftarget : -std::numeric_limits<double>::infinity()))) BAD(cls, "status says target reached, best value %.17g, target %.17g", f.bestf, c.useft ? c.ftarget : -INFINITY); break;
    case 8: if (c.maxfe < 0 && !bipop_algo(c.algo)) BAD(cls, "status says evaluation budget used but none was set"); if (!bipop_algo(c.algo) && f.fevals < c.maxfe) BAD(cls, "status says budget used: %d of %d", f.fevals, c.maxfe); break;
    case 9: if (c.maxiter < 0 || f.niter < c.maxiter) BAD(cls, "status says iteration limit reached: %d of %d", f.niter, c.maxiter); break;
    case 7: { double th = 100.0 + 50 * std::pow(dim + 3.0, 2) / std::sqrt((double)lambda); if (f.niter < th - 1) BAD(cls, "status says automatic iteration limit (%.1f) reached at iteration %d", th, f.niter); break; }
    case 1: {
      int h = 10 + (int)std::ceil((double)(30 * dim / lambda)); int mh = c.maxhist > 0 ? c.maxhist : h; h = std::min(h, mh);
      if (hi - lo < h) BAD(cls, "status says converged after %d generations, history of %d needed", hi - lo, h);
      double a = INFINITY, b = -INFINITY; for (int i = hi - h + 1; i <= hi; i++) { double v = t.snaps[i].bestf; if (v != v) BAD(cls, "status says converged with NaN values in the history"); a = std::min(a, v); b = std::max(b, v); }
      if (!(b - a < std::max(c.ftol, 1e-12) * (1 + 1e-9)) && !(a == b)) BAD(cls, "status says converged but the last %d best values span %.17g (tolerance %.3g)", h, b - a, c.ftol);
      break;
    }
    case 5: {
      int cnt = 0, h = std::min(dim, hi - lo); if (c.maxhist > 0) h = std::min(h, c.maxhist); int k = std::min(lambda - 1, (int)(1.0 + std::ceil(0.1 + lambda / 4.0)));
      for (int i = hi - h + 1; i <= hi; i++) { std::vector<double> z = t.snaps[i].cf; if (!c.uh) std::sort(z.begin(), z.end(), [](double a, double b) { return a < b || (b != b && a == a); }); if ((int)z.size() > k && z[0] == z[k]) cnt++; }
      if (!c.uh && !(cnt > h / 3.0)) BAD(cls, "status says equal values, only %d of the last %d generations have them", cnt, h);
      break;
    }
    case 2: { double tol = std::max(c.xtol, 1e-12), fac = f.sigma / (c.sigma > 0 && !restart_algo(c.algo) ? (c.gpc == 1 && c.gp >= 2 ? c.sigma : c.sigma) : sig0);
      for (size_t i = 0; i < f.diag.size(); i++) if (!(fac * std::sqrt(f.diag[i]) < tol * (1 + 1e-6))) BAD(cls, "status says step sizes below tolerance %.3g but sigma/sigma0*sqrt(C[%zu])=%.6g", tol, i, fac * std::sqrt(f.diag[i])); break; }
    case -13: if (!(f.sigma / sig0 > 0.99e20 * std::sqrt(f.maxeig))) BAD(cls, "status says sigma diverged: sigma=%.6g sigma0=%.6g max eigenvalue %.6g", f.sigma, sig0, f.maxeig); break;
    case -15: if (!(f.maxeig / f.mineig > 1e13)) BAD(cls, "status says covariance is ill-conditioned: eigenvalues %.6g..%.6g", f.mineig, f.maxeig); break;
    case 6: {
      if (hi - lo < 20) BAD(cls, "status says stagnation after %d generations", hi - lo);
      // newest 20 best values against the oldest recorded medians: the newest may not all be better than every median seen
      double bestnew = -INFINITY, minmed = INFINITY; std::vector<double> nb;
      for (int i = hi - 19; i <= hi; i++) nb.push_back(t.snaps[i].bestf);
      for (int i = lo + 1; i <= hi; i++) { std::vector<double> z = t.snaps[i].cf; size_t m = z.size(); if (!m) continue; double md = m % 2 ? z[m / 2] : (z[m / 2 - 1] + z[m / 2]) / 2; minmed = std::min(minmed, md); }
      std::sort(nb.begin(), nb.end()); bestnew = (nb[9] + nb[10]) / 2;
      if (!c.uh && bestnew < minmed) BAD(cls, "status says stagnation but the newest best values (median %.17g) are better than every population median seen (%.17g)", bestnew, minmed);
      break;
    }
    case 3: if (!f.noax) BAD(cls, "status says no effect along axes but the mean still moves"); break;
    case 4: if (!f.nocoor) BAD(cls, "status says no effect in coordinates but the mean still moves"); break;
    default: if (f.status != 0) BAD(cls, "unknown status %d", f.status);
  }
}

// ------------------------------------------------------------------ generators
struct GenCfg { std::vector<int> algos, gps; bool trans = true, grad = true, uh = true, elit = true, tpa = true, fix = true, edm = true, lazy = true, maxi = true, ifv = true, biglam = true, resty = true; int maxit = 25; };
static std::vector<int> all_algos() { std::vector<int> v; for (int i = 0; i < 15; i++) v.push_back(i); return v; }
static std::vector<int> seqalgos() { std::vector<int> v; for (int i = 0; i < 15; i += 3) v.push_back(i); return v; }
template <class T> static T pick(Rng &r, const std::vector<T> &v) { return v[r.below(v.size())]; }
static int pick(Rng &r, std::initializer_list<int> l) { return *(l.begin() + r.below(l.size())); }
static void gen_base(Case &c, Rng &r, const GenCfg &g) {
  c.algo = pick(r, g.algos.empty() ? all_algos() : g.algos);
  c.gp = pick(r, g.gps.empty() ? std::vector<int>{0, 0, 1, 1, 2, 3} : g.gps);
  c.dim = r.chance(0.1) ? r.range(8, 14) : r.range(2, 7);
  if (c.algo >= 12) c.dim = r.range(6, 12);
  const bool lng = r.chance(0.07);      // a long run of a cheap problem
  if (lng && c.algo < 12) c.dim = r.range(2, 3);
  c.gpc = (c.gp >= 2 && r.chance(0.35)) ? 1 : 0;
  c.trans = (g.trans && !c.gpc && r.chance(0.25)) ? r.range(1, 2) : 0;
  c.lambda = r.chance(0.5) ? -1 : r.range(4, 20);
  if (g.biglam && r.chance(0.06)) c.lambda = r.range(100, 112);
  c.sigma = std::pow(10.0, -2 + 2.7 * r.unit());
  if (r.chance(0.05)) c.sigma = -1;
  if (c.gpc && c.sigma < 0) c.sigma = 0.3;
  c.bwidth = std::pow(10.0, -1 + 3 * r.unit());
  c.x0seed = 1 + r.below(1000); c.bseed = 1 + r.below(1000); c.oseed = 1 + r.below(1000);
  c.x0scale = bounded(c) || c.gp == 2 ? (r.chance(0.15) ? 1.0 : 0.8) : std::pow(10.0, -1 + 2 * r.unit());
  c.obj = pick(r, {0, 0, 1, 2, 3, 4, 6, 7, 9, 13, 10, 14, 12});
  c.seed = 1 + r.below(1000000);
  c.maxiter = r.range(1, g.maxit);
  if (r.chance(0.3)) c.maxiter = r.range(1, 5);
  if (lng) { c.maxiter = r.range(g.maxit, 30 + 5 * g.maxit); c.lambda = r.range(4, 6); }
  c.restarts = g.resty ? r.range(1, 3) : 1;
  if (lng && c.algo >= 12) c.restarts = 1, c.dim = 6;
  if (!lng && r.chance(0.25)) c.maxfe = r.range(1, 400);
  c.mt = r.chance(0.3);
  c.maximize = g.maxi && r.chance(0.2);
  if (g.elit && r.chance(0.25)) c.elitism = r.range(1, 3);
  if (g.tpa) c.tpa = pick(r, {1, 1, 1, 0, 2});
  if (g.uh && r.chance(0.12)) c.uh = 1;
  if (g.grad && r.chance(0.15)) c.grad = r.range(1, 2);
  if (g.edm && r.chance(0.15)) c.edm = 1;
  if (g.ifv && r.chance(0.15)) c.ifv = 1;
  if (g.lazy && r.chance(0.15)) c.lazy = 1;
  if (g.fix && r.chance(0.15)) c.fixmask = 1 << r.below(c.dim);
  if (r.chance(0.1)) c.maxhist = r.range(2, 30);
  c.apiset = (int)r.below(8);
  c.stralgo = r.chance(0.2);
  if (r.chance(0.1)) { c.useft = 1; c.ftarget = r.unit() * 5; }
  if (r.chance(0.04)) { c.noisy = 1; c.lambda = 6; }
  if (c.uh && c.grad) c.grad = 0;
  c.threads = r.range(2, 8); c.pol = pick(r, {1, 2, 2, 3, 4}); c.sseed = 1 + r.below(1u << 30); c.gap = pick(r, {3, 10, 40, 150, 1000});
  c.objyield = r.range(0, 3);
}
static void gen_nan(Case &c, Rng &r, double p) {
  if (!r.chance(p)) return;
  int k = r.range(0, 3);
  if (k <= 1) { c.nanp = pick(r, {1, 5, 20, 50, 90}) / 100.0; c.nankind = r.range(0, 3); c.nanseed = 1 + r.below(1000); }
  if (k == 2) { c.burst0 = r.range(0, 4); c.burst1 = c.burst0 + r.range(0, 4); c.burstkind = r.range(0, 2); }
  if (k == 3) { c.nandim = r.below(c.dim); c.nankind = r.range(0, 2); }
}

typedef void (*GenFn)(Case &, Rng &);
typedef void (*ChkFn)(const Case &);

// ---- C01
static void gen01(Case &c, Rng &r) {
  GenCfg g; g.maxit = 8; gen_base(c, r, g);
  c.mt = 1; if (r.chance(0.25)) { c.mt = (int)r.below(2); c.lambda = r.range(100, 108); c.trans = c.gpc ? 0 : (r.chance(0.7) ? r.range(1, 2) : 0); c.maxiter = r.range(1, 3); c.dim = std::min(c.dim, 6); if (c.algo >= 12) c.dim = 6; }
  if (c.lambda >= 100) c.restarts = 1;
  c.restarts = std::min(c.restarts, 2); if (c.maxfe > 150) c.maxfe = 150;
  gen_nan(c, r, 0.1); c.burst0 = -1; c.burst1 = -1;
}
static void chk01(const Case &c) {
  Case s = c; s.mt = 0; s.threads = 1;
  RunTrace a, b; serial(s, a);
  Env e = base_env(); e.par = true; RunOpts o;
  env_begin(c, e); run_opt(c, o, b); uint64_t sw = sim::sched_switches(); env_end(e, b);
  ST.nontriv = sw > 2;
  if (b.torn) BAD("torn-point", "a point changed while the objective or transformation was using it");
  cmp_runs("parallel-differs", a, b, "parallel run", true);
  for (size_t i = 1; i < b.snaps.size(); i++) {
    const Snap &sn = b.snaps[i]; if (sn.niter == 0) continue;
    for (int k = 0; k < sn.size && (k + 1) * b.dim <= (int)sn.cy.size(); k++)
      if (!evaluated(c, b, &sn.cy[k * b.dim], sn.cf[k], 0, sn.ncalls)) BAD("wrong-value", "step %zu: candidate %d carries value %.17g that was not returned for its point", i, k, sn.cf[k]);
  }
}
// ---- C02
static void gen02(Case &c, Rng &r) { GenCfg g; gen_base(c, r, g); gen_nan(c, r, 0.15); if (r.chance(0.1)) c.cancelat = r.range(0, 10); }
static void chk02(const Case &c) {
  RunTrace t; Env e = base_env(); e.par = c.mt; RunOpts o; go(c, e, o, t); need_return(t, "run");
  ST.nontriv = t.snaps.size() > 2;
  chk_counts(c, t, "count");
  if (!c.uh) chk_bijection(c, t, "not-evaluated-once");
}
// ---- C03
static void gen03(Case &c, Rng &r) {
  GenCfg g; g.maxit = 200; gen_base(c, r, g); c.useft = 0;
  if (r.chance(0.85)) c.maxfe = r.chance(0.5) ? r.range(1, 80) : r.range(1, 800); else c.maxfe = -1;
  if (r.chance(0.6)) c.maxiter = r.range(1, 60);
  if (r.chance(0.15) && c.maxfe > 0) c.maxiter = -1;
  c.restarts = r.range(1, 5); if (c.lambda >= 100) c.restarts = std::min(c.restarts, 2);
  if (c.maxfe < 0) c.restarts = std::min(c.restarts, 2);
  gen_nan(c, r, 0.15); if (r.chance(0.2)) c.obj = 5;
}
static void chk03(const Case &c) {
  RunTrace t; Env e = base_env(); e.par = c.mt; RunOpts o; o.full = false; go(c, e, o, t); need_return(t, "run");
  int maxgen = 0; for (size_t i = 1; i < t.snaps.size(); i++) maxgen = std::max(maxgen, t.snaps[i].ncalls - t.snaps[i - 1].ncalls);
  std::vector<int> st = run_starts(t);
  ST.nontriv = c.maxfe > 0 && (int)t.calls.size() >= c.maxfe;
  if (c.maxfe > 0) {
    long lim = (long)c.maxfe + maxgen + (long)(2 + c.dim) * (long)st.size();
    if ((long)t.calls.size() > lim) BAD("budget-overrun", "%zu objective calls over %zu runs, budget %d (largest generation %d)", t.calls.size(), st.size(), c.maxfe, maxgen);
    // once the budget is used, no new run may start
    for (size_t i = 1; i < t.snaps.size(); i++) if (t.snaps[i].niter == 1 && t.snaps[i - 1].niter == 0 && i > 1 && t.snaps[i - 1].ncalls >= c.maxfe + 2 + c.dim) BAD("budget-overrun", "a new run started after %d calls, budget %d", t.snaps[i - 1].ncalls, c.maxfe);
  }
  if (c.maxiter > 0) for (size_t i = 0; i < t.snaps.size(); i++) if (t.snaps[i].niter > std::max(1, c.maxiter)) BAD("iteration-overrun", "iteration %d reached, limit %d", t.snaps[i].niter, c.maxiter);
}
// ---- C04
static void gen04(Case &c, Rng &r) {
  GenCfg g; g.gps = {1, 1, 3}; gen_base(c, r, g);
  if (r.chance(0.3)) c.uh = 1; else if (r.chance(0.4)) c.grad = 1;
  if (c.uh) c.grad = 0;
  if (r.chance(0.3)) c.edm = 1;
  if (r.chance(0.25)) { c.x0scale = std::pow(10.0, 3 + 9 * r.unit()); if (r.chance(0.2)) c.x0scale = 1e60; }
  if (r.chance(0.3)) c.sigma = std::pow(10.0, r.range(0, 8));
  c.obj = pick(r, {0, 1, 7, 7, 9, 3, 5, 4}); c.maxiter = r.range(3, 40); if (r.chance(0.1)) c.maxiter = 150;
  gen_nan(c, r, 0.1);
}
static void chk04(const Case &c) {
  RunTrace t; Env e = base_env(); e.par = c.mt; RunOpts o; go(c, e, o, t); need_return(t, "run");
  ST.nontriv = t.snaps.size() > 2; chk_bounds(c, t, "out-of-bounds");
}
// ---- C05
static void gen05(Case &c, Rng &r) {
  GenCfg g; g.grad = true; gen_base(c, r, g); c.edm = 0; if (c.grad == 1) c.grad = 2;
  c.fixmask = 1 + (int)r.below((1 << std::min(c.dim, 12)) - 2); c.fixtwice = pick(r, {0, 0, 1, 2}); c.fixval = (r.unit() - 0.5) * 4;
  if (r.chance(0.2)) c.uh = 1; if (c.uh) c.grad = 0;
  if (r.chance(0.3)) c.tpa = 2;
  c.maxiter = r.range(1, 40);
}
static void chk05(const Case &c) {
  RunTrace t; Env e = base_env(); e.par = c.mt; RunOpts o; go(c, e, o, t); need_return(t, "run");
  ST.nontriv = t.snaps.size() > 2; chk_fixed(c, t, "fixed-moved");
}
// ---- C06
static void gen06(Case &c, Rng &r) { GenCfg g; gen_base(c, r, g); c.maxiter = r.range(1, 40); gen_nan(c, r, 0.35); }
static bool better(double a, double b) { return a < b || (a == a && b != b); }   // NaN is worst
static void chk06(const Case &c) {
  RunTrace t; Env e = base_env(); e.par = c.mt; RunOpts o; go(c, e, o, t); need_return(t, "run");
  ST.nontriv = t.snaps.size() > 2; int n = t.dim;
  double runbest = NAN; bool any = false;
  for (size_t i = 0; i < t.snaps.size(); i++) {
    const Snap &s = t.snaps[i];
    if (s.niter == 0) { runbest = NAN; any = false; continue; }
    for (int k = 0; k < s.size; k++) {
      if ((int)s.cy.size() >= (k + 1) * n && !evaluated(c, t, &s.cy[k * n], s.cf[k], 0, s.ncalls)) BAD("not-evaluated", "step %zu: population member %d with value %.17g was never evaluated", i, k, s.cf[k]);
      if (k && !c.uh && better(s.cf[k], s.cf[k - 1])) BAD("not-sorted", "step %zu: member %d (%.17g) is better than member %d (%.17g)", i, k, s.cf[k], k - 1, s.cf[k - 1]);
      if (!any || better(s.cf[k], runbest)) { runbest = s.cf[k]; any = true; }
    }
    if ((int)s.bestx.size() == n && !evaluated(c, t, &s.besty[0], s.bestf, 0, s.ncalls)) BAD("not-evaluated", "step %zu: best candidate %.17g was never evaluated", i, s.bestf);
    if (!c.uh && s.size && !same(s.bestf, s.cf[0])) BAD("best-not-first", "step %zu: best candidate value %.17g, first population member %.17g", i, s.bestf, s.cf[0]);
    if ((int)s.seenx.size() == n) { if (!evaluated(c, t, &s.seeny[0], s.seenf, 0, s.ncalls)) BAD("not-evaluated", "step %zu: best seen candidate %.17g was never evaluated", i, s.seenf); }
    else BAD("no-best-seen", "step %zu: no best seen candidate", i);
    if ((int)s.worstx.size() == n && !evaluated(c, t, &s.worsty[0], s.worstf, 0, s.ncalls)) BAD("not-evaluated", "step %zu: worst seen candidate %.17g was never evaluated", i, s.worstf);
    if (!c.uh && better(runbest, s.seenf)) BAD("best-seen-lost", "step %zu: best seen value %.17g, but %.17g was in a population of this run", i, s.seenf, runbest);
  }
  if (!t.has_fin) return;
  std::vector<int> st = run_starts(t); double best = NAN; bool ab = false; bool known = false;
  for (size_t k = 0; k < st.size(); k++) {
    const Snap &last = t.snaps[(k + 1 < st.size() ? st[k + 1] : (int)t.snaps.size()) - 1];
    if (last.niter == 0) continue;
    if (!ab || better(last.bestf, best)) { best = last.bestf; ab = true; }
    if (same(last.bestf, t.fin.bestf) && last.mean == t.fin.mean) known = true;
  }
  if (ab && c.elitism != 3) {
    if (!known) BAD("final-unknown", "returned solution (best %.17g) is not the final state of any run", t.fin.bestf);
    if (better(best, t.fin.bestf)) BAD("not-best-run", "returned best value %.17g, another run ended with %.17g", t.fin.bestf, best);
  }
  if (ab && (int)t.fin.bestx.size() == n && !evaluated(c, t, &t.fin.besty[0], t.fin.bestf, 0, (int)t.calls.size())) BAD("not-evaluated", "final best candidate %.17g was never evaluated", t.fin.bestf);
}
// ---- C07
static void gen07(Case &c, Rng &r) {
  GenCfg g; gen_base(c, r, g);
  c.maxiter = r.chance(0.5) ? r.range(2, 30) : r.range(30, 150); c.restarts = std::min(c.restarts, 2);
  c.obj = pick(r, {0, 1, 2, 3, 4, 5, 6, 9, 8, 13});
  gen_nan(c, r, 1.0); if (r.chance(0.3)) { c.nanp = 0.3; c.nankind = 3; c.nanseed = 1 + r.below(1000); }
  if (r.chance(0.1)) { c.burst0 = 0; c.burst1 = 1000; c.burstkind = r.range(0, 2); }
}
static void chk07(const Case &c) {
  RunTrace t; Env e = base_env(); e.par = c.mt; RunOpts o; go(c, e, o, t); need_return(t, "run");
  ST.nontriv = t.nanfired > 0;
  bool num = false, far = false; size_t j = 0;
  std::vector<const Snap *> v; for (size_t i = 0; i < t.snaps.size(); i++) v.push_back(&t.snaps[i]);
  if (t.has_fin) v.push_back(&t.fin);
  for (size_t i = 0; i < v.size(); i++) {
    const Snap &s = *v[i]; bool fin = i == t.snaps.size();
    if (!fin && s.niter == 0) { num = false; j = s.ncalls; if (s.seenf == s.seenf) num = true; }
    if (getenv("SIM_STDERR")) { fprintf(stderr, "%zu niter %d sigma %.6g fin %d f %.6g diag", i, s.niter, s.sigma, s.finite, s.bestf); for (double d : s.diag) fprintf(stderr, " %.4g", d); fprintf(stderr, " mean"); for (double d : s.mean) fprintf(stderr, " %.4g", d); fputs("\n", stderr); }
    if (!far) { if (!(std::fabs(s.sigma) < 1e15)) far = s.finite; for (double m : s.mean) if (std::fabs(m) > 1e15) far = true; }   // an objective unbounded below drives the search to infinity
    if (!s.finite && !far) BAD("not-finite", "mean, step size or covariance not finite at step %zu (niter %d sigma %.6g)", i, s.niter, s.sigma);
    if (!s.symmetric) BAD("asymmetric", "covariance not symmetric at step %zu (%.3g)", i, s.asym);
    if (!fin && s.niter > 0) {
      for (; j < (size_t)s.ncalls; j++) ;
      for (int k = 0; k < s.size; k++) { if (s.cf[k] == s.cf[k]) num = true; if (!c.uh && k && s.cf[k] == s.cf[k] && s.cf[k - 1] != s.cf[k - 1]) BAD("nan-first", "step %zu: a NaN ranks ahead of %.17g", i, s.cf[k]); }
      bool gnum = false; for (int k = 0; k < s.size; k++) if (s.cf[k] == s.cf[k]) gnum = true;
      if (gnum && s.bestf != s.bestf && !c.uh) BAD("nan-best", "step %zu: best candidate is NaN although the generation has numbers", i);
      if (num && s.seenf != s.seenf && !c.uh) BAD("nan-best", "step %zu: best seen candidate is NaN although numbers were returned", i);
    }
  }
}
// ---- C08
static void gen08(Case &c, Rng &r) {
  GenCfg g; gen_base(c, r, g); c.mt = 0;
  c.x0mode = pick(r, {0, 0, 0, 1, 2, 3}); if (c.gp >= 1 && c.x0mode == 2) c.x0mode = 3;
  if (r.chance(0.25)) c.uh = 1; if (c.uh) c.grad = 0;
  if (r.chance(0.3)) c.algo = pick(r, {2, 5, 8, 11}); if (c.algo < 12) c.dim = std::min(c.dim, 8);
  if (r.chance(0.2)) c.autoseed = 1;
  c.fill = pick(r, {0, 255, 256, 127}); c.fillseed = 1 + r.below(1000); c.eseed = 2 + r.below(100000); c.cseed = 2 + r.below(100000); c.prior = r.range(0, 2);
  c.restarts = r.range(1, 4); if (c.lambda >= 100) c.restarts = 1;
  gen_nan(c, r, 0.1);
}
static void chk08(const Case &c) {
  RunTrace a, b; RunOpts o;
  Env e = base_env(); e.fill = 0; sim::scribble_stack(0);
  Case ca = c;
  go(ca, e, o, a); need_return(a, "run");
  Case cb = c; if (c.autoseed) { cb.autoseed = 0; cb.seed = (uint32_t)a.reported_seed; if (cb.seed == 0) return; }
  if (c.prior) { Case p = c; p.seed = c.seed * 7 + 1; p.autoseed = 0; p.algo = (c.algo + 5) % 12; p.maxiter = 3; p.restarts = 1; p.dim = c.dim + 1; p.fixmask = 0; p.nandim = -1; RunTrace x; RunOpts oo; go(p, base_env(), oo, x); if (c.prior == 2) { RunTrace y; go(ca, base_env(), oo, y); } }
  Env f = base_env(); f.fill = c.fill; f.fillseed = c.fillseed; f.eseed = c.eseed; f.cseed = c.cseed; f.wall0 = (1500000000ll + (int64_t)c.eseed * 86399) * 1000000000ll + 123456789;
  sim::scribble_stack(c.fill);
  go(cb, f, o, b);
  ST.f_entropy++; ST.nontriv = a.snaps.size() > 1;
  cmp_runs(c.autoseed ? "seed-not-reproducing" : "not-determined-by-seed", a, b, "same seed, different environment", false);
}
// ---- C09
static Case other_case(const Case &c, int k) {
  Rng r(c.fseed * 131 + k * 7919 + 5);
  Case d = c; d.seed = 1 + r.below(1000000); d.oseed = 1 + r.below(1000); d.dim = c.algo >= 12 ? c.dim : r.range(2, 6); d.obj = pick(r, {0, 1, 3, 9}); d.fixmask = 0; d.sigma = 0.1 + r.unit();
  if (k % 3 == 1) { int seq = d.algo; d.algo = (c.variant == 1) ? pick(r, {0, 3, 6, 9}) : r.range(0, 11); (void)seq; }
  d.gp = r.range(0, 3); d.gpc = 0; if (d.gp >= 2) d.trans = 0;
  d.maxiter = r.range(2, 8); d.restarts = std::min(c.restarts, 2); d.maxfe = -1; d.lambda = r.chance(0.5) ? -1 : r.range(4, 12); d.grad = 0; d.useft = 0; d.nandim = -1; d.noisy = 0; d.x0scale = 0.8;
  if (r.chance(0.2)) d.uh = 1; else d.uh = 0;
  if (c.maxiter >= 22) { d.maxiter = c.maxiter; d.lambda = r.range(4, 6); d.obj = pick(r, {5, 6, 9, 3, 14}); d.uh = 0; if (d.algo < 12) d.dim = r.range(2, 3); d.restarts = 1; }
  return d;
}
static void gen09(Case &c, Rng &r) {
  GenCfg g; g.maxit = 8; g.biglam = false; g.edm = true; gen_base(c, r, g); c.mt = 0; c.noisy = 0;
  c.variant = r.range(0, 2); c.nopt = r.range(2, 4); c.fseed = 1 + r.below(100000); c.restarts = std::min(c.restarts, 2);
  if (c.variant == 1) { c.algo = pick(r, {0, 3, 6, 9, 12}); c.elitism = 0; c.ifv = 0; c.edm = 0; c.grad = 0; if (c.algo >= 12) c.dim = std::max(c.dim, 6); }
  if (c.variant == 0 && r.chance(0.3)) c.mt = 1;
  if (c.algo >= 12) c.nopt = std::min(c.nopt, 3);
  c.thrat = r.range(0, 40);
  // long runs of cheap problems: history-based criteria (stagnation, flat history) are only computed then
  if (r.chance(0.3)) { c.maxiter = r.range(22, 60); if (c.algo < 12) c.dim = r.range(2, 3); c.fixmask = 0; c.lambda = r.range(4, 6); c.maxfe = -1; c.useft = 0; c.restarts = 1; c.nopt = 2; c.uh = 0; c.grad = 0; c.obj = pick(r, {5, 6, 9, 3, 14, 7}); c.stopoff = (int)r.below(1 << NCRIT) & ~(1 << 8); c.fixtwice = 0; if (c.nandim >= c.dim) c.nandim = 0; c.objyield = 0; }
}
struct J9 { Case c; RunTrace t; };
static void j9(void *p) { J9 *j = (J9 *)p; RunOpts o; run_opt(j->c, o, j->t); }
static void chk09(const Case &c) {
  std::vector<Case> cs; cs.push_back(c); for (int k = 1; k < c.nopt; k++) cs.push_back(other_case(c, k));
  for (size_t k = 0; k < cs.size(); k++) { cs[k].thrsite = 0; if (c.variant == 1) { cs[k].variant = 0; if (cs[k].algo % 3) cs[k].algo = 0; } }
  std::vector<RunTrace> ref(cs.size());
  for (size_t k = 0; k < cs.size(); k++) { RunOpts o; if (c.variant == 1) o.mode = 1; Case s = cs[k]; s.mt = 0; go(s, base_env(), o, ref[k]); if (k == 0) need_return(ref[k], "solo run"); }
  Env e = base_env(); e.par = true;
  if (c.variant == 0) {
    std::vector<J9> js(cs.size()); std::vector<int> h;
    for (size_t k = 0; k < cs.size(); k++) js[k].c = cs[k];
    env_begin(c, e);
    for (size_t k = 0; k < cs.size(); k++) h.push_back(sim::spawn(j9, &js[k]));
    for (size_t k = 0; k < h.size(); k++) sim::join(h[k]);
    ST.nontriv = sim::sched_switches() > cs.size();
    for (size_t k = 1; k < cs.size(); k++) { ST.calls += js[k].t.calls.size(); ST.gens += js[k].t.snaps.size(); ST.runs++; }
    env_end(e, js[0].t);
    for (size_t k = 0; k < cs.size(); k++) { char b[64]; snprintf(b, sizeof b, "optimizer %zu of %zu on its own thread", k, cs.size()); if (js[k].t.torn) BAD("torn-point", "%s", b); cmp_runs("disturbed", ref[k], js[k].t, b, true); }
  } else if (c.variant == 1) {
    std::vector<RunTrace> ts(cs.size()); std::vector<RunOpts> os(cs.size()); std::vector<std::unique_ptr<Stepper>> st(cs.size());
    env_begin(c, e); Rng r(c.sseed); std::vector<char> done(cs.size(), 0), made(cs.size(), 0); size_t left = cs.size(); uint64_t ih = 0; int ni = 0;
    while (left) {
      size_t k = r.below(cs.size()); if (done[k]) continue; ih = sim::mix(ih, k); ni++;
      if (!made[k]) { os[k].mode = 1; st[k] = make_stepper(cs[k], os[k], ts[k]); made[k] = 1; continue; }
      if (!st[k]->step()) { st[k]->finish(); done[k] = 1; left--; }
    }
    ST.shash = ih; ST.nontriv = ni > 6; for (size_t k = 1; k < cs.size(); k++) { ST.calls += ts[k].calls.size(); ST.runs++; }
    env_end(e, ts[0]);
    for (size_t k = 0; k < cs.size(); k++) { char b[64]; snprintf(b, sizeof b, "optimizer %zu of %zu interleaved by steps", k, cs.size()); cmp_runs("disturbed", ref[k], ts[k], b, true); }
  } else {
    RunTrace out, in; RunOpts o; bool did = false; int at = ref[0].calls.size() ? c.thrat % (int)ref[0].calls.size() : 0;
    o.on_call = [&](int i) { if (i == at && !did) { did = true; RunOpts oi; run_opt(cs[1], oi, in); } };
    env_begin(c, e); run_opt(cs[0], o, out); ST.nontriv = did; ST.runs++; ST.shash = at; env_end(e, out);
    cmp_runs("disturbed", ref[0], out, "optimizer whose objective ran another optimization", true);
    if (did) cmp_runs("disturbed", ref[1], in, "optimization run inside another's objective", true);
  }
}
// ---- C10
static void gen10(Case &c, Rng &r) {
  GenCfg g; g.maxit = 12; gen_base(c, r, g); c.fseed = 1 + r.below(1000000);
  c.variant = pick(r, {0, 1, 1, 1, 2, 2, 3, 4, 4}); gen_nan(c, r, 0.15);
  if (c.variant != 4) { c.algo = pick(r, {0, 3, 6, 9, 12}); c.elitism = 0; c.ifv = 0; c.edm = 0; if (c.algo >= 12) c.dim = std::max(6, c.dim); }
  if (c.variant == 1 || c.variant == 2) c.uh = 0;
  if (c.grad == 1 && c.maxfe > 0) c.maxfe = -1;
  if (c.variant == 3) { c.gp = 0; c.gpc = 0; c.trans = 0; if (c.x0scale < 0.01) c.x0scale = 1; }
  if (c.variant == 2) c.mt = 0;
}
static void chk10(const Case &c) {
  RunTrace a, b; RunOpts o; o.mode = 3; Case s = c; s.mt = 0; go(s, base_env(), o, a); need_return(a, "built-in loop");
  Env e = base_env(); e.par = true; RunOpts p; p.mode = c.variant == 4 ? 2 : 1; go(c, e, p, b);
  ST.nontriv = a.snaps.size() > 1;
  bool farm = c.variant == 1 || c.variant == 2;
  cmp_runs("farm-differs", a, b, c.variant == 4 ? "forwarding ask/eval/tell" : "ask/tell driven run", true, c.variant != 1);
  if (b.torn) BAD("torn-point", "point changed during evaluation");
  if (farm) {   // same set of distinct evaluated points
    std::set<uint64_t> x, y;
    for (size_t i = 0; i < a.calls.size(); i++) { uint64_t h = a.calls[i].gen; for (int k = 0; k < a.dim; k++) h = sim::mix(h, fbits(a.xs[a.calls[i].off + k])); x.insert(h); }
    for (size_t i = 0; i < b.calls.size(); i++) { uint64_t h = b.calls[i].gen; for (int k = 0; k < b.dim; k++) h = sim::mix(h, fbits(b.xs[b.calls[i].off + k])); y.insert(h); }
    if (x != y) BAD("farm-differs", "ask/tell driven run evaluated different points");
  }
  if (p.mode == 2 && a.optret != b.optret) BAD("farm-differs", "return code %d instead of %d", b.optret, a.optret);
}
// ---- C11
static void gen11(Case &c, Rng &r) {
  GenCfg g; g.maxit = 8; gen_base(c, r, g); c.restarts = std::min(c.restarts, 2);
  c.thrsite = pick(r, {1, 1, 1, 2, 2, 3, 4, 5}); c.thrat = (int)r.below(1 << 20); c.thrkind = r.range(0, 3); if (r.chance(0.6)) c.mt = 1;
  if (c.thrsite == 2) { c.gpc = 0; if (!c.trans) c.trans = 1; if (r.chance(0.5)) { c.lambda = r.range(100, 106); c.maxiter = 2; c.restarts = 1; c.dim = std::min(c.dim, 6); } }
  if (c.thrsite == 3) { c.grad = 2; c.uh = 0; }
  if (c.thrsite == 5) c.fplot = 3;
  if (r.chance(0.15)) { c.grad = 1; c.uh = 0; if (c.thrsite == 3) c.thrsite = 1; }
  c.variant = r.range(0, 1);
}
static int count_site(const Case &c, const RunTrace &t) {
  switch (c.thrsite) { case 1: return (int)t.calls.size(); case 2: return (int)t.ntrans; case 3: return (int)t.ngrad; case 4: return (int)t.snaps.size(); case 5: return (int)t.snaps.size(); }
  return 0;
}
static void chk11(const Case &c) {
  Case s = c; s.thrsite = 0; s.mt = 0;
  RunTrace a, b, d; RunOpts o; o.mode = c.variant ? 3 : 0; go(s, base_env(), o, a); need_return(a, "reference run");
  int n = count_site(c, a); if (n == 0) { ST.nontriv = 0; return; }
  Case f = c; f.thrat = c.thrat % n;
  Env e = base_env(); e.par = true; go(f, e, o, b);
  ST.nontriv = b.thrown > 0;
  if (b.thrown) {
    int want = c.thrkind == 0 ? 2 : c.thrkind == 1 ? 3 : c.thrkind == 2 ? 4 : 1;
    if (b.outcome == 0) BAD("swallowed", "exception thrown from site %d (occurrence %d) did not reach the caller", c.thrsite, f.thrat);
    if (b.outcome != want) BAD("changed", "exception kind %d thrown from site %d arrived as outcome %d (%s)", c.thrkind, c.thrsite, b.outcome, b.what.c_str());
    if ((want == 2 || want == 4) && b.exid != 1000 + c.thrsite) BAD("changed", "exception arrived with payload %d", b.exid);
    if (want == 3 && b.what != "sim-user-error") BAD("changed", "exception arrived as '%s'", b.what.c_str());
    // what happened before is what would have happened without the exception
    if (b.snaps.size() > a.snaps.size()) BAD("after-throw", "more progress steps than without the exception");
    for (size_t i = 0; i < b.snaps.size(); i++) if (a.snaps[i].hash != b.snaps[i].hash) BAD("after-throw", "state at step %zu differs from the run without exception", i);
  } else cmp_runs("after-throw", a, b, "run whose fault was not reached", true);
  go(s, base_env(), o, d);
  cmp_runs("later-run-affected", a, d, "optimization after the exception", false);
}
// ---- C12
static void gen12(Case &c, Rng &r) {
  GenCfg g; g.maxit = 6; g.biglam = false; gen_base(c, r, g); c.restarts = std::min(c.restarts, 2); c.noisy = 0;
  c.oomat = r.below(1ull << 40); c.oomcount = r.chance(0.6) ? 1 : (r.chance(0.5) ? r.range(2, 6) : 1000000000ull);
  if (r.chance(0.3)) c.oommin = (uint64_t)pick(r, {32, 64, 200});
  if (r.chance(0.4)) c.mt = 1; c.variant = r.range(0, 1); c.objyield = r.range(0, 1);
  if (r.chance(0.25)) c.oomfrac = r.range(0, 60);    // early allocations: construction
  if (r.chance(0.1)) { c.lambda = 100; c.maxiter = 2; c.restarts = 1; c.dim = std::min(c.dim, 6); if (c.algo >= 12) c.dim = 6; }
}
static void chk12(const Case &c) {
  RunTrace a, b, d; RunOpts o; o.arm = true; o.mode = c.variant ? 3 : 0;
  Env e0 = base_env(); e0.oommin = c.oommin;
  Case s = c; s.mt = 0;
  env_begin(s, e0); run_opt(s, o, a); uint64_t n = sim::mem_allocs(); env_end(e0, a); need_return(a, "reference run");
  if (n == 0) return;
  Env e = base_env(); e.par = true; e.oommin = c.oommin; e.oomcount = c.oomcount; e.oomat = 1 + (c.oomfrac >= 0 ? (uint64_t)c.oomfrac % n : c.oomat % n);
  env_begin(c, e); run_opt(c, o, b); uint64_t fired = sim::mem_failed(); env_end(e, b);
  ST.nontriv = fired > 0;
  if (!fired) { cmp_runs("oom-differs", a, b, "run without a failing allocation", true); return; }
  if (b.torn) BAD("oom-invalid-data", "objective saw its point change");
  // calls made are a prefix of the calls without the fault
  if (b.calls.size() > a.calls.size()) BAD("oom-invalid-data", "%zu objective calls after an allocation failed, %zu without", b.calls.size(), a.calls.size());
  std::map<int, std::multiset<uint64_t>> ga;
  for (size_t i = 0; i < a.calls.size(); i++) { uint64_t h = 1; for (int k = 0; k < a.dim; k++) h = sim::mix(h, fbits(a.xs[a.calls[i].off + k])); ga[a.calls[i].gen].insert(h); }
  for (size_t i = 0; i < b.calls.size(); i++) { uint64_t h = 1; for (int k = 0; k < b.dim; k++) h = sim::mix(h, fbits(b.xs[b.calls[i].off + k])); std::multiset<uint64_t> &q = ga[b.calls[i].gen]; std::multiset<uint64_t>::iterator it = q.find(h); if (it == q.end()) BAD("oom-invalid-data", "objective call %zu (step %d) got a point the fault-free run never asked for (allocation %llu of %llu failed)", i, b.calls[i].gen, (unsigned long long)e.oomat, (unsigned long long)n); q.erase(it); }
  if (b.outcome == 0) {
    bool identical = b.has_fin && a.has_fin && b.fin.hash == a.fin.hash && b.snaps.size() == a.snaps.size() && b.hash_calls_sorted() == a.hash_calls_sorted();
    for (size_t i = 0; identical && i < a.snaps.size(); i++) if (a.snaps[i].hash != b.snaps[i].hash) identical = false;
    if (!identical && !(b.has_fin && b.fin.status == -1025)) BAD("oom-misreported", "allocation %llu of %llu failed; the call returned a different result with status %d (fault-free status %d, fevals %d/%d)", (unsigned long long)e.oomat, (unsigned long long)n, b.fin.status, a.fin.status, a.fin.fevals, b.fin.fevals);
  } else if (b.outcome != 1) BAD("oom-misreported", "allocation %llu of %llu failed; outcome %d '%s' instead of the out-of-memory exception", (unsigned long long)e.oomat, (unsigned long long)n, b.outcome, b.what.c_str());
  RunOpts o2; o2.mode = o.mode; go(s, base_env(), o2, d);
  cmp_runs("later-run-affected", a, d, "optimization after the failed allocation", false);
}
// ---- C13
static void gen13(Case &c, Rng &r) {
  GenCfg g; g.biglam = false; gen_base(c, r, g); c.noisy = 0; c.maxfe = -1; c.useft = 0;
  c.variant = r.chance(0.45) ? 1 : 0;
  c.obj = pick(r, {0, 3, 5, 6, 7, 8, 9, 9, 10, 11, 12, 13, 15}); gen_nan(c, r, 0.4);
  if (r.chance(0.15)) { c.burst0 = 0; c.burst1 = 1000000; c.burstkind = r.range(0, 2); }
  if (c.variant == 1) { c.cancelat = r.range(0, 12); c.maxiter = -1; c.restarts = r.range(1, 6); }
  else { c.maxiter = -1; c.dim = c.algo >= 12 ? 10 : r.range(2, 3); c.restarts = c.algo >= 12 ? 1 : r.range(1, 2); c.mt = 0; if (c.fixmask) c.fixmask = 1; if (c.nandim >= c.dim) c.nandim = 0; c.lambda = r.chance(0.6) ? -1 : r.range(4, 14); }
}
static void chk13(const Case &c) {
  RunTrace t; Env e = base_env(); e.par = c.mt; RunOpts o; o.full = false; o.max_snaps = 50;
  double T = 100 + 50 * std::pow(c.dim + 3.0, 2) / std::sqrt(4.0) + 2;
  double lim = 3 * T * (1 << std::max(0, c.restarts)) + 100;
  if (c.elitism == 3) lim *= 8;
  o.max_cb = c.variant == 1 ? (int)std::min(lim, 2000.0) + c.cancelat : (int)lim;
  go(c, e, o, t); need_return(t, "run");
  ST.nontriv = 1;
  if (c.variant == 1 && t.cancelled) {
    int maxruns = 2 * c.restarts + 2;
    if (t.ncb_after_cancel > maxruns) BAD("cancel-ignored", "%d more progress callbacks after the cancel at callback %d (%d restarts)", t.ncb_after_cancel, c.cancelat, c.restarts);
    int extra = (int)t.calls.size() - t.calls_at_cancel, allow = (c.dim + 1 + 1) * (t.ncb_after_cancel + 1);
    if (!c.edm) allow = t.ncb_after_cancel + 1;
    if (extra > allow) BAD("cancel-ignored", "%d objective calls after the cancel at callback %d", extra, c.cancelat);
  }
}
// ---- C14
static void gen14(Case &c, Rng &r) {
  GenCfg g; gen_base(c, r, g); c.noisy = 0; c.useft = 0;
  c.obj = pick(r, {0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 9, 11, 12, 13, 14, 15});
  if (r.chance(0.4)) { c.useft = 1; c.ftarget = pick(r, {0, 1, 5, 50, -1}) + r.unit(); if (c.obj == 14) c.ftarget += 1e9; }
  if (r.chance(0.35)) c.maxfe = r.range(1, 1500);
  c.maxiter = r.chance(0.4) ? r.range(1, 40) : r.range(100, 260);
  if (r.chance(0.5)) c.stopoff = (int)r.below(4096) & (int)r.below(4096);
  c.stopoff &= ~(1 << 8);                                  // the iteration limit stays on
  if (r.chance(0.2)) { c.stopoff |= 1 << 8; c.stopoff &= ~(1 << 7 | 1 << 6); c.maxfe = r.range(50, 1500); c.maxiter = r.range(1, 10); }
  c.ftol = pick(r, {0, 1}) ? 1e-12 : 1e-3; c.xtol = pick(r, {0, 0, 1}) ? 1e-12 : 1e-2;
  if (c.lambda >= 100) c.maxiter = std::min(c.maxiter, 30);
  gen_nan(c, r, 0.12); c.mt = 0; if (r.chance(0.08)) c.cancelat = r.range(0, 20);
  c.restarts = std::min(c.restarts, 2); c.elitism = r.chance(0.15) ? r.range(1, 2) : 0;
}
static void chk14(const Case &c) {
  RunTrace t; RunOpts o; o.full = false; go(c, base_env(), o, t); need_return(t, "run");
  ST.nontriv = t.has_fin; chk_status(c, t, "stop-status");
}
// ---- C15
static void gen15(Case &c, Rng &r) {
  GenCfg g; g.biglam = false; gen_base(c, r, g); c.mt = r.chance(0.2); c.fplot = pick(r, {1, 1, 2, 3}); c.edm = 0; c.variant = r.range(0, 1);
  int nf = r.chance(0.25) ? 0 : r.range(1, 4);
  for (int i = 0; i < nf; i++) { char b[64]; int k = pick(r, {1, 1, 2, 3, 4}); snprintf(b, sizeof b, "%s%d:%d:%d", i ? "," : "", r.range(2, 40), k, (int)r.below(1000)); c.iofaults += b; }
  if (r.chance(0.1)) c.iofaults = r.chance(0.5) ? "1:5:0" : "1:5:1";
  if (r.chance(0.2)) c.disk = r.chance(0.3) ? 0 : r.range(1, 8000);
  if (r.chance(0.15)) c.cancelat = r.range(0, 8);
}
static void chk15(const Case &c) {
  RunTrace a, b, d; RunOpts o; o.mode = c.variant ? 3 : 0;
  Case np = c; np.fplot = 0; Env e = base_env(); e.par = c.mt;
  go(np, base_env(), o, a); need_return(a, "run without plotting");
  go(c, e, o, b); std::string full = sim::io_content("/simfs/plot"); need_return(b, "run with plotting");
  cmp_runs("plot-changes-run", a, b, "run with plotting", true);
  int hdr = 0, want = 0, n = (int)b.snaps.size();
  for (int i = 0; i <= n; i++) {
    // lines present when progress step i is reported = steps 0..i-1, plus a two-line header per run in full mode
    int lines = 0; bool nl; std::string *f = &full;
    if (i < n) { lines = b.snaps[i].plotlines; nl = b.snaps[i].plotnl; } else { for (size_t k = 0; k < f->size(); k++) if ((*f)[k] == '\n') lines++; nl = f->empty() || (*f)[f->size() - 1] == '\n'; }
    want = i; if (i == n && b.cancelled) want = -1;
    if (want >= 0) {
      if (!nl) BAD("plot-torn", "at progress step %d the plot file ends in an incomplete line", i);
      if (c.fplot == 2) { if (lines < want + hdr || lines > want + 2 * hdr) BAD("plot-lines", "at progress step %d the plot file has %d lines, %d steps were plotted", i, lines, want); }
      else if (lines != want) BAD("plot-lines", "at progress step %d the plot file has %d complete lines, %d steps were plotted", i, lines, want);
    }
    if (i < n && b.snaps[i].niter == 0) hdr++;
  }
  // fields are readable: every line of the default plot starts with a number
  Env g = base_env(); g.par = c.mt; g.io = true;
  go(c, g, o, d); std::string got = sim::io_content("/simfs/plot"); uint64_t fired = 0; for (int k = 1; k <= 5; k++) fired += sim::io_fired(k);
  ST.nontriv = fired > 0 || c.iofaults.empty();
  cmp_runs("plot-fault-changes-run", a, d, "run with plot i/o faults", true);
  bool hard = sim::io_fired(3) || sim::io_fired(4) || sim::io_fired(5);
  if (got.size() > full.size() || full.compare(0, got.size(), got) != 0) { size_t k = 0; while (k < got.size() && k < full.size() && got[k] == full[k]) k++; BAD("plot-not-prefix", "plot file under i/o faults differs from the fault-free file at byte %zu of %zu", k, full.size()); }
  if (!hard && got != full) BAD("plot-not-prefix", "plot file lost %zu bytes although no write failed for good", full.size() - got.size());
}
// ---- C16
static void gen16(Case &c, Rng &r) {
  GenCfg g; g.uh = false; gen_base(c, r, g); c.elitism = r.range(1, 2); c.maxiter = r.range(2, 50); gen_nan(c, r, 0.2);
  c.obj = pick(r, {0, 1, 3, 9, 9, 13, 4, 6, 7}); if (r.chance(0.3)) c.sigma = std::pow(10.0, r.range(-1, 2)); if (r.chance(0.25)) c.tpa = 2;
  if (r.chance(0.3)) c.x0scale = bounded(c) || c.gp == 2 ? 0.05 : 0.01;
}
static void chk16(const Case &c) {
  RunTrace t; Env e = base_env(); e.par = c.mt; RunOpts o; go(c, e, o, t); need_return(t, "run");
  ST.nontriv = t.snaps.size() > 3;
  std::vector<int> st = run_starts(t);
  for (size_t k = 0; k < st.size(); k++) {
    int lo = st[k], hi = k + 1 < st.size() ? st[k + 1] : (int)t.snaps.size(); 
    int initcall = t.snaps[lo].ncalls - 1; if (initcall < 0) BAD("no-initial-value", "the initial point was not evaluated");
    double init = lib_value(c, t.calls[initcall].f), best = c.elitism == 1 ? init : NAN;
    for (int i = lo + 1; i < hi; i++) {
      const Snap &s = t.snaps[i];
      double gbest = NAN; int gc = s.size; (void)gc;
      for (int j = s.ncalls - s.size; j < s.ncalls; j++) { double v = lib_value(c, t.calls[j].f); if (better(v, gbest)) gbest = v; }
      if (better(gbest, s.bestf)) BAD("discarded-better", "generation %d evaluated a point of value %.17g, its reported best is %.17g", s.niter, gbest, s.bestf);
      if (s.niter >= 2) {
        if (c.elitism == 1 && better(best, s.bestf)) BAD("lost-ground", "generation %d has best value %.17g, %.17g was seen before in this run", s.niter, s.bestf, best);
        if (c.elitism == 2 && better(init, s.bestf)) BAD("lost-ground", "generation %d has best value %.17g, worse than the initial point's %.17g", s.niter, s.bestf, init);
      }
      if (better(gbest, best)) best = gbest;
      for (int q = 0; q < s.size; q++) if (better(s.cf[q], best)) best = s.cf[q];
    }
  }
}
// ---- C17
static void gen17(Case &c, Rng &r) {
  GenCfg g; g.biglam = false; gen_base(c, r, g); c.noisy = 0; c.maxiter = r.range(2, 25); c.ckpt = r.range(0, 8); c.mt = 0;
  c.x0scale = std::min(c.x0scale, 1.0); c.fplot = 0; c.cancelat = -1; c.elitism = r.chance(0.2) ? r.range(1, 2) : 0; c.maxfe = r.chance(0.3) ? r.range(5, 200) : -1;
  if (r.chance(0.4)) c.maximize = 1; if (r.chance(0.4)) { c.stopoff = (int)r.below(4096) & ~(1 << 8); }
  c.rlambda = r.chance(0.35) ? r.range(4, 24) : -1; c.variant = r.range(0, 1); c.uh = r.chance(0.1);
  if (c.uh) c.grad = 0;
  if (r.chance(0.3)) c.useft = 1, c.ftarget = r.unit();
}
static void chk17(const Case &c) {
  libcmaes::CMASolutions ck; bool taken = false; std::vector<double> lastmean; double lastsig = 0;
  RunTrace a;
  { RunOpts o; o.ckpt_out = &ck; o.ckpt_taken = &taken; Case s = c; s.useft = 0; s.maxfe = -1; s.maxiter = std::max(c.ckpt + 1, 2); s.restarts = 1; go(s, base_env(), o, a); need_return(a, "first run"); }
  if (!taken) { ST.nontriv = 0; return; }
  uint64_t h0 = hash_sols(ck); Snap cs; snap_sols(ck, cs, false); lastmean = cs.mean; lastsig = cs.sigma;
  Case d = c; if (c.rlambda > 0) d.lambda = c.rlambda; d.seed = c.seed + 17;
  RunTrace b, b2; RunOpts o; o.resume = &ck; o.mode = c.variant ? 3 : 0;
  go(d, base_env(), o, b); need_return(b, "resumed run");
  ST.nontriv = 1; ST.f_resume++;
  if (hash_sols(ck) != h0) BAD("checkpoint-changed", "resuming modified the checkpoint");
  if (b.snaps.empty()) BAD("resume", "resumed run made no step");
  const Snap &s = b.snaps[0];
  if (s.niter != 0) BAD("resume-count", "resumed run starts at iteration %d", s.niter);
  for (size_t i = 0; i < lastmean.size(); i++) if (!same(s.mean[i], lastmean[i])) BAD("resume-mean", "resumed run starts at mean[%zu]=%.17g, checkpoint has %.17g", i, s.mean[i], lastmean[i]);
  if (!same(s.sigma, lastsig)) BAD("resume-sigma", "resumed run starts with step size %.17g, checkpoint has %.17g", s.sigma, lastsig);
  if (s.size != s.lambda) BAD("resume-lambda", "resumed run has a population of %d, lambda is %d", s.size, s.lambda);
  chk_counts(d, b, "resume-count");
  if (!c.uh) chk_bijection(d, b, "resume-values");
  if (bounded(c)) chk_bounds(d, b, "resume-bounds");
  if (c.fixmask && !c.grad && !c.edm) chk_fixed(d, b, "resume-fixed");
  { Case q = d; RunTrace &bb = b; if (!(d.sigma > 0)) q.xtol = 1e300; (void)bb; q.sigma = -1; chk_status(q, b, "resume-status"); }
  RunOpts o2 = o; go(d, base_env(), o2, b2);
  cmp_runs("resume-not-repeatable", b, b2, "second resume from the same checkpoint", false);
}
// ---- C19
static void gen19(Case &c, Rng &r) {
  GenCfg g; g.biglam = false; gen_base(c, r, g); c.mt = r.chance(0.2); c.slowobj = pick(r, {0, 1, 20, 1000, 20000}); c.variant = r.range(0, 1); c.cseed = 1 + r.below(1000); c.fplot = pick(r, {0, 0, 1, 2});
  int nj = r.range(1, 5);
  for (int i = 0; i < nj; i++) { char b[64]; long long ms = (long long)(std::pow(10.0, 1 + 8.5 * r.unit()) * (r.chance(0.5) ? -1 : 1)); snprintf(b, sizeof b, "%s%d:%lld", i ? "," : "", r.range(1, 40), ms); c.jumps += b; }
}
static void chk19(const Case &c) {
  RunTrace a, b; RunOpts o; o.mode = c.variant ? 3 : 0;
  Case q = c; q.slowobj = 0; go(q, base_env(), o, a); need_return(a, "run");
  Env e = base_env(); e.jumps = true; e.cseed = c.cseed; e.par = c.mt; go(c, e, o, b); need_return(b, "run with clock changes");
  ST.nontriv = sim::clock_jumps_fired() > 0 || c.slowobj; if (c.slowobj) ST.f_stall += b.calls.size();
  cmp_runs("clock-changes-run", a, b, "run with clock jumps and delays", true);
  double real = (b.mono1 - b.mono0) / 1e6;
  if (b.elapsed_time < 0) BAD("elapsed", "elapsed time %d ms is negative", b.elapsed_time);
  if (!(std::fabs(b.elapsed_time - real) <= 3 + 1e-3 * real)) BAD("elapsed", "elapsed time %d ms reported, %.3f ms passed", b.elapsed_time, real);
  for (size_t i = 1; i < b.snaps.size(); i++) {
    const Snap &s = b.snaps[i], &p = b.snaps[i - 1]; if (s.niter == 0) continue;
    double r = (s.mono - p.mono) / 1e6;
    if (s.elapsed_last < 0) BAD("elapsed", "last iteration of step %zu took %d ms", i, s.elapsed_last);
    if (!(std::fabs(s.elapsed_last - r) <= 3 + 1e-3 * r)) BAD("elapsed", "last iteration of step %zu reported as %d ms, %.3f ms passed", i, s.elapsed_last, r);
  }
}

// ---- C18
static bool acm(const Case &c) { return c.surr == 1 || c.surr == 3; }
static void gen18(Case &c, Rng &r) {
  GenCfg g; g.gps = {0, 0, 1}; g.grad = false; g.uh = false; g.tpa = false; g.biglam = false; g.maxit = 40; gen_base(c, r, g);
  c.noisy = 0; c.dim = c.algo >= 12 ? 6 : std::min(c.dim, 6); if (c.fixmask >= 1 << c.dim) c.fixmask = 1;
  c.surr = pick(r, {1, 1, 2, 3, 4}); c.sigma = std::fabs(c.sigma) * 0.5 + 0.05; c.gpc = 0;
  c.lambda = r.chance(0.4) ? -1 : r.range(4, 12); c.restarts = std::min(c.restarts, 2);
  c.sl = r.range(3, 40); c.exploit = r.chance(0.8); c.prelambda = r.range(60, 160); c.variant = r.chance(0.15) ? r.range(5, 40) : r.range(0, 4);
  c.nsteps = pick(r, {0, -1, 1, 2, 3, 5}); c.maxiter = r.range(2, 40); if (c.maxfe > 0) c.maxfe = r.range(1, 300);
  c.mt = r.chance(0.5); c.fill = pick(r, {-1, 0, 255, 256}); c.fillseed = 1 + r.below(1000); c.eseed = 1 + r.below(1000);
  if (r.chance(0.25)) c.stopoff = 1 << r.below(NCRIT); if (c.stopoff & 384) c.maxfe = r.range(1, 300), c.stopoff = 256;
  gen_nan(c, r, 0.3);
  if (r.chance(0.06)) { c.thrsite = c.surr >= 3 ? pick(r, {1, 6, 7}) : 1; c.thrat = r.range(0, 60); }
}
static void chk18(const Case &c) {
  Case s = c; s.mt = 0; s.threads = 1;
  RunTrace a, t; serial(s, a);
  Env e = base_env(); e.par = true; e.fill = c.fill; e.fillseed = c.fillseed; e.eseed = c.eseed; RunOpts o;
  go(c, e, o, t);
  ST.nontriv = t.ntrain > 0;
  if (t.torn) BAD("torn-point", "a point changed while the objective was using it");
  if (!a.surr_bad.empty()) BAD("training-set", "%s", a.surr_bad.c_str());
  if (!t.surr_bad.empty()) BAD("training-set", "%s", t.surr_bad.c_str());
  if (c.thrsite && a.thrown) { if (a.outcome != 2 || t.outcome != 2) BAD("exception-lost", "user exception became outcome %d / %d", a.outcome, t.outcome); if (c.thrsite == 1 && c.mt) return; }
  else { need_return(a, "serial run"); need_return(t, "parallel run"); }
  cmp_runs("parallel-differs", a, t, "parallel run", true);
  int n = t.dim; double mx = std::numeric_limits<double>::max();
  for (size_t i = 0; i < t.snaps.size(); i++) {
    const Snap &q = t.snaps[i];
    if (q.fevals != q.ncalls) BAD("count", "progress step %zu (niter %d) reports %d evaluations, objective was called %d times", i, q.niter, q.fevals, q.ncalls);
    if (q.niter == 0 || i == 0) continue;
    const Snap &p = t.snaps[i - 1]; int got = q.ncalls - p.ncalls;
    if (got > std::max(q.size, p.size) && got > q.lambda) BAD("too-many-calls", "generation %d of %d candidates made %d objective calls", q.niter, q.size, got);
    bool anyfin = false; for (int j = p.ncalls; j < q.ncalls; j++) if (std::fabs(t.calls[j].f) < mx) anyfin = true;
    for (int k = 1; k < q.size; k++) if (better(q.cf[k], q.cf[k - 1])) BAD("not-sorted", "step %zu: member %d (%.17g) is better than member %d (%.17g)", i, k, q.cf[k], k - 1, q.cf[k - 1]);
    if (acm(c)) {
      int ev = 0;
      for (int k = 0; k < q.size && (int)q.cy.size() >= (k + 1) * n; k++) { if (evaluated(c, t, &q.cy[k * n], q.cf[k], 0, q.ncalls)) ev++; else if (q.cf[k] != mx) BAD("invented-value", "step %zu: member %d carries %.17g that the objective never returned for it", i, k, q.cf[k]); }
      if (anyfin && (int)q.bestx.size() == n && !evaluated(c, t, &q.besty[0], q.bestf, 0, q.ncalls)) BAD("best-not-real", "step %zu: best value %.17g was never returned for that point", i, q.bestf);
      if (anyfin && (int)q.seenx.size() == n && !evaluated(c, t, &q.seeny[0], q.seenf, 0, q.ncalls)) BAD("best-not-real", "step %zu: best seen value %.17g was never returned for that point", i, q.seenf);
      if (got < q.size && got > std::max(1, t.lambdaprime)) BAD("too-many-calls", "pre-selecting generation %d made %d objective calls, configured %d", q.niter, got, t.lambdaprime);
    } else {
      if ((int)q.seenx.size() == n && !evaluated(c, t, &q.seeny[0], q.seenf, 0, q.ncalls)) BAD("best-not-real", "step %zu: best seen value %.17g was never returned for that point", i, q.seenf);
      if (got >= q.size && (int)q.bestx.size() == n && !evaluated(c, t, &q.besty[0], q.bestf, 0, q.ncalls)) BAD("best-not-real", "step %zu: best value %.17g was never returned for that point", i, q.bestf);
    }
    if (got < q.size && i - 1 < t.gen_trains.size() && t.gen_trains[i - 1] == 0) BAD("exploited-untrained", "generation %d of %d candidates made %d objective calls, the surrogate was never trained", q.niter, q.size, got);
    if (got == 0 && acm(c)) BAD("no-call", "generation %d made no objective call", q.niter);
  }
  if (t.has_fin && t.outcome == 0) {
    if (t.fin.fevals != (int)t.calls.size()) BAD("count", "returned solution reports %d evaluations, objective was called %zu times", t.fin.fevals, t.calls.size());
    if (off(c, t.fin.status)) BAD("disabled-criterion", "stopped with switched-off criterion %d", t.fin.status);
  }
}
// ---- C23
static void gen23(Case &c, Rng &r) {
  GenCfg g; g.uh = false; g.grad = false; g.fix = false; g.maxi = false; g.biglam = false; g.elit = false; g.ifv = false; g.lazy = false; gen_base(c, r, g);
  c.noisy = 0; c.mt = 0; c.restarts = 1; c.algo = pick(r, {0, 0, 0, 3, 6, 9, 12, 1, 2}); c.dim = c.algo >= 12 ? 6 : r.range(2, 4); c.lambda = r.chance(0.4) ? -1 : r.range(4, 9);
  c.maxiter = r.chance(0.5) ? r.range(3, 15) : r.range(40, 120); c.maxfe = -1; c.sigma = std::fabs(c.sigma); c.objyield = 0; c.edm = 0; c.fixmask = 0;
  if (c.useft) c.ftarget = -1e9;
  c.obj = pick(r, {0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 12, 13, 14, 15, 16});
  c.pl = 1; c.plk = (int)r.below(c.dim); c.plk2 = (c.plk + 1) % c.dim; c.plfup = pick(r, {1, 10, 100, 1000, 100000}) / 1000.0; c.pldelta = pick(r, {1, 10, 50}) / 100.0;
  c.plcurve = r.chance(0.4); c.plsamples = r.range(1, 6); c.pliters = r.chance(0.6) ? r.range(1, 8) : 10;
  if (r.chance(0.3)) { c.pl = 2; c.plpoints = r.range(4, 7); if (c.algo < 12) c.dim = r.range(2, 3); c.plk = (int)r.below(c.dim); c.plk2 = (c.plk + 1 + (int)r.below(c.dim - 1)) % c.dim; c.lambda = r.range(4, 6); c.pliters = r.range(1, 4); if (c.trans == 2) c.trans = 1; }
  gen_nan(c, r, 0.35); if (c.burst0 >= 0 && r.chance(0.7)) { c.burst0 = 999999; c.burst1 = 2000000; }
  c.variant = pick(r, {0, 0, 1, 2, 3}); c.thrat = (int)r.below(1 << 20); c.thrkind = r.range(0, 3); c.oomat = r.below(1ull << 40); c.fill = pick(r, {0, 255, 256}); c.fillseed = 1 + r.below(1000); c.eseed = 2 + r.below(100000); c.cseed = 2 + r.below(1000);
}
static void chk_contour(const Case &c, const RunTrace &t) {
  for (size_t i = 0; i < t.ctr.size(); i++) {
    bool f = false;
    for (int j = (int)t.calls.size() - 1; j >= t.pl_calls0 && !f; j--) { const double *x = &t.xs[t.calls[j].off]; f = near_pt(&x[c.plk], &t.ctr[i].first, 1) && near_pt(&x[c.plk2], &t.ctr[i].second, 1); }
    if (!f && !(near_pt(&t.fin.besty[c.plk], &t.ctr[i].first, 1) && near_pt(&t.fin.besty[c.plk2], &t.ctr[i].second, 1))) BAD("invented-point", "contour point %zu (%.17g,%.17g) was never evaluated", i, t.ctr[i].first, t.ctr[i].second);
  }
}
static void chk23(const Case &c) {
  RunTrace t; RunOpts o; o.arm = c.variant == 2; int n = c.dim;
  double T = 100 + 50 * std::pow(n + 2.0, 2) / 2 + 5, lam = 4 + std::floor(3 * std::log((double)n)); if (c.lambda > 0) lam = c.lambda;
  int steps = c.plcurve ? std::min(c.plsamples, c.pliters) : c.pliters;
  double T0 = 3 * (100 + 50 * std::pow(n + 3.0, 2) / 2) * lam * 4;
  if (c.pl == 2) steps = 2 * c.pliters + 4 + 250 * c.plpoints;
  o.max_calls = (int)std::min(2e9, T0 + 2.0 * steps * (T * lam + 2 * 2300) + 100);
  env_begin(c, base_env()); run_opt(c, o, t); uint64_t na = sim::mem_allocs(); env_end(base_env(), t); need_return(t, "run");
  ST.nontriv = t.pl_done && t.calls.size() > (size_t)t.pl_calls0 + 20;
  if (!t.pl_done) return;
  if (t.sol_changed) BAD("result-changed", "computing the profile changed the optimization's result");
  if (c.pl == 1 && !t.pl_stored) BAD("not-stored", "the profile is not retrievable from the solution");
  if (bounded(c)) chk_bounds(c, t, "out-of-bounds");
  int S = c.plsamples, N = (int)t.calls.size();
  if (c.pl == 2) {
    if ((int)t.ctr.size() < 4 || (int)t.ctr.size() > c.plpoints) BAD("contour-shape", "contour has %zu points, %d asked for", t.ctr.size(), c.plpoints);
    chk_contour(c, t);
  } else {
    if (t.pl_rows != 2 * S + 1 || (int)t.plf.size() != 2 * S + 1) BAD("profile-shape", "profile has %d points, %d asked for", t.pl_rows, 2 * S + 1);
    for (int i = 0; i < 2 * S + 1; i++) {
      const double *x = &t.plx[i * n];
      bool opt = same(t.plf[i], t.fin.bestf) && near_pt(x, &t.fin.besty[0], n);
      if (i == S) { if (!opt) BAD("optimum-misplaced", "centre of the profile carries %.17g, the optimum has %.17g", t.plf[i], t.fin.bestf); continue; }
      if (!opt && !evaluated(c, t, x, t.plf[i], t.pl_calls0, N)) BAD("invented-point", "profile point %d carries value %.17g that the objective never returned there (x[%d]=%.17g)", i - S, t.plf[i], c.plk, x[c.plk]);
    }
    double o0 = t.fin.besty[c.plk];
    if (!(t.plmin <= t.plmax)) BAD("interval", "interval [%.17g,%.17g] is reversed", t.plmin, t.plmax);
    if (!same(t.plemin, t.plmin - o0) || !same(t.plemax, t.plmax - o0)) BAD("interval", "errors (%.17g,%.17g) do not belong to interval [%.17g,%.17g] around %.17g", t.plemin, t.plemax, t.plmin, t.plmax, o0);
    bool lo = false, hi = false; for (int i = 0; i < 2 * S + 1; i++) { if (same(t.plx[i * n + c.plk], t.plmin)) lo = true; if (same(t.plx[i * n + c.plk], t.plmax)) hi = true; }
    if (!lo || !hi) BAD("interval", "interval [%.17g,%.17g] is not made of profile points", t.plmin, t.plmax);
  }
  // the same computation in another environment, with an exception from the objective, or with a failing allocation
  RunTrace b; int np = N - t.pl_calls0; if (np <= 0) return;
  if (c.variant == 1) {
    Case f = c; f.thrsite = 1; f.thrat = t.pl_calls0 + c.thrat % np; go(f, base_env(), o, b);
    int want = c.thrkind == 0 ? 2 : c.thrkind == 1 ? 3 : c.thrkind == 2 ? 4 : 1;
    if (b.outcome != want) BAD("exception-lost", "exception kind %d from the objective during the profile arrived as outcome %d", c.thrkind, b.outcome);
    if (b.sol_changed) BAD("result-changed", "the interrupted profile changed the optimization's result");
  } else if (c.variant == 2) {
    Env e = base_env(); e.oomat = 1 + c.oomat % na; env_begin(c, e); run_opt(c, o, b); uint64_t fired = sim::mem_failed(); env_end(e, b);
    if (!fired || b.outcome == 1) { if (b.sol_changed) BAD("result-changed", "the interrupted profile changed the optimization's result"); return; }
    if (b.outcome != 0) BAD("oom-misreported", "an allocation failed, outcome %d '%s'", b.outcome, b.what.c_str());
    if (b.has_fin && b.fin.status == -1025) return;
    if (c.pl == 2) { if (b.pl_done) chk_contour(c, b); return; }
    for (int i = 0; i < 2 * S + 1 && b.pl_done; i++) { const double *x = &b.plx[i * n]; if (!(same(b.plf[i], b.fin.bestf) && near_pt(x, &b.fin.besty[0], n)) && !evaluated(c, b, x, b.plf[i], b.pl_calls0, (int)b.calls.size())) BAD("invented-point", "after a failed allocation profile point %d carries value %.17g that the objective never returned there", i - S, b.plf[i]); }
  } else if (c.variant == 3) {
    Env e = base_env(); e.fill = c.fill; e.fillseed = c.fillseed; e.eseed = c.eseed; e.cseed = c.cseed; e.wall0 += 987654321987ll; sim::scribble_stack(c.fill);
    go(c, e, o, b); ST.f_entropy++;
    if (b.plx.size() != t.plx.size() || b.calls.size() != t.calls.size()) BAD("not-determined-by-seed", "%zu objective calls instead of %zu", b.calls.size(), t.calls.size());
    if (b.ctr.size() != t.ctr.size()) BAD("not-determined-by-seed", "%zu contour points instead of %zu", b.ctr.size(), t.ctr.size());
    for (size_t i = 0; i < t.ctr.size(); i++) if (!same(t.ctr[i].first, b.ctr[i].first) || !same(t.ctr[i].second, b.ctr[i].second)) BAD("not-determined-by-seed", "contour point %zu differs in another environment", i);
    for (size_t i = 0; i < t.plx.size(); i++) if (!same(t.plx[i], b.plx[i])) BAD("not-determined-by-seed", "profile differs in another environment (%.17g/%.17g)", t.plx[i], b.plx[i]);
    for (size_t i = 0; i < t.plf.size(); i++) if (!same(t.plf[i], b.plf[i])) BAD("not-determined-by-seed", "profile value differs in another environment (%.17g/%.17g)", t.plf[i], b.plf[i]);
  }
}
// ---- C24: every generation is the CMA-ES step
static int flavour_of(int a) { return a >= 12 ? 4 : (a >= 6 ? 2 : 0) + (a % 6 >= 3 ? 1 : 0); }
static int hyp_run(const Case &c, const RunTrace &t, int lo, int hi, int hyp, char *why, size_t wn) {
  static ModelOut o, o2; ModelState st; memset(&st, 0, sizeof st); int n = t.dim, checked = 0, fl = flavour_of(c.algo); std::vector<double> ceig = t.snaps[lo].cov;
  int nf = 0; for (int i = 0; i < n; i++) nf += c.fixmask >> i & 1;
  for (int i = lo + 1; i <= hi; i++) {
    const Snap &a = t.snaps[i - 1], &b = t.snaps[i];
    if (!a.finite || !b.finite || (int)b.cx.size() != b.size * n || (int)a.cov.size() != n * n || (int)b.cov.size() != n * n) return checked;
    for (size_t k = 0; k < b.cx.size(); k++) if (!std::isfinite(b.cx[k])) return checked;
    if (b.upd) ceig = a.cov;
    double amp = 0; for (int k = 0; k < n; k++) { if (!(a.cov[k * n + k] > 0)) return checked; amp = std::max(amp, std::fabs(a.mean[k]) / (a.sigma * std::sqrt(a.cov[k * n + k]))); }
    for (int r = 0; r < b.size; r++) for (int k = 0; k < n; k++) amp = std::max(amp, std::fabs(b.cx[r * n + k] - a.mean[k]) / (a.sigma * std::sqrt(a.cov[k * n + k])));
    ModelIn in; in.n = n; in.lambda = b.size; in.nfixed = nf; in.flavour = fl; in.tpa = c.tpa; in.noisy = c.noisy; in.gen = i - 1 - lo; in.hyp = hyp; in.m = a.mean.data(); in.C = a.cov.data(); in.D = a.dsep.data(); in.Ceig = ceig.data(); in.sigma = a.sigma; in.x = b.cx.data(); in.r1 = in.r2 = -1;
    if (c.tpa == 2) { int p1 = c.grad ? 1 : 0; for (int r = b.size - 1; r >= 0; r--) { if (b.ids[r] == p1) in.r1 = r; if (b.ids[r] == p1 + 1) in.r2 = r; } }
    ModelState s0 = st; model_step(in, st, -1, o);
    double tol = 1e-8 + 1e-12 * amp + 1e-13 * o.cond; if (!o.ok || !(tol < 1e-5)) return checked;
    for (int pass = 0; pass < 2; pass++) {
      why[0] = 0;
      for (int k = 0; k < n && !why[0]; k++) { double d = std::fabs(o.m[k] - b.mean[k]), sc = std::fabs(a.mean[k]); for (int r = 0; r < b.size / 2; r++) sc = std::max(sc, std::fabs(b.cx[r * n + k])); if (!(d <= 1e-12 * sc + tol * a.sigma * std::sqrt(a.cov[k * n + k]))) snprintf(why, wn, "generation %d: mean[%d]=%.17g, weighted recombination of the ranked population gives %.17g", b.niter, k, b.mean[k], o.m[k]); }
      double f = b.sigma / o.sigma; bool sok = std::fabs(f - 1) <= 20 * tol; if (c.uh && std::fabs(f / (1 + 2.0 / (n + 10)) - 1) <= 20 * tol) sok = true;
      if (!why[0] && !sok) snprintf(why, wn, "generation %d (lambda %d): step size went from %.17g to %.17g, adaptation gives %.17g", b.niter, b.size, a.sigma, b.sigma, o.sigma);
      for (int x = 0; x < n && !why[0]; x++) for (int y = 0; y <= x && !why[0]; y++) { double sc = std::max(std::sqrt(a.cov[x * n + x] * a.cov[y * n + y]), std::sqrt(std::fabs(b.cov[x * n + x] * b.cov[y * n + y]))); double d = std::fabs(o.C[x * n + y] - b.cov[x * n + y]); if (!(d <= 20 * tol * sc * (1 + o.cond * 1e-8))) snprintf(why, wn, "generation %d (lambda %d): covariance[%d,%d]=%.17g, the update gives %.17g", b.niter, b.size, x, y, b.cov[x * n + y], o.C[x * n + y]); }
      if (!why[0] || !o.amb || pass) break;
      // the path length is at its threshold up to rounding: either side is right
      ModelState s1 = s0; double th = 0; (void)th; ModelState sa = s0; model_step(in, sa, 0, o); bool same0 = memcmp(&sa, &st, sizeof sa) == 0; if (same0) { model_step(in, s1, 1, o); st = s1; } else st = sa;
    }
    if (why[0]) return -1;
    if (fl < 2 && b.upd && (int)b.eig.size() == n) {
      static double w[128], V[128 * 128], M[128 * 128]; for (int x = 0; x < n; x++) for (int y = 0; y < n; y++) M[x * n + y] = 0.5 * (a.cov[x * n + y] + a.cov[y * n + x]);
      model_eig(M, n, w, V); std::vector<double> q(w, w + n), e = b.eig; std::sort(q.begin(), q.end()); std::sort(e.begin(), e.end());
      for (int k = 0; k < n; k++) if (!(std::fabs(q[k] - e[k]) <= 1e-9 * std::fabs(q[n - 1]))) { snprintf(why, wn, "generation %d: reported eigenvalue %.17g, the sampled covariance has %.17g", b.niter, e[k], q[k]); return -1; }
    }
    checked++;
  }
  return checked;
}
static void chk_model(const Case &c, const RunTrace &t, const char *cls, bool resumed) {
  std::vector<int> st = run_starts(t); int n = t.dim;
  std::vector<double> x0 = x0_of(c); bool first = true; int total = 0;
  for (size_t k = 0; k < st.size(); k++) {
    int lo = st[k], hi = (k + 1 < st.size() ? st[k + 1] : (int)t.snaps.size()) - 1; const Snap &s = t.snaps[lo];
    if (!resumed && (int)s.cov.size() == n * n && flavour_of(c.algo) < 4) for (int x = 0; x < n; x++) for (int y = 0; y < n; y++) if (s.cov[x * n + y] != (x == y)) BAD(cls, "run %zu does not start from the identity covariance: C[%d,%d]=%.17g", k, x, y, s.cov[x * n + y]);
    double s0 = c.sigma > 0 ? c.sigma : 1.0 / n;
    if (!resumed && (first || !bipop_algo(c.algo)) && std::fabs(s.sigma / s0 - 1) > 1e-9) BAD(cls, "run %zu starts with step size %.17g, %.17g was asked for", k, s.sigma, s0);
    if (!resumed && bipop_algo(c.algo) && !(s.sigma > 0)) BAD(cls, "run %zu starts with step size %.17g", k, s.sigma);
    char why[400], w0[400]; w0[0] = 0; bool ok = false; int hs = flavour_of(c.algo) == 4 ? 2 : flavour_of(c.algo) >= 2 ? 1 : 0;
    if (!resumed) for (int h = 0; h <= hs; h += std::max(1, hs)) { int r = hyp_run(c, t, lo, hi, h, why, sizeof why); if (r >= 0) { ok = true; total += r; break; } if (!w0[0]) strcpy(w0, why); }
    if (!resumed && !ok) BAD(cls, "run %zu, %s", k, w0);
    first = false;
  }
  ST.nontriv = total > 2;
}
static void gen24(Case &c, Rng &r) {
  GenCfg g; g.maxit = 40; gen_base(c, r, g); gen_nan(c, r, 0.25); c.variant = c.lambda >= 100 ? 0 : pick(r, {0, 0, 0, 1}); if (c.variant && (restart_algo(c.algo) || c.grad || c.uh || c.elitism || c.ifv)) c.variant = 0; c.fseed = 1 + r.below(1u << 30);
  if (c.mt) c.threads = r.range(2, 6);
  if (r.chance(0.01) && !bounded(c)) { c.dim = r.range(70, 90); c.algo = pick(r, {0, 3}); c.lazy = 1; c.maxiter = r.range(3, 6); c.lambda = r.range(6, 10); c.grad = 0; c.uh = 0; c.fixmask = 0; c.mt = 0; }
}
static void chk24(const Case &c) {
  RunTrace t; RunOpts o; o.cov = true; Env e = base_env(); e.par = c.mt; Case d = c; if (c.variant) { o.mode = 1; d.variant = 4; }
  go(d, e, o, t); need_return(t, "run"); chk_model(c, t, "not-the-cma-step", false);
}
// ---- C25: populations are drawn from the reported distribution
static void gen25(Case &c, Rng &r) {
  GenCfg g; g.maxit = 40; g.elit = false; g.tpa = false; g.grad = false; gen_base(c, r, g); c.noisy = 0; c.tpa = pick(r, {0, 1}); gen_nan(c, r, 0.2); c.variant = 0;
  if (r.chance(0.03) && !bounded(c)) { c.dim = r.range(70, 90); c.algo = pick(r, {0, 3}); c.lazy = 1; c.maxiter = r.range(3, 8); c.lambda = r.range(6, 10); c.uh = 0; c.mt = 0; }
}
static double zchi(double s, double df) { return (std::pow(s / df, 1.0 / 3) - (1 - 2 / (9 * df))) / std::sqrt(2 / (9 * df)); }
static void chk25(const Case &c) {
  RunTrace t; RunOpts o; o.cov = true; Env e = base_env(); e.par = c.mt; go(c, e, o, t); need_return(t, "run");
  int n = t.dim; std::vector<int> fr; for (int i = 0; i < n; i++) if (i >= 31 || !(c.fixmask >> i & 1)) fr.push_back(i);
  int m = (int)fr.size(); static double A[128 * 128], L[128 * 128]; double s1 = 0, s2 = 0, s3 = 0, s4 = 0, d1 = 0, d2 = 0, d3 = 0, d4 = 0; std::vector<double> prev; std::set<uint64_t> seen;
  for (size_t i = 1; i < t.snaps.size(); i++) {
    const Snap &a = t.snaps[i - 1], &b = t.snaps[i]; if (b.niter == 0) { prev.clear(); continue; }
    if (!a.finite || (int)b.cx.size() != b.size * n || (int)a.cov.size() != n * n) continue;
    double amp = 0, dmax = 0, dmin = INFINITY; for (int k = 0; k < m; k++) { double v = a.cov[fr[k] * n + fr[k]]; dmax = std::max(dmax, v); dmin = std::min(dmin, v); amp = std::max(amp, std::fabs(a.mean[fr[k]]) / (a.sigma * std::sqrt(v))); }
    for (int x = 0; x < m; x++) for (int y = 0; y < m; y++) A[x * m + y] = 0.5 * (a.cov[fr[x] * n + fr[y]] + a.cov[fr[y] * n + fr[x]]);
    if (!(amp < 1e9) || !model_chol(A, m, L)) { prev.clear(); continue; }
    double lmin = INFINITY, lmax = 0; for (int k = 0; k < m; k++) { lmin = std::min(lmin, L[k * m + k]); lmax = std::max(lmax, L[k * m + k]); } if (!(lmax / lmin < 1e4) || !(dmax / dmin < 1e9)) { prev.clear(); continue; }
    std::vector<double> zb(m, 0.0), z(m);
    for (int r = 0; r < b.size; r++) {
      for (int x = 0; x < m; x++) { double v = (b.cx[r * n + fr[x]] - a.mean[fr[x]]) / a.sigma; for (int y = 0; y < x; y++) v -= L[x * m + y] * z[y]; z[x] = v / L[x * m + x]; }
      double q = 0; for (int x = 0; x < m; x++) { q += z[x] * z[x]; zb[x] += z[x]; s4 += z[x] * z[x] * z[x] * z[x] - 3; d4 += 1; if (std::fabs(z[x]) > 12) BAD("not-sampled", "generation %d: a candidate lies %.1f standard deviations from the mean in coordinate %d", b.niter, z[x], fr[x]); }
      s2 += q; d2 += m;
      uint64_t h = 5; for (int x = 0; x < m; x++) h = sim::mix(h, fbits(b.cx[r * n + fr[x]]));
      if (m > 0 && amp < 1e5 && !seen.insert(h).second) BAD("repeated-sample", "generation %d: a candidate with exactly these coordinates was sampled before", b.niter);
    }
    double q = 0; for (int x = 0; x < m; x++) { zb[x] /= std::sqrt((double)b.size); q += zb[x] * zb[x]; }
    s1 += q; d1 += m;
    if (prev.size() == zb.size()) { for (int x = 0; x < m; x++) s3 += zb[x] * prev[x]; d3 += m; }
    prev = zb;
  }
  ST.nontriv = d1 > 10;
  if (d1 < 4) return;
  double z1 = zchi(s1, d1), z2 = zchi(s2, d2), z3 = d3 > 0 ? s3 / std::sqrt(d3) : 0, z4 = s4 / std::sqrt(96 * d4);
  const double LIM = 7.5;
  if (!(std::fabs(z1) < LIM)) BAD("not-centred", "populations are not centred on the reported mean: sum of squared centre offsets %.6g over %g degrees of freedom (%.1f sigma)", s1, d1, z1);
  if (!(std::fabs(z2) < LIM)) BAD("wrong-spread", "populations do not have the reported step size and covariance: sum of squared deviations %.6g over %g degrees of freedom (%.1f sigma)", s2, d2, z2);
  if (!(std::fabs(z3) < 10)) BAD("correlated", "successive populations are correlated (%.1f sigma)", z3);
  if (!(z4 < 30 && z4 > -LIM)) BAD("not-normal", "samples are not normal: kurtosis off by %.1f sigma", z4);
}
// ---- C21: only the order of the objective's values matters
static void gen21(Case &c, Rng &r) {
  GenCfg g; g.maxit = 30; g.grad = false; g.edm = false; g.maxi = true; gen_base(c, r, g); gen_nan(c, r, 0.3); c.useft = 0;
  if (c.obj == 8 || c.obj == 12) c.obj = 10;
  c.stopoff = 0; for (int i = 0; i < NCRIT; i++) if (CRITS[i] == 1 || CRITS[i] == 5 || CRITS[i] == 6 || CRITS[i] == 10) c.stopoff |= 1 << i;
  c.xk = r.chance(0.2) ? 0 : r.range(1, 3); c.xa = r.range(-60, 60); c.xb = r.range(-60, 60); c.xneg = c.xk == 0 || r.chance(0.4);
  if (c.uh) { c.xk = std::min(c.xk, 1); c.xb = c.xa; }     // uncertainty handling averages values: invariant to scaling and mirroring only
  c.variant = c.lambda >= 100 ? 0 : pick(r, {0, 0, 0, 1}); if (c.variant && (restart_algo(c.algo) || c.uh || c.elitism || c.ifv)) c.variant = 0; c.fseed = 1 + r.below(1u << 30);
}
static void chk21(const Case &c) {
  Case s = c; s.mt = 0; s.threads = 1; s.xk = s.xneg = 0; Case d = c; if (c.xneg) d.maximize = !c.maximize;
  RunTrace a, b; RunOpts o, q; o.cov = q.cov = true; go(s, base_env(), o, a); need_return(a, "run");
  for (auto &k : a.calls) if (std::isfinite(k.f) && k.f != 0 && !(std::fabs(k.f) < 1e60 && std::fabs(k.f) > 1e-60)) { ST.nontriv = false; return; }
  if (c.variant) { q.mode = 1; d.variant = 4; }
  Env e = base_env(); e.par = c.mt && !c.variant; go(d, e, q, b); need_return(b, "run on the transformed objective");
  const char *cls = c.xk ? "not-order-invariant" : "maximize-not-mirror"; int n = a.dim; std::vector<double> xa, xb;
  auto T = [&](double v) { Case z = c; double u = s.maximize ? -v : v; u = xform(z, u); return d.maximize ? -u : u; };
  size_t m = std::min(a.snaps.size(), b.snaps.size());
  for (size_t i = 0; i < m; i++) {
    const Snap &p = a.snaps[i], &w = b.snaps[i];
    if (p.niter != w.niter || p.size != w.size || !same(p.sigma, w.sigma)) BAD(cls, "step %zu: iteration %d/%d, %d/%d candidates, step size %.17g/%.17g", i, p.niter, w.niter, p.size, w.size, p.sigma, w.sigma);
    auto v = [&](const char *what, const std::vector<double> &x, const std::vector<double> &y) { if (x.size() != y.size()) BAD(cls, "step %zu (generation %d): %s has another size", i, p.niter, what); for (size_t k = 0; k < x.size(); k++) if (!same(x[k], y[k])) BAD(cls, "step %zu (generation %d): %s[%zu] is %.17g with the original objective, %.17g with the transformed one", i, p.niter, what, k, x[k], y[k]); };
    v("mean", p.mean, w.mean); v("covariance", p.cov, w.cov); v("ranked candidate", p.cx, w.cx); v("best candidate", p.bestx, w.bestx); v("best seen point", p.seenx, w.seenx);
    if (p.niter > 0) for (size_t k = 0; k < p.cf.size() && k < w.cf.size(); k++) if (!same(T(p.cf[k]), w.cf[k]) && std::fabs(p.cf[k]) < 1e60) BAD(cls, "step %zu: candidate %zu has value %.17g, the transformed objective returned %.17g", i, k, w.cf[k], T(p.cf[k]));
  }
  if (a.snaps.size() != b.snaps.size()) BAD(cls, "%zu progress steps with the original objective, %zu with the transformed one (status %d/%d)", a.snaps.size(), b.snaps.size(), a.fin.status, b.fin.status);
  if (a.calls.size() != b.calls.size() && !c.variant) BAD(cls, "%zu objective calls with the original objective, %zu with the transformed one", a.calls.size(), b.calls.size());
  if (a.fin.status != b.fin.status) BAD(cls, "status %d with the original objective, %d with the transformed one", a.fin.status, b.fin.status);
  for (size_t k = 0; k < a.fin.besty.size() && k < b.fin.besty.size(); k++) if (!same(a.fin.besty[k], b.fin.besty[k]) || !same(a.fin.seeny[k], b.fin.seeny[k])) BAD(cls, "final result differs: %.17g/%.17g, best seen %.17g/%.17g", a.fin.besty[k], b.fin.besty[k], a.fin.seeny[k], b.fin.seeny[k]);
  (void)n; ST.nontriv = a.snaps.size() > 2;
}
// ---- C26: convergence once faults stop
static void gen26(Case &c, Rng &r) {
  GenCfg g; gen_base(c, r, g); c.noisy = 0; c.maxfe = -1; c.useft = 0; c.restarts = 1; c.x0mode = 0; if (c.sigma < 0) c.sigma = 0.3; c.maxhist = -1;
  c.obj = pick(r, {0, 0, 1, 4}); c.dim = r.range(2, 6); if (c.algo >= 12) { c.dim = r.range(6, 8); c.obj = 0; } c.lambda = r.chance(0.6) ? -1 : r.range(6, 16); if (c.obj == 4) c.lambda = -1;
  if (bounded(c)) c.trans = 0; if (c.trans == 2) c.obj = 0; c.fixmask = r.chance(0.1) && c.gp < 2 && !c.trans ? 1 << r.below(c.dim) : 0; c.gpc = 0; if (c.elitism < 3) c.elitism = 0; if (c.trans == 2) c.trans = 1; if (bounded(c)) c.grad = 0;
  c.sigma = c.gp >= 2 ? 0.3 + 2.5 * r.unit() : c.gp == 1 ? c.bwidth * (0.03 + 0.2 * r.unit()) : std::pow(10.0, -1.5 + 2 * r.unit()); if (c.gp == 0) c.x0scale = 0.5 + 3 * r.unit();
  c.maximize = r.chance(0.2); c.xneg = c.maximize; c.maxiter = 4000; c.mt = r.chance(0.1); c.objyield = 0; c.gap = 1000; c.ftol = 1e-12;
  int k = r.range(0, 3); if (c.uh && k == 2) c.uh = 0; if (k == 1) { c.burst0 = r.range(0, 10); c.burst1 = c.burst0 + (r.chance(0.3) ? r.range(7, 8) : r.range(0, 6)); c.burstkind = r.range(0, 1); }
  if (k == 2) { c.nanp = pick(r, {1, 5, 15}) / 100.0; c.nankind = r.range(0, 1); c.nanseed = 1 + r.below(1000); }
}
static void chk26(const Case &c) {
  char why[500] = ""; ST.nontriv = true;
  for (int rep = 0; rep < 3; rep++) {   // an unlucky seed is not a defect: three in a row are
    Case d = c; d.seed = c.seed + 7919 * rep; d.nanseed = c.nanseed + rep;
    RunTrace t; RunOpts o; o.full = false; Env e = base_env(); e.par = c.mt; go(d, e, o, t); need_return(t, "run"); if (t.calls.empty()) BAD("no-progress", "the objective was never called");
    int n = t.dim; std::vector<double> x(n), lb, ub, x0 = x0_of(c); bounds_of(c, lb, ub); bool ft; Case q = c; q.burst0 = q.burst1 = -1; q.nanp = 0;
    for (int i = 0; i < n; i++) { x[i] = optimum_at(c, i); if (bounded(c)) x[i] = std::min(std::max(x[i], lb[i]), ub[i]); if (c.fixmask >> i & 1) x0[i] = x[i] = t.xs[t.calls[0].off + i]; }
    const double fs = objective(q, x.data(), n, 0, &ft), f0 = std::max(fs, objective(q, x0.data(), n, 0, &ft)), goal = 1e-6 * (f0 - fs) + 1e-9; double best = INFINITY; int at = -1;
    for (size_t i = 0; i < t.calls.size(); i++) { double v = c.xneg ? -t.calls[i].f : t.calls[i].f; if (v < best) best = v; if (at < 0 && v - fs < goal) at = t.calls[i].gen; }
    const int B = (c.gp == 0 ? 100 : 250) * n; double rep_best = t.fin.seenf - fs, last = t.fin.bestf - fs;
    if (at < 0) snprintf(why, sizeof why, "stopped with status %d after %d generations and %zu evaluations, %.6g above the optimum %.6g (started %.6g above)", t.fin.status, t.fin.niter, t.calls.size(), best - fs, fs, f0 - fs);
    else if (at > B) snprintf(why, sizeof why, "needed %d generations to come within 1e-6 of the optimum, %d are plenty for %d parameters", at, B, n);
    else if (!(rep_best <= 2 * goal)) snprintf(why, sizeof why, "the optimum was found in generation %d but the result is %.6g above it", at, rep_best);
    else if (!(last <= 1e-3 * (f0 - fs) + 1e-6)) snprintf(why, sizeof why, "the optimum was found in generation %d but the last population is %.6g above it", at, last);
    else return;
  }
  BAD("no-progress", "three seeds in a row: %s", why);
}
// ---- C27: restart strategies follow their schedule
static void gen27(Case &c, Rng &r) {
  GenCfg g; g.maxit = 20; g.biglam = false; g.algos = {1, 2, 4, 5, 7, 8, 10, 11, 13, 14}; gen_base(c, r, g); gen_nan(c, r, 0.3);
  c.restarts = r.range(1, 5); if (c.elitism == 3) c.elitism = 0; c.lambda = r.chance(0.3) ? -1 : r.range(4, 11); c.noisy = r.chance(0.03); if (c.noisy) c.lambda = 4;
  c.dim = c.algo >= 12 ? 6 : r.range(2, 5); if (c.fixmask >= 1 << c.dim) c.fixmask = 1; if (c.nandim >= c.dim) c.nandim = 0;
  c.maxiter = r.chance(0.1) ? -1 : r.range(1, 20); if (c.maxiter < 0) { c.obj = 0; c.restarts = std::min(c.restarts, 2); c.maxfe = r.range(100, 3000); }
  else c.maxfe = r.chance(0.4) ? r.range(20, 1500) : -1;
  c.x0mode = c.gp == 0 ? pick(r, {0, 0, 1, 2, 3}) : 0; c.cancelat = r.chance(0.15) ? r.range(0, 60) : -1; c.mt = r.chance(0.15); c.variant = 0;
}
static void chk27(const Case &c) {
  RunTrace t; RunOpts o; o.full = false; Env e = base_env(); e.par = c.mt; go(c, e, o, t); need_return(t, "run"); const char *cls = "restart-schedule";
  std::vector<int> st = run_starts(t); int n = t.dim; ST.nontriv = st.size() > 1; if (t.snaps.empty()) BAD(cls, "no run took place");
  const double s0 = c.sigma > 0 ? c.sigma : 1.0 / n; const bool bi = bipop_algo(c.algo); const int def = t.lambda0; int ll = def, larges = 0; double b0 = 0, b1 = 0; std::vector<double> x0 = x0_of(c);
  for (size_t k = 0; k < st.size(); k++) {
    int lo = st[k], hi = (k + 1 < st.size() ? st[k + 1] : (int)t.snaps.size()) - 1; const Snap &s = t.snaps[lo], &z = t.snaps[hi];
    // why a restart may happen
    if (k > 0) {
      if (t.cancelled && t.snaps[lo].ncalls >= t.calls_at_cancel && c.cancelat < lo) BAD(cls, "run %zu was started after the cancel request", k);
      if (c.maxfe > 0 && s.fevals >= c.maxfe + (c.ifv || c.elitism ? 1 : 0)) BAD(cls, "run %zu was started with %d of %d evaluations used", k, s.fevals, c.maxfe);
    }
    bool small = bi && k > 0 && b0 > b1; int lam = s.size;
    if (!small) {
      if (k > 0) ll *= 2;
      larges++; if (larges > c.restarts) BAD(cls, "%d runs, %d were asked for", larges, c.restarts);
      if (lam != ll) BAD(cls, "run %zu has a population of %d, %d is due (started with %d)", k, lam, ll, def);
      if (std::fabs(s.sigma / s0 - 1) > 1e-9) BAD(cls, "run %zu starts with step size %.17g instead of %.17g", k, s.sigma, s0);
    } else {
      double a = std::min((double)def, 0.5 * ll), b = std::max((double)def, 0.5 * ll);
      if (lam < std::floor(a) || lam > std::ceil(b)) BAD(cls, "small run %zu has a population of %d, between %g and %g is due", k, lam, a, b);
      if (!(s.sigma >= 0.02 * (1 - 1e-9) && s.sigma <= 2 * (1 + 1e-9))) BAD(cls, "small run %zu starts with step size %.17g", k, s.sigma);
      int used = z.ncalls - s.ncalls; if (used > 0.5 * b0 + 2 * (2 * lam + n + 2)) BAD(cls, "small run %zu made %d evaluations, half of the %g of the large runs is its share", k, used, b0);
    }
    // every run starts at the given initial point, or at a fresh one of the given range
    if (c.x0mode == 0) { for (int i = 0; i < n; i++) if (!same(s.mean[i], t.snaps[0].mean[i])) BAD(cls, "run %zu starts at %.17g in coordinate %d, the first run at %.17g", k, s.mean[i], i, t.snaps[0].mean[i]); }
    else {
      bool eq = k > 0; for (int i = 0; i < n; i++) if (!(c.fixmask >> i & 1)) {
        double l = c.x0mode == 1 ? -2 : c.x0mode == 2 ? -4 : x0[i] - 0.5, u = c.x0mode == 1 ? 3 : c.x0mode == 2 ? 4 : x0[i] + 0.7;
        if (!c.trans && !(s.mean[i] >= l - 1e-9 && s.mean[i] <= u + 1e-9)) BAD(cls, "run %zu starts at %.17g in coordinate %d, outside of the given range %.17g..%.17g", k, s.mean[i], i, l, u);
        if (k > 0 && !same(s.mean[i], t.snaps[st[k - 1]].mean[i])) eq = false;
      }
      if (eq && n > __builtin_popcount(c.fixmask)) BAD(cls, "run %zu starts at the very random point the run before started at", k);
    }
    (small ? b1 : b0) += (double)z.niter * lam;
  }
  if (larges < c.restarts && !t.cancelled && !(c.maxfe > 0 && (int)t.calls.size() >= c.maxfe)) BAD(cls, "only %d of %d runs took place, with %zu of %d evaluations used and no cancel request (status %d)", larges, c.restarts, t.calls.size(), c.maxfe, t.fin.status);
}
struct Prop { const char *id; GenFn g; ChkFn c; };
static const Prop PROPS[] = {{"C01", gen01, chk01}, {"C02", gen02, chk02}, {"C03", gen03, chk03}, {"C04", gen04, chk04}, {"C05", gen05, chk05}, {"C06", gen06, chk06}, {"C07", gen07, chk07},
  {"C08", gen08, chk08}, {"C09", gen09, chk09}, {"C10", gen10, chk10}, {"C11", gen11, chk11}, {"C12", gen12, chk12}, {"C13", gen13, chk13}, {"C14", gen14, chk14}, {"C15", gen15, chk15}, {"C16", gen16, chk16}, {"C17", gen17, chk17}, {"C18", gen18, chk18}, {"C19", gen19, chk19}, {"C23", gen23, chk23}, {"C21", gen21, chk21}, {"C24", gen24, chk24}, {"C25", gen25, chk25}, {"C26", gen26, chk26}, {"C27", gen27, chk27}};
static const Prop &find(const std::string &p) { for (auto &q : PROPS) if (p == q.id) return q; fprintf(stderr, "unknown property %s\n", p.c_str()); exit(2); }
Case gen_case(const std::string &prop, uint64_t seed) {
  Case c; c.prop = prop; c.id = seed; Rng r(seed * 1000003 + sim::hash_str(prop.c_str()));
  find(prop).g(c, r); return c;
}
void check_case(const Case &c) { sim::set_step_cap(c.cap); find(c.prop).c(c); }
