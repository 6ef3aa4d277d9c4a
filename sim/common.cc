// Workload: objectives, transformations, user callbacks, state snapshots.
#include "run.h"
#include <cmath>
#include <cstring>
#include <limits>
#include <stdexcept>
#include <algorithm>
#include <new>
using namespace libcmaes;

static uint64_t bits(double d) { if (d != d) return 0x7ff8000000000000ull; if (d == 0) d = 0; uint64_t u; memcpy(&u, &d, 8); return u; }
static inline uint64_t hd(uint64_t h, double d) { return sim::mix(h, bits(d)); }
static double uhash(uint64_t a, uint64_t b) { return (sim::mix(sim::mix(0x1234567, a), b) >> 11) * (1.0 / 9007199254740992.0); }

static double scale_of(const Case &c) { return c.bwidth; }
void bounds_of(const Case &c, std::vector<double> &lb, std::vector<double> &ub) {
  lb.assign(c.dim, 0); ub.assign(c.dim, 0);
  for (int i = 0; i < c.dim; i++) {
    double ctr = (uhash(c.bseed, 2 * i) - 0.5) * scale_of(c);
    double w = scale_of(c) * (0.3 + uhash(c.bseed, 2 * i + 1));
    if (c.bseed % 5 == 0) ctr *= 20;             // bounds far from the origin
    lb[i] = ctr - 0.5 * w; ub[i] = ctr + 0.5 * w;
  }
}
std::vector<double> x0_of(const Case &c) {
  std::vector<double> x(c.dim), lb, ub;
  bool b = c.gp == 1 || c.gp == 3 || c.gp == 2;
  if (b) bounds_of(c, lb, ub);
  for (int i = 0; i < c.dim; i++) {
    double u = uhash(c.x0seed, i);
    if (b && c.x0scale < 1e3) { double m = std::min(1.0, c.x0scale); x[i] = lb[i] + (ub[i] - lb[i]) * (0.5 + m * (u - 0.5) * 0.98); }
    else x[i] = (u - 0.5) * 2.0 * c.x0scale;
  }
  return x;
}
double xform(const Case &c, double v) {
  if (c.xk > 0 && std::isfinite(v) && v != 0) { int e; double m = std::frexp(v, &e); v = std::ldexp(m, c.xk * e + (v > 0 ? c.xa : c.xb)); }
  return c.xneg ? -v : v;
}
double optimum_at(const Case &c, int i) {
  double o = (uhash(c.oseed, 100 + i) - 0.5) * 2.0;
  if (c.gp == 1 || c.gp == 2 || c.gp == 3) {       // optimum inside, on or beyond the box
    double ctr = (uhash(c.bseed, 2 * i) - 0.5) * scale_of(c); if (c.bseed % 5 == 0) ctr *= 20;
    o = ctr + o * scale_of(c) * (c.oseed % 3 == 0 ? 1.2 : 0.25);
  }
  return o;
}
double objective(const Case &c, const double *x, int n, int gen, bool *faulty) {
  double f = 0; *faulty = false;
  double sh[128];
  for (int i = 0; i < n; i++) sh[i] = x[i] - optimum_at(c, i);
  switch (c.obj) {
    case 0: for (int i = 0; i < n; i++) f += sh[i] * sh[i]; break;
    case 1: for (int i = 0; i < n; i++) f += std::pow(1e6, n > 1 ? (double)i / (n - 1) : 0) * sh[i] * sh[i]; break;
    case 2: for (int i = 0; i + 1 < n; i++) { double a = sh[i] + 1, b = sh[i + 1] + 1; f += 100 * (b - a * a) * (b - a * a) + (a - 1) * (a - 1); } if (n == 1) f = sh[0] * sh[0]; break;
    case 3: f = 10.0 * n; for (int i = 0; i < n; i++) f += sh[i] * sh[i] - 10 * std::cos(6.283185307179586 * sh[i]); break;
    case 4: for (int i = 0; i < n; i++) f += std::fabs(sh[i]); break;
    case 5: f = 1.0; break;
    case 6: for (int i = 0; i < n; i++) f += std::floor(4 * std::fabs(sh[i])); break;
    case 7: for (int i = 0; i < n; i++) f += sh[i] * (i % 2 ? 1 : -1); break;
    case 8: for (int i = 0; i < n; i++) f += sh[i] * sh[i]; f = f * 1e300 * 1e4; break;         // overflows far out
    case 9: { uint64_t h = c.oseed; for (int i = 0; i < n; i++) h = sim::mix(h, bits(x[i])); f = (h >> 11) * (1.0 / 9007199254740992.0); break; }
    case 10: { double s = 0; for (int i = 0; i < n; i++) s += sh[i] * sh[i]; f = -std::exp(-s); break; }
    case 11: { double s = 0; for (int i = 0; i < n; i++) s += sh[i] * sh[i]; f = s < 1 ? -1e18 : s; break; }
    case 12: for (int i = 0; i < n; i++) f += sh[i] * sh[i]; f *= 1e-300; break;
    case 13: { uint64_t h = c.oseed; for (int i = 0; i < n; i++) h = sim::mix(h, bits(x[i])); for (int i = 0; i < n; i++) f += sh[i] * sh[i]; f += 0.3 * ((h >> 11) * (1.0 / 9007199254740992.0)); break; }
    case 14: f = 1e9; for (int i = 0; i < n; i++) f += sh[i] * sh[i]; break;
    case 15: { double s = 0; for (int i = 0; i < n; i++) s += sh[i] * sh[i]; f = -1.0 / (s + 1e-30); break; }
    case 16: { double b = 0; for (int i = 0; i < n; i++) b += x[i] * x[i]; f = b; break; }              // optimum at the origin
    default: break;
  }
  int k = -1;
  if (gen >= c.burst0 && gen <= c.burst1 && c.burst0 >= 0) k = c.burstkind;
  else if (c.nandim >= 0 && c.nandim < n && sh[c.nandim] > 0) k = c.nankind;
  else if (c.nanp > 0) {
    uint64_t h = c.nanseed; for (int i = 0; i < n; i++) h = sim::mix(h, bits(x[i]));
    if ((h >> 11) * (1.0 / 9007199254740992.0) < c.nanp) { k = c.nankind; if (k == 3) k = (int)((h >> 3) % 3); }
  }
  if (k >= 0) {
    *faulty = true;
    double inf = std::numeric_limits<double>::infinity();
    switch (k % 4) { case 0: return std::numeric_limits<double>::quiet_NaN(); case 1: return inf; case 2: return -inf; default: return 1.7e308; }
  }
  return f;
}

void throw_kind(int kind, int id) {
  switch (kind) {
    case 0: throw SimEx{id};
    case 1: throw std::runtime_error("sim-user-error");
    case 2: throw (int)id;
    case 3: throw std::bad_alloc();
    default: throw SimEx{id};
  }
}
void Ctx::maybe_throw(int site, int count) {
  if (c->thrsite == site && count == c->thrat) { t->thrown++; throw_kind(c->thrkind, 1000 + site); }
}
double Ctx::obj(const double *x, int n) {
  double buf[128]; int idx, g;
  { sim::NoPreempt np; idx = ncalls++; g = gen; inflight++; if (n > 128) sim::fail("harness", "dim"); if (n != c->dim) sim::fail("wrong-dimension", "objective called with %d parameters, the problem has %d", n, c->dim); memcpy(buf, x, sizeof(double) * n); }
  struct Dec { int &i; ~Dec() { sim::NoPreempt np; i--; } } dec = {inflight};
  for (int i = 0; i < c->objyield; i++) sim::yield_point();
  if (c->slowobj) sim::clock_advance((int64_t)(uhash(c->cseed, idx) * c->slowobj * 1000000.0));
  if (c->thrsite == 1) maybe_throw(1, idx);
  double f;
  {
    sim::NoPreempt np; sim::MemOff mo;
    if (memcmp(buf, x, sizeof(double) * n)) { if (!t->torn) t->torn = true; }
    bool faulty; f = objective(*c, buf, n, g, &faulty); if (c->xk || c->xneg) f = xform(*c, f);
    if (faulty) t->nanfired++;
    Call cl; cl.gen = g; cl.kind = 0; cl.f = f; cl.off = (int)t->xs.size(); cl.thr = sim::cur_thread();
    t->xs.insert(t->xs.end(), buf, buf + n);
    t->calls.push_back(cl);
    if (gen_done_calls) t->late++;
    if (o->max_calls && idx > o->max_calls) sim::fail("unbounded", "more than %d objective calls", o->max_calls);
  }
  if (o->on_call) { sim::MemOff mo; o->on_call(idx); }
  for (int i = 0; i < c->objyield; i++) sim::yield_point();
  if (memcmp(buf, x, sizeof(double) * n)) t->torn = true;
  return f;
}
void Ctx::trans(const double *x, double *y, int n, bool pheno) {
  double buf[128]; memcpy(buf, x, sizeof(double) * n);
  if (!in_snap) {
    int k; { sim::NoPreempt np; k = ntrans++; t->ntrans++; }
    for (int i = 0; i < c->objyield; i++) sim::yield_point();
    if (c->thrsite == 2 && pheno) maybe_throw(2, k);
  }
  for (int i = 0; i < n; i++) {
    double v = x[i];
    if (c->trans == 1) y[i] = pheno ? 1.5 * v - 0.25 : (v + 0.25) / 1.5;
    else y[i] = pheno ? std::asinh(v) : std::sinh(v);
    if (!in_snap && (i & 1)) sim::yield_point();
  }
  if (!in_snap) { sim::NoPreempt np; if (memcmp(buf, x, sizeof(double) * n)) t->torn = true; }
}

static uint64_t hv(uint64_t h, const dVec &v) { h = sim::mix(h, v.size()); for (int i = 0; i < v.size(); i++) h = hd(h, v.data()[i]); return h; }
static uint64_t hm(uint64_t h, const dMat &v) { h = sim::mix(h, v.rows() * 4096 + v.cols()); for (int i = 0; i < v.size(); i++) h = hd(h, v.data()[i]); return h; }
static uint64_t hc(uint64_t h, const Candidate &c) { h = hd(h, c.get_fvalue()); return hv(h, c.get_x_dvec()); }
uint64_t hash_sols(const CMASolutions &s) {
  uint64_t h = 7;
  h = sim::mix(h, s.niter()); h = sim::mix(h, s.fevals()); h = sim::mix(h, s.run_status());
  h = hd(h, s.sigma()); h = hv(h, s.xmean());
  h = hm(h, s.cov()); h = hm(h, s.sepcov()); h = hm(h, s.csqinv()); h = hm(h, s.sepcsqinv());
  h = hv(h, s.eigenvalues()); h = hm(h, s.eigenvectors()); h = hd(h, s.max_eigenv()); h = hd(h, s.min_eigenv());
  h = sim::mix(h, s.size());
  for (int i = 0; i < s.size(); i++) h = hc(h, s.get_candidate(i));
  h = hc(h, s.best_candidate()); h = hc(h, s.get_best_seen_candidate()); h = hc(h, s.get_worst_seen_candidate());
  h = hd(h, s.edm());
  return h;
}
static bool fin_(const dVec &v) { for (int i = 0; i < v.size(); i++) if (!std::isfinite(v.data()[i])) return false; return true; }
static std::vector<double> sv(const dVec &v) { return std::vector<double>(v.data(), v.data() + v.size()); }
void snap_cov(const CMASolutions &s, Snap &p) {
  dMat C = s.full_cov(); int n = C.rows(); p.cov.resize(n * n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) p.cov[i * n + j] = C(i, j);
  dMat D = s.sepcov(); p.dsep.assign(D.data(), D.data() + D.size()); p.upd = s.updated_eigen();
  p.ids.clear(); for (int i = 0; i < s.size(); i++) p.ids.push_back(s.get_candidate(i).get_id());
}
void snap_sols(const CMASolutions &s, Snap &p, bool full) {
  p.niter = s.niter(); p.fevals = s.fevals(); p.status = s.run_status(); p.elapsed_last = s.elapsed_last_iter(); p.size = s.size();
  p.sigma = s.sigma(); p.edm = s.edm(); p.maxeig = s.max_eigenv(); p.mineig = s.min_eigenv();
  Candidate b = s.best_candidate(), bs = s.get_best_seen_candidate(), ws = s.get_worst_seen_candidate();
  p.bestf = b.get_fvalue(); p.seenf = bs.get_fvalue(); p.worstf = ws.get_fvalue();
  p.bestx = b.get_x(); p.seenx = bs.get_x(); p.worstx = ws.get_x();
  dVec m = s.xmean(); p.mean = sv(m);
  const dMat &C = s.cov_ref(); const dMat &D = s.sepcov_ref();
  p.finite = fin_(m) && std::isfinite(p.sigma); p.symmetric = true; p.asym = 0;
  for (int i = 0; i < C.size(); i++) if (!std::isfinite(C.data()[i])) p.finite = false;
  for (int i = 0; i < D.size(); i++) if (!std::isfinite(D.data()[i])) p.finite = false;
  p.diag.clear();
  if (C.size()) {
    double mx = C.cwiseAbs().maxCoeff();
    for (int i = 0; i < C.rows(); i++) { p.diag.push_back(C(i, i)); for (int j = 0; j < i; j++) { double a = std::fabs(C(i, j) - C(j, i)); if (a > p.asym) p.asym = a; if (a > 1e-6 * mx) p.symmetric = false; } }
  } else for (int i = 0; i < D.rows(); i++) p.diag.push_back(D(i, 0));
  dVec ev = s.eigenvalues(); p.eig = sv(ev);
  dMat V = s.eigenvectors();
  p.noax = p.nocoor = true;
  for (int i = 0; i < m.size(); i++) {
    if (i < (int)p.diag.size()) { double e = 0.2 * p.sigma * std::sqrt(p.diag[i]); if (m[i] != m[i] + e) p.nocoor = false; }
    if (i < ev.size()) for (int j = 0; j < m.size(); j++) {
      double e = 0.1 * p.sigma * std::sqrt(ev[i]); if (V.cols() == m.size()) e *= V(i, j);
      if (m[i] != m[i] + e) p.noax = false;
    }
  }
  p.cf.clear(); p.cx.clear(); p.cy.clear();
  for (int i = 0; i < s.size(); i++) {
    Candidate c = s.get_candidate(i);
    p.cf.push_back(c.get_fvalue());
    if (full) { std::vector<double> x = c.get_x(); if (x.size() == p.mean.size()) p.cx.insert(p.cx.end(), x.begin(), x.end()); }
  }
  p.hash = hash_sols(s);
  p.mono = sim::mono_now();
}
uint64_t RunTrace::hash_calls() const {
  uint64_t h = 3; for (size_t i = 0; i < calls.size(); i++) { h = hd(h, calls[i].f); h = sim::mix(h, calls[i].gen); }
  for (size_t i = 0; i < xs.size(); i++) h = hd(h, xs[i]);
  return h;
}
uint64_t RunTrace::hash_calls_sorted() const {
  uint64_t h = 3; size_t n = calls.size();
  std::map<int, uint64_t> g;
  for (size_t i = 0; i < n; i++) { uint64_t q = 11; q = hd(q, calls[i].f); for (int k = 0; k < dim; k++) q = hd(q, xs[calls[i].off + k]); g[calls[i].gen] += q; }
  for (std::map<int, uint64_t>::iterator it = g.begin(); it != g.end(); ++it) { h = sim::mix(h, it->first); h = sim::mix(h, it->second); }
  return sim::mix(h, n);
}
uint64_t RunTrace::hash_state() const {
  uint64_t h = 5; h = sim::mix(h, snaps.size());
  for (size_t i = 0; i < snaps.size(); i++) h = sim::mix(h, snaps[i].hash);
  if (has_fin) h = sim::mix(h, fin.hash);
  h = sim::mix(h, outcome);
  return h;
}
void run_opt(const Case &c, RunOpts &o, RunTrace &t) {
  if (c.surr) { c.gp == 0 ? run_surr0(c, o, t) : run_surr1(c, o, t); return; }
  switch (c.gp) { case 0: run_gp0(c, o, t); break; case 1: run_gp1(c, o, t); break; case 2: run_gp2(c, o, t); break; default: run_gp3(c, o, t); }
}
std::unique_ptr<Stepper> make_stepper(const Case &c, RunOpts &o, RunTrace &t) {
  switch (c.gp) { case 0: return step_gp0(c, o, t); case 1: return step_gp1(c, o, t); case 2: return step_gp2(c, o, t); default: return step_gp3(c, o, t); }
}

const int CRITS[NCRIT] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, -13, -15};
double fixed_value(const Case &c, int i) {
  if (c.gp == 1) { std::vector<double> lb, ub; bounds_of(c, lb, ub); return lb[i] + (ub[i] - lb[i]) * (0.3 + 0.1 * (i % 5)); }
  if (c.gp >= 2) return 2.5 + (i % 3);
  return c.fixval + 0.125 * i;
}
