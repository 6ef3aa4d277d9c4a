#include "model.h"
#include <cmath>
static double A_[128 * 128], V_[128 * 128], W_[128], S_[128 * 128], T_[128 * 128], U_[128 * 128], P_[128 * 128], M_[128 * 128];
int model_eig(const double *A, int n, double *w, double *V) {
  for (int i = 0; i < n * n; i++) { A_[i] = A[i]; V[i] = 0; }
  for (int i = 0; i < n; i++) V[i * n + i] = 1;
  for (int sweep = 0; sweep < 60; sweep++) {
    double off = 0, dg = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) (i == j ? dg : off) += A_[i * n + j] * A_[i * n + j];
    if (off <= 1e-32 * dg || off == 0) break;
    for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) {
      double apq = A_[p * n + q]; if (apq == 0) continue;
      double th = (A_[q * n + q] - A_[p * n + p]) / (2 * apq), t = (th >= 0 ? 1 : -1) / (std::fabs(th) + std::sqrt(th * th + 1)); if (!(t == t)) t = 0;
      double c = 1 / std::sqrt(t * t + 1), s = t * c;
      for (int k = 0; k < n; k++) { double a = A_[k * n + p], b = A_[k * n + q]; A_[k * n + p] = c * a - s * b; A_[k * n + q] = s * a + c * b; }
      for (int k = 0; k < n; k++) { double a = A_[p * n + k], b = A_[q * n + k]; A_[p * n + k] = c * a - s * b; A_[q * n + k] = s * a + c * b; }
      for (int k = 0; k < n; k++) { double a = V[k * n + p], b = V[k * n + q]; V[k * n + p] = c * a - s * b; V[k * n + q] = s * a + c * b; }
    }
  }
  for (int i = 0; i < n; i++) w[i] = A_[i * n + i];
  return 0;
}
bool model_chol(const double *A, int n, double *L) {
  for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) {
    double s = A[i * n + j]; for (int k = 0; k < j; k++) s -= L[i * n + k] * L[j * n + k];
    if (i == j) { if (!(s > 0)) return false; L[i * n + i] = std::sqrt(s); } else L[i * n + j] = s / L[j * n + j];
  }
  return true;
}
static double chi_of(double n) { return std::sqrt(n) * (1 - 1 / (4 * n) + 1 / (21 * n * n)); }
void model_step(const ModelIn &in, ModelState &st, int hs, ModelOut &o) {
  const int n = in.n, lam = in.lambda, mu = lam / 2; const double dn = n;
  const bool sep = in.flavour == 2 || in.flavour == 3, act = in.flavour == 1 || in.flavour == 3, vd = in.flavour == 4;
  o.ok = false; o.amb = 0; o.cond = 1; if (mu < 1 || n > 128) return;
  // strategy parameters
  double w[4096], sw = 0, sq = 0; if (mu > 4096) return;
  for (int i = 0; i < mu; i++) { w[i] = std::log(mu + 1.0) - std::log(i + 1.0); sw += w[i]; sq += w[i] * w[i]; }
  for (int i = 0; i < mu; i++) w[i] /= sw;
  const double mw = sw * sw / sq;
  double cs = n < 1000 ? (mw + 2) / (dn + mw + 5) : (std::sqrt(mw) + 2) / (std::sqrt(dn) + std::sqrt(mw) + 3);
  double cc = (4 + mw / dn) / (dn + 4 + 2 * mw / dn), c1 = 2 / ((dn + 1.3) * (dn + 1.3) + mw), rm = mw - 2 + 1 / mw;
  if (in.noisy) c1 *= 0.2;
  double cmu = std::fmin(1 - c1, (in.noisy ? 0.2 : 1.0) * 2 * rm / ((dn + 2) * (dn + 2) + mw));
  const double extra = 2 * std::fmax(0.0, std::sqrt((mw - 1) / (dn + 1)) - 1);
  double ds = 1 + cs + extra, fpc = std::sqrt(cc * (2 - cc) * mw);
  if (sep) {
    c1 *= (dn + 2) / 3; cmu = std::fmin(1 - c1, (0.3 + rm) / (dn + 4 * std::sqrt(dn) + mw / 2));
    cc = (1 + 1 / dn + mw / dn) / (std::sqrt(dn) + 1 / dn + 2 * mw / dn); if (in.hyp & 1) fpc = std::sqrt(cc * (2 - cc) * mw);
  }
  if (vd) {
    cs = std::sqrt(mw) / (2 * (std::sqrt(dn) + std::sqrt(mw))); double f = (dn - 5) / 6, c0 = c1;
    c1 *= f; cmu = std::fmin(1 - c1, f * 2 * rm / ((dn + 2) * (dn + 2) + mw)); (void)c0;
    if (in.hyp & 2) ds = 1 + cs + extra;
  }
  if (in.tpa == 2) ds = 4 - 3.6 / std::sqrt(dn);
  const double chi = chi_of(dn - in.nfixed), fps = std::sqrt(cs * (2 - cs) * mw);
  // recombination
  double y[128];
  for (int k = 0; k < n; k++) { double s = 0; for (int i = 0; i < mu; i++) s += w[i] * (in.x[i * n + k] - in.m[k]); o.m[k] = in.m[k] + s; y[k] = s / in.sigma; }
  // step-size path
  double z[128]; double lo = 0, hi = 0;
  if (sep) { for (int k = 0; k < n; k++) { double d = in.C[k * n + k]; z[k] = y[k] / std::sqrt(d); if (k == 0 || d < lo) lo = d; if (k == 0 || d > hi) hi = d; } }
  else if (vd) { lo = hi = 1; for (int k = 0; k < n; k++) { double v2 = in.C[k * n + k] / (in.D[k] * in.D[k]) - 1; if (v2 < 0) v2 = 0; z[k] = y[k] / (std::sqrt(1 + v2) * in.D[k]); double d = in.D[k] * in.D[k]; if (k == 0 || d < lo) lo = d; if (k == 0 || d > hi) hi = d; } }
  else {
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) M_[i * n + j] = 0.5 * (in.Ceig[i * n + j] + in.Ceig[j * n + i]);
    model_eig(M_, n, W_, V_);
    for (int k = 0; k < n; k++) { if (k == 0 || W_[k] < lo) lo = W_[k]; if (k == 0 || W_[k] > hi) hi = W_[k]; }
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double s = 0; for (int k = 0; k < n; k++) s += V_[i * n + k] * V_[j * n + k] / std::sqrt(W_[k]); S_[i * n + j] = s; }
    for (int i = 0; i < n; i++) { z[i] = 0; for (int j = 0; j < n; j++) z[i] += S_[i * n + j] * y[j]; }
  }
  o.cond = lo > 0 ? hi / lo : INFINITY;
  double nps = 0; for (int k = 0; k < n; k++) { st.ps[k] = (1 - cs) * st.ps[k] + fps * z[k]; nps += st.ps[k] * st.ps[k]; } nps = std::sqrt(nps);
  const double th = std::sqrt(1 - std::pow(1 - cs, 2.0 * (in.gen + 1))) * (1.4 + 2 / (dn + 1 - in.nfixed)) * chi;
  int hsig = nps < th; o.amb = std::fabs(nps - th) < 1e-6 * th; if (hs >= 0) hsig = hs;
  for (int k = 0; k < n; k++) st.pc[k] = (1 - cc) * st.pc[k] + hsig * fpc * y[k];
  // covariance
  if (!vd) {
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
      if (sep && i != j) { P_[i * n + j] = 0; U_[i * n + j] = 0; continue; }
      double s = 0, u = 0;
      for (int k = 0; k < mu; k++) {
        s += w[k] * ((in.x[k * n + i] - in.m[i]) / in.sigma) * ((in.x[k * n + j] - in.m[j]) / in.sigma);
        if (act) { const double *b = in.x + (lam - 1 - k) * n; u += w[k] * ((b[i] - in.m[i]) / in.sigma) * ((b[j] - in.m[j]) / in.sigma); }
      }
      P_[i * n + j] = s; U_[i * n + j] = u;
    }
    double keep = 1 - c1 - cmu, cm = 0;
    if (act) {
      double big = 0;
      if (sep) { for (int k = 0; k < n; k++) { double e = U_[k * n + k] / in.C[k * n + k]; if (k == 0 || e > big) big = e; } }
      else {
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double s = 0; for (int k = 0; k < n; k++) s += S_[i * n + k] * U_[k * n + j]; T_[i * n + j] = s; }
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double s = 0; for (int k = 0; k < n; k++) s += T_[i * n + k] * S_[k * n + j]; M_[i * n + j] = s; }
        for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) M_[i * n + j] = M_[j * n + i] = 0.5 * (M_[i * n + j] + M_[j * n + i]);
        model_eig(M_, n, W_, V_); for (int k = 0; k < n; k++) if (k == 0 || W_[k] > big) big = W_[k];
      }
      cm = std::fmin((1 - cmu) * (1 - 0.66) / big, (1 - cmu) * 2.0 / 8 * (mw / (std::pow(dn + 2, 1.5) + 2 * mw)));
      keep += cm * 0.5; cmu += cm * 0.5;
    } else keep += (1 - hsig) * c1 * cc * (2 - cc);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) o.C[i * n + j] = (sep && i != j) ? 0 : keep * in.C[i * n + j] + c1 * st.pc[i] * st.pc[j] + cmu * P_[i * n + j] - cm * U_[i * n + j];
  } else {
    // Akimoto et al. 2014: natural gradient in (D, v)
    double v[128], vb[128], vv[128], nv = 0, mx = 0; int big = 0;
    for (int k = 0; k < n; k++) { double q = in.C[k * n + k] / (in.D[k] * in.D[k]) - 1; if (k == 0 || q > mx) { mx = q; big = k; } }
    if (!(mx > 1e-10)) return;
    double vbig = std::sqrt(mx); for (int k = 0; k < n; k++) v[k] = k == big ? vbig : in.C[k * n + big] / (in.D[k] * in.D[big]) / vbig;
    for (int k = 0; k < n; k++) nv += v[k] * v[k];
    mx = 0; for (int k = 0; k < n; k++) { vb[k] = v[k] / std::sqrt(nv); vv[k] = vb[k] * vb[k]; if (vv[k] > mx) mx = vv[k]; }
    double g = 1 + nv, al = std::fmin(1.0, std::sqrt(nv * nv + (2 - 1 / std::sqrt(g)) * g / mx) / (2 + nv)), b = -(1 - al * al) * nv * nv / g + 2 * al * al;
    double p[128], q[128]; for (int k = 0; k < n; k++) p[k] = q[k] = 0;
    if (cmu + c1 * hsig > 0) {
      for (int i = 0; i <= mu; i++) {
        double ww = i < mu ? cmu * w[i] : (hsig ? c1 : 0), yv = 0, yy[128];
        for (int k = 0; k < n; k++) { yy[k] = i < mu ? (in.x[i * n + k] - in.m[k]) / (in.sigma * in.D[k]) : st.pc[k] / in.D[k]; yv += vb[k] * yy[k]; }
        for (int k = 0; k < n; k++) { p[k] += ww * (yy[k] * yy[k] - nv / g * vb[k] * yv * yy[k] - 1); q[k] += ww * (yv * yy[k] - 0.5 * vb[k] * (yv * yv + g)); }
      }
      double nu = 0; for (int k = 0; k < n; k++) nu += vb[k] * q[k];
      double r[128], ai[128], n1 = 0, n2 = 0;
      for (int k = 0; k < n; k++) { r[k] = p[k] - al / g * ((2 + nv) * vb[k] * q[k] - nv * nu * vv[k]); ai[k] = 1 / (2 - (b + 2 * al * al) * vv[k]); n1 += ai[k] * vv[k] * r[k]; n2 += ai[k] * vv[k] * vv[k]; }
      double s[128], n3 = 0; for (int k = 0; k < n; k++) { s[k] = r[k] * ai[k] - b * n1 / (1 + b * n2) * ai[k] * vv[k]; n3 += s[k] * vv[k]; }
      double nvv[128], nd[128];
      for (int k = 0; k < n; k++) { nvv[k] = v[k] + (q[k] - al * ((2 + nv) * vb[k] * s[k] - n3 * vb[k])) / std::sqrt(nv); nd[k] = in.D[k] + in.D[k] * s[k]; }
      for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) o.C[i * n + j] = nd[i] * nd[j] * ((i == j) + nvv[i] * nvv[j]);
    } else for (int i = 0; i < n * n; i++) o.C[i] = in.C[i];
  }
  // step size
  if (in.tpa == 2) {
    if (in.gen > 0) { if (in.r1 < 0 || in.r2 < 0) return; st.tpas = 0.7 * st.tpas + 0.3 * (in.r2 - in.r1) / (lam - 1.0); o.sigma = in.sigma * std::exp(st.tpas / ds); }
    else o.sigma = in.sigma;
  } else o.sigma = in.sigma * std::exp(std::fmin(1.0, cs / ds * (nps / chi - 1)));
  o.ok = true;
}
