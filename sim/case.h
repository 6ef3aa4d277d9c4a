// One simulated run is completely described by a Case (plus the code under test).
#pragma once
#include "rt.h"
#include <string>
#include <vector>
#include <sstream>
#include <cstdio>
#include <cstdlib>

#define CASE_FIELDS(I, U, D, S)                                                     \
  S(prop, "") U(id, 0)                                                              \
  /* problem */                                                                     \
  I(algo, 0) I(gp, 0) I(gpc, 0) I(trans, 0) I(dim, 3) I(lambda, -1) D(sigma, 0.5)   \
  I(x0mode, 0) U(x0seed, 1) D(x0scale, 1.0) U(bseed, 1) D(bwidth, 10.0)             \
  I(obj, 0) U(oseed, 1) I(maximize, 0)                                              \
  /* settings */                                                                    \
  U(seed, 42) I(autoseed, 0) I(maxiter, 20) I(maxfe, -1) I(restarts, 2)             \
  I(useft, 0) D(ftarget, 0) D(ftol, 1e-12) D(xtol, 1e-12)                           \
  I(elitism, 0) I(tpa, 1) I(uh, 0) I(grad, 0) I(edm, 0) I(mt, 0) I(ifv, 0)          \
  I(lazy, 0) I(fixmask, 0) D(fixval, 0.25) I(fixtwice, 0) I(fplot, 0) I(stopoff, 0) \
  I(noisy, 0) I(maxhist, -1) I(stralgo, 0) I(quiet, 1) I(apiset, 0)                 \
  /* faulty objective values */                                                     \
  D(nanp, 0) I(nankind, 0) U(nanseed, 1) I(burst0, -1) I(burst1, -1) I(burstkind, 0)\
  I(nandim, -1)                                                                     \
  /* schedule */                                                                    \
  I(threads, 1) I(pol, 0) U(sseed, 1) I(gap, 50) I(replay, 0) S(trace, "")          \
  I(objyield, 1)                                                                    \
  /* user code faults and cancellation */                                           \
  I(thrsite, 0) I(thrat, 0) I(thrkind, 0) I(cancelat, -1)                           \
  /* memory, clock, entropy, i/o */                                                 \
  U(oomat, 0) U(oomcount, 1) U(oommin, 0) I(oomfrac, -1) I(fill, -1) U(fillseed, 1) \
  U(eseed, 1) U(cseed, 1) I(slowobj, 0) S(jumps, "") S(iofaults, "") I(disk, -1)    \
  I(prior, 0)                                                                       \
  /* farm, isolation, resume */                                                     \
  U(fseed, 1) I(variant, 0) I(ckpt, 0) I(nopt, 2) I(rlambda, -1)                    \
  /* surrogate */                                                                   \
  I(surr, 0) I(exploit, 1) I(sl, -1) I(nsteps, -1) I(prelambda, -1)                 \
  /* profile likelihood and contour */                                              \
  I(pl, 0) I(plk, 0) I(plk2, 1) D(plfup, 0.1) D(pldelta, 0.1) I(plcurve, 0)         \
  I(plsamples, 5) I(pliters, 10) I(plpoints, 4)                                     \
  /* order-preserving change of the objective's values */                           \
  I(xk, 0) I(xa, 0) I(xb, 0) I(xneg, 0)                                             \
  U(cap, 12000000000ull)

struct Case {
#define I(n, d) int n = d;
#define U(n, d) uint64_t n = d;
#define D(n, d) double n = d;
#define S(n, d) std::string n = d;
  CASE_FIELDS(I, U, D, S)
#undef I
#undef U
#undef D
#undef S
  std::string str(bool all = false) const {
    std::string o; char b[128]; Case z; (void)z;
#define I(n, d) if (all || n != z.n) { snprintf(b, sizeof b, #n "=%d\n", n); o += b; }
#define U(n, d) if (all || n != z.n) { snprintf(b, sizeof b, #n "=%llu\n", (unsigned long long)n); o += b; }
#define D(n, d) if (all || n != z.n) { snprintf(b, sizeof b, #n "=%.17g\n", n); o += b; }
#define S(n, d) if (all || n != z.n) { o += std::string(#n "=") + n + "\n"; }
    CASE_FIELDS(I, U, D, S)
#undef I
#undef U
#undef D
#undef S
    return o;
  }
  bool set(const std::string &k, const std::string &v) {
#define I(n, d) if (k == #n) { n = atoi(v.c_str()); return true; }
#define U(n, d) if (k == #n) { n = strtoull(v.c_str(), 0, 10); return true; }
#define D(n, d) if (k == #n) { n = strtod(v.c_str(), 0); return true; }
#define S(n, d) if (k == #n) { n = v; return true; }
    CASE_FIELDS(I, U, D, S)
#undef I
#undef U
#undef D
#undef S
    return false;
  }
  bool parse(const std::string &text) {
    std::istringstream is(text); std::string l;
    while (std::getline(is, l)) {
      if (l.empty() || l[0] == '#') continue;
      size_t p = l.find('='); if (p == std::string::npos) return false;
      if (!set(l.substr(0, p), l.substr(p + 1))) { fprintf(stderr, "unknown key %s\n", l.c_str()); return false; }
    }
    return true;
  }
};
