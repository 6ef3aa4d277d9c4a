// Reference model of one CMA-ES generation (Hansen's equations), independent of Eigen and of the library's code.
#pragma once
struct ModelState { double ps[128], pc[128], tpas; };
struct ModelIn {
  int n, lambda, nfixed, flavour;        // flavour 0 full, 1 active full, 2 separable, 3 active separable, 4 VD
  int noisy;                             // rates reduced for a noisy objective
  int tpa, gen;                          // gen: generations completed before this one, in this run
  int hyp;                               // bit 0: path constant of the separable flavour recomputed; bit 1: VD damping from VD's own csigma
  const double *m, *C, *D, *Ceig;        // mean; covariance n*n; D of VD; covariance of the last eigendecomposition
  double sigma;
  const double *x;                       // lambda*n ranked candidates
  int r1, r2;                            // ranks of the two TPA candidates, or -1
};
struct ModelOut { double m[128]; double C[128 * 128]; double sigma; int amb; double cond; bool ok; };
void model_step(const ModelIn &in, ModelState &st, int hsig, ModelOut &out);  // hsig -1: decide
int model_eig(const double *A, int n, double *w, double *V);                 // Jacobi; V columns
bool model_chol(const double *A, int n, double *L);
