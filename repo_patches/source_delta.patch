From 3844d532969d773e5e3cfe90cf1434e1a99c60de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:39 +0000
Subject: [PATCH 01/45] fix: give every multivariate normal sampler its own
 random stream

The sampler's engine was a static member, so building or running any other
optimizer in the process reseeded and consumed the stream of a running one,
and optimizers in different threads raced on it.
---
 include/libcmaes/eigenmvn.h | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/include/libcmaes/eigenmvn.h b/include/libcmaes/eigenmvn.h
index 6cddf5e..a05ceda 100644
--- a/include/libcmaes/eigenmvn.h
+++ b/include/libcmaes/eigenmvn.h
@@ -49,19 +49,15 @@ namespace Eigen {
     template<typename Scalar>
       struct scalar_normal_dist_op
       {
-	static std::mt19937 rng;                        // The uniform pseudo-random algorithm
+	std::mt19937 *rng;                              // The uniform pseudo-random algorithm, owned by the sampler
 	mutable std::normal_distribution<Scalar> norm; // gaussian combinator
 	
-	EIGEN_EMPTY_STRUCT_CTOR(scalar_normal_dist_op)
+	explicit scalar_normal_dist_op(std::mt19937 &r):rng(&r) {}
 
 	template<typename Index>
-	inline const Scalar operator() (Index, Index = 0) const { return norm(rng); }
-	inline void seed(const uint64_t &s) { rng.seed(s); }
+	inline const Scalar operator() (Index, Index = 0) const { return norm(*rng); }
       };
 
-    template<typename Scalar>
-      std::mt19937 scalar_normal_dist_op<Scalar>::rng;
-      
     template<typename Scalar>
       struct functor_traits<scalar_normal_dist_op<Scalar> >
       { enum { Cost = 50 * NumTraits<Scalar>::MulCost, PacketAccess = false, IsRepeatable = false }; };
@@ -76,7 +72,8 @@ namespace Eigen {
     class EigenMultivariateNormal
   {
     Matrix< Scalar, Dynamic, 1> _mean;
-    internal::scalar_normal_dist_op<Scalar> randN; // Gaussian functor
+    std::mt19937 _rng; // random stream of this very sampler, not shared with any other
+    internal::scalar_normal_dist_op<Scalar> randN() { return internal::scalar_normal_dist_op<Scalar>(_rng); } // Gaussian functor
     bool _use_cholesky;
 
   public:
@@ -93,15 +90,13 @@ namespace Eigen {
   public:
     EigenMultivariateNormal(const bool &use_cholesky=false,
 			    const uint64_t &seed=std::mt19937::default_seed)
-      :_use_cholesky(use_cholesky)
+      :_rng(seed),_use_cholesky(use_cholesky)
       {
-	randN.seed(seed);
       }
   EigenMultivariateNormal(const Matrix<Scalar,Dynamic,1>& mean,const Matrix<Scalar,Dynamic,Dynamic>& covar,
 			  const bool &use_cholesky=false,const uint64_t &seed=std::mt19937::default_seed)
-      :_use_cholesky(use_cholesky)
+      :_rng(seed),_use_cholesky(use_cholesky)
     {
-      randN.seed(seed);
       setMean(mean);
       setCovar(covar);
     }
@@ -143,12 +138,12 @@ namespace Eigen {
     /// as columns in a Dynamic by nn matrix
     Matrix<Scalar,Dynamic,-1> samples(int nn, double factor)
       {
-	return ((_transform * Matrix<Scalar,Dynamic,-1>::NullaryExpr(_covar.rows(),nn,randN))*factor).colwise() + _mean;
+	return ((_transform * Matrix<Scalar,Dynamic,-1>::NullaryExpr(_covar.rows(),nn,randN()))*factor).colwise() + _mean;
       }
 
     Matrix<Scalar,Dynamic,-1> samples_ind(int nn, double factor)
       {
-	dMat pop = (Matrix<Scalar,Dynamic,-1>::NullaryExpr(_covar.rows(),nn,randN))*factor;
+	dMat pop = (Matrix<Scalar,Dynamic,-1>::NullaryExpr(_covar.rows(),nn,randN()))*factor;
 	for (int i=0;i<pop.cols();i++)
 	  {
 	    pop.col(i) = pop.col(i).cwiseProduct(_transform) + _mean;
@@ -158,7 +153,7 @@ namespace Eigen {
 
     Matrix<Scalar,Dynamic,-1> samples_ind(int nn)
       {
-	return (Matrix<Scalar,Dynamic,-1>::NullaryExpr(_covar.rows(),nn,randN));
+	return (Matrix<Scalar,Dynamic,-1>::NullaryExpr(_covar.rows(),nn,randN()));
       }
     
   }; // end class EigenMultivariateNormal
-- 
2.43.0


From 1b9b7ea2182deac92a3e09ab7739331ab8fb184e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:46 +0000
Subject: [PATCH 02/45] fix: derive every random stream from the seed

Uncertainty handling, BIPOP's restart schedule, ACM surrogate sampling and
initial points drawn in a range came from random_device, time() or rand(), so
a run was not reproducible from its seed.
---
 include/libcmaes/parameters.h        | 17 +++++++++++++++++
 include/libcmaes/surrogatestrategy.h |  3 +--
 src/bipopcmastrategy.cc              |  9 ++-------
 src/cmasolutions.cc                  |  4 ++--
 src/esostrategy.cc                   |  8 ++++----
 src/surrogatestrategy.cc             |  5 +++--
 6 files changed, 29 insertions(+), 17 deletions(-)

diff --git a/include/libcmaes/parameters.h b/include/libcmaes/parameters.h
index be42b04..b79ff2a 100644
--- a/include/libcmaes/parameters.h
+++ b/include/libcmaes/parameters.h
@@ -31,6 +31,7 @@
 #include <unordered_map>
 #include <map>
 #include <chrono>
+#include <random>
 
 namespace libcmaes
 {
@@ -554,6 +555,21 @@ namespace libcmaes
       }
       
     protected:
+      /**
+       * \brief draws a vector uniformly in [-1,1], from the seed and the number of previous draws.
+       * @return random vector
+       */
+      dVec random_x0()
+      {
+	std::seed_seq sseq{static_cast<uint32_t>(_seed),static_cast<uint32_t>(_x0draws++)};
+	std::mt19937 gen(sseq);
+	std::uniform_real_distribution<> unif(-1.0,1.0);
+	dVec x0(_dim);
+	for (int i=0;i<_dim;i++)
+	  x0(i) = unif(gen);
+	return x0;
+      }
+
       int _dim; /**< function space dimensions. */
       int _lambda = -1; /**< number of offsprings. */
       int _max_iter = -1; /**< max iterations. */
@@ -569,6 +585,7 @@ namespace libcmaes
       double _xtol = 1e-12; /**< tolerance on parameters error. */
       
       uint64_t _seed = 0; /**< seed for random generator. */
+      int _x0draws = 0; /**< number of initial points drawn so far. */
       int _algo = 0; /**< selected algorithm. */
       
       bool _with_gradient=false; /**< whether to use injected gradient. */
diff --git a/include/libcmaes/surrogatestrategy.h b/include/libcmaes/surrogatestrategy.h
index c119adf..1b84d0a 100644
--- a/include/libcmaes/surrogatestrategy.h
+++ b/include/libcmaes/surrogatestrategy.h
@@ -363,7 +363,7 @@ namespace libcmaes
     }
 
     private:
-    void init_rd(); // initialize random device.
+    void init_rd(); // initialize random generators.
 
     public:
     /**
@@ -422,7 +422,6 @@ namespace libcmaes
 
     private:
     // random numbers for selection sampling
-    std::random_device _rd;
     std::normal_distribution<double> _norm_sel0;
     std::normal_distribution<double> _norm_sel1;
     std::mt19937 _gen0;
diff --git a/src/bipopcmastrategy.cc b/src/bipopcmastrategy.cc
index a6ee42f..51a5487 100644
--- a/src/bipopcmastrategy.cc
+++ b/src/bipopcmastrategy.cc
@@ -23,7 +23,6 @@
 #include <libcmaes/opti_err.h>
 #include <random>
 #include <libcmaes/llogging.h>
-#include <ctime>
 #include <array>
 
 namespace libcmaes
@@ -33,9 +32,7 @@ namespace libcmaes
 								   CMAParameters<TGenoPheno> &parameters)
     :IPOPCMAStrategy<TCovarianceUpdate,TGenoPheno>(func,parameters),_lambda_def(parameters._lambda),_lambda_l(parameters._lambda)
   {
-    std::random_device rd;
-    _gen = std::mt19937(rd());
-    _gen.seed(static_cast<uint64_t>(time(nullptr)));
+    _gen = std::mt19937(parameters._seed);
     _unif = std::uniform_real_distribution<>(0,1);
     CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters._lambda = _lambda_def;
     CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters._mu = floor(_lambda_def / 2.0);
@@ -50,9 +47,7 @@ namespace libcmaes
 								   const CMASolutions &solutions)
     :IPOPCMAStrategy<TCovarianceUpdate,TGenoPheno>(func,parameters,solutions),_lambda_def(parameters._lambda),_lambda_l(parameters._lambda)
   {
-    std::random_device rd;
-    _gen = std::mt19937(rd());
-    _gen.seed(static_cast<uint64_t>(time(nullptr)));
+    _gen = std::mt19937(parameters._seed);
     _unif = std::uniform_real_distribution<>(0,1);
     CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters._lambda = _lambda_def;
     CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters._mu = floor(_lambda_def / 2.0);
diff --git a/src/cmasolutions.cc b/src/cmasolutions.cc
index a46e414..9e5c20d 100644
--- a/src/cmasolutions.cc
+++ b/src/cmasolutions.cc
@@ -45,12 +45,12 @@ namespace libcmaes
     if (p._x0min == p._x0max)
       {
 	if (p._x0min == dVec::Constant(p._dim,-std::numeric_limits<double>::max()))
-	  _xmean = dVec::Random(p._dim) * 4.0; // initial mean randomly sampled from -4,4 in all dimensions.
+	  _xmean = p.random_x0() * 4.0; // initial mean randomly sampled from -4,4 in all dimensions.
 	else _xmean = p._x0min;
       }
     else
       {
-	_xmean = 0.5*(dVec::Random(p._dim) + dVec::Constant(p._dim,1.0)); // scale to [0,1].
+	_xmean = 0.5*(p.random_x0() + dVec::Constant(p._dim,1.0)); // scale to [0,1].
 	_xmean = _xmean.cwiseProduct(p._x0max - p._x0min) + p._x0min; // scale to bounds.
       }
     if (!p._fixed_p.empty())
diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index 0c570c1..6734142 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -52,8 +52,8 @@ namespace libcmaes
     _solutions = TSolutions(_parameters);
     if (parameters._uh)
       {
-	std::random_device rd;
-	_uhgen = std::mt19937(rd());
+	_uhgen = std::mt19937(_parameters._seed);
+	_uhesolver = Eigen::EigenMultivariateNormal<double>(false,_uhgen());
 	_uhunif = std::uniform_real_distribution<>(0,1);
       }
   }
@@ -68,8 +68,8 @@ namespace libcmaes
     start_from_solution(solutions);
     if (parameters._uh)
       {
-	std::random_device rd;
-	_uhgen = std::mt19937(rd());
+	_uhgen = std::mt19937(_parameters._seed);
+	_uhesolver = Eigen::EigenMultivariateNormal<double>(false,_uhgen());
 	_uhunif = std::uniform_real_distribution<>(0,1);
       }
   }
diff --git a/src/surrogatestrategy.cc b/src/surrogatestrategy.cc
index cfd677b..0b4d7b6 100644
--- a/src/surrogatestrategy.cc
+++ b/src/surrogatestrategy.cc
@@ -215,8 +215,9 @@ namespace libcmaes
   template<template <class U,class V> class TStrategy, class TCovarianceUpdate, class TGenoPheno>
   void ACMSurrogateStrategy<TStrategy,TCovarianceUpdate,TGenoPheno>::init_rd()
   {
-    _gen0 = std::mt19937(_rd());
-    _gen1 = std::mt19937(_rd());
+    std::mt19937 gen(eostrat<TGenoPheno>::_parameters._seed);
+    _gen0 = std::mt19937(gen());
+    _gen1 = std::mt19937(gen());
     _norm_sel0 = std::normal_distribution<double>(0.0,_theta_sel0*_theta_sel0);
     _norm_sel1 = std::normal_distribution<double>(0.0,_theta_sel1*_theta_sel1);
   }
-- 
2.43.0


From c054c06f12c97f913ccb85906d40e4d7eff33f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:46 +0000
Subject: [PATCH 03/45] fix: set_seed tests its argument, not the previous
 seed, for the special value 0

---
 include/libcmaes/parameters.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcmaes/parameters.h b/include/libcmaes/parameters.h
index b79ff2a..4079385 100644
--- a/include/libcmaes/parameters.h
+++ b/include/libcmaes/parameters.h
@@ -277,7 +277,7 @@ namespace libcmaes
        */
       void set_seed(const int &seed)
       {
-	if (_seed == 0)
+	if (seed == 0)
 	  _seed = static_cast<uint64_t>(std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::high_resolution_clock::now().time_since_epoch()).count());
 	else _seed = seed;
       }
-- 
2.43.0


From 2590e0a74034f2642d3701906daa8401cd6a11d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:49 +0000
Subject: [PATCH 04/45] fix: expected distance to minimum for VD-CMA and before
 the first iteration

edm() multiplied matrices of mismatching sizes, reading out of bounds, for the
VD flavors and whenever the run ended before completing an iteration.
---
 src/esostrategy.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index 6734142..601297f 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -199,9 +199,18 @@ namespace libcmaes
     dVec gradgpf = gradgp(_solutions._xmean);
     gradff = gradff.cwiseProduct(gradgpf);
     dMat gradmn;
-    if (!_parameters._sep)
+    if (!_solutions._leigenvalues.size()) // no iteration was completed, covariance is identity
+      gradmn = gradff;
+    else if (!_parameters._sep && !_parameters._vd)
       gradmn = _solutions._leigenvectors*_solutions._leigenvalues.cwiseSqrt().asDiagonal() * gradff;
-    else gradmn = _solutions._sepcov.cwiseSqrt().cwiseProduct(gradff);
+    else if (_parameters._sep)
+      gradmn = _solutions._sepcov.cwiseSqrt().cwiseProduct(gradff);
+    else // vd
+      {
+	dVec dgradff = _solutions._sepcov.cwiseProduct(gradff);
+	double normv = _solutions._v.squaredNorm();
+	gradmn = dgradff + (std::sqrt(1.0+normv)-1.0) / normv * _solutions._v.dot(dgradff) * _solutions._v;
+      }
     double gradn = _solutions._sigma * gradmn.norm();
     edm *= gradn;
     _solutions._edm = edm;
-- 
2.43.0


From c90b881dff000d23cb7293dcb86715919aaf35ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:39 +0000
Subject: [PATCH 05/45] fix: uncertainty handling mutates in search space, not
 past bounds and fixed values

The re-evaluated points were mutated after the genotype / phenotype transform,
so they could leave the user's bounds and move fixed parameters.
---
 src/esostrategy.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index 601297f..5cf41ee 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -357,13 +357,15 @@ namespace libcmaes
 	  _solutions._lambda_reev = 1;
 	
 	// mutate candidates.
-	if (phenocandidates.size())
-	  candidates_uh = phenocandidates.block(0,0,phenocandidates.rows(),_solutions._lambda_reev);
-	else candidates_uh = candidates.block(0,0,candidates.rows(),_solutions._lambda_reev);
+	candidates_uh = candidates.block(0,0,candidates.rows(),_solutions._lambda_reev);
 	if (_solutions._sepcov.size())
 	  _uhesolver.set_covar(_solutions._sepcov);
 	else _uhesolver.set_covar(_solutions._cov);
 	candidates_uh += _parameters._epsuh * _solutions._sigma * _uhesolver.samples_ind(_solutions._lambda_reev);
+	for (auto it=_parameters._fixed_p.begin();it!=_parameters._fixed_p.end();++it) // fixed parameters do not mutate.
+	  candidates_uh.row((*it).first).setConstant((*it).second);
+	if (phenocandidates.size())
+	  candidates_uh = _parameters._gp.pheno(candidates_uh);
 	}
 
   template<class TParameters,class TSolutions,class TStopCriteria>
-- 
2.43.0


From 65a3147bec7c52af61fa853734057ba8a91d08ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:39 +0000
Subject: [PATCH 06/45] fix: clip finite-difference probes with the bounds of
 the space they live in

gradf() works on phenotype but clipped with the internal bounds, which differ
under linear scaling, and scaling from a vector did not record the phenotype bounds.
---
 include/libcmaes/genopheno.h | 2 +-
 src/esostrategy.cc           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libcmaes/genopheno.h b/include/libcmaes/genopheno.h
index 7c1b4ef..3734477 100644
--- a/include/libcmaes/genopheno.h
+++ b/include/libcmaes/genopheno.h
@@ -358,7 +358,7 @@ namespace libcmaes
       dVec nlbounds, nubounds;
       _scalingstrategy.scale_to_internal(nlbounds,vlbounds);
       _scalingstrategy.scale_to_internal(nubounds,vubounds);
-      _boundstrategy = pwqBoundStrategy(nlbounds.data(),nubounds.data(),scaling.size());
+      _boundstrategy = pwqBoundStrategy(nlbounds.data(),nubounds.data(),lbounds,ubounds,scaling.size());
     }
 }
 
diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index 5cf41ee..ceedb94 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -175,7 +175,7 @@ namespace libcmaes
       {
 	dVec ei1 = x;
 	ei1(i,0) += epsilon(i);
-	ei1(i,0) = std::min(ei1(i,0),_parameters.get_gp().get_boundstrategy_ref().getUBound(i));
+	ei1(i,0) = std::min(ei1(i,0),_parameters.get_gp().get_boundstrategy_ref().getPhenoUBound(i));
 	double gradi = (_func(ei1.data(),_parameters._dim) - fx)/epsilon(i);
 	vgradf(i,0) = gradi;
       }
-- 
2.43.0


From 39daf14028ddfb14900c1a62bf321113067271c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:39 +0000
Subject: [PATCH 07/45] fix: points far out of bounds shift into the feasible
 domain

The number of periods was cast to int, which overflows for points far away, and
rounding could leave the shifted point out of the domain.
---
 src/pwq_bound_strategy.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pwq_bound_strategy.cc b/src/pwq_bound_strategy.cc
index 5fb94c7..63204a8 100644
--- a/src/pwq_bound_strategy.cc
+++ b/src/pwq_bound_strategy.cc
@@ -27,6 +27,8 @@
 
 #include <libcmaes/pwq_bound_strategy.h>
 #include <libcmaes/llogging.h>
+#include <algorithm>
+#include <cmath>
 #include <limits>
 #include <iostream>
 
@@ -97,13 +99,14 @@ namespace libcmaes
     for (int i=0;i<x.rows();i++) //TODO: vectorize ?
       {
 	if (x_s[i] < _xlow[i])
-	  x_s[i] += _r[i] * (1.0 + static_cast<int>((_xlow[i]-x_s[i])/_r[i])); // shift up.
+	  x_s[i] += _r[i] * (1.0 + std::floor((_xlow[i]-x_s[i])/_r[i])); // shift up.
 	if (x_s[i] > _xup[i])
-	  x_s[i] -= _r[i] * (1.0 + static_cast<int>((x_s[i]-_xup[i])/_r[i])); // shift down;
+	  x_s[i] -= _r[i] * (1.0 + std::floor((x_s[i]-_xup[i])/_r[i])); // shift down;
 	if (x_s[i] < _lbounds[i] - _al[i])
 	  x_s[i] += 2.0 * (_lbounds[i] - _al[i] - x_s[i]);
 	if (x_s[i] > _ubounds[i] + _au[i])
 	  x_s[i] -= 2.0 * (x_s[i] - _ubounds[i] - _au[i]);
+	x_s[i] = std::max(_lbounds[i] - _al[i],std::min(_ubounds[i] + _au[i],x_s[i])); // rounding of far away points.
 
 	if ((x_s[i] < _lbounds[i] - _al[i] - 1e-15) || (x_s[i] > _ubounds[i] + _au[i] + 1e-15))
 	  {
-- 
2.43.0


From 9fb5f4c68b3cd997cad9451766b5d2caad111b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:26 +0000
Subject: [PATCH 08/45] fix: fixed parameters keep their value under scaling
 and when set again

The initial mean was scaled after fixed values were put in, while sampled
candidates take them as they are, so the mean held another value than the
candidates; and fixing a parameter a second time was silently ignored.
---
 include/libcmaes/parameters.h | 2 +-
 src/cmasolutions.cc           | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/libcmaes/parameters.h b/include/libcmaes/parameters.h
index 4079385..5ffa940 100644
--- a/include/libcmaes/parameters.h
+++ b/include/libcmaes/parameters.h
@@ -195,7 +195,7 @@ namespace libcmaes
        */
       void set_fixed_p(const int &index, const double &value)
       {
-	_fixed_p.insert(std::pair<int,double>(index,value));
+	_fixed_p[index] = value;
       }
       
       /**
diff --git a/src/cmasolutions.cc b/src/cmasolutions.cc
index 9e5c20d..3a6a72e 100644
--- a/src/cmasolutions.cc
+++ b/src/cmasolutions.cc
@@ -53,7 +53,10 @@ namespace libcmaes
 	_xmean = 0.5*(p.random_x0() + dVec::Constant(p._dim,1.0)); // scale to [0,1].
 	_xmean = _xmean.cwiseProduct(p._x0max - p._x0min) + p._x0min; // scale to bounds.
       }
-    if (!p._fixed_p.empty())
+    // if scaling, need to apply to xmean.
+    if (!p._gp._scalingstrategy._id)
+      p._gp._scalingstrategy.scale_to_internal(_xmean,_xmean);
+    if (!p._fixed_p.empty()) // fixed values are not scaled, as when sampling.
       {
 	auto fpmit = p._fixed_p.begin();
 	while (fpmit!=p._fixed_p.end())
@@ -62,9 +65,6 @@ namespace libcmaes
 	    ++fpmit;
 	  }
       }
-    // if scaling, need to apply to xmean.
-    if (!p._gp._scalingstrategy._id)
-      p._gp._scalingstrategy.scale_to_internal(_xmean,_xmean);
     if (static_cast<CMAParameters<TGenoPheno>&>(p)._sigma_init > 0.0)
       _sigma = static_cast<CMAParameters<TGenoPheno>&>(p)._sigma_init;
     else static_cast<CMAParameters<TGenoPheno>&>(p)._sigma_init = _sigma = 1.0/static_cast<double>(p._dim); // XXX: sqrt(trace(cov)/dim)
-- 
2.43.0


From b4b5cf9916b24ddd352a253127fb7171c664d069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:26 +0000
Subject: [PATCH 09/45] fix: the last setting of a stopping criterion wins

---
 include/libcmaes/cmaparameters.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcmaes/cmaparameters.h b/include/libcmaes/cmaparameters.h
index da9f038..06d96ca 100644
--- a/include/libcmaes/cmaparameters.h
+++ b/include/libcmaes/cmaparameters.h
@@ -270,7 +270,7 @@ namespace libcmaes
       inline void set_stopping_criteria(const int &criteria,
 					const bool &active)
       {
-	_stoppingcrit.insert(std::pair<int,bool>(criteria,active));
+	_stoppingcrit[criteria] = active;
       }
 
       /**
-- 
2.43.0


From 45f5342ff4df530b3f270abceeb948106a39f03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:41 +0000
Subject: [PATCH 10/45] fix: NaN objective values rank last

Comparisons with NaN broke the strict weak ordering the sorts rely on, so NaN
candidates could rank first, become the best seen solution or the returned run,
and convergence was declared over NaN histories.
---
 include/libcmaes/candidate.h    | 10 ++++++++++
 include/libcmaes/cmasolutions.h |  2 +-
 src/cmasolutions.cc             |  2 +-
 src/cmastopcriteria.cc          |  4 +++-
 src/esostrategy.cc              |  4 ++--
 src/ipopcmastrategy.cc          |  2 +-
 6 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/libcmaes/candidate.h b/include/libcmaes/candidate.h
index d5ede0b..11576e5 100644
--- a/include/libcmaes/candidate.h
+++ b/include/libcmaes/candidate.h
@@ -24,9 +24,19 @@
 
 #include <libcmaes/eo_matrix.h>
 #include <libcmaes/cmaparameters.h>
+#include <cmath>
 
 namespace libcmaes
 {
+  /**
+   * \brief whether an objective function value is better, i.e. lower, than another one.
+   *        NaN is worse than any number, so that this is a strict weak ordering.
+   */
+  inline bool better_fvalue(const double &f1, const double &f2)
+  {
+    return f1 < f2 || (!std::isnan(f1) && std::isnan(f2));
+  }
+
   /**
    * \brief candidate solution point, in function parameter space.
    */
diff --git a/include/libcmaes/cmasolutions.h b/include/libcmaes/cmasolutions.h
index 23aca8a..bff47ed 100644
--- a/include/libcmaes/cmasolutions.h
+++ b/include/libcmaes/cmasolutions.h
@@ -76,7 +76,7 @@ namespace libcmaes
     void sort_candidates()
     {
       std::stable_sort(_candidates.begin(),_candidates.end(),
-		[](Candidate const &c1, Candidate const &c2){return c1.get_fvalue() < c2.get_fvalue();});
+		[](Candidate const &c1, Candidate const &c2){return better_fvalue(c1.get_fvalue(),c2.get_fvalue());});
     }
 
     /**
diff --git a/src/cmasolutions.cc b/src/cmasolutions.cc
index 3a6a72e..12718f4 100644
--- a/src/cmasolutions.cc
+++ b/src/cmasolutions.cc
@@ -112,7 +112,7 @@ namespace libcmaes
       _median_fvalues.erase(_median_fvalues.begin());
 
     // store best seen candidate.
-    if ((_niter == 0 && !_best_seen_candidate.get_x_size()) || _candidates.at(0).get_fvalue() < _best_seen_candidate.get_fvalue())
+    if ((_niter == 0 && !_best_seen_candidate.get_x_size()) || better_fvalue(_candidates.at(0).get_fvalue(),_best_seen_candidate.get_fvalue()))
       {
 	_best_seen_candidate = _candidates.at(0);
 	_best_seen_iter = _niter;
diff --git a/src/cmastopcriteria.cc b/src/cmastopcriteria.cc
index 89310a9..73710a4 100644
--- a/src/cmastopcriteria.cc
+++ b/src/cmastopcriteria.cc
@@ -55,7 +55,7 @@ namespace libcmaes
   {
     double median;
     size_t size = scores.size();
-    std::sort(scores.begin(), scores.end());
+    std::sort(scores.begin(), scores.end(), better_fvalue);
     if (size  % 2 == 0)
       median = (scores[size / 2 - 1] + scores[size / 2]) / 2;
     else median = scores[size / 2];
@@ -128,6 +128,8 @@ namespace libcmaes
 	for (int i=0;i<histlength;i++)
 	  {
 	    double val = cmas._best_candidates_hist.at(histsize-1-i).get_fvalue();
+	    if (std::isnan(val)) // no convergence on invalid values
+	      return CONT;
 	    frange.first = std::min(val,frange.first);
 	    frange.second = std::max(val,frange.second);
 	  }
diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index ceedb94..cd67f55 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -224,7 +224,7 @@ namespace libcmaes
 	      _solutions._candidates_uh.end(),
 	      [](const RankedCandidate &c1, const RankedCandidate &c2)
 	      { 
-		bool lower = c1.get_fvalue() < c2.get_fvalue();
+		bool lower = better_fvalue(c1.get_fvalue(),c2.get_fvalue());
 		return lower;
 	      });
     int pos = 0;
@@ -241,7 +241,7 @@ namespace libcmaes
 	      _solutions._candidates_uh.end(),
 	      [](const RankedCandidate &c1, const RankedCandidate &c2)
 	      { 
-		bool lower = c1._fvalue_mut < c2._fvalue_mut;
+		bool lower = better_fvalue(c1._fvalue_mut,c2._fvalue_mut);
 		return lower;
 	      });
     pos = 0;
diff --git a/src/ipopcmastrategy.cc b/src/ipopcmastrategy.cc
index b6faf8b..d78f357 100644
--- a/src/ipopcmastrategy.cc
+++ b/src/ipopcmastrategy.cc
@@ -102,7 +102,7 @@ namespace libcmaes
   template <class TCovarianceUpdate, class TGenoPheno>
   void IPOPCMAStrategy<TCovarianceUpdate,TGenoPheno>::capture_best_solution(CMASolutions &best_run)
   {
-    if (best_run._candidates.empty() || CMAStrategy<TCovarianceUpdate,TGenoPheno>::_solutions.best_candidate().get_fvalue() < best_run.best_candidate().get_fvalue())
+    if (best_run._candidates.empty() || better_fvalue(CMAStrategy<TCovarianceUpdate,TGenoPheno>::_solutions.best_candidate().get_fvalue(),best_run.best_candidate().get_fvalue()))
       best_run = CMAStrategy<TCovarianceUpdate,TGenoPheno>::_solutions;
   }
 
-- 
2.43.0


From 426e8acf294e9cf1767c9cbe31680dd4f762b1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:41 +0000
Subject: [PATCH 11/45] fix: valid ordering when reranking under uncertainty
 handling

The comparison added r2 twice for the second candidate and mixed two tie
breakers, so it was no strict weak ordering and std::sort had undefined behavior.
---
 src/esostrategy.cc | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index cd67f55..3ba6637 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -307,19 +307,14 @@ namespace libcmaes
 	      [lreev,meandelta](RankedCandidate const &c1, RankedCandidate const &c2)
 	      { 
 		int s1 = c1._r1 + c1._r2;
-		int s2 = c2._r2 + c2._r2;
-		if (s1 == s2)
-		  {
-		    if (c1._delta == c2._delta)
-		      return c1.get_fvalue() + c1._fvalue_mut < c2.get_fvalue() + c2._fvalue_mut;
-		    else
-		      {
-			double c1d = c1._idx < lreev ? fabs(c1._delta) : meandelta;
-			double c2d = c2._idx < lreev ? fabs(c2._delta) : meandelta;
-			return c1d < c2d;
-		      }
-		  }
-		else return c1._r1 + c1._r2 < c2._r1 + c2._r2;
+		int s2 = c2._r1 + c2._r2;
+		if (s1 != s2)
+		  return s1 < s2;
+		double c1d = c1._idx < lreev ? fabs(c1._delta) : meandelta;
+		double c2d = c2._idx < lreev ? fabs(c2._delta) : meandelta;
+		if (c1d != c2d)
+		  return c1d < c2d;
+		return better_fvalue(c1.get_fvalue() + c1._fvalue_mut,c2.get_fvalue() + c2._fvalue_mut);
 	      });
     std::vector<Candidate> ncandidates;
     vit = _solutions._candidates_uh.begin();
-- 
2.43.0


From ff6453031e1a6bbea4318f2f15d9d0dac75097e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:47 +0000
Subject: [PATCH 12/45] fix: elitism replaces the worst candidate, and no
 elitism switches all of it off

Reinjection overwrote the second candidate whatever its value, losing better
points and the ones two-point adaptation looks for, also when the reference value
was NaN; set_elitism(0) kept elitism on restart.
---
 include/libcmaes/cmaparameters.h |  2 +-
 src/esostrategy.cc               | 14 ++++++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/libcmaes/cmaparameters.h b/include/libcmaes/cmaparameters.h
index 06d96ca..52ad309 100644
--- a/include/libcmaes/cmaparameters.h
+++ b/include/libcmaes/cmaparameters.h
@@ -243,7 +243,7 @@ namespace libcmaes
       inline void set_elitism(const int &e)
       {
 	if (e == 0)
-	  _elitist = _initial_elitist = _initial_elitist_on_restart;
+	  _elitist = _initial_elitist = _initial_elitist_on_restart = false;
 	else if (e == 1)
 	  {
 	    _elitist = true;
diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index 3ba6637..2f39eaa 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -131,12 +131,22 @@ namespace libcmaes
 	    if (_solutions._candidates.at(r).get_fvalue() < ref_fvalue)
 	    ++count;
 	  }
-	if (count < candidates.cols()/2)
+	if (count < candidates.cols()/2 && !std::isnan(ref_fvalue))
 	  {
 #ifdef HAVE_DEBUG
 	    std::cout << "reinjecting solution=" << ref_fvalue << std::endl;
 #endif
-	    _solutions._candidates.at(1) = ref_candidate;
+	    // replace the worst candidate, and as possible none of those used for two-point adaptation.
+	    int worst = -1;
+	    for (int r=0;r<candidates.cols();r++)
+	      {
+		if (_parameters._tpa == 2 && candidates.cols() > 2 && (r == _solutions._tpa_p1 || r == _solutions._tpa_p2))
+		  continue;
+		if (worst == -1 || better_fvalue(_solutions._candidates.at(worst).get_fvalue(),_solutions._candidates.at(r).get_fvalue()))
+		  worst = r;
+	      }
+	    ref_candidate.set_id(_solutions._candidates.at(worst).get_id());
+	    _solutions._candidates.at(worst) = ref_candidate;
 	  }
       }
     
-- 
2.43.0


From 54aa4320e335bafd7d7b6ea070dc1b6530460b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:30 +0000
Subject: [PATCH 13/45] fix: elitism on restart ends, and keeps to the caller's
 functions and start point

The elitist restart could repeat without end, ran after a cancel request or past
the budget, dropped custom ask / eval / tell functions, read an uninitialized
iteration number, and set x0 to search space coordinates, which later restarts
scaled a second time.
---
 include/libcmaes/cmasolutions.h |  2 +-
 src/cmastrategy.cc              | 18 ++++++++++++------
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/libcmaes/cmasolutions.h b/include/libcmaes/cmasolutions.h
index bff47ed..cebf075 100644
--- a/include/libcmaes/cmasolutions.h
+++ b/include/libcmaes/cmasolutions.h
@@ -526,7 +526,7 @@ namespace libcmaes
     double _edm = 0.0; /**< expected vertical distance to the minimum. */
 
     Candidate _best_seen_candidate; /**< best seen candidate along the run. */
-    int _best_seen_iter;
+    int _best_seen_iter = 0;
     Candidate _worst_seen_candidate;
     Candidate _initial_candidate;
     
diff --git a/src/cmastrategy.cc b/src/cmastrategy.cc
index cc8814c..a0d0776 100644
--- a/src/cmastrategy.cc
+++ b/src/cmastrategy.cc
@@ -364,22 +364,28 @@ namespace libcmaes
       eostrat<TGenoPheno>::edm();
 
     // test on final value wrt. to best candidate value and number of iterations in between.
-    if (eostrat<TGenoPheno>::_parameters._initial_elitist_on_restart)
+    // only once per run, and not past a cancel request or the budget.
+    if (eostrat<TGenoPheno>::_parameters._initial_elitist_on_restart
+	&& !eostrat<TGenoPheno>::_initial_elitist
+	&& eostrat<TGenoPheno>::_solutions._run_status != CONT
+	&& (eostrat<TGenoPheno>::_parameters._max_fevals <= 0
+	    || eostrat<TGenoPheno>::_solutions._nevals < eostrat<TGenoPheno>::_parameters._max_fevals))
       {
-	if (eostrat<TGenoPheno>::_parameters._initial_elitist_on_restart
-	    && eostrat<TGenoPheno>::_solutions._best_seen_candidate.get_fvalue()
-	    < eostrat<TGenoPheno>::_solutions.best_candidate().get_fvalue()
+	if (better_fvalue(eostrat<TGenoPheno>::_solutions._best_seen_candidate.get_fvalue(),
+			  eostrat<TGenoPheno>::_solutions.best_candidate().get_fvalue())
 	    && eostrat<TGenoPheno>::_niter - eostrat<TGenoPheno>::_solutions._best_seen_iter >= 3) // elitist
 	  {
 	    LOG_IF(INFO,!eostrat<TGenoPheno>::_parameters._quiet) << "Starting elitist on restart: bfvalue=" << eostrat<TGenoPheno>::_solutions._best_seen_candidate.get_fvalue() << " / biter=" << eostrat<TGenoPheno>::_solutions._best_seen_iter << std::endl;
 	    this->set_initial_elitist(true);
 
 	    // reinit solution and re-optimize.
-	    eostrat<TGenoPheno>::_parameters.set_x0(eostrat<TGenoPheno>::_solutions._best_seen_candidate.get_x_dvec_ref());
+	    dVec xbest = eostrat<TGenoPheno>::_solutions._best_seen_candidate.get_x_dvec();
 	    eostrat<TGenoPheno>::_solutions = CMASolutions(eostrat<TGenoPheno>::_parameters);
+	    eostrat<TGenoPheno>::_solutions._xmean = xbest;
 	    eostrat<TGenoPheno>::_solutions._nevals = eostrat<TGenoPheno>::_nevals;
 	    eostrat<TGenoPheno>::_niter = 0;
-	    optimize();
+	    optimize(evalf,askf,tellf);
+	    this->set_initial_elitist(false);
 	  }
       }
     
-- 
2.43.0


From 6b21c3f42b622d05f4d87bff15c5f03c7207daf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:54 +0000
Subject: [PATCH 14/45] fix: restart strategies count all evaluations, keep the
 total budget and end on cancel

---
 include/libcmaes/bipopcmastrategy.h |  3 ++-
 src/bipopcmastrategy.cc             | 20 ++++++++++++++++++--
 src/ipopcmastrategy.cc              | 16 ++++++++++++----
 3 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/include/libcmaes/bipopcmastrategy.h b/include/libcmaes/bipopcmastrategy.h
index ea309fe..3366362 100644
--- a/include/libcmaes/bipopcmastrategy.h
+++ b/include/libcmaes/bipopcmastrategy.h
@@ -91,6 +91,7 @@ namespace libcmaes
   protected:
     void r1();
     void r2();
+    bool done() const; // whether no further run should be started.
 
   private:
     std::mt19937 _gen;
@@ -98,7 +99,7 @@ namespace libcmaes
     double _lambda_def;
     double _lambda_l;
     double _sigma_init; // to save the original value
-    double _max_fevals; // to save the original value
+    int _max_fevals; // to save the original value
   };
 }
 
diff --git a/src/bipopcmastrategy.cc b/src/bipopcmastrategy.cc
index 51a5487..b839423 100644
--- a/src/bipopcmastrategy.cc
+++ b/src/bipopcmastrategy.cc
@@ -24,6 +24,7 @@
 #include <random>
 #include <libcmaes/llogging.h>
 #include <array>
+#include <algorithm>
 
 namespace libcmaes
 {
@@ -52,6 +53,8 @@ namespace libcmaes
     CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters._lambda = _lambda_def;
     CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters._mu = floor(_lambda_def / 2.0);
     //CMAStrategy<TCovarianceUpdate,TGenoPheno>::_solutions = CMASolutions(CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters);
+    _sigma_init = parameters._sigma_init;
+    _max_fevals = parameters._max_fevals;
   }
 
   template <class TCovarianceUpdate, class TGenoPheno>
@@ -74,10 +77,13 @@ namespace libcmaes
     CMASolutions best_run;
     for (int r=0;r<CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters._nrestarts;r++)
       {
-	while(budgets[0]>budgets[1])
+	while(budgets[0]>budgets[1] && !done())
 	  {
 	    r2();
-	    CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters.set_max_fevals(0.5*budgets[0]);
+	    int max_fevals = CMAStrategy<TCovarianceUpdate,TGenoPheno>::_nevals + 0.5*budgets[0];
+	    if (_max_fevals > 0)
+	      max_fevals = std::min(max_fevals,_max_fevals);
+	    CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters.set_max_fevals(max_fevals);
 	    IPOPCMAStrategy<TCovarianceUpdate,TGenoPheno>::reset_search_state();
 	    CMAStrategy<TCovarianceUpdate,TGenoPheno>::optimize(evalf,askf,tellf);
 	    budgets[1] += CMAStrategy<TCovarianceUpdate,TGenoPheno>::_solutions._niter * CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters._lambda;
@@ -85,6 +91,8 @@ namespace libcmaes
 	  }
 	if (r > 0) // use lambda_def on first call.
 	  {
+	    if (done())
+	      break;
 	    r1();
 	    IPOPCMAStrategy<TCovarianceUpdate,TGenoPheno>::reset_search_state();
 	  }
@@ -93,12 +101,20 @@ namespace libcmaes
 	budgets[0] += CMAStrategy<TCovarianceUpdate,TGenoPheno>::_solutions._niter * CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters._lambda;
 	IPOPCMAStrategy<TCovarianceUpdate,TGenoPheno>::capture_best_solution(best_run);
       }
+    best_run._nevals = CMAStrategy<TCovarianceUpdate,TGenoPheno>::_nevals; // over all runs.
     CMAStrategy<TCovarianceUpdate,TGenoPheno>::_solutions = best_run;
     if (CMAStrategy<TCovarianceUpdate,TGenoPheno>::_solutions._run_status >= 0)
       return OPTI_SUCCESS;
     else return OPTI_ERR_TERMINATION; // exact termination code is in CMAStrategy<TCovarianceUpdate>::_solutions._run_status.
   }
 
+  template <class TCovarianceUpdate, class TGenoPheno>
+  bool BIPOPCMAStrategy<TCovarianceUpdate,TGenoPheno>::done() const
+  {
+    return CMAStrategy<TCovarianceUpdate,TGenoPheno>::_solutions._run_status == CONT
+      || (_max_fevals > 0 && CMAStrategy<TCovarianceUpdate,TGenoPheno>::_nevals >= _max_fevals);
+  }
+
   template <class TCovarianceUpdate, class TGenoPheno>
   void BIPOPCMAStrategy<TCovarianceUpdate,TGenoPheno>::r1()
   {
diff --git a/src/ipopcmastrategy.cc b/src/ipopcmastrategy.cc
index d78f357..dd78c30 100644
--- a/src/ipopcmastrategy.cc
+++ b/src/ipopcmastrategy.cc
@@ -60,15 +60,21 @@ namespace libcmaes
     CMASolutions best_run;
     for (int r=0;r<CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters._nrestarts;r++)
       {
+	if (r > 0)
+	  {
+	    // reset parameters and solutions.
+	    lambda_inc();
+	    reset_search_state();
+	  }
 	LOG_IF(INFO,!(CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters._quiet)) << "r: " << r << " / lambda=" << CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters._lambda << std::endl;
 	CMAStrategy<TCovarianceUpdate,TGenoPheno>::optimize(evalf,askf,tellf);
 		
 	// capture best solution.
 	capture_best_solution(best_run);
-	
-	// reset parameters and solutions.
-	lambda_inc();
-	reset_search_state();
+
+	// do not restart on a cancel request.
+	if (CMAStrategy<TCovarianceUpdate,TGenoPheno>::_solutions._run_status == CONT)
+	  break;
 	
 	// do not restart if max budget function calls is reached.
 	if (CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters._max_fevals > 0
@@ -78,6 +84,7 @@ namespace libcmaes
 	    break;
 	  }
       }
+    best_run._nevals = CMAStrategy<TCovarianceUpdate,TGenoPheno>::_nevals; // over all runs.
     CMAStrategy<TCovarianceUpdate,TGenoPheno>::_solutions = best_run;
     if (CMAStrategy<TCovarianceUpdate,TGenoPheno>::_solutions._run_status >= 0)
       return OPTI_SUCCESS;
@@ -96,6 +103,7 @@ namespace libcmaes
   void IPOPCMAStrategy<TCovarianceUpdate,TGenoPheno>::reset_search_state()
   {
     CMAStrategy<TCovarianceUpdate,TGenoPheno>::_solutions = CMASolutions(CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters);
+    CMAStrategy<TCovarianceUpdate,TGenoPheno>::_solutions._nevals = CMAStrategy<TCovarianceUpdate,TGenoPheno>::_nevals;
     CMAStrategy<TCovarianceUpdate,TGenoPheno>::_niter = 0;
   }
 
-- 
2.43.0


From bc815b744767159cca3116e624286a1a318e59e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:25 +0000
Subject: [PATCH 15/45] fix: exceptions leave parallel loops instead of ending
 the program

---
 include/libcmaes/genopheno.h               | 29 +++++++++
 include/libcmaes/parallelexception.h       | 73 ++++++++++++++++++++++
 include/libcmaes/surrogates/rankingsvm.hpp |  9 +++
 src/CMakeLists.txt                         |  1 +
 src/Makefile.am                            |  4 +-
 src/esostrategy.cc                         |  8 +++
 6 files changed, 122 insertions(+), 2 deletions(-)
 create mode 100644 include/libcmaes/parallelexception.h

diff --git a/include/libcmaes/genopheno.h b/include/libcmaes/genopheno.h
index 3734477..2d272d6 100644
--- a/include/libcmaes/genopheno.h
+++ b/include/libcmaes/genopheno.h
@@ -25,6 +25,7 @@
 #include <libcmaes/noboundstrategy.h>
 #include <libcmaes/pwq_bound_strategy.h>
 #include <libcmaes/scaling.h>
+#include <libcmaes/parallelexception.h>
 #include <vector>
 
 namespace libcmaes
@@ -100,13 +101,17 @@ namespace libcmaes
       if (!_id)
 	{
 	  dMat ncandidates = dMat(candidates.rows(),candidates.cols());
+	  ParallelException pex;
 #pragma omp parallel for if (candidates.cols() >= 100)
 	  for (int i=0;i<candidates.cols();i++)
 	    {
+	      pex.run([&]{
 	      dVec ext = dVec(candidates.rows());
 	      _phenof(candidates.col(i).data(),ext.data(),candidates.rows());
 	      ncandidates.col(i) = ext;
+	      });
 	    }
+	  pex.rethrow();
 	  return ncandidates;
 	}
       return candidates;
@@ -117,13 +122,17 @@ namespace libcmaes
       if (!_id)
 	{
 	  dMat ncandidates = dMat(candidates.rows(),candidates.cols());
+	  ParallelException pex;
 #pragma omp parallel for if (candidates.cols() >= 100)
 	  for (int i=0;i<candidates.cols();i++)
 	    {
+	      pex.run([&]{
 	      dVec in = dVec(candidates.rows());
 	      _genof(candidates.col(i).data(),in.data(),candidates.rows());
 	      ncandidates.col(i) = in;
+	      });
 	    }
+	  pex.rethrow();
 	  return ncandidates;
 	}
       return candidates;
@@ -136,24 +145,32 @@ namespace libcmaes
       dMat ncandidates = pheno_candidates(candidates);
 
       // apply bounds.
+      ParallelException pex;
 #pragma omp parallel for if (ncandidates.cols() >= 100)
       for (int i=0;i<ncandidates.cols();i++)
 	{
+	  pex.run([&]{
 	  dVec ycoli;
 	  _boundstrategy.to_f_representation(ncandidates.col(i),ycoli);
 	  ncandidates.col(i) = ycoli;
+	  });
 	}
+      pex.rethrow();
       
       // apply scaling.
       if (!_scalingstrategy._id)
 	{
+	  ParallelException pex;
 #pragma omp parallel for if (ncandidates.cols() >= 100)
 	  for (int i=0;i<ncandidates.cols();i++)
 	    {
+	      pex.run([&]{
 	      dVec ycoli;
 	      _scalingstrategy.scale_to_f(ncandidates.col(i),ycoli);
 	      ncandidates.col(i) = ycoli;
+	      });
 	    }
+	  pex.rethrow();
 	}
       return ncandidates;
     }
@@ -164,23 +181,31 @@ namespace libcmaes
       dMat ncandidates = candidates;
       if (!_scalingstrategy._id)
 	{
+	  ParallelException pex;
 #pragma omp parallel for if (ncandidates.cols() >= 100)
 	  for (int i=0;i<ncandidates.cols();i++)
 	    {
+	      pex.run([&]{
 	      dVec ycoli;
 	      _scalingstrategy.scale_to_internal(ycoli,ncandidates.col(i));
 	      ncandidates.col(i) = ycoli;
+	      });
 	    }
+	  pex.rethrow();
 	}
       
       // reverse bounds.
+      ParallelException pex;
 #pragma omp parallel for if (ncandidates.cols() >= 100)
       for (int i=0;i<ncandidates.cols();i++)
 	{
+	  pex.run([&]{
 	  dVec ycoli;
 	  _boundstrategy.to_internal_representation(ycoli,ncandidates.col(i));
 	  ncandidates.col(i) = ycoli;
+	  });
 	}
+      pex.rethrow();
       
       // apply custom geno function.
       ncandidates = geno_candidates(ncandidates);
@@ -323,13 +348,17 @@ namespace libcmaes
       else ncandidates = candidates;
       
       // apply scaling.
+      ParallelException pex;
 #pragma omp parallel for if (ncandidates.cols() >= 100)
       for (int i=0;i<ncandidates.cols();i++)
 	{
+	  pex.run([&]{
 	  dVec ycoli;
 	  _scalingstrategy.scale_to_f(ncandidates.col(i),ycoli);
 	  ncandidates.col(i) = ycoli;
+	  });
 	}
+      pex.rethrow();
       return ncandidates;
     }
   
diff --git a/include/libcmaes/parallelexception.h b/include/libcmaes/parallelexception.h
new file mode 100644
index 0000000..70411ad
--- /dev/null
+++ b/include/libcmaes/parallelexception.h
@@ -0,0 +1,73 @@
+/**
+ * CMA-ES, Covariance Matrix Adaptation Evolution Strategy
+ * Copyright (c) 2014 Inria
+ * Author: Emmanuel Benazera <emmanuel.benazera@lri.fr>
+ *
+ * This file is part of libcmaes.
+ *
+ * libcmaes is free software: you can redistribute it and/or modify
+ * it under the terms of the GNU Lesser General Public License as published by
+ * the Free Software Foundation, either version 3 of the License, or
+ * (at your option) any later version.
+ *
+ * libcmaes is distributed in the hope that it will be useful,
+ * but WITHOUT ANY WARRANTY; without even the implied warranty of
+ * MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+ * GNU Lesser General Public License for more details.
+ *
+ * You should have received a copy of the GNU Lesser General Public License
+ * along with libcmaes.  If not, see <http://www.gnu.org/licenses/>.
+ */
+
+#ifndef PARALLELEXCEPTION_H
+#define PARALLELEXCEPTION_H
+
+#include <atomic>
+#include <exception>
+
+namespace libcmaes
+{
+  /**
+   * \brief carries an exception out of a parallel loop: an exception that escapes
+   *        the iteration of an OpenMP loop would end the program.
+   */
+  class ParallelException
+  {
+  public:
+    /**
+     * \brief runs one iteration, unless one has failed already.
+     * @param f the body of the iteration
+     */
+    template <class TBody>
+      void run(const TBody &f)
+      {
+	if (_failed)
+	  return;
+	try
+	  {
+	    f();
+	  }
+	catch (...)
+	  {
+	    if (!_failed.exchange(true))
+	      _eptr = std::current_exception();
+	  }
+      }
+
+    /**
+     * \brief throws the exception of the first iteration that has failed, if any,
+     *        to be called once the loop is over.
+     */
+    void rethrow() const
+    {
+      if (_eptr)
+	std::rethrow_exception(_eptr);
+    }
+
+  private:
+    std::atomic<bool> _failed{false};
+    std::exception_ptr _eptr;
+  };
+}
+
+#endif
diff --git a/include/libcmaes/surrogates/rankingsvm.hpp b/include/libcmaes/surrogates/rankingsvm.hpp
index 03e30fb..a4778b7 100644
--- a/include/libcmaes/surrogates/rankingsvm.hpp
+++ b/include/libcmaes/surrogates/rankingsvm.hpp
@@ -30,6 +30,7 @@
 #define RANKINGSVM_H
 
 #include <libcmaes/eo_matrix.h>
+#include <libcmaes/parallelexception.h>
 #include <vector>
 #include <limits>
 #include <cstdlib>
@@ -191,9 +192,11 @@ class RankingSVM
 	encode(x_train,covinv,xmean);
 	encode(x_test,covinv,xmean);
       }
+    libcmaes::ParallelException pex;
 #pragma omp parallel for
     for (int i=0;i<x_test.cols();i++)
       {
+	pex.run([&]{
 	dVec Kvals(x_train.cols());
 	for (int j=0;j<x_train.cols();j++)
 	  Kvals(j) = _kernel.K(x_test.col(i),x_train.col(j));
@@ -201,7 +204,9 @@ class RankingSVM
 	for (int j=0;j<x_train.cols()-1;j++)
 	  curfit += _alpha(j) * (Kvals(j)-Kvals(j+1));
 	fit(i) = curfit;
+	});
       }
+    pex.rethrow();
 
     //debug
     //std::cout << "fit=" << fit.transpose() << std::endl;
@@ -237,10 +242,14 @@ class RankingSVM
   {
     _kernel.init(x);
     _K = dMat::Zero(x.cols(),x.cols());
+    libcmaes::ParallelException pex;
 #pragma omp parallel for
       for (int i=0;i<_K.rows();i++)
+	pex.run([&]{
 	for (int j=i;j<_K.cols();j++)
 	  _K(i,j)=_K(j,i)=_kernel.K(x.col(i),x.col(j));
+	});
+      pex.rethrow();
 
     //debug
     //std::cout << "K=" << _K << std::endl;
diff --git a/src/CMakeLists.txt b/src/CMakeLists.txt
index 7dd6c9a..6a12727 100644
--- a/src/CMakeLists.txt
+++ b/src/CMakeLists.txt
@@ -18,6 +18,7 @@ set (LIBCMAES_HEADERS
   ${header_path}/cmaes.h
   ${header_path}/opti_err.h
   ${header_path}/eo_matrix.h
+  ${header_path}/parallelexception.h
   ${header_path}/cmastrategy.h
   ${header_path}/esoptimizer.h
   ${header_path}/esostrategy.h
diff --git a/src/Makefile.am b/src/Makefile.am
index afcf3fb..4c05b73 100644
--- a/src/Makefile.am
+++ b/src/Makefile.am
@@ -4,9 +4,9 @@ libcmaesdatadir = $(datadir)
 libcmaesincludedir = $(includedir)
 
 libcmaes_LTLIBRARIES=libcmaes.la
-libcmaes_la_SOURCES=libcmaes_config.h cmaes.h eo_matrix.h cmastrategy.cc esoptimizer.h esostrategy.h esostrategy.cc cmasolutions.h cmasolutions.cc parameters.h cmaparameters.h cmaparameters.cc cmastopcriteria.h cmastopcriteria.cc ipopcmastrategy.h ipopcmastrategy.cc bipopcmastrategy.h bipopcmastrategy.cc covarianceupdate.h covarianceupdate.cc acovarianceupdate.h acovarianceupdate.cc vdcmaupdate.h vdcmaupdate.cc pwq_bound_strategy.h pwq_bound_strategy.cc eigenmvn.h candidate.h genopheno.h noboundstrategy.h scaling.h llogging.h pli.h errstats.cc errstats.h contour.h
+libcmaes_la_SOURCES=libcmaes_config.h cmaes.h eo_matrix.h parallelexception.h cmastrategy.cc esoptimizer.h esostrategy.h esostrategy.cc cmasolutions.h cmasolutions.cc parameters.h cmaparameters.h cmaparameters.cc cmastopcriteria.h cmastopcriteria.cc ipopcmastrategy.h ipopcmastrategy.cc bipopcmastrategy.h bipopcmastrategy.cc covarianceupdate.h covarianceupdate.cc acovarianceupdate.h acovarianceupdate.cc vdcmaupdate.h vdcmaupdate.cc pwq_bound_strategy.h pwq_bound_strategy.cc eigenmvn.h candidate.h genopheno.h noboundstrategy.h scaling.h llogging.h pli.h errstats.cc errstats.h contour.h
 
-nobase_libcmaesinclude_HEADERS = ../include/libcmaes/cmaes.h ../include/libcmaes/opti_err.h ../include/libcmaes/eo_matrix.h ../include/libcmaes/cmastrategy.h ../include/libcmaes/esoptimizer.h ../include/libcmaes/esostrategy.h ../include/libcmaes/cmasolutions.h ../include/libcmaes/parameters.h ../include/libcmaes/cmaparameters.h ../include/libcmaes/cmastopcriteria.h ../include/libcmaes/ipopcmastrategy.h ../include/libcmaes/bipopcmastrategy.h ../include/libcmaes/covarianceupdate.h ../include/libcmaes/acovarianceupdate.h ../include/libcmaes/vdcmaupdate.h ../include/libcmaes/pwq_bound_strategy.h ../include/libcmaes/eigenmvn.h ../include/libcmaes/candidate.h ../include/libcmaes/genopheno.h ../include/libcmaes/noboundstrategy.h ../include/libcmaes/scaling.h ../include/libcmaes/llogging.h ../include/libcmaes/errstats.h ../include/libcmaes/pli.h ../include/libcmaes/contour.h
+nobase_libcmaesinclude_HEADERS = ../include/libcmaes/cmaes.h ../include/libcmaes/opti_err.h ../include/libcmaes/eo_matrix.h ../include/libcmaes/parallelexception.h ../include/libcmaes/cmastrategy.h ../include/libcmaes/esoptimizer.h ../include/libcmaes/esostrategy.h ../include/libcmaes/cmasolutions.h ../include/libcmaes/parameters.h ../include/libcmaes/cmaparameters.h ../include/libcmaes/cmastopcriteria.h ../include/libcmaes/ipopcmastrategy.h ../include/libcmaes/bipopcmastrategy.h ../include/libcmaes/covarianceupdate.h ../include/libcmaes/acovarianceupdate.h ../include/libcmaes/vdcmaupdate.h ../include/libcmaes/pwq_bound_strategy.h ../include/libcmaes/eigenmvn.h ../include/libcmaes/candidate.h ../include/libcmaes/genopheno.h ../include/libcmaes/noboundstrategy.h ../include/libcmaes/scaling.h ../include/libcmaes/llogging.h ../include/libcmaes/errstats.h ../include/libcmaes/pli.h ../include/libcmaes/contour.h
 
 if HAVE_SURROG
 libcmaes_la_SOURCES += surrcmaes.h surrogatestrategy.cc surrogatestrategy.h surrogates/rankingsvm.hpp surrogates/rsvm_surr_strategy.hpp
diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index 2f39eaa..0c233d4 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -87,17 +87,21 @@ namespace libcmaes
     std::chrono::time_point<std::chrono::system_clock> tstart = std::chrono::system_clock::now();
 #endif
     // one candidate per row.
+    ParallelException pex;
 #pragma omp parallel for if (_parameters._mt_feval)
     for (int r=0;r<candidates.cols();r++)
       {
+	pex.run([&]{
 	_solutions._candidates.at(r).set_x(candidates.col(r));
 	_solutions._candidates.at(r).set_id(r);
 	if (phenocandidates.size())
 	  _solutions._candidates.at(r).set_fvalue(_func(phenocandidates.col(r).data(),candidates.rows()));
 	else _solutions._candidates.at(r).set_fvalue(_func(candidates.col(r).data(),candidates.rows()));
+	});
 	
 	//std::cerr << "candidate x: " << _solutions._candidates.at(r)._x.transpose() << std::endl;
       }
+    pex.rethrow();
     int nfcalls = candidates.cols();
     
     // evaluation step of uncertainty handling scheme.
@@ -180,15 +184,19 @@ namespace libcmaes
     dVec vgradf(_parameters._dim);
     dVec epsilon = 1e-8 * (dVec::Constant(_parameters._dim,1.0) + x.cwiseAbs());
     double fx = _func(x.data(),_parameters._dim);
+    ParallelException pex;
 #pragma omp parallel for if (_parameters._mt_feval)
     for (int i=0;i<_parameters._dim;i++)
       {
+	pex.run([&]{
 	dVec ei1 = x;
 	ei1(i,0) += epsilon(i);
 	ei1(i,0) = std::min(ei1(i,0),_parameters.get_gp().get_boundstrategy_ref().getPhenoUBound(i));
 	double gradi = (_func(ei1.data(),_parameters._dim) - fx)/epsilon(i);
 	vgradf(i,0) = gradi;
+	});
       }
+    pex.rethrow();
     update_fevals(_parameters._dim+1); // numerical gradient increases the budget.
     return vgradf;
   }
-- 
2.43.0


From fe19d1b82ddb2b91daf8c32af925c7e6f4922341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:00 +0000
Subject: [PATCH 16/45] fix: a run from a previous solution keeps to its
 settings, for all algorithms

---
 include/libcmaes/cmaes.h        | 109 ++++++++++++++++++++++----------
 include/libcmaes/cmasolutions.h |   8 +++
 include/libcmaes/esostrategy.h  |   2 +-
 src/cmasolutions.cc             |  42 +++++++++++-
 src/cmastrategy.cc              |  11 +++-
 src/esostrategy.cc              |   5 ++
 6 files changed, 139 insertions(+), 38 deletions(-)

diff --git a/include/libcmaes/cmaes.h b/include/libcmaes/cmaes.h
index f7e49e1..f78429b 100644
--- a/include/libcmaes/cmaes.h
+++ b/include/libcmaes/cmaes.h
@@ -44,7 +44,7 @@ namespace libcmaes
 	case CMAES_DEFAULT:
 	{
 	  // if / else as object cannot be reused for now, and we're avoiding pointers.
-	  if (solutions.cov().size()==0)
+	  if (solutions.dim()==0)
 	    {
 	      ESOptimizer<CMAStrategy<CovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> cmaes_vanilla(func,parameters);
 	      if (gfunc != nullptr)
@@ -67,7 +67,7 @@ namespace libcmaes
 	}
 	case IPOP_CMAES:
 	{
-	  if (solutions.cov().size()==0)
+	  if (solutions.dim()==0)
 	    {
 	      ESOptimizer<IPOPCMAStrategy<CovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> ipop(func,parameters);
 	      if (gfunc != nullptr)
@@ -90,7 +90,7 @@ namespace libcmaes
 	}
 	case BIPOP_CMAES:
 	{
-	  if (solutions.cov().size()==0)
+	  if (solutions.dim()==0)
 	    {
 	      ESOptimizer<BIPOPCMAStrategy<CovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> bipop(func,parameters);
 	      if (gfunc != nullptr)
@@ -113,7 +113,7 @@ namespace libcmaes
 	}
 	case aCMAES:
 	{
-	  if (solutions.cov().size()==0)
+	  if (solutions.dim()==0)
 	    {
 	      ESOptimizer<CMAStrategy<ACovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> acmaes(func,parameters);
 	      if (gfunc != nullptr)
@@ -136,7 +136,7 @@ namespace libcmaes
 	}
 	case aIPOP_CMAES:
 	{
-	  if (solutions.cov().size()==0)
+	  if (solutions.dim()==0)
 	    {
 	      ESOptimizer<IPOPCMAStrategy<ACovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> aipop(func,parameters);
 	      if (gfunc != nullptr)
@@ -159,7 +159,7 @@ namespace libcmaes
 	}
 	case aBIPOP_CMAES:
 	{
-	  if (solutions.cov().size()==0)
+	  if (solutions.dim()==0)
 	    {
 	      ESOptimizer<BIPOPCMAStrategy<ACovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> abipop(func,parameters);
 	      if (gfunc != nullptr)
@@ -184,7 +184,7 @@ namespace libcmaes
 	{
 	  if (!parameters.is_sep())
 	    parameters.set_sep();
-	  if (solutions.cov().size()==0)
+	  if (solutions.dim()==0)
 	    {
 	      ESOptimizer<CMAStrategy<CovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> sepcmaes(func,parameters);
 	      if (gfunc != nullptr)
@@ -209,7 +209,7 @@ namespace libcmaes
 	{
 	  if (!parameters.is_sep())
 	    parameters.set_sep();
-	  if (solutions.cov().size()==0)
+	  if (solutions.dim()==0)
 	    {
 	      ESOptimizer<IPOPCMAStrategy<CovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> ipop(func,parameters);
 	      if (gfunc != nullptr)
@@ -234,7 +234,7 @@ namespace libcmaes
 	{
 	  if (!parameters.is_sep())
 	    parameters.set_sep();
-	  if (solutions.cov().size()==0)
+	  if (solutions.dim()==0)
 	    {
 	      ESOptimizer<BIPOPCMAStrategy<CovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> bipop(func,parameters);
 	      if (gfunc != nullptr)
@@ -250,6 +250,7 @@ namespace libcmaes
 	      if (gfunc != nullptr)
 		bipop.set_gradient_func(gfunc);
 	      bipop.set_progress_func(pfunc);
+	      bipop.set_plot_func(pffunc);
 	      bipop.optimize();
 	      return bipop.get_solutions();
 	    }
@@ -258,7 +259,7 @@ namespace libcmaes
 	{
 	  if (!parameters.is_sep())
 	    parameters.set_sep();
-	  if (solutions.cov().size()==0)
+	  if (solutions.dim()==0)
 	    {
 	      ESOptimizer<CMAStrategy<ACovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> sepcmaes(func,parameters);
 	      if (gfunc != nullptr)
@@ -274,6 +275,7 @@ namespace libcmaes
 	      if (gfunc != nullptr)
 		sepcmaes.set_gradient_func(gfunc);
 	      sepcmaes.set_progress_func(pfunc);
+	      sepcmaes.set_plot_func(pffunc);
 	      sepcmaes.optimize();
 	      return sepcmaes.get_solutions();
 	    }
@@ -282,7 +284,7 @@ namespace libcmaes
 	{
 	  if (!parameters.is_sep())
 	    parameters.set_sep();
-	  if (solutions.cov().size() == 0)
+	  if (solutions.dim() == 0)
 	    {
 	      ESOptimizer<IPOPCMAStrategy<ACovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> ipop(func,parameters);
 	      if (gfunc != nullptr)
@@ -298,6 +300,7 @@ namespace libcmaes
 	      if (gfunc != nullptr)
 		ipop.set_gradient_func(gfunc);
 	      ipop.set_progress_func(pfunc);
+	      ipop.set_plot_func(pffunc);
 	      ipop.optimize();
 	      return ipop.get_solutions();
 	    }
@@ -306,7 +309,7 @@ namespace libcmaes
 	{
 	  if (!parameters.is_sep())
 	    parameters.set_sep();
-	  if (solutions.cov().size() == 0)
+	  if (solutions.dim() == 0)
 	    {
 	      ESOptimizer<BIPOPCMAStrategy<ACovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> bipop(func,parameters);
 	      if (gfunc != nullptr)
@@ -322,6 +325,7 @@ namespace libcmaes
 	      if (gfunc != nullptr)
 		bipop.set_gradient_func(gfunc);
 	      bipop.set_progress_func(pfunc);
+	      bipop.set_plot_func(pffunc);
 	      bipop.optimize();
 	      return bipop.get_solutions();
 	    }
@@ -330,37 +334,76 @@ namespace libcmaes
 	{
 	  if (!parameters.is_vd())
 	    parameters.set_vd();
-	  ESOptimizer<CMAStrategy<VDCMAUpdate,TGenoPheno>,CMAParameters<TGenoPheno>> vdcma(func,parameters);
-	  if (gfunc != nullptr)
-	    vdcma.set_gradient_func(gfunc);
-	  vdcma.set_progress_func(pfunc);
-	  vdcma.set_plot_func(pffunc);
-	  vdcma.optimize();
-	  return vdcma.get_solutions();
+	  if (solutions.dim()==0)
+	    {
+	      ESOptimizer<CMAStrategy<VDCMAUpdate,TGenoPheno>,CMAParameters<TGenoPheno>> vdcma(func,parameters);
+	      if (gfunc != nullptr)
+		vdcma.set_gradient_func(gfunc);
+	      vdcma.set_progress_func(pfunc);
+	      vdcma.set_plot_func(pffunc);
+	      vdcma.optimize();
+	      return vdcma.get_solutions();
+	    }
+	  else
+	    {
+	      ESOptimizer<CMAStrategy<VDCMAUpdate,TGenoPheno>,CMAParameters<TGenoPheno>> vdcma(func,parameters,solutions);
+	      if (gfunc != nullptr)
+		vdcma.set_gradient_func(gfunc);
+	      vdcma.set_progress_func(pfunc);
+	      vdcma.set_plot_func(pffunc);
+	      vdcma.optimize();
+	      return vdcma.get_solutions();
+	    }
 	}
 	case VD_IPOP_CMAES:
 	{
 	  if (!parameters.is_vd())
 	    parameters.set_vd();
-	  ESOptimizer<IPOPCMAStrategy<VDCMAUpdate,TGenoPheno>,CMAParameters<TGenoPheno>> ipop(func,parameters);
-	  if (gfunc != nullptr)
-	    ipop.set_gradient_func(gfunc);
-	  ipop.set_progress_func(pfunc);
-	  ipop.set_plot_func(pffunc);
-	  ipop.optimize();
-	  return ipop.get_solutions();
+	  if (solutions.dim()==0)
+	    {
+	      ESOptimizer<IPOPCMAStrategy<VDCMAUpdate,TGenoPheno>,CMAParameters<TGenoPheno>> ipop(func,parameters);
+	      if (gfunc != nullptr)
+		ipop.set_gradient_func(gfunc);
+	      ipop.set_progress_func(pfunc);
+	      ipop.set_plot_func(pffunc);
+	      ipop.optimize();
+	      return ipop.get_solutions();
+	    }
+	  else
+	    {
+	      ESOptimizer<IPOPCMAStrategy<VDCMAUpdate,TGenoPheno>,CMAParameters<TGenoPheno>> ipop(func,parameters,solutions);
+	      if (gfunc != nullptr)
+		ipop.set_gradient_func(gfunc);
+	      ipop.set_progress_func(pfunc);
+	      ipop.set_plot_func(pffunc);
+	      ipop.optimize();
+	      return ipop.get_solutions();
+	    }
 	}
 	case VD_BIPOP_CMAES:
 	{
 	  if (!parameters.is_vd())
 	    parameters.set_vd();
-	  ESOptimizer<BIPOPCMAStrategy<VDCMAUpdate,TGenoPheno>,CMAParameters<TGenoPheno>> bipop(func,parameters);
-	  if (gfunc != nullptr)
-	    bipop.set_gradient_func(gfunc);
-	  bipop.set_progress_func(pfunc);
-	  bipop.set_plot_func(pffunc);
-	  bipop.optimize();
-	  return bipop.get_solutions();
+	  if (solutions.dim()==0)
+	    {
+	      ESOptimizer<BIPOPCMAStrategy<VDCMAUpdate,TGenoPheno>,CMAParameters<TGenoPheno>> bipop(func,parameters);
+	      if (gfunc != nullptr)
+		bipop.set_gradient_func(gfunc);
+	      bipop.set_progress_func(pfunc);
+	      bipop.set_plot_func(pffunc);
+	      bipop.optimize();
+	      return bipop.get_solutions();
+	    }
+	  else
+	    {
+	      ESOptimizer<BIPOPCMAStrategy<VDCMAUpdate,TGenoPheno>,CMAParameters<TGenoPheno>> bipop(func,parameters,solutions);
+	      if (gfunc != nullptr)
+		bipop.set_gradient_func(gfunc);
+	      bipop.set_progress_func(pfunc);
+	      bipop.set_plot_func(pffunc);
+	      bipop.optimize();
+	      return bipop.get_solutions();
+	    }
 	}
 	default:
 	return CMASolutions();
diff --git a/include/libcmaes/cmasolutions.h b/include/libcmaes/cmasolutions.h
index cebf075..7a8cc10 100644
--- a/include/libcmaes/cmasolutions.h
+++ b/include/libcmaes/cmasolutions.h
@@ -166,6 +166,14 @@ namespace libcmaes
      * Note: experimental.
      */
     void reset();
+
+    /**
+     * \brief resets the solution object in order to start from the current
+     *        solution with fresh covariance matrix, under given parameters.
+     * @param p parameters of the next run
+     */
+    template<class TGenoPheno=GenoPheno<NoBoundStrategy> >
+    void reset(const CMAParameters<TGenoPheno> &p);
     
     /**
      * \brief re-arrange solution object such that parameter 'k' is fixed (i.e. removed).
diff --git a/include/libcmaes/esostrategy.h b/include/libcmaes/esostrategy.h
index 5bd1aa4..34b3a7a 100644
--- a/include/libcmaes/esostrategy.h
+++ b/include/libcmaes/esostrategy.h
@@ -155,7 +155,7 @@ namespace libcmaes
     {
       _parameters.set_x0(sol.best_candidate().get_x_dvec());
       _solutions = sol;
-      _solutions.reset();
+      _solutions.reset(_parameters);
     }
 
     /**
diff --git a/src/cmasolutions.cc b/src/cmasolutions.cc
index 12718f4..d91c756 100644
--- a/src/cmasolutions.cc
+++ b/src/cmasolutions.cc
@@ -209,13 +209,15 @@ namespace libcmaes
     //_leigenvalues.setZero(); // beware.
     //_leigenvectors.setZero();
     //_cov /= 1e-3;//_sigma;
-    _cov = dMat::Identity(_csqinv.rows(),_csqinv.cols());
+    if (_cov.size())
+      _cov = dMat::Identity(_cov.rows(),_cov.cols());
+    else _sepcov = dMat::Constant(_sepcov.rows(),1,1.0);
     //std::cout << "cov: " << _cov << std::endl;
     _niter = 0;
     _nevals = 0;
     //_sigma = 1.0/static_cast<double>(_csqinv.rows());
-    _psigma = dVec::Zero(_cov.rows());
-    _pc = dVec::Zero(_cov.rows());
+    _psigma = dVec::Zero(_xmean.size());
+    _pc = dVec::Zero(_xmean.size());
     _k_best_candidates_hist.clear();
     _bfvalues.clear();
     _median_fvalues.clear();
@@ -226,6 +228,35 @@ namespace libcmaes
 #endif
   }
   
+  template <class TGenoPheno>
+  void CMASolutions::reset(const CMAParameters<TGenoPheno> &p)
+  {
+    // the previous run may have used another algorithm.
+    if (!p._sep && !p._vd)
+      {
+	_cov = dMat::Identity(p._dim,p._dim);
+	_sepcov.resize(0,0);
+      }
+    else
+      {
+	_cov.resize(0,0);
+	_sepcov = dMat::Constant(p._dim,1,1.0);
+      }
+    if (!p._vd)
+      _v.resize(0);
+    else if (!_v.size())
+      {
+	Eigen::EigenMultivariateNormal<double> esolver(false,static_cast<uint64_t>(p._seed));
+	esolver.set_covar(_sepcov);
+	_v = esolver.samples_ind(1) / std::sqrt(p._dim);
+      }
+    reset();
+    _initial_candidate = Candidate(); // of the previous run.
+    _candidates.resize(p._lambda);
+    _kcand = std::min(p._lambda-1,static_cast<int>(1.0+ceil(0.1+p._lambda/4.0)));
+    _max_hist = (p._max_hist > 0) ? p._max_hist : static_cast<int>(10+ceil(30*p._dim/p._lambda));
+  }
+
   void CMASolutions::reset_as_fixed(const int &k)
   {
     removeRow(_cov,k);
@@ -298,6 +329,11 @@ namespace libcmaes
   template CMAES_EXPORT CMASolutions::CMASolutions(Parameters<GenoPheno<NoBoundStrategy,linScalingStrategy> >&);
   template CMAES_EXPORT CMASolutions::CMASolutions(Parameters<GenoPheno<pwqBoundStrategy,linScalingStrategy> >&);
 
+  template CMAES_EXPORT void CMASolutions::reset(const CMAParameters<GenoPheno<NoBoundStrategy> >&);
+  template CMAES_EXPORT void CMASolutions::reset(const CMAParameters<GenoPheno<pwqBoundStrategy> >&);
+  template CMAES_EXPORT void CMASolutions::reset(const CMAParameters<GenoPheno<NoBoundStrategy,linScalingStrategy> >&);
+  template CMAES_EXPORT void CMASolutions::reset(const CMAParameters<GenoPheno<pwqBoundStrategy,linScalingStrategy> >&);
+
   template CMAES_EXPORT std::ostream& CMASolutions::print(std::ostream&,const int&,const GenoPheno<NoBoundStrategy>&) const;
   template CMAES_EXPORT std::ostream& CMASolutions::print(std::ostream&,const int&,const GenoPheno<pwqBoundStrategy>&) const;
   template CMAES_EXPORT std::ostream& CMASolutions::print(std::ostream&,const int&,const GenoPheno<NoBoundStrategy, linScalingStrategy>&) const;
diff --git a/src/cmastrategy.cc b/src/cmastrategy.cc
index a0d0776..6cfe135 100644
--- a/src/cmastrategy.cc
+++ b/src/cmastrategy.cc
@@ -133,7 +133,16 @@ namespace libcmaes
     _esolver = Eigen::EigenMultivariateNormal<double>(false,eostrat<TGenoPheno>::_parameters._seed); // seeding the multivariate normal generator.
     LOG_IF(INFO,!eostrat<TGenoPheno>::_parameters._quiet) << "CMA-ES / dim=" << eostrat<TGenoPheno>::_parameters._dim << " / lambda=" << eostrat<TGenoPheno>::_parameters._lambda << " / sigma0=" << eostrat<TGenoPheno>::_solutions._sigma << " / mu=" << eostrat<TGenoPheno>::_parameters._mu << " / mueff=" << eostrat<TGenoPheno>::_parameters._muw << " / c1=" << eostrat<TGenoPheno>::_parameters._c1 << " / cmu=" << eostrat<TGenoPheno>::_parameters._cmu << " / lazy_update=" << eostrat<TGenoPheno>::_parameters._lazy_update << std::endl;
     if (!eostrat<TGenoPheno>::_parameters._fplot.empty())
-      _fplotstream = new std::ofstream(eostrat<TGenoPheno>::_parameters._fplot);
+      {
+	_fplotstream = new std::ofstream(eostrat<TGenoPheno>::_parameters._fplot);
+	_fplotstream->precision(std::numeric_limits<double>::digits10);
+      }
+    auto mit=eostrat<TGenoPheno>::_parameters._stoppingcrit.begin();
+    while(mit!=eostrat<TGenoPheno>::_parameters._stoppingcrit.end())
+      {
+	_stopcriteria.set_criteria_active((*mit).first,(*mit).second);
+	++mit;
+      }
   }
 
   template <class TCovarianceUpdate, class TGenoPheno>
diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index 0c233d4..ccc4c4e 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -64,6 +64,11 @@ namespace libcmaes
 								 const TSolutions &solutions)
     :_func(func),_nevals(0),_niter(0),_parameters(parameters)
   {
+    if (parameters._maximize)
+      {
+	_funcaux = _func;
+	_func = [&](const double *x, const int N) { return -1.0*_funcaux(x,N); };
+      }
     _pfunc = [](const TParameters&,const TSolutions&){return 0;}; // high level progress function does do anything.
     start_from_solution(solutions);
     if (parameters._uh)
-- 
2.43.0


From b614679897d3f833c6515926a5146eac9502c3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:28 +0000
Subject: [PATCH 17/45] fix: out of memory while creating the search state is
 reported, not run on

---
 src/bipopcmastrategy.cc | 1 +
 src/cmastrategy.cc      | 3 +++
 src/ipopcmastrategy.cc  | 6 ++++++
 3 files changed, 10 insertions(+)

diff --git a/src/bipopcmastrategy.cc b/src/bipopcmastrategy.cc
index b839423..0c4aadb 100644
--- a/src/bipopcmastrategy.cc
+++ b/src/bipopcmastrategy.cc
@@ -112,6 +112,7 @@ namespace libcmaes
   bool BIPOPCMAStrategy<TCovarianceUpdate,TGenoPheno>::done() const
   {
     return CMAStrategy<TCovarianceUpdate,TGenoPheno>::_solutions._run_status == CONT
+      || CMAStrategy<TCovarianceUpdate,TGenoPheno>::_solutions._run_status == OPTI_ERR_OUTOFMEMORY
       || (_max_fevals > 0 && CMAStrategy<TCovarianceUpdate,TGenoPheno>::_nevals >= _max_fevals);
   }
 
diff --git a/src/cmastrategy.cc b/src/cmastrategy.cc
index 6cfe135..bf599a8 100644
--- a/src/cmastrategy.cc
+++ b/src/cmastrategy.cc
@@ -347,6 +347,9 @@ namespace libcmaes
     //DLOG(INFO) << "optimize()\n";
     //debug
 
+    if (eostrat<TGenoPheno>::_solutions._run_status == OPTI_ERR_OUTOFMEMORY) // no memory for the search state.
+      return OPTI_ERR_TERMINATION;
+
     if (eostrat<TGenoPheno>::_initial_elitist 
 	|| eostrat<TGenoPheno>::_parameters._initial_elitist
 	|| eostrat<TGenoPheno>::_parameters._elitist
diff --git a/src/ipopcmastrategy.cc b/src/ipopcmastrategy.cc
index dd78c30..7a63cc9 100644
--- a/src/ipopcmastrategy.cc
+++ b/src/ipopcmastrategy.cc
@@ -72,6 +72,10 @@ namespace libcmaes
 	// capture best solution.
 	capture_best_solution(best_run);
 
+	// do not restart when out of memory.
+	if (CMAStrategy<TCovarianceUpdate,TGenoPheno>::_solutions._run_status == OPTI_ERR_OUTOFMEMORY)
+	  break;
+
 	// do not restart on a cancel request.
 	if (CMAStrategy<TCovarianceUpdate,TGenoPheno>::_solutions._run_status == CONT)
 	  break;
@@ -112,6 +116,8 @@ namespace libcmaes
   {
     if (best_run._candidates.empty() || better_fvalue(CMAStrategy<TCovarianceUpdate,TGenoPheno>::_solutions.best_candidate().get_fvalue(),best_run.best_candidate().get_fvalue()))
       best_run = CMAStrategy<TCovarianceUpdate,TGenoPheno>::_solutions;
+    if (CMAStrategy<TCovarianceUpdate,TGenoPheno>::_solutions._run_status == OPTI_ERR_OUTOFMEMORY)
+      best_run._run_status = OPTI_ERR_OUTOFMEMORY; // not all runs took place.
   }
 
   template class CMAES_EXPORT IPOPCMAStrategy<CovarianceUpdate,GenoPheno<NoBoundStrategy>>;
-- 
2.43.0


From 3b482e71998d8acd232d3ab22e649f35ffddcd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:01 +0000
Subject: [PATCH 18/45] fix: measure durations with a steady clock

---
 include/libcmaes/esoptimizer.h | 4 ++--
 src/cmastrategy.cc             | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/libcmaes/esoptimizer.h b/include/libcmaes/esoptimizer.h
index 2c357d4..a9725ca 100644
--- a/include/libcmaes/esoptimizer.h
+++ b/include/libcmaes/esoptimizer.h
@@ -111,9 +111,9 @@ namespace libcmaes
        */
       int optimize()
       {
-	std::chrono::time_point<std::chrono::system_clock> tstart = std::chrono::system_clock::now();
+	std::chrono::time_point<std::chrono::steady_clock> tstart = std::chrono::steady_clock::now();
 	int opt = TESOStrategy::optimize();
-	std::chrono::time_point<std::chrono::system_clock> tstop = std::chrono::system_clock::now();
+	std::chrono::time_point<std::chrono::steady_clock> tstop = std::chrono::steady_clock::now();
 	TESOStrategy::_solutions._elapsed_time = std::chrono::duration_cast<std::chrono::milliseconds>(tstop-tstart).count();
 	return opt;
       }
diff --git a/src/cmastrategy.cc b/src/cmastrategy.cc
index bf599a8..89bf430 100644
--- a/src/cmastrategy.cc
+++ b/src/cmastrategy.cc
@@ -361,16 +361,16 @@ namespace libcmaes
 	this->update_fevals(1);
       }
     
-    std::chrono::time_point<std::chrono::system_clock> tstart = std::chrono::system_clock::now();
+    std::chrono::time_point<std::chrono::steady_clock> tstart = std::chrono::steady_clock::now();
     while(!stop())
       {
 	dMat candidates = askf();
 	evalf(candidates,eostrat<TGenoPheno>::_parameters._gp.pheno(candidates));
 	tellf();
 	eostrat<TGenoPheno>::inc_iter();
-	std::chrono::time_point<std::chrono::system_clock> tstop = std::chrono::system_clock::now();
+	std::chrono::time_point<std::chrono::steady_clock> tstop = std::chrono::steady_clock::now();
 	eostrat<TGenoPheno>::_solutions._elapsed_last_iter = std::chrono::duration_cast<std::chrono::milliseconds>(tstop-tstart).count();
-	tstart = std::chrono::system_clock::now();
+	tstart = std::chrono::steady_clock::now();
       }
     if (eostrat<TGenoPheno>::_parameters._with_edm)
       eostrat<TGenoPheno>::edm();
-- 
2.43.0


From 85d3d4b780039552daa67d756c0928257eca8b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:20 +0000
Subject: [PATCH 19/45] fix: tolX compares the scaled step, not its inverse,
 with the tolerance

---
 src/cmastopcriteria.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cmastopcriteria.cc b/src/cmastopcriteria.cc
index 73710a4..4133d48 100644
--- a/src/cmastopcriteria.cc
+++ b/src/cmastopcriteria.cc
@@ -168,10 +168,10 @@ namespace libcmaes
       {
 	double tolx = std::max(cmap._xtol,1e-12);
 	double factor = cmas._sigma / cmap._sigma_init;
-	double tfactor = tolx * factor;
+	double tfactor = tolx / factor;
 	// test1: all components of pc . factor < tolx.
 	for (int i=0;i<cmas._pc.rows();i++)
-	  if (cmas._pc[i]>=tfactor)
+	  if (fabs(cmas._pc[i])>=tfactor)
 	    return CONT;
 	//test 2: all square root components of cov . factor < tolx.
 	int covrows = std::max(cmas._cov.rows(),cmas._sepcov.rows());
-- 
2.43.0


From dbe6f74d086dcc77a2c76f97032c964d2d16063f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:37 +0000
Subject: [PATCH 20/45] fix: a gradient that is not finite injects no candidate

---
 src/cmastrategy.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cmastrategy.cc b/src/cmastrategy.cc
index 89bf430..6aeeeb7 100644
--- a/src/cmastrategy.cc
+++ b/src/cmastrategy.cc
@@ -225,7 +225,8 @@ namespace libcmaes
 		nx = eostrat<TGenoPheno>::_solutions._xmean - eostrat<TGenoPheno>::_solutions._sigma * (sqrt(eostrat<TGenoPheno>::_parameters._dim / normq)) * eostrat<TGenoPheno>::_solutions._cov * grad_at_mean;
 	      }
 	    else nx = eostrat<TGenoPheno>::_solutions._xmean - eostrat<TGenoPheno>::_solutions._sigma * (sqrt(eostrat<TGenoPheno>::_parameters._dim) / ((eostrat<TGenoPheno>::_solutions._sepcov.cwiseSqrt().cwiseProduct(grad_at_mean)).norm())) * eostrat<TGenoPheno>::_solutions._sepcov.cwiseProduct(grad_at_mean);
-	    pop.col(0) = nx;
+	    if (nx.allFinite())
+	      pop.col(0) = nx;
 	  }
       }
 
-- 
2.43.0


From 56fcf87f54cc9cb510bed3b8494f9a44a148395e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:32 +0000
Subject: [PATCH 21/45] fix: running out of memory does not leave vectors with
 stale pointers

Eigen (3.4) keeps a dangling pointer when resizing a vector in place fails, so
that the vector is freed twice while the exception unwinds.
---
 include/libcmaes/scaling.h | 12 +++++++++++-
 src/cmaparameters.cc       |  1 +
 src/vdcmaupdate.cc         |  6 +++---
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/libcmaes/scaling.h b/include/libcmaes/scaling.h
index 86aedb1..9ff2c13 100644
--- a/include/libcmaes/scaling.h
+++ b/include/libcmaes/scaling.h
@@ -88,7 +88,7 @@ namespace libcmaes
     
   public:
     linScalingStrategy() // identity scaling
-      :_scaling(dVec::Constant(1,1.0)),_shift(dVec::Zero(1)),_id(true)
+      :_id(true)
       {
       }
     
@@ -122,12 +122,22 @@ namespace libcmaes
     void scale_to_internal(dVec &x,
 			   const dVec &y) const
     {
+      if (_id)
+	{
+	  x = y;
+	  return;
+	}
       x = y.cwiseProduct(_scaling) + _shift;
     }
 
     void scale_to_f(const dVec &x,
 		    dVec &y) const
     {
+      if (_id)
+	{
+	  y = x;
+	  return;
+	}
       y = x - _shift;
       y = y.cwiseQuotient(_scaling);
     }
diff --git a/src/cmaparameters.cc b/src/cmaparameters.cc
index 9565984..8c627f9 100644
--- a/src/cmaparameters.cc
+++ b/src/cmaparameters.cc
@@ -74,6 +74,7 @@ namespace libcmaes
   void CMAParameters<TGenoPheno>::initialize_parameters()
   {
     _mu = floor(Parameters<TGenoPheno>::_lambda / 2.0);
+    _weights.resize(0); // Eigen keeps a stale pointer if growing a vector in place runs out of memory.
     _weights = dVec::Zero(_mu);
     double sum_weights = 0.0, sq_weights = 0.0;
     for (int i=0;i<_mu;i++)
diff --git a/src/vdcmaupdate.cc b/src/vdcmaupdate.cc
index 2653bae..9c37cfa 100644
--- a/src/vdcmaupdate.cc
+++ b/src/vdcmaupdate.cc
@@ -85,9 +85,9 @@ namespace libcmaes
 	dVec yvbar = vbar.transpose() * y;
 	dVec pvec = (y.cwiseProduct(y) - (normv / gammav) * ((vbar*yvbar.transpose()).cwiseProduct(y)) - dMat::Constant(parameters._dim,parameters._mu,1.0))*parameters._weights;
 	dMat qvec = (y.cwiseProduct(yvbar.replicate(1,parameters._dim).transpose()) - 0.5*vbar*(yvbar.cwiseProduct(yvbar) + dVec::Constant(parameters._mu,gammav)).transpose())*parameters._weights;
-	yvbar = vbar.transpose() * ym;
-	dVec pone = (ym.cwiseProduct(ym) - (normv / gammav) * ((vbar*yvbar.transpose()).cwiseProduct(ym)) - dVec::Constant(parameters._dim,1.0));
-	dVec qone = (ym.cwiseProduct(yvbar.replicate(1,parameters._dim).transpose()) - 0.5*vbar*(yvbar.cwiseProduct(yvbar) + dVec::Constant(1,gammav)));
+	dVec yone = vbar.transpose() * ym;
+	dVec pone = (ym.cwiseProduct(ym) - (normv / gammav) * ((vbar*yone.transpose()).cwiseProduct(ym)) - dVec::Constant(parameters._dim,1.0));
+	dVec qone = (ym.cwiseProduct(yone.replicate(1,parameters._dim).transpose()) - 0.5*vbar*(yone.cwiseProduct(yone) + dVec::Constant(1,gammav)));
 	
 	if (solutions._hsig)
 	  {
-- 
2.43.0


From f8a8bce90e7b6e157f1c96999b5fb39b10d81246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:31 +0000
Subject: [PATCH 22/45] fix: geno() with linear scaling returns the transformed
 point

---
 include/libcmaes/genopheno.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcmaes/genopheno.h b/include/libcmaes/genopheno.h
index 2d272d6..a91c001 100644
--- a/include/libcmaes/genopheno.h
+++ b/include/libcmaes/genopheno.h
@@ -336,7 +336,7 @@ namespace libcmaes
       else
 	{
 	  dVec ncandidate(candidate.rows());
-	  _genof(scand.data(),scand.data(),candidate.rows());
+	  _genof(scand.data(),ncandidate.data(),candidate.rows());
 	  return ncandidate;
 	}
     }
-- 
2.43.0


From 0d08f6650d9b37c835006833955fd55a69d80f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:13 +0000
Subject: [PATCH 23/45] fix: tolX does not report convergence on NaN

---
 src/cmastopcriteria.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cmastopcriteria.cc b/src/cmastopcriteria.cc
index 4133d48..a15eb58 100644
--- a/src/cmastopcriteria.cc
+++ b/src/cmastopcriteria.cc
@@ -171,13 +171,13 @@ namespace libcmaes
 	double tfactor = tolx / factor;
 	// test1: all components of pc . factor < tolx.
 	for (int i=0;i<cmas._pc.rows();i++)
-	  if (fabs(cmas._pc[i])>=tfactor)
+	  if (!(fabs(cmas._pc[i])<tfactor)) // false on NaN too.
 	    return CONT;
 	//test 2: all square root components of cov . factor < tolx.
 	int covrows = std::max(cmas._cov.rows(),cmas._sepcov.rows());
 	for (int i=0;i<covrows;i++)
-	  if ((!cmap._sep && !cmap._vd && sqrt(cmas._cov(i,i))>=tfactor)
-	      || ((cmap._sep || cmap._vd) && sqrt(cmas._sepcov(i))>=tfactor))
+	  if ((!cmap._sep && !cmap._vd && !(sqrt(cmas._cov(i,i))<tfactor))
+	      || ((cmap._sep || cmap._vd) && !(sqrt(cmas._sepcov(i))<tfactor)))
 	    return CONT;
 	LOG_IF(INFO,!cmap._quiet) << "stopping criteria tolX\n";
 	return TOLX;
-- 
2.43.0


From 4b3025116f72a726fc6b064577135fed2e08dc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:57 +0000
Subject: [PATCH 24/45] fix: two-point step-size adaptation when the mean has
 not moved

---
 src/cmastrategy.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cmastrategy.cc b/src/cmastrategy.cc
index 6aeeeb7..7bc0d2d 100644
--- a/src/cmastrategy.cc
+++ b/src/cmastrategy.cc
@@ -242,7 +242,9 @@ namespace libcmaes
 
 	dMat rz = _esolver.samples_ind(1);
 	double mfactor = rz.norm();
-	dVec z = mfactor * (mean_shift / mean_shift_norm);
+	dVec z = dVec::Zero(eostrat<TGenoPheno>::_parameters._dim);
+	if (mean_shift_norm > 0.0) // the mean may not have moved, e.g. with elitism.
+	  z = mfactor * (mean_shift / mean_shift_norm);
 	eostrat<TGenoPheno>::_solutions._tpa_x1 = eostrat<TGenoPheno>::_solutions._xmean + z;
 	eostrat<TGenoPheno>::_solutions._tpa_x2 = eostrat<TGenoPheno>::_solutions._xmean - z;
 	
-- 
2.43.0


From be43f7ce5b71344da629d9694fe92810bc75a7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:21 +0000
Subject: [PATCH 25/45] fix: directions without variance left, as of fixed
 parameters, do not turn the step size into NaN

---
 include/libcmaes/eigenmvn.h | 11 +++++++++++
 src/acovarianceupdate.cc    |  4 ++--
 src/covarianceupdate.cc     |  4 ++--
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/libcmaes/eigenmvn.h b/include/libcmaes/eigenmvn.h
index a05ceda..0b1ac7e 100644
--- a/include/libcmaes/eigenmvn.h
+++ b/include/libcmaes/eigenmvn.h
@@ -134,6 +134,17 @@ namespace Eigen {
 	}
     }
 
+    /// Inverse of a symmetric square root, or of its eigenvalues, with 0 (not NaN) along
+    /// directions that have no variance left, e.g. those of fixed parameters.
+    static Matrix<Scalar,Dynamic,1> inverseSqrt(const Matrix<Scalar,Dynamic,1> &eigenvalues)
+      {
+	return (eigenvalues.array() > 0).select(eigenvalues.cwiseInverse().cwiseSqrt(),Matrix<Scalar,Dynamic,1>::Zero(eigenvalues.rows()));
+      }
+    Matrix<Scalar,Dynamic,Dynamic> operatorInverseSqrt() const
+      {
+	return _eigenSolver.eigenvectors() * inverseSqrt(_eigenSolver.eigenvalues()).asDiagonal() * _eigenSolver.eigenvectors().adjoint();
+      }
+
     /// Draw nn samples from the gaussian and return them
     /// as columns in a Dynamic by nn matrix
     Matrix<Scalar,Dynamic,-1> samples(int nn, double factor)
diff --git a/src/acovarianceupdate.cc b/src/acovarianceupdate.cc
index 335e0ef..2a0e173 100644
--- a/src/acovarianceupdate.cc
+++ b/src/acovarianceupdate.cc
@@ -40,9 +40,9 @@ namespace libcmaes
      // reusable variables.
     dVec diffxmean = 1.0/(solutions._sigma*parameters._cm) * (xmean-solutions._xmean); // (m^{t+1}-m^t)/(c_m*sigma^t)
     if (solutions._updated_eigen && !parameters._sep)
-      solutions._csqinv = esolver._eigenSolver.operatorInverseSqrt();
+      solutions._csqinv = esolver.operatorInverseSqrt();
     else if (parameters._sep)
-      solutions._sepcsqinv = solutions._sepcov.cwiseInverse().cwiseSqrt();
+      solutions._sepcsqinv = Eigen::EigenMultivariateNormal<double>::inverseSqrt(solutions._sepcov);
     
     // update psigma, Eq. (3)
     if (!parameters._sep)
diff --git a/src/covarianceupdate.cc b/src/covarianceupdate.cc
index bb5756d..01aaaae 100644
--- a/src/covarianceupdate.cc
+++ b/src/covarianceupdate.cc
@@ -38,9 +38,9 @@ namespace libcmaes
     // reusable variables.
     dVec diffxmean = 1.0/solutions._sigma * (xmean-solutions._xmean); // (m^{t+1}-m^t)/sigma^t
     if (solutions._updated_eigen && !parameters._sep) //TODO: shall not recompute when using gradient, as it is computed in ask.
-      solutions._csqinv = esolver._eigenSolver.operatorInverseSqrt();
+      solutions._csqinv = esolver.operatorInverseSqrt();
     else if (parameters._sep)
-      solutions._sepcsqinv = solutions._sepcov.cwiseInverse().cwiseSqrt();
+      solutions._sepcsqinv = Eigen::EigenMultivariateNormal<double>::inverseSqrt(solutions._sepcov);
     
     // update psigma, Eq. (3)
     solutions._psigma = (1.0-parameters._csigma)*solutions._psigma;
-- 
2.43.0


From 63d4a203978a24a51ab9b8d2328f9f6ec27dd6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:02 +0000
Subject: [PATCH 26/45] fix: a far re-injected point does not make the step
 size infinite

---
 src/acovarianceupdate.cc | 2 +-
 src/covarianceupdate.cc  | 2 +-
 src/vdcmaupdate.cc       | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/acovarianceupdate.cc b/src/acovarianceupdate.cc
index 2a0e173..6076990 100644
--- a/src/acovarianceupdate.cc
+++ b/src/acovarianceupdate.cc
@@ -112,7 +112,7 @@ namespace libcmaes
     
     // sigma update, Eq. (9)
     if (parameters._tpa < 2)
-      solutions._sigma *= std::min(parameters._deltamaxsigma,exp((parameters._csigma / parameters._dsigma) * (norm_ps / parameters._chi - 1.0)));
+      solutions._sigma *= std::min(parameters._deltamaxsigma,exp(std::min(1.0,(parameters._csigma / parameters._dsigma) * (norm_ps / parameters._chi - 1.0))));
     else if (solutions._niter > 0)
       solutions._sigma *= std::exp(solutions._tpa_s / parameters._dsigma);
         
diff --git a/src/covarianceupdate.cc b/src/covarianceupdate.cc
index 01aaaae..ad02fa0 100644
--- a/src/covarianceupdate.cc
+++ b/src/covarianceupdate.cc
@@ -83,7 +83,7 @@ namespace libcmaes
     
     // sigma update, Eq. (6)
     if (parameters._tpa < 2)
-      solutions._sigma *= std::exp((parameters._csigma / parameters._dsigma) * (norm_ps / parameters._chi - 1.0));
+      solutions._sigma *= std::exp(std::min(1.0,(parameters._csigma / parameters._dsigma) * (norm_ps / parameters._chi - 1.0)));
     else if (solutions._niter > 0)
       solutions._sigma *= std::exp(solutions._tpa_s / parameters._dsigma);
     
diff --git a/src/vdcmaupdate.cc b/src/vdcmaupdate.cc
index 9c37cfa..0ac20bc 100644
--- a/src/vdcmaupdate.cc
+++ b/src/vdcmaupdate.cc
@@ -115,7 +115,7 @@ namespace libcmaes
 
     // update sigma.
     if (parameters._tpa < 2)
-      solutions._sigma *= exp((parameters._csigma / parameters._dsigma) * (norm_ps / parameters._chi - 1.0));
+      solutions._sigma *= exp(std::min(1.0,(parameters._csigma / parameters._dsigma) * (norm_ps / parameters._chi - 1.0)));
     else if (solutions._niter > 0)
       solutions._sigma *= std::exp(solutions._tpa_s / parameters._dsigma);
     
-- 
2.43.0


From 5427b6336a6eee63398f621b6e6757f536e78846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:13 +0000
Subject: [PATCH 27/45] fix: draw the initial ranking SVM weights outside of
 the parallel loop

All threads drew from one unprotected generator, so that the trained model
depended on the schedule (and the generator's state was torn).
---
 include/libcmaes/surrogates/rankingsvm.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/libcmaes/surrogates/rankingsvm.hpp b/include/libcmaes/surrogates/rankingsvm.hpp
index a4778b7..3ab80f5 100644
--- a/include/libcmaes/surrogates/rankingsvm.hpp
+++ b/include/libcmaes/surrogates/rankingsvm.hpp
@@ -267,6 +267,12 @@ class RankingSVM
     // initialization of temporary variables
     dVec sum_alphas = dVec::Zero(_dKij.cols());
     dMat div_dKij = dMat::Zero(_dKij.rows(),_dKij.cols());
+    // the random generator is not shared among threads, and the order of the draws matters.
+    for (int i=0;i<_dKij.rows();i++)
+      {
+	double fact = _udist(_rng);
+	_alpha(i) = _C(i) * (0.95 + 0.05*fact);
+      }
 #pragma omp parallel
     {
 #pragma omp for
@@ -276,8 +282,6 @@ class RankingSVM
 	    {
 	      _dKij(i,j) = _K(i,j) - _K(i,j+1) - _K(i+1,j) + _K(i+1,j+1);
 	    }
-	  double fact = _udist(_rng);
-	  _alpha(i) = _C(i) * (0.95 + 0.05*fact);
 	}
 #pragma omp for
       for (int i=0;i<_dKij.rows();i++)
-- 
2.43.0


From b2b1c344e2aa9ac3e0df0367ba823b26749ca6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:13 +0000
Subject: [PATCH 28/45] fix: simple surrogate strategy trains with the diagonal
 transformation for sep-CMA and VD-CMA

It passed the empty full matrix, and the ranking SVM then read out of bounds.
---
 src/surrogatestrategy.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/surrogatestrategy.cc b/src/surrogatestrategy.cc
index 0b4d7b6..3480a7e 100644
--- a/src/surrogatestrategy.cc
+++ b/src/surrogatestrategy.cc
@@ -176,8 +176,11 @@ namespace libcmaes
     // train surrogate as required.
     if (do_train())
       {
-	this->train(this->_tset,
-		    eostrat<TGenoPheno>::_solutions._csqinv);
+	if (!eostrat<TGenoPheno>::_parameters.is_sep() && !eostrat<TGenoPheno>::_parameters.is_vd())
+	  this->train(this->_tset,
+		      eostrat<TGenoPheno>::_solutions._csqinv);
+	else this->train(this->_tset,
+			 eostrat<TGenoPheno>::_solutions._sepcsqinv);
       }
   }
   
-- 
2.43.0


From c4c8b783637e2553eb3aa30b1ce955ec7af17c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:05 +0000
Subject: [PATCH 29/45] fix: surrogate strategies sort NaN values last

Comparing NaN with < and > is no valid ordering for std::sort.
---
 include/libcmaes/surrogates/rsvm_surr_strategy.hpp |  2 +-
 src/surrogatestrategy.cc                           | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/libcmaes/surrogates/rsvm_surr_strategy.hpp b/include/libcmaes/surrogates/rsvm_surr_strategy.hpp
index 9c8f355..00a49f5 100644
--- a/include/libcmaes/surrogates/rsvm_surr_strategy.hpp
+++ b/include/libcmaes/surrogates/rsvm_surr_strategy.hpp
@@ -37,7 +37,7 @@ namespace libcmaes
   {
     if (train)
       std::sort(cp.begin(),cp.end(),
-		[](Candidate const &c1, Candidate const &c2){return c1.get_fvalue() > c2.get_fvalue();}); // descending sort
+		[](Candidate const &c1, Candidate const &c2){return better_fvalue(c2.get_fvalue(),c1.get_fvalue());}); // descending sort
     x = dMat(cp.at(0).get_x_size(),cp.size());
     fvalues = dVec(cp.size());
     for (int i=0;i<(int)cp.size();i++)
diff --git a/src/surrogatestrategy.cc b/src/surrogatestrategy.cc
index 3480a7e..e324731 100644
--- a/src/surrogatestrategy.cc
+++ b/src/surrogatestrategy.cc
@@ -83,7 +83,7 @@ namespace libcmaes
     std::vector<Candidate> ctest_set = test_set;
 
     std::sort(ctest_set.begin(),ctest_set.end(),
-	      [](Candidate const &c1, Candidate const &c2){return c1.get_fvalue() > c2.get_fvalue();});
+	      [](Candidate const &c1, Candidate const &c2){return better_fvalue(c2.get_fvalue(),c1.get_fvalue());});
 
     this->predict(ctest_set,cov);
     
@@ -363,7 +363,7 @@ namespace libcmaes
     // - draw 'a'<lambda samples according to lambda*N(0,theta_sel1^2) and retain each sample from the population from previous step, with rank r < floor(a)
     std::vector<Candidate> test_set;
     std::sort(ncandidates.begin(),ncandidates.end(),
-	      [](Candidate const &c1, Candidate const &c2){return c1.get_fvalue() < c2.get_fvalue();});
+	      [](Candidate const &c1, Candidate const &c2){return better_fvalue(c1.get_fvalue(),c2.get_fvalue());});
     ncandidates.at(0).set_fvalue(this->_func(eostrat<TGenoPheno>::_parameters._gp.pheno(ncandidates.at(0).get_x_dvec()).data(),ncandidates.at(0).get_x_size()));
     this->update_fevals(1);
     test_set.push_back(ncandidates.at(0));
@@ -393,11 +393,11 @@ namespace libcmaes
     std::sort(ncandidates.begin(),ncandidates.end(),
 	      [](Candidate const &c1, Candidate const &c2)
 	      {
-		if (c1.get_fvalue() < c2.get_fvalue())
+		if (better_fvalue(c1.get_fvalue(),c2.get_fvalue()))
 		  return true;
-		if (c1.get_fvalue() == c2.get_fvalue())
-		  return c1.get_rank() < c2.get_rank();
-		return false;
+		if (better_fvalue(c2.get_fvalue(),c1.get_fvalue()))
+		  return false;
+		return c1.get_rank() < c2.get_rank();
 	      });
     
     // test error.
-- 
2.43.0


From 21173f1459bc8182d71e3e43ea41206b0a0c87a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:05 +0000
Subject: [PATCH 30/45] fix: ACM surrogate strategy always updates from a
 sorted population

The generation that filled up the training set was left unsorted: the best
candidate and the weighted recombination were taken from random members.
---
 src/surrogatestrategy.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/surrogatestrategy.cc b/src/surrogatestrategy.cc
index e324731..4f89e10 100644
--- a/src/surrogatestrategy.cc
+++ b/src/surrogatestrategy.cc
@@ -278,8 +278,8 @@ namespace libcmaes
   template<template <class U,class V> class TStrategy, class TCovarianceUpdate, class TGenoPheno>
   void ACMSurrogateStrategy<TStrategy,TCovarianceUpdate,TGenoPheno>::tell()
   {
-    if (!this->_exploit || (int)this->_tset.size() < this->_l)
-      eostrat<TGenoPheno>::_solutions.sort_candidates();
+    // the sort is stable and keeps the ordering of pre-selected candidates.
+    eostrat<TGenoPheno>::_solutions.sort_candidates();
     
     // update function value history, as needed.
     eostrat<TGenoPheno>::_solutions.update_best_candidates();
-- 
2.43.0


From 7b477bc8324be1cecd7f405c812e65a96951086e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:05 +0000
Subject: [PATCH 31/45] fix: simple surrogate strategy does not switch the
 target criterion back on against the user's setting

---
 include/libcmaes/cmaparameters.h | 1 +
 src/surrogatestrategy.cc         | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/libcmaes/cmaparameters.h b/include/libcmaes/cmaparameters.h
index 52ad309..03fcb65 100644
--- a/include/libcmaes/cmaparameters.h
+++ b/include/libcmaes/cmaparameters.h
@@ -45,6 +45,7 @@ namespace libcmaes
       friend class ACovarianceUpdate;
       template <class U> friend class errstats;
       friend class VDCMAUpdate;
+      template <template <class X,class Y> class U, class V, class W> friend class SimpleSurrogateStrategy;
       
     public:
       CMAParameters() {} //TODO: var init even if this constructor is not supposed to be used for now.
diff --git a/src/surrogatestrategy.cc b/src/surrogatestrategy.cc
index 4f89e10..8d6adc1 100644
--- a/src/surrogatestrategy.cc
+++ b/src/surrogatestrategy.cc
@@ -131,7 +131,8 @@ namespace libcmaes
     if (!this->_exploit || this->_niter % this->_nsteps == 0 || (int)this->_tset.size() < this->_l)
       {
 	// reactivate fvalue-based stopping criteria
-	this->_stopcriteria.set_criteria_active(FTARGET,true);
+	auto ftarget = eostrat<TGenoPheno>::_parameters._stoppingcrit.find(FTARGET);
+	this->_stopcriteria.set_criteria_active(FTARGET,ftarget == eostrat<TGenoPheno>::_parameters._stoppingcrit.end() || (*ftarget).second);
 	
 	// compute test error if needed.
 	if (this->_niter != 0 && (int)this->_tset.size() >= this->_l)
-- 
2.43.0


From 1dc3d0a47f72399b3b1d7912fdca5d5389526000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:05 +0000
Subject: [PATCH 32/45] fix: surrogate error over a single point is not NaN

---
 src/surrogatestrategy.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/surrogatestrategy.cc b/src/surrogatestrategy.cc
index 8d6adc1..a03e43e 100644
--- a/src/surrogatestrategy.cc
+++ b/src/surrogatestrategy.cc
@@ -78,6 +78,8 @@ namespace libcmaes
   double SurrogateStrategy<TStrategy,TCovarianceUpdate,TGenoPheno>::compute_error(const std::vector<Candidate> &test_set,
 									const dMat &cov)
   {
+    if (test_set.size() < 2)
+      return 0.0; // no pair to be ranked.
     double test_set_size = test_set.size();
     double factor = 2.0 / static_cast<double>((test_set_size*(test_set_size-1)));
     std::vector<Candidate> ctest_set = test_set;
-- 
2.43.0


From f216c7b9bb8038f2a5a482231cae5c9e651eae78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:05 +0000
Subject: [PATCH 33/45] fix: simple surrogate strategy uses the true objective
 until the surrogate has been trained

With a training interval of several steps, it ranked candidates with the
stale values of the previous generation.
---
 include/libcmaes/surrogatestrategy.h | 3 ++-
 src/surrogatestrategy.cc             | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/libcmaes/surrogatestrategy.h b/include/libcmaes/surrogatestrategy.h
index 1b84d0a..4085c1e 100644
--- a/include/libcmaes/surrogatestrategy.h
+++ b/include/libcmaes/surrogatestrategy.h
@@ -73,7 +73,7 @@ namespace libcmaes
      * @return training status
      */
     int train(const std::vector<Candidate> &candidates,
-	      const dMat &cov) { return _train(candidates,cov); }
+	      const dMat &cov) { _trained = true; return _train(candidates,cov); }
 
     /**
      * \brief predict from a surrogate model
@@ -198,6 +198,7 @@ namespace libcmaes
     std::vector<Candidate> _tset; /**< current training set. */
     CSurrFunc _train; /**< custom training function. */
     SurrFunc _predict; /**< custom prediction function. */
+    bool _trained = false; /**< whether the surrogate was trained at least once. */
     double _train_err = 0.0; /**< current surrogate training error. */
     double _test_err = 0.0; /**< current surrogate model error estimate. */
     double _smooth_test_err = 0.5; /**< smoothed test error as (1-\beta_err)*_test_err + \beta_err * new_test_err */
diff --git a/src/surrogatestrategy.cc b/src/surrogatestrategy.cc
index a03e43e..eaabec4 100644
--- a/src/surrogatestrategy.cc
+++ b/src/surrogatestrategy.cc
@@ -130,7 +130,7 @@ namespace libcmaes
   void SimpleSurrogateStrategy<TStrategy,TCovarianceUpdate,TGenoPheno>::eval(const dMat &candidates,
 								   const dMat &phenocandidates)
   {
-    if (!this->_exploit || this->_niter % this->_nsteps == 0 || (int)this->_tset.size() < this->_l)
+    if (!this->_exploit || !this->_trained || this->_niter % this->_nsteps == 0 || (int)this->_tset.size() < this->_l)
       {
 	// reactivate fvalue-based stopping criteria
 	auto ftarget = eostrat<TGenoPheno>::_parameters._stoppingcrit.find(FTARGET);
-- 
2.43.0


From f240524f51e65b3f1d25b39d1c9e0bb1ddb3a474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:02 +0000
Subject: [PATCH 34/45] fix: simple surrogate strategy does not report
 predicted ranks as best and worst seen values

With elitism, they also were re-injected and entered the training set.
---
 include/libcmaes/surrogatestrategy.h |  3 +++
 src/surrogatestrategy.cc             | 14 ++++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/include/libcmaes/surrogatestrategy.h b/include/libcmaes/surrogatestrategy.h
index 4085c1e..0ed327c 100644
--- a/include/libcmaes/surrogatestrategy.h
+++ b/include/libcmaes/surrogatestrategy.h
@@ -276,6 +276,9 @@ namespace libcmaes
     public:
     double _terr = 0.45; /**< error threshold for estimating optimal nsteps */
     int _nmax = 20;
+
+    private:
+    bool _predicted = false; /**< whether the current candidates were ranked by the surrogate. */
     };
 
   /**
diff --git a/src/surrogatestrategy.cc b/src/surrogatestrategy.cc
index eaabec4..1c01507 100644
--- a/src/surrogatestrategy.cc
+++ b/src/surrogatestrategy.cc
@@ -132,6 +132,8 @@ namespace libcmaes
   {
     if (!this->_exploit || !this->_trained || this->_niter % this->_nsteps == 0 || (int)this->_tset.size() < this->_l)
       {
+	_predicted = false;
+	
 	// reactivate fvalue-based stopping criteria
 	auto ftarget = eostrat<TGenoPheno>::_parameters._stoppingcrit.find(FTARGET);
 	this->_stopcriteria.set_criteria_active(FTARGET,ftarget == eostrat<TGenoPheno>::_parameters._stoppingcrit.end() || (*ftarget).second);
@@ -155,6 +157,8 @@ namespace libcmaes
       }
     else
       {
+	_predicted = true;
+	
 	// deactivate value-based stopping criteria
 	this->_stopcriteria.set_criteria_active(FTARGET,false);
 	
@@ -174,7 +178,17 @@ namespace libcmaes
   template<template <class U,class V> class TStrategy, class TCovarianceUpdate, class TGenoPheno>
   void SimpleSurrogateStrategy<TStrategy,TCovarianceUpdate,TGenoPheno>::tell()
   {
+    Candidate best_seen = eostrat<TGenoPheno>::_solutions._best_seen_candidate;
+    Candidate worst_seen = eostrat<TGenoPheno>::_solutions._worst_seen_candidate;
+    int best_seen_iter = eostrat<TGenoPheno>::_solutions._best_seen_iter;
     TStrategy<TCovarianceUpdate,TGenoPheno>::tell();
+    if (_predicted)
+      {
+	// predicted ranks do not compare with objective function values.
+	eostrat<TGenoPheno>::_solutions._best_seen_candidate = best_seen;
+	eostrat<TGenoPheno>::_solutions._worst_seen_candidate = worst_seen;
+	eostrat<TGenoPheno>::_solutions._best_seen_iter = best_seen_iter;
+      }
 
     // train surrogate as required.
     if (do_train())
-- 
2.43.0


From a28bba6b016887fc7137144d744c55b6935b1df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:02 +0000
Subject: [PATCH 35/45] fix: ACM surrogate strategy does not loop forever when
 a restart has a smaller population than the true calls asked for

---
 src/surrogatestrategy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surrogatestrategy.cc b/src/surrogatestrategy.cc
index 1c01507..7268d16 100644
--- a/src/surrogatestrategy.cc
+++ b/src/surrogatestrategy.cc
@@ -388,7 +388,7 @@ namespace libcmaes
     int count = 1;
     uh.clear();
     uh.insert(0);
-    while(count < _lambdaprime)
+    while(count < std::min(_lambdaprime,eostrat<TGenoPheno>::_parameters._lambda))
       {
 	// XXX: do we need to drop the samples with a > lambda and if a == 0 ? weird bias on sampling...
 	double da = std::fabs(_norm_sel1(_gen1));
-- 
2.43.0


From 5e1350c49dc89921ef312661ee52b4d68bf27a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:05 +0000
Subject: [PATCH 36/45] fix: the first linesearch pass of a profile likelihood
 always ends

---
 src/errstats.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/errstats.cc b/src/errstats.cc
index 45e53d3..ac9c56b 100644
--- a/src/errstats.cc
+++ b/src/errstats.cc
@@ -78,6 +78,8 @@ namespace libcmaes
     int i = 0;
     int n = 10;
     double d = sign * xk * 0.1; // adhoc.
+    if (d == 0.0) // a null step would never leave the optimum.
+      d = sign * 0.1;
     bool linit = true;
     while(true)
       {
@@ -180,7 +182,7 @@ namespace libcmaes
     
     dVec dv = dVec::Zero(parameters.dim());
     dv[k] = d;
-    int i = n;
+    int i = linit ? 10*n : n; // first pass should reach above threshold, but must end.
     if (fdiff > fup + fdelta) // above
       {
 	x -= eigenve.transpose() * dv;
@@ -200,8 +202,7 @@ namespace libcmaes
 	    //std::cerr << "xtmpk=" << xtmp[k] << " / fvalue=" << fvalue << " / fdiff=" << fdiff << " / dxk=" << d << std::endl;
 	    //debug
 
-	    if (!linit)
-	      --i;
+	    --i;
 	  }
       }
     else // below
@@ -222,8 +223,7 @@ namespace libcmaes
 	    //std::cerr << "xtmpk=" << xtmp[k] << " / fvalue=" << fvalue << " / fdiff=" << fdiff << " / dxk=" << d << std::endl;
 	    //debug
 
-	    if (!linit) // first pass must reach above threshold.
-	      --i;
+	    --i;
 	  }
       }
     x[k] = xtmp[k];
-- 
2.43.0


From 0343b39d1ad794960376ceaa27ae83ae8776891f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:05 +0000
Subject: [PATCH 37/45] fix: a profile likelihood that runs out of iterations
 holds points that were computed, not zeros

---
 src/errstats.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/errstats.cc b/src/errstats.cc
index ac9c56b..dcf23a2 100644
--- a/src/errstats.cc
+++ b/src/errstats.cc
@@ -153,7 +153,16 @@ namespace libcmaes
 	if (curve && i == samplesize)
 	  break;
 	if (i == maxiters)
-	  break;
+	  {
+	    // pad with last point.
+	    for (int j=curve?i:0;j<samplesize;j++)
+	      {
+		le._fvaluem[samplesize+sign*(1+j)] = ncitsol.best_candidate().get_fvalue();
+		le._xm.row(samplesize+sign*(1+j)) = phenobx.transpose();
+		le._err[samplesize+sign*(1+j)] = ncitsol._run_status;
+	      }
+	    break;
+	  }
       }
   }
 
-- 
2.43.0


From 643ba356913ea2c50a18beec4a963ddb3e9f0893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:05 +0000
Subject: [PATCH 38/45] fix: profile likelihood of a separable or VD solution
 does not read past the eigenvectors

---
 src/errstats.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/errstats.cc b/src/errstats.cc
index dcf23a2..abbef63 100644
--- a/src/errstats.cc
+++ b/src/errstats.cc
@@ -189,12 +189,16 @@ namespace libcmaes
     //std::cerr << "d=" << d << " / fdiff=" << fdiff << " / xtmpk=" << xtmp[k] << std::endl;
     //debug
     
-    dVec dv = dVec::Zero(parameters.dim());
+    const int dim = parameters.dim();
+    dMat rot = dMat::Identity(dim,dim);
+    if (eigenve.rows() == dim && eigenve.cols() == dim) // none from separable and VD covariances.
+      rot = eigenve.transpose();
+    dVec dv = dVec::Zero(dim);
     dv[k] = d;
     int i = linit ? 10*n : n; // first pass should reach above threshold, but must end.
     if (fdiff > fup + fdelta) // above
       {
-	x -= eigenve.transpose() * dv;
+	x -= rot * dv;
 	while (fdiff > fup + fdelta
 	       && i > 0
 	       && phenoxtmp[k] >= parameters._gp.get_boundstrategy().getPhenoLBound(k)
@@ -202,7 +206,7 @@ namespace libcmaes
 	  {
 	    d /= 2.0;
 	    dv[k] = d;
-	    xtmp = x + eigenve.transpose() * dv; // search in rotated space
+	    xtmp = x + rot * dv; // search in rotated space
 	    phenoxtmp = parameters._gp.pheno(xtmp);
 	    fvalue = func(phenoxtmp.data(),xtmp.size());
 	    fdiff = fabs(fvalue - minfvalue);
@@ -223,7 +227,7 @@ namespace libcmaes
 	  {
 	    d *= 2.0;
 	    dv[k] = d;
-	    xtmp = x + eigenve.transpose() * dv; // search in rotated space
+	    xtmp = x + rot * dv; // search in rotated space
 	    phenoxtmp = parameters._gp.pheno(xtmp);
 	    fvalue = func(phenoxtmp.data(),xtmp.size());
 	    fdiff = fabs(fvalue - minfvalue);
-- 
2.43.0


From 44c62af806c3382ad5a178e2da3f7585ee972da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:59 +0000
Subject: [PATCH 39/45] fix: optimizing with several fixed dimensions removes
 and restores the right ones

---
 include/libcmaes/scaling.h |  3 ++-
 src/errstats.cc            | 17 +++++++++++++++--
 src/pwq_bound_strategy.cc  |  3 ++-
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/include/libcmaes/scaling.h b/include/libcmaes/scaling.h
index 9ff2c13..bd67df9 100644
--- a/include/libcmaes/scaling.h
+++ b/include/libcmaes/scaling.h
@@ -146,8 +146,9 @@ namespace libcmaes
 
     void remove_dimensions(const std::vector<int> &k)
     {
-      for (const int i: k)
+      for (auto it=k.rbegin();it!=k.rend();++it) // from last to first, so that indices remain valid
 	{
+	  const int i = *it;
 	  removeElement(_scaling,i);
 	  removeElement(_shift,i);
 	}
diff --git a/src/errstats.cc b/src/errstats.cc
index abbef63..9f5a933 100644
--- a/src/errstats.cc
+++ b/src/errstats.cc
@@ -22,6 +22,7 @@
 #include <libcmaes/errstats.h>
 #include <libcmaes/llogging.h>
 #include <iostream>
+#include <algorithm>
 
 namespace libcmaes
 {
@@ -246,12 +247,24 @@ namespace libcmaes
   CMASolutions errstats<TGenoPheno>::optimize_vpk(FitFunc &func,
 						  const CMAParameters<TGenoPheno> &parameters,
 						  const CMASolutions &cmasol,
-						  const std::vector<int> &k,
-						  const std::vector<double> &vk,
+						  const std::vector<int> &pk,
+						  const std::vector<double> &pvalk,
 						  const dVec &x0,
 						  const bool &pheno_x0,
 						  const bool &pheno_vk)
   {
+    // dimensions are removed and added back by increasing index.
+    std::vector<std::pair<int,double>> kvk;
+    for (size_t i=0;i<pk.size();i++)
+      kvk.emplace_back(pk.at(i),pvalk.at(i));
+    std::sort(kvk.begin(),kvk.end());
+    std::vector<int> k;
+    std::vector<double> vk;
+    for (const auto &p: kvk)
+      {
+	k.push_back(p.first);
+	vk.push_back(p.second);
+      }
     dVec rx0;
     if (!pheno_x0)
       rx0 = parameters.get_gp().pheno(x0);
diff --git a/src/pwq_bound_strategy.cc b/src/pwq_bound_strategy.cc
index 63204a8..edcf4a5 100644
--- a/src/pwq_bound_strategy.cc
+++ b/src/pwq_bound_strategy.cc
@@ -129,8 +129,9 @@ namespace libcmaes
 
   void pwqBoundStrategy::remove_dimensions(const std::vector<int> &k)
   {
-    for (const int i: k)
+    for (auto it=k.rbegin();it!=k.rend();++it) // from last to first, so that indices remain valid
       {
+	const int i = *it;
 	removeElement(_lbounds,i);
 	removeElement(_ubounds,i);
 	removeElement(_al,i);
-- 
2.43.0


From 5146e92ad13bee57970c9e3a82314b873143f718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:59 +0000
Subject: [PATCH 40/45] fix: optimizing with all dimensions fixed returns the
 point that was evaluated

---
 src/errstats.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/errstats.cc b/src/errstats.cc
index 9f5a933..9a7da5f 100644
--- a/src/errstats.cc
+++ b/src/errstats.cc
@@ -289,8 +289,13 @@ namespace libcmaes
       {
 	double fval = func(pvk.data(),pvk.size());
 	CMASolutions rcmasol;
-	rcmasol._candidates.emplace_back(fval,pvk);
-	rcmasol._best_candidates_hist.push_back(cmasol._candidates.at(0));
+	dVec gvk = pvk;
+	for (size_t i=0;i<vk.size();i++)
+	  gvk(k[i]) = vk.at(i);
+	if (pheno_vk)
+	  gvk = parameters.get_gp().geno(gvk);
+	rcmasol._candidates.emplace_back(fval,gvk); // in genotype
+	rcmasol._best_candidates_hist.push_back(rcmasol._candidates.at(0));
 	rcmasol._nevals++;
 	return rcmasol;
       }
-- 
2.43.0


From 6f2ed7a353adbc05f8218a9934d758f8863f9bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:48 +0000
Subject: [PATCH 41/45] fix: contour points are searched within the bounds

---
 src/errstats.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/errstats.cc b/src/errstats.cc
index 9a7da5f..cc54423 100644
--- a/src/errstats.cc
+++ b/src/errstats.cc
@@ -263,7 +263,10 @@ namespace libcmaes
     for (const auto &p: kvk)
       {
 	k.push_back(p.first);
-	vk.push_back(p.second);
+	if (pheno_vk) // out of bounds values are not admissible.
+	  vk.push_back(std::min(std::max(p.second,parameters.get_gp().get_boundstrategy().getPhenoLBound(p.first)),
+				parameters.get_gp().get_boundstrategy().getPhenoUBound(p.first)));
+	else vk.push_back(p.second);
       }
     dVec rx0;
     if (!pheno_x0)
-- 
2.43.0


From 26a7a535169f3ea12a687c1f79ac3c65ae4580ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:48 +0000
Subject: [PATCH 42/45] fix: contour computation does not evaluate the
 objective at undefined points

---
 src/errstats.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/errstats.cc b/src/errstats.cc
index cc54423..26cbcc7 100644
--- a/src/errstats.cc
+++ b/src/errstats.cc
@@ -23,6 +23,7 @@
 #include <libcmaes/llogging.h>
 #include <iostream>
 #include <algorithm>
+#include <cmath>
 
 namespace libcmaes
 {
@@ -517,6 +518,10 @@ namespace libcmaes
     //std::cout << "aminsv=" << aminsv << " / aim=" << aim << " / tla=" << tla << " / tlf=" << tlf << std::endl;
     //debug
     
+    // no direction to follow, e.g. from an empty profile likelihood.
+    if (!std::isfinite(pmid[0]) || !std::isfinite(pmid[1]) || !std::isfinite(pdir[0]) || !std::isfinite(pdir[1]))
+      return fcross();
+
     // get a first optimized point.
     CMASolutions cmasol1 = errstats<TGenoPheno>::optimize_vpk(func,parameters,cmasol,par,pmid,parameters.get_x0min(),true,true); //TODO: result has wrong best candidate x set as phenotype...
     alsb[0] = 0.0;
@@ -532,6 +537,8 @@ namespace libcmaes
     
     // update aopt and get a second optimized point.
     aopt = sqrt(fup/(flsb[0]-aminsv))-1.0;
+    if (!std::isfinite(aopt))
+      return fcross();
     if (aopt > 1.0)
       aopt = 1.0;
     else if (aopt < -0.5)
@@ -586,6 +593,8 @@ namespace libcmaes
     
     tentatives++;
     aopt = alsb[1] + (aim-flsb[1])/dfda;
+    if (!std::isfinite(aopt))
+      return fcross();
     double fdist = std::min(fabs(aim  - flsb[0]), fabs(aim  - flsb[1]));
     double adist = std::min(fabs(aopt - alsb[0]), fabs(aopt - alsb[1]));
     if (fabs(aopt) > 1.0)
-- 
2.43.0


From cf69e9b51a382964d82f986d49eed6dd463b9fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:48 +0000
Subject: [PATCH 43/45] fix: the search for a contour point always ends

---
 src/errstats.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/errstats.cc b/src/errstats.cc
index 26cbcc7..b380ade 100644
--- a/src/errstats.cc
+++ b/src/errstats.cc
@@ -556,6 +556,8 @@ namespace libcmaes
     //std::cout << "contour / fvalue=" << cmasol2.best_candidate().get_fvalue() << " / optimized point2=" << cmasol2.best_candidate().get_x_dvec().transpose() << std::endl;
     //debug
     
+    int tentatives = 0;
+
     // study slope between the two points.
   slope:
     if (dfda < 0.0)
@@ -585,7 +587,6 @@ namespace libcmaes
       }
 
     // once positive slope, find a third point.
-    int tentatives = 0;
   point3:
     //debug
     //std::cout << "positive slope, dfda=" << dfda << std::endl;
@@ -700,8 +701,13 @@ namespace libcmaes
 	//std::cout << "sdir0=" << sdir0 << " / sdir1=" << sdir1 << " / dxk0=" << dxk0 << " / dxk1=" << dxk1 << std::endl;
 	//debug
 	
+	if (dxk0 == 0.0) // a null step would not advance.
+	  dxk0 = sdir0 * 0.1;
+	if (dxk1 == 0.0)
+	  dxk1 = sdir1 * 0.1;
+
 	CMASolutions citsol = cmasols.at(ibest);
-	while (true)
+	for (int step=0;step<100;step++) // the target value may be out of reach
 	  {
 	    // advance incrementally
 	    xstart(par[0]) += dxk0;
@@ -749,7 +755,8 @@ namespace libcmaes
 	
 	alsb[1] = alsb[2];
 	flsb[1] = flsb[2];
-	goto slope;
+	if (tentatives < 10)
+	  goto slope;
       }
 
     // in other case new straight line thru first two points
-- 
2.43.0


From 66c1011f8d52f5afa425d8b07ba32c879818b968 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Wed, 18 Nov 2026 07:52:15 +0000
Subject: [PATCH 44/45] fix: lazy update samples around the current mean

---
 src/cmastrategy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmastrategy.cc b/src/cmastrategy.cc
index 7bc0d2d..cf3fc4e 100644
--- a/src/cmastrategy.cc
+++ b/src/cmastrategy.cc
@@ -163,11 +163,11 @@ namespace libcmaes
     if (!eostrat<TGenoPheno>::_parameters._sep && !eostrat<TGenoPheno>::_parameters._vd)
       {
 	eostrat<TGenoPheno>::_solutions._updated_eigen = false;
+	_esolver.setMean(eostrat<TGenoPheno>::_solutions._xmean); // the mean moves, even if the update of the covariance is lazy.
 	if (eostrat<TGenoPheno>::_niter == 0 || !eostrat<TGenoPheno>::_parameters._lazy_update
 	    || eostrat<TGenoPheno>::_niter - eostrat<TGenoPheno>::_solutions._eigeniter > eostrat<TGenoPheno>::_parameters._lazy_value)
 	  {
 	    eostrat<TGenoPheno>::_solutions._eigeniter = eostrat<TGenoPheno>::_niter;
-	    _esolver.setMean(eostrat<TGenoPheno>::_solutions._xmean);
 	    _esolver.setCovar(eostrat<TGenoPheno>::_solutions._cov);
 	    eostrat<TGenoPheno>::_solutions._updated_eigen = true;
 	  }
-- 
2.43.0


From f718b7ca2bf428761c9b22905a69124701dd9d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:45 +0000
Subject: [PATCH 45/45] fix: restarts keep the settings of the separable, VD,
 noisy, two-point and fixed-parameter variants

---
 include/libcmaes/cmaparameters.h |  5 +++++
 src/cmaparameters.cc             | 30 ++++++++++++++++++++++++++----
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/include/libcmaes/cmaparameters.h b/include/libcmaes/cmaparameters.h
index 03fcb65..bc494b8 100644
--- a/include/libcmaes/cmaparameters.h
+++ b/include/libcmaes/cmaparameters.h
@@ -288,6 +288,9 @@ namespace libcmaes
       void set_tpa_dsigma(const double &d) { _dsigma = d; }
       
     private:
+      void set_noisy_rates();
+      void set_fixed_rates();
+
       int _mu; /**< number of candidate solutions used to update the distribution parameters. */
       dVec _weights; /**< offsprings weighting scheme. */
       double _csigma; /**< cumulation constant for step size. */
@@ -319,6 +322,8 @@ namespace libcmaes
       // sep cma (diagonal cov).
       bool _sep = false; /**< whether to use diagonal covariance matrix. */
       bool _vd = false;
+
+      bool _noisy = false; /**< whether rates are adapted for a noisy objective function. */
       
       bool _elitist = false; /**< re-inject the best-ever seen solution. */
       bool _initial_elitist = false; /**< re-inject x0. */
diff --git a/src/cmaparameters.cc b/src/cmaparameters.cc
index 8c627f9..71c8c44 100644
--- a/src/cmaparameters.cc
+++ b/src/cmaparameters.cc
@@ -116,15 +116,33 @@ namespace libcmaes
     // uncertainty handling.
     this->_rlambda = std::max(0.1,2.0/Parameters<TGenoPheno>::_lambda);
     this->_alphathuh = 1 + 2.0/(Parameters<TGenoPheno>::_dim+10.0);
+
+    // settings made so far apply upon a restart as well.
+    if (_noisy)
+      set_noisy_rates();
+    if (_sep)
+      set_sep();
+    if (_vd)
+      set_vd();
+    if (this->_tpa == 2)
+      set_tpa(this->_tpa);
+    if (!Parameters<TGenoPheno>::_fixed_p.empty())
+      set_fixed_rates();
   }
   
   template <class TGenoPheno>
   void CMAParameters<TGenoPheno>::set_noisy()
   {
-    static double factor = 0.2;
     static double lfactor = 5.0; // lambda factor.
     Parameters<TGenoPheno>::_lambda *= lfactor;
+    _noisy = true;
     initialize_parameters(); // reinit parameters.
+  }
+
+  template <class TGenoPheno>
+  void CMAParameters<TGenoPheno>::set_noisy_rates()
+  {
+    static double factor = 0.2;
     _c1 *= factor;
     _cmu = std::min(1.0-_c1,2.0*factor*(_muw-2.0+1.0/_muw)/(pow(Parameters<TGenoPheno>::_dim+2.0,2)+_muw));
   }
@@ -180,15 +198,19 @@ namespace libcmaes
   void CMAParameters<TGenoPheno>::set_fixed_p(const int &index, const double &value)
   {
     Parameters<TGenoPheno>::set_fixed_p(index,value);
-    double ndim = Parameters<TGenoPheno>::_dim-Parameters<TGenoPheno>::_fixed_p.size();
-    _chi = sqrt(ndim)*(1.0-1.0/(4.0*ndim) + 1.0/(21.0*ndim*ndim));
-    _lazy_value = 1.0/(_c1+_cmu)/ndim/10.0;
+    set_fixed_rates();
   }
 
   template <class TGenoPheno>
   void CMAParameters<TGenoPheno>::unset_fixed_p(const int &index)
   {
     Parameters<TGenoPheno>::unset_fixed_p(index);
+    set_fixed_rates();
+  }
+
+  template <class TGenoPheno>
+  void CMAParameters<TGenoPheno>::set_fixed_rates()
+  {
     double ndim = Parameters<TGenoPheno>::_dim-Parameters<TGenoPheno>::_fixed_p.size();
     _chi = sqrt(ndim)*(1.0-1.0/(4.0*ndim) + 1.0/(21.0*ndim*ndim));
     _lazy_value = 1.0/(_c1+_cmu)/ndim/10.0;
-- 
2.43.0

