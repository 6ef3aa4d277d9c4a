
// Drives the surrogate strategies: 1 ranking SVM on the ACM strategy (as shipped), 2 ranking SVM on the simple strategy,
// 3 ACM with user-supplied training and prediction, 4 simple with user-supplied ones.  Training and prediction are observed.
template <class S> struct SurrOpt : public ESOptimizer<S, P, CMASolutions> {
  typedef ESOptimizer<S, P, CMASolutions> B;
  Ctx *cx; int l; RankingSVM<RBFKernel> svm; dVec centre; bool trained;
  SurrOpt(FitFunc &f, P &p) : B(f, p), cx(nullptr), l(0), trained(false) {}
  void problem(const std::string &s) { sim::MemOff mo; if (cx->t->surr_bad.empty()) cx->t->surr_bad = s; }
  bool cov_ok(const dMat &cov) {
    const P &p = this->get_parameters(); int n = p.dim();
    if (p.is_sep() || p.is_vd()) return cov.rows() == n && cov.cols() == 1;
    return cov.rows() == n && cov.cols() == n;
  }
  void observe_train(const std::vector<Candidate> &v, const dMat &cov) {
    sim::NoPreempt np; sim::MemOff mo; RunTrace &t = *cx->t; char b[300];
    t.ntrain++; t.maxtset = std::max(t.maxtset, (int)v.size());
    if ((int)v.size() > l) { snprintf(b, sizeof b, "trained on %zu points, configured size %d", v.size(), l); problem(b); }
    if (!cov_ok(cov)) { snprintf(b, sizeof b, "trained with a %dx%d transformation", (int)cov.rows(), (int)cov.cols()); problem(b); }
    cx->in_snap = true; GP gp = this->get_parameters().get_gp(); bool mx = cx->c->maximize;
    for (const Candidate &q : v) {
      dVec y = gp.pheno(q.get_x_dvec()); bool ok = false;
      for (size_t j = t.calls.size(); j-- > 0 && !ok;) {
        double f = mx ? -1.0 * t.calls[j].f : t.calls[j].f;
        if (!(f == q.get_fvalue() || (f != f && q.get_fvalue() != q.get_fvalue()))) continue;
        ok = true; for (int k = 0; k < t.dim && ok; k++) if (!(std::fabs(t.xs[t.calls[j].off + k] - y[k]) <= 1e-9 * (1 + std::fabs(y[k])))) ok = false;
      }
      if (!ok) { snprintf(b, sizeof b, "trained on a point with value %.17g that the objective never returned for it", q.get_fvalue()); problem(b); break; }
    }
    cx->in_snap = false;
  }
  void observe_predict(std::vector<Candidate> &v, const dMat &cov) {
    sim::NoPreempt np; sim::MemOff mo; char b[200];
    cx->t->npredict++;
    if (!cov_ok(cov)) { snprintf(b, sizeof b, "prediction with a %dx%d transformation", (int)cov.rows(), (int)cov.cols()); problem(b); }
    for (const Candidate &q : v) if (q.get_x_size() != (unsigned)cx->t->dim) { snprintf(b, sizeof b, "prediction asked for a point of %u coordinates", (unsigned)q.get_x_size()); problem(b); break; }
  }
  void user_model() {              // nearest training point wins; sequential, deterministic
    SurrOpt *q = this;
    this->_train = [q](const std::vector<Candidate> &v, const dMat &) {
      q->cx->maybe_throw(6, q->cx->t->ntrain - 1);
      const Candidate *b = nullptr; for (const Candidate &k : v) if (!b || k.get_fvalue() < b->get_fvalue() || b->get_fvalue() != b->get_fvalue()) b = &k;
      if (b) { q->centre = b->get_x_dvec(); q->trained = true; } return 0; };
    this->_predict = [q](std::vector<Candidate> &v, const dMat &) {
      q->cx->maybe_throw(7, q->cx->t->npredict - 1);
      if (q->trained) for (Candidate &k : v) k.set_fvalue((k.get_x_dvec() - q->centre).norm()); return 0; };
  }
  void svm_model(int iters) {
    SurrOpt *q = this;
    this->_train = [q, iters](const std::vector<Candidate> &v, const dMat &cov) {
      if (v.empty()) return 0;
      dMat x; dVec f; std::vector<Candidate> cp = v; to_mat_vec(cp, x, f, true);
      q->svm = RankingSVM<RBFKernel>(); q->svm._encode = true; q->svm.train(x, iters, cov, q->get_solutions().xmean()); return 0; };
    this->_predict = [q](std::vector<Candidate> &v, const dMat &cov) {
      dMat xt(v.at(0).get_x_size(), v.size()); for (int i = 0; i < (int)v.size(); i++) xt.col(i) = v.at(i).get_x_dvec().transpose();
      dMat xr; dVec f; std::vector<Candidate> ts = q->_tset; to_mat_vec(ts, xr, f, true);
      dVec fit; q->svm.predict(fit, xt, xr, cov, q->get_solutions().xmean());
      if (fit.size()) for (int i = 0; i < (int)v.size(); i++) v.at(i).set_fvalue(fit(i)); return 0; };
  }
  void watch() {
    SurrOpt *q = this; CSurrFunc tr = this->_train; SurrFunc pr = this->_predict;
    this->set_ftrain([q, tr](const std::vector<Candidate> &v, const dMat &cov) { q->observe_train(v, cov); return tr(v, cov); });
    this->set_fpredict([q, pr](std::vector<Candidate> &v, const dMat &cov) { q->observe_predict(v, cov); return pr(v, cov); });
  }
};
template <class O> void acm_setup(O &o, const Case &c, RunTrace &t) {
  if (c.prelambda > 0) o.set_prelambda(std::max(c.prelambda, t.lambda0));
  if (c.variant > 0) o.set_lambdaprime(c.variant);
  t.lambdaprime = o.get_lambdaprime();
}
template <class S> void shipped(SurrOpt<S> &o, const Case &c) { o._rsvm_iter = 200; (void)c; }
template <class S> void surr_go(SurrOpt<S> &o, const Case &c, RunTrace &t, Ctx &cx, PF &pf, PLF &plf) {
  o.cx = &cx;
  if (c.sl > 0) o.set_l(c.sl);
  o.l = t.surr_l = o.get_l();
  o.set_exploit(c.exploit != 0);
  if (c.nsteps != 0) o.set_nsteps(c.nsteps);
  o.watch();
  PF pf2 = [&](const P &p, const CMASolutions &s) {
    { sim::NoPreempt np; sim::MemOff mo; double a = o.get_train_error(), b = o.get_test_error(); char m[200];
      if (!(a >= 0 && a <= 1 && b >= 0 && b <= 1)) { snprintf(m, sizeof m, "training error %.17g, test error %.17g", a, b); o.problem(m); }
      t.gen_trains.push_back(t.ntrain); }
    return pf(p, s); };
  o.set_progress_func(pf2);
  if (c.fplot == 3) o.set_plot_func(plf);
  t.optret = o.optimize();
  final_snap(cx, o.get_parameters(), o.get_solutions());
}
template <template <class, class> class ST, class CU> void surr_kind(const Case &c, RunTrace &t, Ctx &cx, FitFunc &f, P &p, PF &pf, PLF &plf) {
  if (c.surr == 1) { SurrOpt<RSVMSurrogateStrategy<ST, CU, GP>> o(f, p); o._rsvm_iter = 200; acm_setup(o, c, t); surr_go(o, c, t, cx, pf, plf); }
  else if (c.surr == 3) { SurrOpt<ACMSurrogateStrategy<ST, CU, GP>> o(f, p); o.user_model(); acm_setup(o, c, t); surr_go(o, c, t, cx, pf, plf); }
  else { SurrOpt<SimpleSurrogateStrategy<ST, CU, GP>> o(f, p); if (c.surr == 2) o.svm_model(200); else o.user_model(); surr_go(o, c, t, cx, pf, plf); }
}
void surr_dispatch(const Case &c, RunOpts &, RunTrace &t, Ctx &cx, FitFunc &f, P &p, PF &pf, GradFunc &, PLF &plf) {
  switch (c.algo) {
    case 0: case 6: surr_kind<CMAStrategy, CovarianceUpdate>(c, t, cx, f, p, pf, plf); break;
    case 1: case 7: surr_kind<IPOPCMAStrategy, CovarianceUpdate>(c, t, cx, f, p, pf, plf); break;
    case 2: case 8: surr_kind<BIPOPCMAStrategy, CovarianceUpdate>(c, t, cx, f, p, pf, plf); break;
    case 3: case 9: surr_kind<CMAStrategy, ACovarianceUpdate>(c, t, cx, f, p, pf, plf); break;
    case 4: case 10: surr_kind<IPOPCMAStrategy, ACovarianceUpdate>(c, t, cx, f, p, pf, plf); break;
    case 5: case 11: surr_kind<BIPOPCMAStrategy, ACovarianceUpdate>(c, t, cx, f, p, pf, plf); break;
    case 12: surr_kind<CMAStrategy, VDCMAUpdate>(c, t, cx, f, p, pf, plf); break;
    case 13: surr_kind<IPOPCMAStrategy, VDCMAUpdate>(c, t, cx, f, p, pf, plf); break;
    default: surr_kind<BIPOPCMAStrategy, VDCMAUpdate>(c, t, cx, f, p, pf, plf); break;
  }
}
