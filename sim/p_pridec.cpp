// C01-C04: the real primal decomposition engine on a simulated MPI world.
#include "sim.hpp"
#include "props.hpp"
#include "hiopInterfacePrimalDecomp.hpp"
#include "hiopAlgPrimalDecomp.hpp"
#include "hiopVectorPar.hpp"
#include <cmath>
#include <cstring>
#include <unistd.h>

using namespace hiop;
using namespace sim;

namespace {

// round to a multiple of 2^-30 so that sums over terms are exact in every order
double quant(double v) { return std::ldexp(std::nearbyint(std::ldexp(v, 30)), -30); }

struct Model {
  int n, nc, S;
  std::vector<int> xc;
  std::vector<double> q, a, lb, ub;            // base: 0.5 q (x-a)^2 in [lb,ub]
  std::vector<std::vector<double>> b, w, k;    // terms
  std::vector<double> c;
  double f(int s, const double* y) const
  {
    double r = c[s];
    for(int i = 0; i < nc; i++) { double d = y[i] - b[s][i]; r += 0.5 * w[s][i] * d * d + k[s][i] * (std::sqrt(1 + d * d) - 1); }
    return quant(r);
  }
  double g(int s, const double* y, int i) const
  {
    double d = y[i] - b[s][i];
    return quant(w[s][i] * d + k[s][i] * d / std::sqrt(1 + d * d));
  }
};
struct Cfg { int fail_at, fail_status; double term_fail; int max_iter, accp, ctor, verb, work, stall; double tol, atol, amin, amax, ratio; bool local, file = false; };

Model draw_model(int nranks)
{
  Model m;
  m.n = range(CFG, 1, 6);
  m.nc = m.n - (int)choose(CFG, m.n);
  int minS = std::max(1, nranks - 1);
  m.S = minS + (int)choose(CFG, 9);
  Rng r(choose(CFG, 1u << 30));
  bool shuffled = choose(CFG, 2);
  std::vector<int> p(m.n); for(int i = 0; i < m.n; i++) p[i] = i;
  for(int i = m.n - 1; i > 0; i--) std::swap(p[i], p[r.i(i + 1)]);
  m.xc.assign(p.begin(), p.begin() + m.nc);
  if(!shuffled) std::sort(m.xc.begin(), m.xc.end());
  for(int i = 0; i < m.n; i++) {
    m.q.push_back(r.p(0.2) ? r.u(0.01, 0.1) : r.u(0.2, 5.)); m.a.push_back(r.u(-3, 3));
    double l = r.u(-4, 0), u = l + r.u(0.5, 6.); if(r.p(0.3)) l = -1e3; if(r.p(0.3)) u = 1e3;
    m.lb.push_back(l); m.ub.push_back(u);
  }
  for(int s = 0; s < m.S; s++) {
    std::vector<double> b, w, k;
    for(int i = 0; i < m.nc; i++) { b.push_back(r.u(-3, 3)); w.push_back(r.p(0.2) ? 0. : r.u(0.1, 3.)); k.push_back(r.p(0.5) ? 0. : r.u(0., 2.)); }
    m.b.push_back(b); m.w.push_back(w); m.k.push_back(k); m.c.push_back(quant(r.u(0.5, 4.)));
  }
  return m;
}
Cfg draw_cfg()
{
  Cfg c;
  static const int mi[] = {3, 1, 2, 5, 12, 30};
  c.max_iter = mi[choose(CFG, 6)];
  static const double tl[] = {1e-4, 1e-5, 1e-3, 1e-2, 1.};
  c.tol = tl[choose(CFG, 5)];
  c.atol = c.tol * (choose(CFG, 2) ? 100. : 10.);
  c.accp = range(CFG, 1, 6);
  c.local = choose(CFG, 2);
  c.ctor = choose(CFG, 2);
  static const double am[] = {1e-5, 1e-2, 1.}; c.amin = am[choose(CFG, 3)];
  static const double ax[] = {1e6, 1e2, 5.}; c.amax = ax[choose(CFG, 3)];
  static const double ra[] = {1., 0.5, 4.}; c.ratio = ra[choose(CFG, 3)];
  static const int vb[] = {0, 3, 9, 12}; c.verb = vb[choose(CFG, 4)];
  static const int wk[] = {0, 5, 60, 700}; c.work = wk[choose(CFG, 4)];
  c.stall = choose(CFG, 3) == 2;
  // the user's master solver and recourse terms may report failures (with the values still provided)
  static const int fs[] = {Max_Iter_Exceeded, NlpAlgorithm_failure, Err_Step_Computation, User_Stopped, Infeasible_Problem};
  c.fail_at = -1; c.fail_status = Solve_Success; c.term_fail = 0;
  if(weighted(FAULT, {4, 1})) { c.fail_at = (int)choose(FAULT, 4); c.fail_status = fs[choose(FAULT, 5)]; }
  if(weighted(FAULT, {6, 1})) c.term_fail = 0.2;
  return c;
}

// what happened, over all ranks of one solve
struct Hist {
  struct E { int term, rank; bool grad; std::vector<double> x; };
  std::vector<E> since;                 // evaluations since the last master solution
  std::vector<double> lastx;            // last master solution
  std::vector<std::vector<double>> xs;  // all master solutions
  std::vector<double> objs;
  int nfull = 0, nbase = 0, last_status = Solve_Success;
  std::vector<double> alpha;            // curvature of the recourse model of every iteration
  std::vector<std::string> files;       // options file handed to the master solver
  bool bad_order = false;
  std::vector<int> iters; std::vector<int> returned; std::vector<int> stat;
  double obj = 0; std::vector<double> sol;
};

struct Prob : public hiopInterfacePriDecProblem {
  const Model& m; const Cfg& c; Hist& h; int rank; RecourseApproxEvaluator* ev_ = nullptr;
  std::vector<double> x; double obj = 0;
  Prob(const Model& mm, const Cfg& cc, Hist& hh, int r) : m(mm), c(cc), h(hh), rank(r), x(mm.n, 0.) {}

  void check_iteration()
  {
    std::vector<int> nf(m.S, 0), ng(m.S, 0);
    bool badx = false; int bx = -1;
    for(auto& e : h.since) {
      (e.grad ? ng : nf)[e.term]++;
      for(int i = 0; i < m.nc; i++) if(e.x[i] != h.lastx[m.xc[i]]) { badx = true; bx = e.term; }
    }
    for(int s = 0; s < m.S; s++) {
      if(nf[s] != 1) violate("C01", nf[s] ? "value-evaluated-more-than-once" : "value-not-evaluated", "iteration %d: value of term %d evaluated %d times (S=%d)", h.nfull, s, nf[s], m.S);
      if(ng[s] != 1) violate("C01", ng[s] ? "gradient-evaluated-more-than-once" : "gradient-not-evaluated", "iteration %d: gradient of term %d evaluated %d times (S=%d)", h.nfull, s, ng[s], m.S);
    }
    if(badx) violate("C01", "evaluated-at-wrong-point", "iteration %d: term %d not evaluated at the coupled part of the last master solution", h.nfull, bx);
  }
  void check_model()
  {
    if(!ev_) { violate("C01", "no-recourse-model", "master problem solved without a recourse model"); return; }
    std::vector<double> y(m.nc); for(int i = 0; i < m.nc; i++) y[i] = h.lastx[m.xc[i]];
    double mean = 0, sc = 1; std::vector<double> g(m.nc, 0.);
    for(int s = 0; s < m.S; s++) { mean += m.f(s, y.data()); sc += std::fabs(m.f(s, y.data())); for(int i = 0; i < m.nc; i++) g[i] += m.g(s, y.data(), i); }
    mean /= m.S; for(auto& v : g) v /= m.S;
    const double* rg = ev_->get_rgrad()->local_data_const(); const double* rh = ev_->get_rhess()->local_data_const(); const double* x0 = ev_->get_x0()->local_data_const();
    if(!(std::fabs(ev_->get_rval() - mean) <= 1e-10 * sc)) violate("C01", "aggregate-value-wrong", "iteration %d: model value %.15g, average of the terms %.15g", h.nfull, ev_->get_rval(), mean);
    for(int i = 0; i < m.nc; i++) {
      if(!(std::fabs(rg[i] - g[i]) <= 1e-10 * (1 + std::fabs(g[i])) * m.S)) violate("C01", "aggregate-gradient-wrong", "iteration %d: model gradient[%d] %.15g, average of the terms %.15g", h.nfull, i, rg[i], g[i]);
      if(x0[i] != y[i]) violate("C01", "expanded-at-wrong-point", "iteration %d: expansion point[%d] %.15g, last master solution %.15g", h.nfull, i, x0[i], y[i]);
      if(!(std::isfinite(rh[i]))) violate("C01", "hessian-not-finite", "iteration %d: model curvature[%d] = %g", h.nfull, i, rh[i]);
    }
    h.alpha.push_back(m.nc ? rh[0] : 0.);
    for(int i = 1; i < m.nc; i++) if(want("C20") && rh[i] != rh[0]) violate("C20", "curvature-not-uniform", "iteration %d: model curvature[%d] %.15g, [0] %.15g", h.nfull, i, rh[i], rh[0]);
    // the evaluator's functions must be that quadratic
    std::vector<double> z(m.n), gz(m.n), gref(m.n);
    Rng r((uint64_t)h.nfull * 7919 + m.n);
    double fz = 2.5, fref = 2.5 + mean;
    for(int i = 0; i < m.n; i++) { z[i] = r.u(-2, 2); gz[i] = gref[i] = r.u(-1, 1); }
    for(int i = 0; i < m.nc; i++) { double d = z[m.xc[i]] - y[i]; fref += g[i] * d + 0.5 * rh[i] * d * d; gref[m.xc[i]] += g[i] + rh[i] * d; }
    if(!ev_->eval_f(m.n, z.data(), true, fz) || !(std::fabs(fz - fref) <= 1e-9 * (sc + std::fabs(fref)))) violate("C01", "model-value-function-wrong", "iteration %d: recourse model value at a probe point %.15g, expected %.15g", h.nfull, fz, fref);
    if(!ev_->eval_grad(m.n, z.data(), false, gz.data())) violate("C01", "model-gradient-failed", "evaluator");
    for(int i = 0; i < m.n; i++) if(!(std::fabs(gz[i] - gref[i]) <= 1e-9 * (1 + std::fabs(gref[i])) * m.S)) violate("C01", "model-gradient-function-wrong", "iteration %d: recourse model gradient[%d] at a probe point %.15g, expected %.15g", h.nfull, i, gz[i], gref[i]);
  }

  hiopSolveStatus solve_master(hiopVector& xv, const bool& include_r, const double&, const double*, const double*, const char* options_file) override
  { User own_memory;
    h.files.push_back(options_file ? options_file : "");
    ev("solve_master r=%d", (int)include_r);
    if(rank != 0) violate("C01", "master-solved-on-worker", "solve_master called on rank %d", rank);
    yield(c.work ? (int)choose(SCHED, c.work + 1) : 0);
    std::vector<double> G(m.n, 0.), H(m.n, 0.), X0(m.n, 0.); double rv = 0;
    if(include_r) {
      check_iteration(); check_model();
      if(!ev_) finish_now();
      rv = ev_->get_rval();
      for(int i = 0; i < m.nc; i++) { int j = m.xc[i]; G[j] = ev_->get_rgrad()->local_data_const()[i]; H[j] = ev_->get_rhess()->local_data_const()[i]; X0[j] = ev_->get_x0()->local_data_const()[i]; }
      h.nfull++;
      if(h.nfull > c.max_iter) { violate("C02", "too-many-outer-iterations", "master solved %d times with max_iter %d", h.nfull, c.max_iter); finish_now(); }
    } else { h.nbase++; if(h.nbase > 1) violate("C01", "basecase-solved-again", "basecase solved %d times", h.nbase); }
    obj = rv;
    for(int i = 0; i < m.n; i++) {
      double d = m.q[i] + H[i]; double v = d > 0 ? (m.q[i] * m.a[i] + H[i] * X0[i] - G[i]) / d : m.a[i];
      x[i] = std::min(m.ub[i], std::max(m.lb[i], v));
      obj += 0.5 * m.q[i] * (x[i] - m.a[i]) * (x[i] - m.a[i]) + G[i] * (x[i] - X0[i]) + 0.5 * H[i] * (x[i] - X0[i]) * (x[i] - X0[i]);
    }
    memcpy(xv.local_data(), x.data(), 8 * m.n);
    h.since.clear(); h.lastx = x; h.xs.push_back(x); h.objs.push_back(obj);
    ev_mem("x", x.data(), 8 * m.n);
    yield();
    h.last_status = Solve_Success;
    if(c.fail_at == h.nfull) { count("fault.master_solve_reports_failure"); h.last_status = c.fail_status; }
    return (hiopSolveStatus)h.last_status;
  }
  bool reports()
  {
    if(c.term_fail > 0 && chance(FAULT, c.term_fail)) { count("fault.term_reports_failure"); return false; }
    return true;
  }
  void record(int idx, const int& n, const double* xx, bool grad)
  {
    ev("%s term %d", grad ? "grad" : "value", idx);
    if(idx < 0 || idx >= m.S) { violate("C01", "invalid-term-index", "rank %d evaluates term %d of %d", rank, idx, m.S); finish_now(); }
    if(n != m.nc) { violate("C01", "invalid-size", "term evaluated with n=%d instead of %d", n, m.nc); finish_now(); }
    if(h.nbase == 0) violate("C01", "evaluated-before-master", "term %d evaluated before the first master solution", idx);
    Hist::E e; e.term = idx; e.rank = rank; e.grad = grad; e.x.assign(xx, xx + n); h.since.push_back(e);
    int w = c.work ? (int)choose(SCHED, c.work + 1) : 0;
    if(c.stall && chance(SCHED, 0.03)) { w += 6000; count("fault.stalled_worker"); }
    yield(w);
  }
  bool eval_f_rterm(size_type idx, const int& n, const double* xx, double& rval) override { User own_memory; record(idx, n, xx, false); rval = m.f(idx, xx); return reports(); }
  bool eval_grad_rterm(size_type idx, const int& n, double* xx, hiopVector& grad) override
  { User own_memory;
    record(idx, n, xx, true);
    double* g = grad.local_data();
    if((int)grad.get_local_size() != m.nc) { violate("C01", "invalid-size", "gradient vector of size %d", (int)grad.get_local_size()); finish_now(); }
    for(int i = 0; i < m.nc; i++) g[i] = m.g(idx, xx, i);
    return reports();
  }
  size_type get_num_rterms() const override { return m.S; }
  size_type get_num_vars() const override { return m.n; }
  void get_solution(double* xx) const override { User own_memory; memcpy(xx, x.data(), 8 * m.n); }
  double get_objective() override { return obj; }
  bool set_recourse_approx_evaluator(const int n, RecourseApproxEvaluator* e) override
  { User own_memory;
    if(n != m.nc) violate("C01", "invalid-size", "recourse model of size %d", n);
    ev_ = e; return true;
  }
};

void one_solve(const Model& m, const Cfg& c, Hist& h, int rank, int nranks)
{
  Prob p(m, c, h, rank);
  hiopAlgPrimalDecomposition* alg;
  bool ident = m.nc == m.n; for(int i = 0; i < m.nc; i++) if(m.xc[i] != i) ident = false;
  { Lib in_library;
  if(ident && c.ctor) alg = new hiopAlgPrimalDecomposition(&p, MPI_COMM_WORLD);
  else alg = new hiopAlgPrimalDecomposition(&p, m.nc, m.xc.data(), MPI_COMM_WORLD);
  if(!c.file) { alg->set_verbosity(c.verb); alg->set_max_iteration(c.max_iter); alg->set_tolerance(c.tol); alg->set_acceptable_tolerance(c.atol); alg->set_acceptable_count(c.accp);
  alg->set_alpha_min(c.amin); alg->set_alpha_max(c.amax); alg->set_local_accum(c.local ? "yes" : "no"); }
  alg->set_initial_alpha_ratio(c.ratio);
  }
  int s; { Lib in_library; s = alg->run(); }
  ev("run returned %d it=%d", s, alg->getNumIterations());
  h.iters[rank] = alg->getNumIterations(); h.returned[rank] = 1; h.stat[rank] = s;
  if(rank == 0) {
    h.obj = alg->getObjective();
    hiopVectorPar v(m.n); alg->getSolution(v); h.sol.assign(v.local_data(), v.local_data() + m.n);
    if(!h.since.empty()) violate("C01", "evaluated-after-last-master-solve", "%zu term evaluations after the last master solution", h.since.size());
  }
  { Lib in_library; delete alg; }
}
void init(Hist& h, int n) { h.iters.assign(n, -99); h.returned.assign(n, 0); h.stat.assign(n, -99); }

}  // namespace

void run_pridec()
{
  if(chdir(scratch_dir()) != 0) return;
  int nr = 1 + weighted(CFG, {0.5, 3, 3, 2, 1.5, 1, 0.7});
  int nsolves = range(CFG, 1, 2);
  std::vector<Model> ms; std::vector<Cfg> cs;
  for(int k = 0; k < nsolves; k++) { ms.push_back(draw_model(nr)); cs.push_back(draw_cfg()); }
  WorldCfg wc = draw_world(nr);
  ClockCfg ck; ck.mode = choose(CFG, 5); ck.skew = choose(CFG, 2) ? 100. : 0.; set_clock(ck);
  describe("ranks=%d solves=%d policy=%d delay<=%d sync=%d", nr, nsolves, wc.policy, wc.max_delay, (int)wc.allow_sync);
  for(int k = 0; k < nsolves; k++) describe(" [n=%d nc=%d S=%d local=%d max_iter=%d]", ms[k].n, ms[k].nc, ms[k].S, (int)cs[k].local, cs[k].max_iter);
  // reference: single process
  std::vector<Hist> ref(nsolves), hs(nsolves);
  if(want("C03")) {
    WorldCfg w1; w1.n = 1;
    for(int k = 0; k < nsolves; k++) { init(ref[k], 1); Cfg c = cs[k]; c.work = 0; c.stall = 0; c.term_fail = 0; run_world(w1, [&](int r) { one_solve(ms[k], c, ref[k], r, 1); }); }
  }
  for(auto& h : hs) init(h, nr);
  run_world(wc, [&](int r) { for(int k = 0; k < nsolves; k++) one_solve(ms[k], cs[k], hs[k], r, nr); });
  for(int k = 0; k < nsolves; k++) {
    Hist& h = hs[k];
    count("sim.outer_iterations", h.nfull);
    for(int r = 0; r < nr; r++) {
      if(h.iters[r] != h.iters[0]) violate("C02", "different-iteration-counts", "rank %d stopped in outer iteration %d, rank 0 in %d", r, h.iters[r], h.iters[0]);
      int want_st = r == 0 ? h.last_status : Solve_Success;
      if(h.stat[r] != want_st) violate("C02", "unexpected-status", "rank %d returned status %d, the last master solve reported %d", r, h.stat[r], h.last_status);
    }
    if(h.iters[0] + 1 != h.nfull) violate("C02", "iteration-count-wrong", "%d iterations reported, master solved %d times", h.iters[0] + 1, h.nfull);
    if(h.nfull > 1) nontrivial();
    uint64_t sg = 0; for(auto& o : h.objs) { uint64_t u; memcpy(&u, &o, 8); sg = sg * 31 + u; }
    state_hash(sg);
    if(want("C03")) {
      Hist& q = ref[k];
      if(q.xs.size() != h.xs.size()) { violate("C03", "different-number-of-iterations", "%zu master solutions on %d processes, %zu on one", h.xs.size(), nr, q.xs.size()); continue; }
      for(size_t i = 0; i < q.xs.size(); i++) for(int j = 0; j < ms[k].n; j++) {
        double d = std::fabs(q.xs[i][j] - h.xs[i][j]);
        if(!(d <= 1e-6 * (1 + std::fabs(q.xs[i][j])))) violate("C03", "different-iterates", "master solution %zu[%d] = %.12g on %d processes, %.12g on one", i, j, h.xs[i][j], nr, q.xs[i][j]);
      }
      if(!(std::fabs(q.obj - h.obj) <= 1e-6 * (1 + std::fabs(q.obj)))) violate("C03", "different-objective", "objective %.12g on %d processes, %.12g on one", h.obj, nr, q.obj);
      for(int j = 0; j < ms[k].n; j++) if(!(std::fabs(q.sol[j] - h.sol[j]) <= 1e-6 * (1 + std::fabs(q.sol[j])))) violate("C03", "different-solution", "x[%d] = %.12g on %d processes, %.12g on one", j, h.sol[j], nr, q.sol[j]);
      if(h.sol != h.xs.back()) violate("C03", "solution-is-not-last-master-solution", "getSolution differs from the last master solution");
    }
  }
}

// The same decomposition under circumstances that must not matter: C11 (earlier solves), C15 (clocks), C18 (diagnostic output)
void run_pridec_same()
{
  if(chdir(scratch_dir()) != 0) return;
  aborts_belong_elsewhere();
  int nr = 1 + weighted(CFG, {1, 3, 3, 2, 1.5});
  WorldCfg wc = draw_world(nr);
  auto stat_of = [](const Hist& h) { return h.stat.empty() ? -99 : h.stat[0]; };
  auto differ = [&](const Hist& a, const Hist& b, double tol) -> std::string {
    char t[160];
    auto off = [&](double u, double v) { return tol > 0 ? !(std::fabs(u - v) <= tol * (1 + std::fabs(u))) : memcmp(&u, &v, 8) != 0; };
    if(a.xs.size() != b.xs.size()) { snprintf(t, sizeof t, "%zu / %zu master solutions", a.xs.size(), b.xs.size()); return t; }
    for(size_t i = 0; i < a.xs.size(); i++) for(size_t j = 0; j < a.xs[i].size(); j++) if(off(a.xs[i][j], b.xs[i][j])) { snprintf(t, sizeof t, "master solution %zu[%zu] = %.17g / %.17g", i, j, a.xs[i][j], b.xs[i][j]); return t; }
    if(stat_of(a) != stat_of(b)) { snprintf(t, sizeof t, "status %d / %d", stat_of(a), stat_of(b)); return t; }
    if(a.iters[0] != b.iters[0]) { snprintf(t, sizeof t, "%d / %d iterations", a.iters[0], b.iters[0]); return t; }
    if(off(a.obj, b.obj)) { snprintf(t, sizeof t, "objective %.17g / %.17g", a.obj, b.obj); return t; }
    for(size_t j = 0; j < a.sol.size(); j++) if(off(a.sol[j], b.sol[j])) { snprintf(t, sizeof t, "solution[%zu] %.17g / %.17g", j, a.sol[j], b.sol[j]); return t; }
    return "";
  };
  auto quiet = [](Cfg c) { c.verb = 0; c.work = 0; c.stall = 0; c.term_fail = 0; return c; };
  set_clock(ClockCfg());
  count("sim.primal_decompositions_compared");
  if(want("C11")) {
    int k = range(CFG, 1, 3);
    std::vector<Model> ms; std::vector<Cfg> cs; std::vector<Hist> ref(k), hs(k);
    for(int i = 0; i < k; i++) { ms.push_back(draw_model(nr)); cs.push_back(draw_cfg()); cs[i].term_fail = 0; }
    describe("primal decomposition: %d solves in a row on %d processes against each alone in a fresh process", k, nr);
    for(int i = 0; i < k; i++) {
      std::string d;
      bool ok = elsewhere([&] {
        Hist h; init(h, 1); WorldCfg w1; w1.n = 1;
        run_world(w1, [&](int r) { one_solve(ms[i], quiet(cs[i]), h, r, 1); });
        std::string s; auto put = [&](const void* q, size_t n) { s.append((const char*)q, n); };
        size_t n = h.xs.size(); put(&n, 8); for(auto& x : h.xs) put(x.data(), 8 * x.size());
        put(&h.stat[0], 4); put(&h.iters[0], 4); put(&h.obj, 8); put(h.sol.data(), 8 * h.sol.size());
        return s; }, d);
      if(!ok) return;
      Hist& h = ref[i]; init(h, 1); size_t pos = 0, n; auto get = [&](void* q, size_t b) { memcpy(q, d.data() + pos, b); pos += b; };
      get(&n, 8); for(size_t j = 0; j < n; j++) { std::vector<double> x(ms[i].n); get(x.data(), 8 * x.size()); h.xs.push_back(x); }
      get(&h.stat[0], 4); get(&h.iters[0], 4); get(&h.obj, 8); h.sol.resize(ms[i].n); get(h.sol.data(), 8 * h.sol.size());
    }
    aborts_belong_here();
    for(auto& h : hs) init(h, nr);
    run_world(wc, [&](int r) { for(int i = 0; i < k; i++) one_solve(ms[i], cs[i], hs[i], r, nr); });
    for(int i = 0; i < k; i++) {
      std::string d = differ(ref[i], hs[i], 1e-6);
      if(!d.empty()) violate("C11", "primal-decomposition-differs", "solve %d of %d on %d processes, alone in a fresh process against after the others: %s", i + 1, k, nr, d.c_str());
      if(hs[i].nfull > 1) nontrivial();
    }
    return;
  }
  Model m = draw_model(nr); Cfg c = draw_cfg(); c.term_fail = 0;
  Hist a, b;
  auto go = [&](const Cfg& cc, Hist& h) { init(h, nr); run_world(wc, [&](int r) { one_solve(m, cc, h, r, nr); }); };
  go(quiet(c), a);
  if(want("C15")) {
    ClockCfg ck; ck.mode = 1 + choose(FAULT, 5); ck.skew = choose(FAULT, 2) ? 0 : 1e5 * (1 + choose(FAULT, 4));
    describe("primal decomposition on %d processes, clock mode %d skew %g", nr, ck.mode, ck.skew);
    set_clock(ck);
    aborts_belong_here();
    go(c, b);
    set_clock(ClockCfg());
    std::string d = differ(a, b, 0);
    if(!d.empty()) violate("C15", "primal-decomposition-depends-on-clock", "%d processes, steady against disturbed clock: %s", nr, d.c_str());
  } else {
    StdioCfg sc; sc.on = true;
    sc.out_mode = weighted(FAULT, {2, 1, 1, 1, 1, 1}); sc.file_mode = weighted(FAULT, {2, 1, 1, 1, 1, 1}); sc.open_fail = weighted(FAULT, {2, 1, 1}) * .5; sc.unbuffered = choose(FAULT, 4) == 3;
    Cfg q = quiet(c); q.verb = range(CFG, 0, 12);
    describe("primal decomposition on %d processes, verbosity %d, standard output mode %d files mode %d open failures %g", nr, q.verb, sc.out_mode, sc.file_mode, sc.open_fail);
    aborts_belong_here();
    set_stdio(sc);
    go(q, b);
    set_stdio(StdioCfg());
    std::string d = differ(a, b, 0);
    if(!d.empty()) violate("C18", "primal-decomposition-depends-on-output", "%d processes, without against with output: %s", nr, d.c_str());
  }
  if(a.nfull > 1) nontrivial();
}

// C19: memory after primal decompositions
void run_pridec_memory()
{
  if(chdir(scratch_dir()) != 0) return;
  aborts_belong_elsewhere();
  int nr = 1 + weighted(CFG, {1, 3, 3, 2, 1.5});
  WorldCfg wc = draw_world(nr);
  Model m = draw_model(nr); Cfg c = draw_cfg();
  describe("primal decomposition on %d processes, n=%d nc=%d S=%d local=%d max_iter=%d", nr, m.n, m.nc, m.S, (int)c.local, c.max_iter);
  Hist h;
  released_twice([&] {
    h = Hist(); init(h, nr);
    run_world(wc, [&](int r) { one_solve(m, c, h, r, nr); });
    for(int r = 0; r < nr; r++) if(!h.returned[r]) return false;
    return true;
  }, "primal decomposition");
  if(h.nfull > 1) nontrivial();
}

// C20: when the decomposition stops and which curvature its models get, against the documented rules recomputed from the history
void run_pridec_stop()
{
  if(chdir(scratch_dir()) != 0) return;
  aborts_belong_elsewhere();
  int nr = 1 + weighted(CFG, {2, 3, 3, 2, 1.5});
  WorldCfg wc = draw_world(nr);
  ClockCfg ck; ck.mode = choose(CFG, 5); ck.skew = choose(CFG, 2) ? 100. : 0.; set_clock(ck);
  Model m = draw_model(nr); Cfg c = draw_cfg();
  // mostly well inside the iteration limit, with room for either tolerance to act first
  static const int mi[] = {60, 1, 2, 4, 8, 20};
  c.max_iter = mi[weighted(CFG, {6, 1, 1, 1, 2, 3})];
  static const double tl[] = {1e-3, 1e-5, 1e-8, 1e-12, 1e-1};
  c.tol = tl[weighted(CFG, {3, 3, 3, 3, 1})];
  c.atol = std::min(0.1, c.tol * std::pow(10., (int)choose(CFG, 9)));
  c.accp = range(CFG, 1, 8);
  c.file = choose(CFG, 2);
  std::string master_options = "hiop_pridec_master.options";
  if(c.file) {
    FILE* f = fopen("hiop_pridec.options", "w");
    if(!f) return;
    if(choose(CFG, 2)) { master_options = "master_of_this_run.options"; fprintf(f, "options_file_master_prob %s\n", master_options.c_str()); }
    fprintf(f, "# limits of this run\nmax_iter %d\ntolerance %.17g\nacceptable_tolerance %.17g\nacceptable_iterations %d\nalpha_min %.17g\nalpha_max %.17g\naccum_local %s\nverbosity_level %d\n", c.max_iter, c.tol, c.atol, c.accp, c.amin, c.amax, c.local ? "yes" : "no", c.verb);
    fclose(f);
  }
  describe("primal decomposition on %d processes, n=%d nc=%d S=%d local=%d max_iter=%d tol=%g acceptable %g x %d alpha in [%g,%g] ratio %g, %s", nr, m.n, m.nc, m.S, (int)c.local, c.max_iter, c.tol, c.atol, c.accp, c.amin, c.amax, c.ratio, c.file ? "from the options file" : "set through the API");
  Hist h; init(h, nr);
  aborts_belong_here();
  run_world(wc, [&](int r) { one_solve(m, c, h, r, nr); });
  if(c.file) { unlink("hiop_pridec.options"); for(auto& f : h.files) if(f != master_options) { violate("C20", "options-file-of-master", "the master solver is given the options file '%s' instead of '%s'", f.c_str(), master_options.c_str()); break; } }
  int n = (int)h.alpha.size();
  if(n != h.nfull || (int)h.xs.size() != n + 1) return;
  count("sim.outer_iterations", n);
  auto coupled = [&](int k) { std::vector<double> y(m.nc); for(int i = 0; i < m.nc; i++) y[i] = h.xs[k][m.xc[i]]; return y; };
  auto clamp = [&](double v) { return std::min(c.amax, std::max(c.amin, v)); };
  std::vector<double> ratios{c.ratio}, g0, y0;
  double f0 = 0, base0 = 0; int acc_lo = 0, acc_hi = 0;     // consecutive acceptable iterations: certain, possible
  for(int it = 0; it < n; it++) {
    std::vector<double> y = coupled(it), g(m.nc, 0.); double f = 0, gg = 0;
    for(int s = 0; s < m.S; s++) { f += m.f(s, y.data()); for(int i = 0; i < m.nc; i++) g[i] += m.g(s, y.data(), i); }
    f /= m.S; for(auto& v : g) { v /= m.S; gg += v * v; }
    double a = h.alpha[it], base = h.objs[0];
    if(!(a >= c.amin && a <= c.amax)) violate("C20", "curvature-outside-limits", "iteration %d: curvature %.15g with limits [%g, %g]", it, a, c.amin, c.amax);
    bool below = false, surely_above = true;
    if(it == 0) { acc_lo = acc_hi = 0; }
    else {
      double ss = 0, lin = 0, a0 = h.alpha[it - 1], res = 0;
      for(int i = 0; i < m.nc; i++) { double s = y[i] - y0[i]; ss += s * s; lin += g0[i] * s; double r = g[i] - g0[i] - a * s; res += r * r; }
      double pred = f0 + lin + 0.5 * a0 * ss; base = h.objs[it] - pred;
      double num = (base0 + f0) - (f + base), den = (f0 + base0) - (pred + base), scale = 1 + std::fabs(f0) + std::fabs(base0) + std::fabs(f) + std::fabs(base) + std::fabs(pred) + std::fabs(h.objs[it]);
      double err = 1e-13 * scale;
      std::vector<double> next;
      auto add = [&](double v) { v = std::min(5., std::max(0.5, v)); for(auto& o : next) if(std::fabs(o - v) <= 1e-12 * v) return; next.push_back(v); };
      bool any = !(std::fabs(den) > 1e3 * err); double rho = any ? 0 : num / den, re = any ? 0 : 4 * err * (1 + std::fabs(rho)) / std::fabs(den);
      for(double q : ratios) {
        if(any || rho - re < 0.25) add(q / 0.75);
        if(any || rho + re > 0.75) add(q * 0.75);
        if(any || (rho + re >= 0.25 && rho - re <= 0.75)) add(q);
      }
      ratios = next;
      double cf = std::fabs(lin + 0.5 * a * ss + base - base0), cg = gg > 0 ? std::sqrt(res / gg) : 1e300;
      double fe = 4 * err, ge = gg > 0 ? 1e-12 * (1 + a * std::sqrt(ss) / std::sqrt(gg)) + 1e-7 * cg : 0;
      auto less = [&](double t) { return cf + fe < t || (gg > 0 && cg + ge < t); };
      auto maybe = [&](double t) { return cf - fe <= t || (gg > 0 && cg - ge <= t) || gg == 0; };
      below = less(c.tol); surely_above = !maybe(c.tol);
      acc_lo = less(c.atol) ? acc_lo + 1 : 0; acc_hi = maybe(c.atol) ? acc_hi + 1 : 0;
      bool last = it == n - 1;
      if(last && n < c.max_iter && surely_above && acc_hi < c.accp)
        violate("C20", "stopped-before-converged", "stopped after %d of %d iterations, changes of objective %.3e and gradient %.3e against tolerance %g, %d consecutive iterations within the acceptable tolerance %g where %d are asked for", n, c.max_iter, cf, cg, c.tol, acc_hi, c.atol, c.accp);
      if(!last && below) violate("C20", "continued-after-convergence", "iteration %d: changes of objective %.3e and gradient %.3e are below the tolerance %g, the solve continued for %d iterations", it, cf, cg, c.tol, n - 1 - it);
      if(!last && acc_lo >= c.accp && acc_hi == acc_lo) violate("C20", "continued-after-acceptable", "iteration %d: within the acceptable tolerance %g for %d consecutive iterations (%d asked for), the solve continued", it, c.atol, acc_lo, c.accp);
      if(last && n < c.max_iter) { count(below ? "sim.stopped_by_tolerance" : "sim.stopped_by_acceptable_tolerance"); nontrivial(); }
    }
    if(it == 0 && n == 1 && c.max_iter > 1) violate("C20", "stopped-before-converged", "stopped in the first iteration with max_iter %d", c.max_iter);
    // curvature: the smallest whose model stays above a fraction of the value, times a ratio adapted to the agreement of model and function
    double best = 1e300, want_a = 0; std::vector<double> keep;
    for(double q : ratios) { double w = clamp(gg / 2. / f * q), d = std::fabs(w - a) / w; if(d < best) { best = d; want_a = w; } if(d <= 1e-8) keep.push_back(q); }
    if(keep.empty()) { violate("C20", "curvature-not-adapted", "iteration %d: curvature %.15g, expected %.15g", it, a, want_a); return; }
    ratios = keep; f0 = f; g0 = g; y0 = y; base0 = base;
  }
  if(n == c.max_iter) count("sim.stopped_by_iteration_limit");
  uint64_t sg = n; for(auto& o : h.objs) { uint64_t u; memcpy(&u, &o, 8); sg = sg * 31 + u; }
  state_hash(sg);
}
