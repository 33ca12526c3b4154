#include "nlp.hpp"
#include <unistd.h>
#include "mpi.h"
#include "chiopInterface.hpp"
extern "C" {
#include "hiopFortranInterface.h"
}
#include <algorithm>
#include <cstring>
#include <functional>

namespace nlp {
using namespace sim;

const char* kind_name[NKIND] = {"eval_f", "eval_grad_f", "eval_cons", "eval_Jac_cons", "eval_Hess_Lagr", "iterate_callback", "iterate_full_callback", "force_update_x", "get_starting_point"};

const char* status_name(int s)
{
  switch(s) {
    case 0: return "Solve_Success"; case 1: return "Solve_Success_RelTol"; case 2: return "Solve_Acceptable_Level"; case 5: return "Infeasible_Problem";
    case 6: return "Iterates_Diverging"; case 7: return "Feasible_Not_Optimal"; case 10: return "Max_Iter_Exceeded"; case 11: return "Max_CpuTime_Exceeded";
    case 12: return "User_Stopped"; case -1: return "NlpAlgorithm_failure"; case -2: return "Diverging_Iterates"; case -3: return "Search_Dir_Too_Small";
    case -4: return "Steplength_Too_Small"; case -5: return "Err_Step_Computation"; case -11: return "Invalid_Problem_Definition"; case -12: return "Invalid_Parallelization";
    case -13: return "Invalid_UserOption"; case -14: return "Invalid_Number"; case -15: return "Error_In_User_Function"; case -16: return "Error_In_FR";
    case -100: return "Exception_Unrecoverable"; case -101: return "Memory_Alloc_Problem"; case -199: return "SolverInternal_Error";
  }
  return "undocumented";
}
bool is_success(int s) { return s == Solve_Success || s == Solve_Success_RelTol || s == Solve_Acceptable_Level; }

// ------------------------------------------------------------------ mathematics
double Spec::f(const double* x) const
{
  double v = 0;
  for(int i = 0; i < n; i++) { double d = x[i] - t[i]; v += .5 * a[i] * d * d + q[i] * d * d * d * d + s[i] * std::sin(x[i]); }
  for(int k = 0; k < K; k++) { double d = 0; for(int i = 0; i < n; i++) d += G[k * n + i] * x[i]; v += .5 * w[k] * d * d; }
  return fs * v;
}
void Spec::grad(const double* x, double* g) const
{
  for(int i = 0; i < n; i++) { double d = x[i] - t[i]; g[i] = fs * (a[i] * d + 4 * q[i] * d * d * d + s[i] * std::cos(x[i])); }
  for(int k = 0; k < K; k++) { double d = 0; for(int i = 0; i < n; i++) d += G[k * n + i] * x[i]; for(int i = 0; i < n; i++) g[i] += fs * w[k] * d * G[k * n + i]; }
}
void Spec::cons(const double* x, double* c) const
{
  for(int j = 0; j < m; j++) { double v = 0; for(int i = 0; i < n; i++) v += A[j * n + i] * x[i] + .5 * Q[j * n + i] * x[i] * x[i] + R[j * n + i] * std::sin(x[i]); c[j] = v; }
}
void Spec::jac(const double* x, double* J) const
{
  for(int j = 0; j < m; j++) for(int i = 0; i < n; i++) J[j * n + i] = A[j * n + i] + Q[j * n + i] * x[i] + R[j * n + i] * std::cos(x[i]);
}
dv Spec::user_order(const double* l) const
{
  dv r(m); int k = 0;
  for(int j = 0; j < m; j++) if(eq(j)) r[j] = l[k++];
  for(int j = 0; j < m; j++) if(!eq(j)) r[j] = l[k++];
  return r;
}
void Spec::hess(const double* x, double of, const double* l, double* H) const
{
  for(int i = 0; i < n * n; i++) H[i] = 0;
  for(int i = 0; i < n; i++) {
    double d = x[i] - t[i];
    double v = of * fs * (a[i] + 12 * q[i] * d * d - s[i] * std::sin(x[i]));
    for(int j = 0; j < m; j++) v += l[j] * (Q[j * n + i] - R[j * n + i] * std::sin(x[i]));
    H[i * n + i] = v;
  }
  for(int k = 0; k < K; k++) for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) H[i * n + j] += of * fs * w[k] * G[k * n + i] * G[k * n + j];
}

Spec draw_spec(const Gen& g)
{
  Spec p;
  p.form = g.form >= 0 ? g.form : g.forms[choose(CFG, (uint32_t)g.forms.size())];
  int mds = p.form == MDS || p.form == CMDS;
  p.n = range(CFG, std::max(mds ? 2 : 1, g.min_n), g.maxn);
  int n = p.n;
  if(mds) p.ns = range(CFG, 1, n - 1);
  int m_eq = n >= 2 ? weighted(CFG, {2, 3, 2, 1, .5}) : 0;
  m_eq = std::min(m_eq, std::max(0, n / 2));
  int m_in = weighted(CFG, {2, 3, 3, 2, 1});
  if(m_eq + m_in > g.maxm) m_in = g.maxm - m_eq;
  if(m_in < 0) m_in = 0;
  p.m = m_eq + m_in;
  int m = p.m;
  int nl = choose(CFG, 3);              // 0 linear constraints 1 quadratic 2 with sine
  int curv = g.nonconvex ? choose(CFG, 3) : 0;  // 0 convex 1 quartic 2 nonconvex
  int bmode = choose(CFG, 4);           // 0 mixed 1 mostly free 2 all boxed 3 many active
  int scal = g.scale ? weighted(CFG, {4, 1, 1, 1}) : 0;
  int far = g.far ? weighted(CFG, {4, 2, 1}) : 0;
  int nfix = g.fixed ? weighted(CFG, {5, 1, .5}) : 0;
  int dup = g.degenerate ? weighted(CFG, {3, 1}) : 0;
  int infe = g.infeasible ? 1 : 0;
  p.split = choose(CFG, 2) == 0;
  if(p.form >= CDENSE) p.split = false;
  p.start_mode = weighted(CFG, {4, 2, 1, 1});
  if(p.form >= CDENSE) p.start_mode = 0;
  Rng r(1 + choose(CFG, 1u << 20));
  p.a.resize(n); p.t.resize(n); p.q.resize(n); p.s.resize(n); p.xl.resize(n); p.xu.resize(n); p.x0.resize(n); p.xstar.resize(n);
  for(int i = 0; i < n; i++) {
    p.a[i] = r.u(.1, 3); p.t[i] = r.u(-2, 2); p.q[i] = 0; p.s[i] = 0;
    if(curv == 1) { p.q[i] = r.u(0, .5); p.s[i] = r.u(-1, 1); }
    if(curv == 2) { p.a[i] = r.u(-2, 2); p.q[i] = r.u(.05, .5); p.s[i] = r.u(-2, 2); }
  }
  p.K = n > 1 ? (int)(r.next() % 3) : 0;
  p.w.resize(p.K); p.G.assign((size_t)p.K * n, 0.); p.gsup.assign((size_t)p.K * n, 0);
  for(int k = 0; k < p.K; k++) {
    p.w[k] = r.u(.1, 2);
    int b = mds ? p.ns : 0;
    for(int i = b; i < n; i++) if(p.form == DENSE || p.form == CDENSE || mds || r.p(3. / n)) { p.G[k * n + i] = r.u(-1, 1); p.gsup[k * n + i] = 1; }
  }
  p.fs = scal == 1 ? 1e4 : scal == 2 ? 1e-3 : 1;
  for(int i = 0; i < n; i++) {
    double xs = p.xstar[i] = r.u(-2, 2);
    int bt = bmode == 1 ? (r.p(.8) ? 0 : r.i(4)) : bmode == 2 ? 3 : r.i(4);
    double pact = bmode == 3 ? .6 : .2;
    double dl = r.p(pact) ? 0 : r.u(.05, 3), du = r.p(pact) && dl > 0 ? 0 : r.u(.05, 3);
    p.xl[i] = (bt & 1) ? xs - dl : -1e20; p.xu[i] = (bt & 2) ? xs + du : 1e20;
  }
  for(int k = 0; k < nfix && k < n; k++) { int i = r.i(n); p.xl[i] = p.xu[i] = p.xstar[i]; }
  // constraints
  p.A.assign((size_t)m * n, 0.); p.Q = p.A; p.R = p.A; p.sup.assign((size_t)m * n, 0); p.cl.resize(m); p.cu.resize(m);
  std::vector<char> eq(m, 0);
  for(int j = 0; j < m_eq; j++) eq[j] = 1;
  for(int j = m - 1; j > 0; j--) std::swap(eq[j], eq[r.i(j + 1)]);   // user order mixes equalities and inequalities
  for(int j = 0; j < m; j++) {
    double sc = scal == 3 ? (r.p(.5) ? 1e3 : 1e-1) : 1;
    int nz = 0;
    for(int i = 0; i < n; i++) {
      bool in = (p.form == DENSE || p.form == CDENSE) ? r.p(.8) : mds ? (i >= p.ns || r.p(.5)) : r.p(std::min(1., 3. / n));
      if(i == n - 1 && nz == 0) in = true;
      if(!in) continue;
      nz++;
      p.sup[j * n + i] = 1; p.A[j * n + i] = sc * r.u(-2, 2);
      if(std::fabs(p.A[j * n + i]) < .05 * sc) p.A[j * n + i] = .05 * sc;
      if(nl >= 1) p.Q[j * n + i] = sc * r.u(-.6, .6);
      if(nl >= 2) p.R[j * n + i] = sc * r.u(-.5, .5);
    }
  }
  if(dup && m >= 2) { int j = r.i(m - 1) + 1; for(int i = 0; i < n; i++) { p.A[j * n + i] = p.A[i]; p.Q[j * n + i] = p.Q[i]; p.R[j * n + i] = p.R[i]; p.sup[j * n + i] = p.sup[i]; } }
  dv h(m); if(m) p.cons(p.xstar.data(), h.data());
  for(int j = 0; j < m; j++) {
    if(eq[j]) { p.cl[j] = p.cu[j] = h[j]; continue; }
    int bt = 1 + r.i(3);
    double sc = 0; for(int i = 0; i < n; i++) sc = std::max(sc, std::fabs(p.A[j * n + i]));
    double dl = r.p(.3) ? 0 : r.u(.05, 2) * sc, du = r.p(.3) && dl > 0 ? 0 : r.u(.05, 2) * sc;
    p.cl[j] = (bt & 1) ? h[j] - dl : -1e20; p.cu[j] = (bt & 2) ? h[j] + du : 1e20;
  }
  if(infe && m >= 1) {   // contradict: an equality / inequality the box cannot reach, or contradicting rows
    int j = r.i(m);
    double mx = 0; for(int i = 0; i < n; i++) { if(p.xl[i] < -1e19) p.xl[i] = p.xstar[i] - 2; if(p.xu[i] > 1e19) p.xu[i] = p.xstar[i] + 2; double b = std::max(std::fabs(p.xl[i]), std::fabs(p.xu[i])); mx += std::fabs(p.A[j * n + i]) * b + .5 * std::fabs(p.Q[j * n + i]) * b * b + std::fabs(p.R[j * n + i]); }
    double tgt = mx * 1.3 + 1;
    if(p.is_eq(j)) p.cl[j] = p.cu[j] = tgt; else { p.cl[j] = tgt; p.cu[j] = 1e20; }
  }
  for(int i = 0; i < n; i++) p.x0[i] = far == 0 ? p.xstar[i] + r.u(-1, 1) : far == 1 ? r.u(-10, 10) : r.u(-200, 200);
  char b[300];
  snprintf(b, sizeof b, "form=%s n=%d ns=%d meq=%d mineq=%d K=%d nl=%d curv=%d bounds=%d scale=%d far=%d fixed=%d%s%s %s start=%d",
           p.form == DENSE ? "dense" : p.form == MDS ? "mds" : p.form == SPARSE ? "sparse" : p.form == SPARSE_INEQ ? "sparse-ineq" : p.form == CSPARSE ? "C-sparse" : p.form == CDENSE ? "C-dense" : "C-mds", n, p.ns, m_eq, m_in, p.K, nl, curv, bmode, scal, far, nfix,
           dup ? " dup" : "", infe ? " infeasible" : "", p.split ? "split" : "onecall", p.start_mode);
  p.cls = b;
  return p;
}

void draw_partition(Spec& s, int nr)
{
  s.cols.assign(nr + 1, 0); s.cols[nr] = s.n;
  int mode = choose(CFG, 3);   // 0 even 1 random 2 one owner
  Rng r(7 + choose(CFG, 1u << 16));
  if(mode == 0) for(int k = 1; k < nr; k++) s.cols[k] = (int)((long)s.n * k / nr);
  else if(mode == 1) { for(int k = 1; k < nr; k++) s.cols[k] = r.i(s.n + 1); std::sort(s.cols.begin(), s.cols.end()); }
  else { int o = r.i(nr); for(int k = 1; k < nr; k++) s.cols[k] = k <= o ? 0 : s.n; }
  s.distrib = true;
}

// ------------------------------------------------------------------ options
void Opts::apply(hiopOptions* o) const
{
  for(auto& x : v) {
    if(x.type == 0) o->SetNumericValue(x.name.c_str(), x.num);
    else if(x.type == 1) o->SetIntegerValue(x.name.c_str(), (int)x.num);
    else o->SetStringValue(x.name.c_str(), x.str.c_str());
  }
}
std::string Opts::text() const
{
  std::string s;
  for(auto& x : v) { char b[120]; if(x.type == 2) snprintf(b, sizeof b, " %s=%s", x.name.c_str(), x.str.c_str()); else snprintf(b, sizeof b, " %s=%g", x.name.c_str(), x.num); s += b; }
  return s;
}
static const char* pick(std::initializer_list<const char*> l) { return *(l.begin() + choose(CFG, (uint32_t)l.size())); }
Opts draw_opts(const Spec& s, int wild)
{
  Opts o;
  bool qn = s.form == DENSE || s.form == CDENSE;
  o.in("verbosity_level", getenv("DST_VERBOSITY") ? atoi(getenv("DST_VERBOSITY")) : 0); o.str("print_options", "no");
  o.str("Hessian", qn ? "quasinewton_approx" : "analytical_exact");
  o.in("max_iter", 150);
  bool fixed = false; for(int i = 0; i < s.n; i++) fixed |= s.xl[i] == s.xu[i];
  if(fixed || choose(CFG, 4) == 3) o.str("fixed_var", s.distrib && choose(CFG, 2) ? "remove" : "relax");
  if(choose(CFG, 2)) o.num("mu0", std::initializer_list<double>{.1, 1e-2, 10}.begin()[choose(CFG, 3)]);
  if(choose(CFG, 3) == 2) o.num("tolerance", std::initializer_list<double>{1e-6, 1e-9, 1e-5}.begin()[choose(CFG, 3)]);
  if(choose(CFG, 2)) o.str("duals_init", "zero");
  if(qn && choose(CFG, 2)) o.str("duals_update_type", "linear");
  if(choose(CFG, 3) == 2) o.str("scaling_type", "none");
  if(qn) {
    if(choose(CFG, 3) == 2) o.in("secant_memory_len", std::initializer_list<int>{1, 3, 12, 0}.begin()[choose(CFG, 4)]);
    if(choose(CFG, 3) == 2) o.str("sigma_update_strategy", pick({"sty_inv", "snrm_ynrm", "sty_srnm_ynrm", "sigma0"}));
  } else {
    if(choose(CFG, 2)) o.str("KKTLinsys", s.form == MDS || s.form == CMDS ? pick({"xdycyd", "auto"}) : s.form == SPARSE_INEQ ? pick({"condensed", "condensed", "auto", "xdycyd"}) : pick({"auto", "xdycyd", "xycyd"}));
    if(choose(CFG, 3) == 2) o.str("fact_acceptor", "inertia_free");
    if(choose(CFG, 3) == 2) o.str("linsol_mode", pick({"speculative", "forcequick"}));
    if(choose(CFG, 4) == 3) o.str("regularization_method", "randomized");
  }
  if(wild) {
    if(choose(CFG, 6) == 5) o.num("bound_relax_perturb", std::initializer_list<double>{1e-6, 1e-10}.begin()[choose(CFG, 2)]);
    if(choose(CFG, 6) == 5) o.in("max_soc_iter", 0);
    if(choose(CFG, 6) == 5) o.str("accept_every_trial_step", "yes");
    if(choose(CFG, 8) == 7) o.num("moving_lim_abs", .5);
    else if(choose(CFG, 8) == 7) o.num("moving_lim_rel", .5);
    if(choose(CFG, 8) == 7) {
      o.str("elastic_mode", pick({"tighten_bound", "correct_it", "correct_it_adjust_bound"}));
      if(choose(CFG, 3) == 2) o.str("elastic_bound_strategy", "mu_scaled");
      if(choose(CFG, 3) == 2) o.num("elastic_mode_bound_relax_initial", choose(CFG, 2) ? 1e-3 : .1);
      if(choose(CFG, 3) == 2) o.num("elastic_mode_bound_relax_final", choose(CFG, 2) ? 1e-6 : 1e-9);
    }
    if(choose(CFG, 8) == 7) o.str("force_resto", "yes");
    if(choose(CFG, 6) == 5) o.num("kappa_mu", .5);
    if(choose(CFG, 6) == 5) o.num("theta_mu", 1.2);
    if(choose(CFG, 8) == 7) o.num("rel_tolerance", 1e-4);
    if(choose(CFG, 8) == 7) { o.num("acceptable_tolerance", 1e-3); o.in("acceptable_iterations", 2); }
    if(choose(CFG, 6) == 5) o.in("max_iter", 1 + choose(CFG, 10));
    if(choose(CFG, 6) == 5) o.num("min_step_size", std::initializer_list<double>{1e-6, 1e-2, .3}.begin()[choose(CFG, 3)]);
    if(choose(CFG, 8) == 7) o.num("scaling_max_grad", 1.);
    if(choose(CFG, 8) == 7) o.num("tau_min", .9);
    if(choose(CFG, 8) == 7) o.num("smax", choose(CFG, 2) ? 1 : 10);
    if(choose(CFG, 8) == 7) { o.num("dual_tol", choose(CFG, 2) ? 1e-6 : 1e-8); if(choose(CFG, 2)) o.num("comp_tol", 1e-8); }
    if(choose(CFG, 8) == 7) o.str("time_kkt", "on");
    if(choose(CFG, 10) == 9) o.num("theta_max_fact", 1.);
    if(choose(CFG, 10) == 9) o.in("ir_outer_maxit", 0);
    for(int k = choose(CFG, 3); k > 0; k--) switch(choose(CFG, 30)) {
      case 0: o.num("scaling_max_obj_grad", 5.); break;
      case 1: o.num("scaling_max_con_grad", 2.); break;
      case 2: o.num("kappa1", choose(CFG, 2) ? .3 : 1e-6); break;
      case 3: o.num("kappa2", choose(CFG, 2) ? .4 : 1e-6); break;
      case 4: o.num("kappa_eps", choose(CFG, 2) ? 1. : 100.); break;
      case 5: o.num("eta_phi", choose(CFG, 2) ? 1e-2 : 1e-4); break;
      case 6: o.num("theta_min_fact", 1e-1); break;
      case 7: o.num("kappa_soc", choose(CFG, 2) ? .5 : 10.); break;
      case 8: o.num("kappa_resto", choose(CFG, 2) ? .5 : .99); break;
      case 9: o.num("sigma0", choose(CFG, 2) ? 100. : .01); break;
      case 10: o.num("recalc_lsq_duals_tol", choose(CFG, 2) ? 1e10 : 0.); break;
      case 11: o.num("duals_lsq_ini_max", choose(CFG, 2) ? .1 : 1e6); break;
      case 12: o.num("fixed_var_tolerance", 1e-6); break;
      case 13: o.num("fixed_var_perturb", 1e-4); break;
      case 14: o.num("ir_outer_tol_factor", .5); break;
      case 15: o.num("delta_0_bar", choose(CFG, 2) ? 1. : 1e-8); break;
      case 16: o.num("kappa_w_plus", 2.); break;
      case 17: o.num("delta_c_bar", 1e-4); break;
      case 18: o.num("scaling_min_grad", 1e-2); break;
      case 19: o.num("cons_tol", 1e-6); o.num("dual_tol", 1e-6); o.num("comp_tol", 1e-6); break;
      case 20: o.num("delta_w_max_bar", 1e3); break;
      case 21: o.num("ir_inner_tol", 1e-8); o.in("ir_inner_maxit", 3); break;
      case 22: o.in("max_soc_iter", 1); break;
      case 23: o.num("mu0", choose(CFG, 2) ? 1e-8 : 1000.); break;
      case 24: o.num("delta_w_min_bar", 1e-6); break;
      case 25: o.num("kappa_w_minus", choose(CFG, 2) ? .9 : 1e-3); break;
      case 26: o.num("kappa_w_plus_bar", 3.); break;
      case 27: o.num("kappa_c", choose(CFG, 2) ? 0. : 1.); break;
      case 28: if(!qn) { o.str("fact_acceptor", "inertia_free"); o.num("neg_curv_test_fact", choose(CFG, 2) ? 0. : 1e-4); } break;
      case 29: if(s.form == SPARSE_INEQ) o.num("eq_relax_factor", s.eq_relax = choose(CFG, 2) ? 1e-6 : 1e-10); break;
    }
  }
  return o;
}

// ------------------------------------------------------------------ recording
static inline void fold(uint64_t& h, const void* p, size_t n) { const unsigned char* c = (const unsigned char*)p; for(size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ull; }
static inline void fold(uint64_t& h, const dv& v) { fold(h, v.data(), 8 * v.size()); }
uint64_t Rec::hash() const
{
  uint64_t h = 1469598103934665603ull;
  for(auto& i : its) { fold(h, &i.iter, 4); fold(h, &i.obj, 8); fold(h, i.x); fold(h, i.lam); fold(h, &i.mu, 8); }
  fold(h, &status, 4); fold(h, x); fold(h, &xhash, 8);
  return h;
}
static bool same(double a, double b) { return memcmp(&a, &b, 8) == 0 || (std::isnan(a) && std::isnan(b)); }
static bool same(const dv& a, const dv& b) { if(a.size() != b.size()) return false; for(size_t i = 0; i < a.size(); i++) if(!same(a[i], b[i])) return false; return true; }
std::string Rec::diff(const Rec& o) const
{
  char b[200];
#define DF(cond, ...) if(cond) { snprintf(b, sizeof b, __VA_ARGS__); return b; }
  size_t k = std::min(its.size(), o.its.size());
  for(size_t i = 0; i < k; i++) {
    const It &p = its[i], &q = o.its[i];
    DF(p.iter != q.iter, "report %zu: iteration number %d / %d", i, p.iter, q.iter)
    DF(!same(p.x, q.x), "iteration %d: x differs (x[0] %.17g / %.17g)", p.iter, p.x.empty() ? 0 : p.x[0], q.x.empty() ? 0 : q.x[0])
    DF(!same(p.obj, q.obj), "iteration %d: objective %.17g / %.17g", p.iter, p.obj, q.obj)
    DF(!same(p.mu, q.mu), "iteration %d: mu %.17g / %.17g", p.iter, p.mu, q.mu)
    DF(!same(p.lam, q.lam), "iteration %d: constraint multipliers differ", p.iter)
    DF(!same(p.zl, q.zl) || !same(p.zu, q.zu), "iteration %d: bound multipliers differ", p.iter)
    DF(!same(p.s, q.s) || !same(p.g, q.g), "iteration %d: slacks or constraint values differ", p.iter)
    DF(!same(p.logbar, q.logbar) || !same(p.inf_pr, q.inf_pr) || !same(p.inf_du, q.inf_du) || !same(p.onenorm, q.onenorm), "iteration %d: reported errors differ (inf_pr %.17g / %.17g inf_du %.17g / %.17g)", p.iter, p.inf_pr, q.inf_pr, p.inf_du, q.inf_du)
    DF(!same(p.adu, q.adu) || !same(p.apr, q.apr) || p.ls != q.ls, "iteration %d: step lengths differ", p.iter)
  }
  DF(its.size() != o.its.size(), "%zu / %zu iterates reported", its.size(), o.its.size())
  DF(status != o.status, "status %s / %s", status_name(status), status_name(o.status))
  DF(evals != o.evals || xhash != o.xhash, "user functions evaluated %d / %d times or at different points", evals, o.evals)
  DF(niter != o.niter, "number of iterations %d / %d", niter, o.niter)
  DF(!same(obj, o.obj), "objective %.17g / %.17g", obj, o.obj)
  DF(!same(x, o.x), "solution differs")
  DF(!same(zl, o.zl) || !same(zu, o.zu), "bound multipliers of the solution differ")
  DF(!same(lam, o.lam), "constraint multipliers of the solution differ")
  DF(nsolcb != o.nsolcb || cb_status != o.cb_status || !same(cbobj, o.cbobj) || !same(cbx, o.cbx) || !same(cbzl, o.cbzl) || !same(cbzu, o.cbzu) || !same(cbg, o.cbg) || !same(cblam, o.cblam), "solution callback differs")
#undef DF
  return "";
}

// ------------------------------------------------------------------ instrumented user problem
struct Ctx {
  Run* run; const Spec* sp; int rank, nranks; Rec* rec;
  int lo = 0, nl = 0;      // local columns
  int nsum = 0;
  bool dist() const { return sp->distrib; }
  void setup()
  {
    if(dist() && !sp->cols.empty() && nranks > 1) { lo = sp->cols[rank]; nl = sp->cols[rank + 1] - lo; }
    else { lo = 0; nl = sp->n; }
  }
  // one evaluation call: bookkeeping, scheduling, faults. returns action
  // pattern: a call for the positions of the nonzeros only, which is not repeated by later solves
  dv last_x; bool called = false;   // what a user function that keeps its intermediate results would compare with
  int pre(int kind, const double* x, bool new_x, bool pattern = false)
  {
    if(run->yields) yield(run->work ? (int)choose(SCHED, run->work + 1) : 0);
    Rec& r = *rec;
    int kk = r.calls[kind], e = r.evals;
    if(!pattern) { r.calls[kind]++; r.evals++; }
    if(run->on_eval) run->on_eval(e);
    if(r.done) r.bad_calls_after++;
    uint64_t h = r.xhash; fold(h, x, 8 * nl); fold(h, &kind, 4); if(!pattern) r.xhash = h;
    ev("%s %d %llx", kind_name[kind], kk, (unsigned long long)h);
    bool user_start = r.its.empty();   // the problem's scaling is decided at the user's own starting point, before it is projected
    for(int i = 0; i < nl && user_start; i++) user_start = x[i] == (sp->start_mode <= 2 ? sp->x0[lo + i] : 0.) || sp->xl[lo + i] == sp->xu[lo + i];
    for(int i = 0; i < nl && !user_start; i++) {
      double xv = x[i], l = sp->xl[lo + i], u = sp->xu[lo + i];
      double v = 0;
      if(!std::isfinite(xv)) v = 1e300;
      else { if(l > -1e19) v = std::max(v, (l - xv) / std::max(1., std::fabs(l))); if(u < 1e19) v = std::max(v, (xv - u) / std::max(1., std::fabs(u))); }
      if(v > r.max_viol) { r.max_viol = v; r.viol_i = lo + i; r.viol_kind = kind; r.viol_eval = e; r.viol_x = xv; }
    }
    if(!pattern) {
      if(!new_x && !(called && !memcmp(last_x.data(), x, 8 * nl))) violate("C09", called ? "changed-point-announced-as-unchanged" : "first-point-announced-as-unchanged", "%s (evaluation %d) is told that the point is the one of the previous evaluation, but it is another one", kind_name[kind], e);
      last_x.assign(x, x + nl); called = true;
    }
    for(auto& f : run->faults) {
      int idx = f.kind < 0 ? e : kk;
      if((f.kind < 0 || f.kind == kind) && idx >= f.at && idx < f.at + f.cnt) {
        if(!r.faults_hit) { r.hit_kind = kind; r.evals_at_hit = e; }
        r.faults_hit++;
        if(f.act == A_FAIL && run->abort_counts_after_fault) aborts_belong_here();
        char b[80]; snprintf(b, sizeof b, "fault.user_%s_%s", f.act == A_FAIL ? "failure" : f.act == A_NAN || f.act == A_ONE_NAN ? "nan" : "inf", kind_name[kind]); count(b);
        return f.act;
      }
    }
    return A_OK;
  }
  void garble(int act, double* v, int k)
  {
    if(act == A_NAN) for(int i = 0; i < k; i++) v[i] = NAN;
    if(act == A_ONE_NAN && k) v[k / 2] = NAN;
    if(act == A_INF) for(int i = 0; i < k; i++) v[i] = i % 2 ? -INFINITY : INFINITY;
  }
  double pert(double v, int salt) const
  {
    if(run->perturb == 0) return v;
    uint64_t u; memcpy(&u, &v, 8);
    Rng r(u * 31 + salt);
    return v * (1 + run->perturb * (2 * r.u() - 1));
  }
  void allsum(dv& v) { if(dist() && nranks > 1) { dv o(v.size()); MPI_Allreduce(v.data(), o.data(), (int)v.size(), MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD); v = o; } }
  double f(const double* x)
  {
    const Spec& p = *sp;
    dv v(1 + p.K, 0.);
    for(int i = 0; i < nl; i++) { int g = lo + i; double d = x[i] - p.t[g]; v[0] += .5 * p.a[g] * d * d + p.q[g] * d * d * d * d + p.s[g] * std::sin(x[i]); for(int k = 0; k < p.K; k++) v[1 + k] += p.G[k * p.n + g] * x[i]; }
    allsum(v);
    double r = v[0]; for(int k = 0; k < p.K; k++) r += .5 * p.w[k] * v[1 + k] * v[1 + k];
    return pert(p.fs * r, 1);
  }
  void grad(const double* x, double* g)
  {
    const Spec& p = *sp;
    dv v(p.K, 0.);
    for(int i = 0; i < nl; i++) for(int k = 0; k < p.K; k++) v[k] += p.G[k * p.n + lo + i] * x[i];
    allsum(v);
    for(int i = 0; i < nl; i++) { int c = lo + i; double d = x[i] - p.t[c]; double r = p.a[c] * d + 4 * p.q[c] * d * d * d + p.s[c] * std::cos(x[i]); for(int k = 0; k < p.K; k++) r += p.w[k] * v[k] * p.G[k * p.n + c]; g[i] = pert(p.fs * r, 2 + i); }
  }
  void cons(int num, const int* idx, const double* x, double* c)
  {
    const Spec& p = *sp;
    dv v(num, 0.);
    for(int k = 0; k < num; k++) { int j = idx ? idx[k] : k; for(int i = 0; i < nl; i++) { int g = j * p.n + lo + i; v[k] += p.A[g] * x[i] + .5 * p.Q[g] * x[i] * x[i] + p.R[g] * std::sin(x[i]); } }
    allsum(v);
    for(int k = 0; k < num; k++) c[k] = pert(v[k], 50 + k);
  }
  double J(int j, int i, double xi) const { int g = j * sp->n + lo + i; return pert(sp->A[g] + sp->Q[g] * xi + sp->R[g] * std::cos(xi), 70 + j); }
};


template<class I> class UserT : public I {
public:
  Ctx& c; const Spec& p;
  explicit UserT(Ctx& cc) : c(cc), p(*cc.sp) {}
  typedef hiopInterfaceBase::NonlinearityType NT;
  bool get_prob_sizes(size_type& n, size_type& m) override { n = p.n; m = p.m; return true; }
  bool get_prob_info(NT& t) override { User own_memory; t = hiopInterfaceBase::hiopNonlinear; return true; }
  bool get_vars_info(const size_type& n, double* xl, double* xu, NT* type) override
  { User own_memory;
    for(int i = 0; i < c.nl; i++) { xl[i] = p.xl[c.lo + i]; xu[i] = p.xu[c.lo + i]; type[i] = hiopInterfaceBase::hiopNonlinear; }
    return true;
  }
  bool get_cons_info(const size_type& m, double* cl, double* cu, NT* type) override
  { User own_memory;
    for(int j = 0; j < p.m; j++) { cl[j] = p.cl[j]; cu[j] = p.cu[j]; type[j] = hiopInterfaceBase::hiopNonlinear; }
    return true;
  }
  bool get_MPI_comm(MPI_Comm& o) override { User own_memory; o = c.nranks > 1 ? MPI_COMM_WORLD : MPI_COMM_SELF; return true; }
  bool get_vecdistrib_info(size_type n, index_type* cols) override
  { User own_memory;
    if(!c.dist()) return false;
    if(c.nranks == 1) { cols[0] = 0; cols[1] = p.n; }
    else for(int k = 0; k <= c.nranks; k++) cols[k] = p.cols[k];
    return true;
  }
  bool eval_f(const size_type& n, const double* x, bool nx, double& o) override
  { User own_memory;
    int a = c.pre(K_F, x, nx); if(a == A_FAIL) return false;
    o = c.f(x); c.garble(a, &o, 1); return true;
  }
  bool eval_grad_f(const size_type& n, const double* x, bool nx, double* g) override
  { User own_memory;
    int a = c.pre(K_GRAD, x, nx); if(a == A_FAIL) return false;
    c.grad(x, g); c.garble(a, g, c.nl); return true;
  }
  bool eval_cons(const size_type& n, const size_type& m, const size_type& num, const index_type* idx, const double* x, bool nx, double* cons) override
  { User own_memory;
    if(!p.split) return false;
    int a = c.pre(K_CONS, x, nx); if(a == A_FAIL) return false;
    c.cons(num, idx, x, cons); c.garble(a, cons, num); return true;
  }
  bool eval_cons(const size_type& n, const size_type& m, const double* x, bool nx, double* cons) override
  { User own_memory;
    if(p.split) return false;
    int a = c.pre(K_CONS, x, nx); if(a == A_FAIL) return false;
    c.cons(p.m, nullptr, x, cons); c.garble(a, cons, p.m); return true;
  }
  bool get_starting_point(const size_type& n, double* x0) override
  { User own_memory;
    if(p.start_mode == 1 || p.start_mode == 2 || p.start_mode == 3) return false;
    for(int i = 0; i < c.nl; i++) x0[i] = p.x0[c.lo + i];
    return true;
  }
  bool get_starting_point(const size_type& n, const size_type& m, double* x0, bool& duals, double* zl, double* zu, double* lam, bool& slacks, double* s) override
  { User own_memory;
    duals = slacks = false;
    if(p.start_mode != 1 && p.start_mode != 2) return false;
    for(int i = 0; i < c.nl; i++) x0[i] = p.x0[c.lo + i];
    if(p.start_mode == 2) {
      duals = true;
      for(int i = 0; i < c.nl; i++) { int g = c.lo + i; zl[i] = p.xl[g] > -1e19 ? .5 : 0; zu[i] = p.xu[g] < 1e19 ? .7 : 0; }
      for(int j = 0; j < p.m; j++) lam[j] = .1 * (j % 3 - 1);
      if(!p.zl0.empty()) { for(int i = 0; i < c.nl; i++) { zl[i] = p.zl0[c.lo + i]; zu[i] = p.zu0[c.lo + i]; } for(int j = 0; j < p.m; j++) lam[j] = p.lam0[j]; }
    }
    if(p.slacks_given) { slacks = true; for(int k = 0; k < p.nineq(); k++) s[k] = p.s0[k]; }
    return true;
  }
  bool get_warmstart_point(const size_type& n, const size_type& m, double* x0, double* zl, double* zu, double* lam, double* s, double* vl, double* vu) override
  { User own_memory;
    if(!p.warm) return false;
    for(int i = 0; i < c.nl; i++) { x0[i] = p.x0[c.lo + i]; zl[i] = p.zl0[c.lo + i]; zu[i] = p.zu0[c.lo + i]; }
    for(int j = 0; j < p.m; j++) lam[j] = p.lam0[j];
    for(int k = 0; k < p.nineq(); k++) { s[k] = p.s0[k]; vl[k] = p.vl0[k]; vu[k] = p.vu0[k]; }
    return p.warm == 1;
  }
  bool iterate_callback(int iter, double obj, double logbar, int n, const double* x, const double* zl, const double* zu, int mi, const double* s, int m, const double* g, const double* lam,
                        double inf_pr, double inf_du, double onenorm, double mu, double adu, double apr, int ls) override
  { User own_memory;
    if(c.run->yields) yield();
    It t; t.iter = iter; t.obj = obj; t.logbar = logbar; t.x.assign(x, x + c.nl); t.zl.assign(zl, zl + c.nl); t.zu.assign(zu, zu + c.nl); t.s.assign(s, s + mi); t.g.assign(g, g + m); t.lam.assign(lam, lam + m);
    t.inf_pr = inf_pr; t.inf_du = inf_du; t.onenorm = onenorm; t.mu = mu; t.adu = adu; t.apr = apr; t.ls = ls; t.ncalls = c.rec->evals; t.njac = c.rec->calls[K_JAC];
    if(m != p.m) violate("C10", "iterate-callback-size", "iterate callback called with %d constraints instead of %d", m, p.m);
    if(mi != p.nineq()) violate("C10", "iterate-callback-size", "iterate callback called with %d slacks instead of %d", mi, p.nineq());
    if(c.rec->done) c.rec->bad_calls_after++;
    ev("iter %d", iter); ev_mem("x", x, 8 * c.nl);
    c.rec->its.push_back(t);
    if(c.run->on_iter) c.run->on_iter(t);
    c.rec->calls[K_ITER]++;
    if(c.run->stop_at >= 0 && iter >= c.run->stop_at) { c.rec->stop_hit = true; if(c.run->abort_counts_after_fault) aborts_belong_here(); count("fault.user_stop_request"); return false; }
    return true;
  }
  bool iterate_full_callback(const double* x, const double* zl, const double* zu, const double* yc, const double* yd, const double* s, const double* vl, const double* vu) override
  { User own_memory;
    Full f; int meq = p.m - p.nineq(), mi = p.nineq();
    f.x.assign(x, x + c.nl); f.zl.assign(zl, zl + c.nl); f.zu.assign(zu, zu + c.nl); f.yc.assign(yc, yc + meq); f.yd.assign(yd, yd + mi); f.s.assign(s, s + mi); f.vl.assign(vl, vl + mi); f.vu.assign(vu, vu + mi);
    c.rec->fulls.push_back(f);
    c.rec->calls[K_FULL]++;
    if(c.run->stop_full_at >= 0 && (int)c.rec->fulls.size() - 1 >= c.run->stop_full_at) { c.rec->stop_hit = true; if(c.run->abort_counts_after_fault) aborts_belong_here(); count("fault.user_stop_request"); return false; }
    return true;
  }
  void solution_callback(hiopSolveStatus st, size_type n, const double* x, const double* zl, const double* zu, size_type m, const double* g, const double* lam, double obj) override
  { User own_memory;
    Rec& r = *c.rec; r.nsolcb++; r.cb_status = st; r.cbx.assign(x, x + c.nl); r.cbzl.assign(zl, zl + c.nl); r.cbzu.assign(zu, zu + c.nl); r.cbg.assign(g, g + p.m); r.cblam.assign(lam, lam + p.m); r.cbobj = obj;
    if((int)m != p.m || (int)n != p.n) violate("C10", "solution-callback-size", "solution callback called with n=%d m=%d", (int)n, (int)m);
    ev("solution %d", (int)st);
    r.done = true;
  }
};

class DenseUser : public UserT<hiopInterfaceDenseConstraints> {
public:
  using UserT::UserT;
  bool eval_Jac_cons(const size_type& n, const size_type& m, const size_type& num, const index_type* idx, const double* x, bool nx, double* J) override
  { User own_memory;
    if(!p.split) return false;
    return fill(num, idx, x, nx, J);
  }
  bool eval_Jac_cons(const size_type& n, const size_type& m, const double* x, bool nx, double* J) override
  { User own_memory;
    if(p.split) return false;
    return fill(p.m, nullptr, x, nx, J);
  }
  bool fill(int num, const index_type* idx, const double* x, bool nx, double* J)
  {
    int a = c.pre(K_JAC, x, nx); if(a == A_FAIL) return false;
    for(int k = 0; k < num; k++) for(int i = 0; i < c.nl; i++) J[(size_t)k * c.nl + i] = c.J(idx ? idx[k] : k, i, x[i]);
    c.garble(a, J, num * c.nl); return true;
  }
};

class MdsUser : public UserT<hiopInterfaceMDS> {
public:
  using UserT::UserT;
  int nnz(bool eq) const { int k = 0; for(int j = 0; j < p.m; j++) if(p.is_eq(j) == eq) for(int i = 0; i < p.ns; i++) k += p.sup[j * p.n + i]; return k; }
  bool get_sparse_dense_blocks_info(int& nxs, int& nxd, int& je, int& ji, int& hss, int& hsd) override
  { User own_memory;
    nxs = p.ns; nxd = p.n - p.ns; je = nnz(true); ji = nnz(false); hss = p.ns; hsd = 0; return true;
  }
  bool eval_Jac_cons(const size_type& n, const size_type& m, const size_type& num, const index_type* idx, const double* x, bool nx, const size_type& ns, const size_type& nd, const size_type& nnzJ,
                     index_type* iJ, index_type* jJ, double* MJ, double* JD) override
  { User own_memory;
    if(!p.split) return false;
    return fill(num, idx, x, nx, nnzJ, iJ, jJ, MJ, JD);
  }
  bool eval_Jac_cons(const size_type& n, const size_type& m, const double* x, bool nx, const size_type& ns, const size_type& nd, const size_type& nnzJ, index_type* iJ, index_type* jJ, double* MJ, double* JD) override
  { User own_memory;
    if(p.split) return false;
    return fill(p.m, nullptr, x, nx, nnzJ, iJ, jJ, MJ, JD);
  }
  bool fill(int num, const index_type* idx, const double* x, bool nx, int nnzJ, index_type* iJ, index_type* jJ, double* MJ, double* JD)
  {
    int a = c.pre(K_JAC, x, nx); if(a == A_FAIL) return false;
    int k0 = 0, nd = p.n - p.ns;
    for(int k = 0; k < num; k++) {
      int j = idx ? idx[k] : k;
      for(int i = 0; i < p.ns; i++) if(p.sup[j * p.n + i]) { if(iJ && jJ) { iJ[k0] = k; jJ[k0] = i; } if(MJ) MJ[k0] = c.J(j, i, x[i]); k0++; }
      if(JD) for(int i = 0; i < nd; i++) JD[k * nd + i] = c.J(j, p.ns + i, x[p.ns + i]);
    }
    if(k0 != nnzJ) violate("C10", "jacobian-nonzeros", "Jacobian requested with %d sparse nonzeros instead of %d", nnzJ, k0);
    if(JD) c.garble(a, JD, num * nd);
    if(MJ && a == A_INF) c.garble(a, MJ, k0);
    return true;
  }
  bool eval_Hess_Lagr(const size_type& n, const size_type& m, const double* x, bool nx, const double& of, const double* lam, bool, const size_type& ns, const size_type& nd, const size_type& nnzHSS,
                      index_type* iH, index_type* jH, double* MH, double* HD, size_type& nnzHSD, index_type* iSD, index_type* jSD, double* MSD) override
  { User own_memory;
    int a = c.pre(K_HESS, x, nx); if(a == A_FAIL) return false;
    dv H(p.n * p.n); p.hess(x, of, p.user_order(lam).data(), H.data());
    int ndd = p.n - p.ns;
    for(int i = 0; i < p.ns; i++) { if(iH && jH) iH[i] = jH[i] = i; if(MH) MH[i] = H[i * p.n + i]; }
    if(HD) for(int i = 0; i < ndd; i++) for(int j = 0; j < ndd; j++) HD[i * ndd + j] = H[(p.ns + i) * p.n + p.ns + j];
    if(HD) c.garble(a, HD, ndd * ndd);
    return true;
  }
};

#ifdef HIOP_SPARSE
class SparseUser : public UserT<hiopInterfaceSparse> {
public:
  std::vector<std::pair<int, int>> hp;
  explicit SparseUser(Ctx& cc) : UserT(cc)
  {
    for(int i = 0; i < p.n; i++) for(int j = i; j < p.n; j++) { bool in = i == j; for(int k = 0; k < p.K; k++) if(p.gsup[k * p.n + i] && p.gsup[k * p.n + j]) in = true; if(in) hp.push_back({i, j}); }
  }
  bool get_MPI_comm(MPI_Comm& o) override { User own_memory; o = MPI_COMM_SELF; return true; }
  int nnz(bool eq) const { int k = 0; for(int j = 0; j < p.m; j++) if(p.is_eq(j) == eq) for(int i = 0; i < p.n; i++) k += p.sup[j * p.n + i]; return k; }
  bool get_sparse_blocks_info(size_type& nx, size_type& je, size_type& ji, size_type& h) override { User own_memory; nx = p.n; je = nnz(true); ji = nnz(false); h = hp.size(); return true; }
  bool eval_Jac_cons(const size_type& n, const size_type& m, const size_type& num, const index_type* idx, const double* x, bool nx, const size_type& nnzJ, index_type* iJ, index_type* jJ, double* MJ) override
  { User own_memory;
    if(!p.split) return false;
    return fill(num, idx, x, nx, nnzJ, iJ, jJ, MJ);
  }
  bool eval_Jac_cons(const size_type& n, const size_type& m, const double* x, bool nx, const size_type& nnzJ, index_type* iJ, index_type* jJ, double* MJ) override
  { User own_memory;
    if(p.split) return false;
    return fill(p.m, nullptr, x, nx, nnzJ, iJ, jJ, MJ);
  }
  bool fill(int num, const index_type* idx, const double* x, bool nx, int nnzJ, index_type* iJ, index_type* jJ, double* MJ)
  {
    int a = c.pre(K_JAC, x, nx, !MJ); if(a == A_FAIL) return false;
    int k0 = 0;
    for(int k = 0; k < num; k++) { int j = idx ? idx[k] : k; for(int i = 0; i < p.n; i++) if(p.sup[j * p.n + i]) { if(iJ && jJ) { iJ[k0] = k; jJ[k0] = i; } if(MJ) MJ[k0] = c.J(j, i, x[i]); k0++; } }
    if(k0 != nnzJ) violate("C10", "jacobian-nonzeros", "Jacobian requested with %d nonzeros instead of %d", nnzJ, k0);
    if(MJ) c.garble(a, MJ, k0);
    return true;
  }
  bool eval_Hess_Lagr(const size_type& n, const size_type& m, const double* x, bool nx, const double& of, const double* lam, bool, const size_type& nnzH, index_type* iH, index_type* jH, double* MH) override
  { User own_memory;
    int a = c.pre(K_HESS, x, nx, !MH); if(a == A_FAIL) return false;
    dv H(p.n * p.n); p.hess(x, of, p.user_order(lam).data(), H.data());
    for(size_t k = 0; k < hp.size(); k++) { if(iH && jH) { iH[k] = hp[k].first; jH[k] = hp[k].second; } if(MH) MH[k] = H[hp[k].first * p.n + hp[k].second]; }
    if(MH) c.garble(a, MH, (int)hp.size());
    return true;
  }
};
#endif

// ------------------------------------------------------------------ a solve
template<class Nlp, class Alg, class User> static void solve_cpp(Run& r, Ctx& c)
{
  User user(c);
  #define LIB(x) do { Lib in_library; x; } while(0)
  Nlp* nlp; LIB(nlp = new Nlp(user, r.optfile));
  if(r.hook) r.hook(-1);
  LIB(r.opt.apply(nlp->options));
  if(r.hook) r.hook(0);
  Alg* alg = nullptr;
  r.recs.clear();
  r.recs.reserve(1 + r.reruns);
  std::vector<Fault> saved = r.faults; int sstop = r.stop_at, sfull = r.stop_full_at;
  for(int k = 0; k <= r.reruns; k++) {
    r.recs.emplace_back(); c.rec = &r.recs.back();
    if(k > 0 && r.clear_faults_on_rerun) { r.faults.clear(); r.stop_at = r.stop_full_at = -1; }
    if(!alg || r.rerun_mode == 1) LIB(delete alg; alg = new Alg(nlp));
    Rec& rec = *c.rec;
    if(r.with_alg) r.with_alg(alg, k);
    LIB(rec.status = alg->run());
    rec.ran = true; rec.done = true;
    ev("status %d", rec.status);
    if(r.getters) {
      int n = c.nl;
      rec.getstatus = alg->getSolveStatus(); rec.niter = alg->getNumIterations(); rec.obj = alg->getObjective();
      rec.x.assign(n, 0.); LIB(alg->getSolution(rec.x.data()));
      rec.zl.assign(n, 0.); rec.zu.assign(n, 0.); rec.lam.assign(c.sp->m, 0.);
      LIB(alg->getDualSolutions(rec.zl.data(), rec.zu.data(), rec.lam.data()));
    }
    if(r.hook) r.hook(1);
  }
  r.faults = saved; r.stop_at = sstop; r.stop_full_at = sfull;
  LIB(delete alg);
  if(r.hook) r.hook(2);
  LIB(delete nlp);
  if(r.hook) r.hook(3);
}

// ------------------------------------------------------------------ C interface
struct CUser { Ctx* c; };
#define CC User own_memory; Ctx& c = *((CUser*)u)->c; const Spec& p = *c.sp;
static int c_start(size_type, double* x0, void* u) { CC for(int i = 0; i < p.n; i++) x0[i] = p.x0[i]; return 0; }
static int c_sizes(size_type* n, size_type* m, void* u) { CC *n = p.n; *m = p.m; return 0; }
static int c_vars(size_type, double* xl, double* xu, void* u) { CC for(int i = 0; i < p.n; i++) { xl[i] = p.xl[i]; xu[i] = p.xu[i]; } return 0; }
static int c_cons(size_type, double* cl, double* cu, void* u) { CC for(int j = 0; j < p.m; j++) { cl[j] = p.cl[j]; cu[j] = p.cu[j]; } return 0; }
static int c_f(size_type, double* x, int nx, double* o, void* u) { CC int a = c.pre(K_F, x, nx); if(a == A_FAIL) return 1; *o = c.f(x); c.garble(a, o, 1); return 0; }
static int c_grad(size_type, double* x, int nx, double* g, void* u) { CC int a = c.pre(K_GRAD, x, nx); if(a == A_FAIL) return 1; c.grad(x, g); c.garble(a, g, p.n); return 0; }
static int c_evcons(size_type, size_type, double* x, int nx, double* o, void* u) { CC int a = c.pre(K_CONS, x, nx); if(a == A_FAIL) return 1; c.cons(p.m, nullptr, x, o); c.garble(a, o, p.m); return 0; }
static int c_djac(size_type, size_type, double* x, int nx, double* J, void* u)
{
  CC int a = c.pre(K_JAC, x, nx); if(a == A_FAIL) return 1;
  for(int j = 0; j < p.m; j++) for(int i = 0; i < p.n; i++) J[j * p.n + i] = c.J(j, i, x[i]);
  c.garble(a, J, p.m * p.n); return 0;
}
static int c_blocks(hiop_size_type* ns, hiop_size_type* nd, hiop_size_type* je, hiop_size_type* ji, hiop_size_type* hss, hiop_size_type* hsd, void* u)
{
  CC MdsUser m(c); int a, b, d, e, f, g; m.get_sparse_dense_blocks_info(a, b, d, e, f, g); *ns = a; *nd = b; *je = d; *ji = e; *hss = f; *hsd = g; return 0;
}
static int c_mjac(size_type n, size_type m, double* x, int nx, size_type ns, size_type nd, int nnzJ, hiop_index_type* iJ, hiop_index_type* jJ, double* MJ, double* JD, void* u)
{
  CC MdsUser us(c); return us.fill(p.m, nullptr, x, nx, nnzJ, iJ, jJ, MJ, JD) ? 0 : 1;
}
static int c_mhess(size_type n, size_type m, double* x, int nx, double of, double* lam, int, size_type ns, size_type nd, hiop_size_type nnzH, hiop_index_type* iH, hiop_index_type* jH, double* MH, double* HD,
                   hiop_size_type nsd, hiop_index_type* iS, hiop_index_type* jS, double* MS, void* u)
{
  CC MdsUser us(c); hiop_size_type k = nsd; return us.eval_Hess_Lagr(n, m, x, nx, of, lam, true, ns, nd, nnzH, iH, jH, MH, HD, k, iS, jS, MS) ? 0 : 1;
}
#ifdef HIOP_SPARSE
static int c_sblocks(hiop_size_type* n, hiop_size_type* je, hiop_size_type* ji, hiop_size_type* h, void* u)
{
  CC SparseUser us(c); size_type a, b, d, e; us.get_sparse_blocks_info(a, b, d, e); *n = a; *je = b; *ji = d; *h = e; return 0;
}
static int c_sjac(size_type n, size_type m, double* x, int nx, int nnzJ, hiop_index_type* iJ, hiop_index_type* jJ, double* MJ, void* u)
{
  CC SparseUser us(c); return us.fill(p.m, nullptr, x, nx, nnzJ, iJ, jJ, MJ) ? 0 : 1;
}
static int c_shess(size_type n, size_type m, double* x, int nx, double of, double* lam, int, hiop_size_type nnzH, hiop_index_type* iH, hiop_index_type* jH, double* MH, void* u)
{
  CC SparseUser us(c); return us.eval_Hess_Lagr(n, m, x, nx, of, lam, true, nnzH, iH, jH, MH) ? 0 : 1;
}
#endif
// ------------------------------------------------------------------ Fortran interface: no user data, so the problem is global
static Ctx* f_ctx;
#define FC User own_memory; Ctx& c = *f_ctx; const Spec& p = *c.sp; (void)p; CUser cu{&c}; void* u = &cu;
static void f_f(hiop_size_type* n, double* x, int* nx, double* o) { FC c_f(*n, x, *nx, o, u); }
static void f_grad(hiop_size_type* n, double* x, int* nx, double* g) { FC c_grad(*n, x, *nx, g, u); }
static void f_cons(hiop_size_type* n, hiop_size_type* m, double* x, int* nx, double* o) { FC c_evcons(*n, *m, x, *nx, o, u); }
static void f_djac(hiop_size_type* n, hiop_size_type* m, double* x, int* nx, double* J) { FC c_djac(*n, *m, x, *nx, J, u); }
#ifdef HIOP_SPARSE
static void one_based(int task, int nnz, hiop_index_type* i, hiop_index_type* j, double* M)
{
  if((task == 0) != (i && j) || (task == 1) != (M != nullptr)) { violate("C10", "fortran-interface-task", "task %d with %s indices and %s values", task, i ? "" : "no", M ? "" : "no"); return; }
  if(task == 0) for(int k = 0; k < nnz; k++) { i[k]++; j[k]++; }
}
static void f_sjac(int* task, hiop_size_type* n, hiop_size_type* m, double* x, int* nx, hiop_size_type* nnz, hiop_index_type* iJ, hiop_index_type* jJ, double* MJ)
{
  FC c_sjac(*n, *m, x, *nx, *nnz, iJ, jJ, MJ, u); one_based(*task, *nnz, iJ, jJ, MJ);
}
static void f_shess(int* task, hiop_size_type* n, hiop_size_type* m, double* of, double* x, int* nx, double* lam, int* nl, hiop_size_type* nnz, hiop_index_type* iH, hiop_index_type* jH, double* MH)
{
  FC c_shess(*n, *m, x, *nx, *of, lam, *nl, *nnz, iH, jH, MH, u); one_based(*task, *nnz, iH, jH, MH);
}
#endif
static void solve_fortran(Run& r, Ctx& c)
{
  const Spec& p = *c.sp;
  r.recs.clear(); r.recs.emplace_back(); c.rec = &r.recs.back(); Rec& rec = *c.rec;
  rec.x.assign(p.n, 0.);
  f_ctx = &c;
  // arguments that the binding must copy: they are scribbled over before the solve
  hiop_size_type n = p.n, m = p.m; dv xl = p.xl, xu = p.xu, cl = p.cl, cu = p.cu, x0 = p.x0;
  auto spoil = [&] { for(dv* v : {&xl, &xu, &cl, &cu, &x0}) for(double& e : *v) e = -7e77; n = m = -1; };
  if(p.form == CDENSE) {
    void* h; LIB(h = FC_GLOBAL(hiopdenseprob, HIOPDENSEPROB)(&n, &m, xl.data(), xu.data(), cl.data(), cu.data(), x0.data(), f_f, f_cons, f_grad, f_djac));
    spoil();
    cHiopDenseProblem* q = ((FDenseProb*)h)->c_prob;
    LIB(r.opt.apply(q->refcppHiop->options));
    LIB(FC_GLOBAL(hiopdensesolve, HIOPDENSESOLVE)(&h, &rec.obj, rec.x.data()));
    rec.status = q->status; rec.niter = q->niters;
    LIB(FC_GLOBAL(deletehiopdenseprob, DELETEHIOPDENSEPROB)(&h));
    if(h) violate("C10", "fortran-interface-handle", "the handle of a deleted problem is still set");
  }
#ifdef HIOP_SPARSE
  else {
    SparseUser us(c); size_type a, je, ji, hn; us.get_sparse_blocks_info(a, je, ji, hn);
    hiop_size_type e1 = je, e2 = ji, e3 = hn;
    void* h; LIB(h = FC_GLOBAL(hiopsparseprob, HIOPSPARSEPROB)(&n, &m, &e1, &e2, &e3, xl.data(), xu.data(), cl.data(), cu.data(), x0.data(), f_f, f_cons, f_grad, f_sjac, f_shess));
    spoil(); e1 = e2 = e3 = -1;
    cHiopSparseProblem* q = ((FSparseProb*)h)->c_prob_;
    LIB(r.opt.apply(q->refcppHiop_->options));
    LIB(FC_GLOBAL(hiopsparsesolve, HIOPSPARSESOLVE)(&h, &rec.obj, rec.x.data()));
    rec.status = q->status_; rec.niter = q->niters_;
    LIB(FC_GLOBAL(deletehiopsparseprob, DELETEHIOPSPARSEPROB)(&h));
    if(h) violate("C10", "fortran-interface-handle", "the handle of a deleted problem is still set");
  }
#endif
  rec.ran = rec.done = true;
}
Opts c_defaults(int form)
{
  Opts o;
  if(form == CSPARSE) { o.str("Hessian", "analytical_exact"); o.str("KKTLinsys", "xdycyd"); o.str("compute_mode", "cpu"); o.num("mu0", 1e-1); return o; }
  o.str("duals_update_type", "linear"); o.str("duals_init", "zero"); o.str("KKTLinsys", "xdycyd");
  if(form == CDENSE) { o.str("Hessian", "quasinewton_approx"); o.str("compute_mode", "cpu"); o.str("fixed_var", "relax"); }
  else { o.str("Hessian", "analytical_exact"); o.str("compute_mode", "hybrid"); o.num("mu0", 1e-1); }
  return o;
}
static void solve_c(Run& r, Ctx& c)
{
  CUser cu{&c}; const Spec& p = *c.sp;
  r.recs.clear(); r.recs.emplace_back(); c.rec = &r.recs.back(); Rec& rec = *c.rec;
  rec.x.assign(p.n, 0.);
  if(p.form == CDENSE) {
    cHiopDenseProblem q; memset(&q, 0, sizeof q);
    q.user_data = &cu; q.solution = rec.x.data();
    q.get_starting_point = c_start; q.get_prob_sizes = c_sizes; q.get_vars_info = c_vars; q.get_cons_info = c_cons; q.eval_f = c_f; q.eval_grad_f = c_grad; q.eval_cons = c_evcons; q.eval_Jac_cons = c_djac;
    LIB(hiop_dense_create_problem(&q));
    LIB(r.opt.apply(q.refcppHiop->options));
    if(r.hook) r.hook(0);
    LIB(hiop_dense_solve_problem(&q));
    if(r.hook) r.hook(1);
    rec.obj = q.obj_value; rec.status = q.status; rec.niter = q.niters;
    LIB(hiop_dense_destroy_problem(&q));
  }
#ifdef HIOP_SPARSE
  else if(p.form == CSPARSE) {
    cHiopSparseProblem q; memset(&q, 0, sizeof q);
    q.user_data_ = &cu; q.solution_ = rec.x.data();
    q.get_starting_point_ = c_start; q.get_prob_sizes_ = c_sizes; q.get_vars_info_ = c_vars; q.get_cons_info_ = c_cons; q.eval_f_ = c_f; q.eval_grad_f_ = c_grad; q.eval_cons_ = c_evcons;
    q.get_sparse_blocks_info_ = c_sblocks; q.eval_Jac_cons_ = c_sjac; q.eval_Hess_Lagr_ = c_shess;
    LIB(hiop_sparse_create_problem(&q));
    LIB(r.opt.apply(q.refcppHiop_->options));
    if(r.hook) r.hook(0);
    LIB(hiop_sparse_solve_problem(&q));
    if(r.hook) r.hook(1);
    rec.obj = q.obj_value_; rec.status = q.status_; rec.niter = q.niters_;
    LIB(hiop_sparse_destroy_problem(&q));
  }
#endif
  else {
    cHiopMDSProblem q; memset(&q, 0, sizeof q);
    q.user_data = &cu; q.solution = rec.x.data();
    q.get_starting_point = c_start; q.get_prob_sizes = c_sizes; q.get_vars_info = c_vars; q.get_cons_info = c_cons; q.eval_f = c_f; q.eval_grad_f = c_grad; q.eval_cons = c_evcons;
    q.get_sparse_dense_blocks_info = c_blocks; q.eval_Jac_cons = c_mjac; q.eval_Hess_Lagr = c_mhess;
    LIB(hiop_mds_create_problem(&q));
    LIB(r.opt.apply(q.refcppHiop->options));
    if(r.hook) r.hook(0);
    int rc; LIB(rc = hiop_mds_solve_problem(&q));
    if(r.hook) r.hook(1);
    rec.obj = q.obj_value; rec.status = rc; 
    LIB(hiop_mds_destroy_problem(&q));
  }
  rec.ran = rec.done = true;
}

void solve(Run& r, int rank, int nranks)
{
  Ctx c; c.run = &r; c.sp = r.sp; c.rank = rank; c.nranks = nranks; c.rec = nullptr; c.setup();
  switch(r.sp->form) {
    case DENSE: solve_cpp<hiopNlpDenseConstraints, hiopAlgFilterIPMQuasiNewton, DenseUser>(r, c); break;
    case MDS: solve_cpp<hiopNlpMDS, hiopAlgFilterIPMNewton, MdsUser>(r, c); break;
#ifdef HIOP_SPARSE
    case SPARSE: solve_cpp<hiopNlpSparse, hiopAlgFilterIPMNewton, SparseUser>(r, c); break;
    case SPARSE_INEQ: solve_cpp<hiopNlpSparseIneq, hiopAlgFilterIPMNewton, SparseUser>(r, c); break;
#endif
    default: if(r.fortran) solve_fortran(r, c); else solve_c(r, c); break;
  }
}
void fr_options(int max_iter)
{
  if(chdir(scratch_dir()) != 0) return;
  FILE* f = fopen("hiop_fr.options", "w");
  if(f) { fprintf(f, "max_iter %d\n", max_iter); fclose(f); }
}
void solve_alone(Run& r)
{
  WorldCfg w; w.n = 1; w.max_steps = 20000000;
  run_world(w, [&](int) { solve(r, 0, 1); });
}

namespace {
struct Packer {
  std::string& s; bool out; size_t& pos;
  void raw(void* p, size_t n) { if(out) s.append((char*)p, n); else { memcpy(p, s.data() + pos, n); pos += n; } }
  template<class T> Packer& operator()(T& v) { raw(&v, sizeof v); return *this; }
  Packer& operator()(dv& v) { size_t n = v.size(); raw(&n, sizeof n); v.resize(n); if(n) raw(v.data(), 8 * n); return *this; }
};
}
void Rec::pack(std::string& s, bool out, size_t& pos)
{
  Packer a{s, out, pos};
  size_t n = its.size(); a(n); its.resize(n);
  for(auto& i : its) a(i.iter)(i.obj)(i.logbar)(i.x)(i.zl)(i.zu)(i.s)(i.g)(i.lam)(i.inf_pr)(i.inf_du)(i.onenorm)(i.mu)(i.adu)(i.apr)(i.ls)(i.ncalls)(i.njac);
  a(status)(ran)(evals)(done)(faults_hit)(hit_kind)(stop_hit)(nsolcb)(cb_status)(cbx)(cbzl)(cbzu)(cbg)(cblam)(cbobj)(obj)(x)(zl)(zu)(lam)(niter)(getstatus)(xhash);
}
void solve_elsewhere(Run& r)
{
  std::string d;
  Run q = r;
  r.recs.clear();
  if(!elsewhere([&] {
       solve_alone(q);
       std::string s; size_t pos = 0, n = q.recs.size();
       s.append((char*)&n, sizeof n);
       for(auto& k : q.recs) k.pack(s, true, pos);
       return s; }, d)) return;
  size_t n, pos = sizeof n; memcpy(&n, d.data(), sizeof n);
  r.recs.resize(n);
  for(auto& k : r.recs) k.pack(d, false, pos);
}
}  // namespace nlp
