#include "checks.hpp"
#include <algorithm>
#include <cmath>
namespace nlp {
using namespace sim;

bool has_fixed(const Spec& p) { for(int i = 0; i < p.n; i++) if(p.xl[i] == p.xu[i]) return true; return false; }

Scal scaling(const Spec& p, const Opts& o)
{
  Scal s; s.c.assign(p.m, 1.);
  if(o.gets("scaling_type", "gradient") == "none") return s;
  double mg = o.getn("scaling_max_grad", 100), mo = o.getn("scaling_max_obj_grad", 0), mc = o.getn("scaling_max_con_grad", 0), mi = o.getn("scaling_min_grad", 1e-8);
  bool rem = o.gets("fixed_var", "none") == "remove";
  dv g(p.n), J((size_t)p.m * p.n), rm(p.m, 0.);   // the factors are decided at the user's starting point
  dv x = p.start_mode <= 2 ? p.x0 : dv(p.n, 0.);
  if(rem) for(int i = 0; i < p.n; i++) if(p.xl[i] == p.xu[i]) x[i] = p.xl[i];
  p.grad(x.data(), g.data()); p.jac(x.data(), J.data());
  double gn = 0, jc = 0, jd = 0;
  for(int i = 0; i < p.n; i++) if(!(rem && p.xl[i] == p.xu[i])) gn = std::max(gn, std::fabs(g[i]));
  for(int j = 0; j < p.m; j++) { for(int i = 0; i < p.n; i++) if(!(rem && p.xl[i] == p.xu[i])) rm[j] = std::max(rm[j], std::fabs(J[j * p.n + i])); (p.eq(j) ? jc : jd) = std::max(p.eq(j) ? jc : jd, rm[j]); }
  if(gn < (mo > 0 ? mo : mg) && jc < (mc > 0 ? mc : mg) && jd < (mc > 0 ? mc : mg)) return s;
  s.on = true;
  s.f = mo == 0 ? (gn > mg ? mg / gn : 1.) : gn > 0 ? mo / gn : 1.;
  if(mi > 0) s.f = std::max(s.f, mi);
  for(int j = 0; j < p.m; j++) {
    if(mc == 0) s.c[j] = 1. / std::max(1., rm[j] / mg);
    else { double jn = p.eq(j) ? jc : jd; s.c[j] = jn > 0 ? mc / jn : 1.; }
    if(mi > 0) s.c[j] = std::max(s.c[j], mi);
  }
  return s;
}

static double relax_of(const Spec& p, const Opts& o, bool at_end)
{
  double r = o.getn("bound_relax_perturb", 1e-8);
  std::string e = o.gets("elastic_mode", "none");
  if(e != "none") r = std::max(r, at_end && e == "none" ? 0. : o.getn("elastic_mode_bound_relax_initial", 1e-2));
  if(has_fixed(p) && o.gets("fixed_var", "none") == "relax") r += o.getn("fixed_var_perturb", 1e-8);
  return r * (1 + 1e-6) + 1e-9;
}

void check_kkt(const Spec& p, const Opts& o, const Rec& r, const char* prop)
{
  if(r.status == Infeasible_Problem && (int)r.x.size() == p.n && !r.its.empty() && !r.faults_hit) {
    // the problem is called infeasible where the constraints are violated, not where the solver merely got stuck
    Scal S = scaling(p, o); dv h(p.m), J((size_t)p.m * p.n); p.cons(r.x.data(), h.data()); p.jac(r.x.data(), J.data());
    double w = 0, mag = 0;
    for(int j = 0; j < p.m; j++) {
      w = std::max(w, S.c[j] * std::max(p.cl[j] > -1e19 ? p.cl[j] - h[j] : 0, p.cu[j] < 1e19 ? h[j] - p.cu[j] : 0));
      double a = std::fabs(h[j]); for(int i = 0; i < p.n; i++) a += std::fabs(J[(size_t)j * p.n + i] * r.x[i]);
      mag = std::max(mag, S.c[j] * a);
    }
    count("sim.infeasible_points_checked");
    nontrivial();
    if(w + 1e-12 * mag < .5 * o.getn("tolerance", 1e-8)) violate(prop, "infeasible-where-feasible", "Infeasible_Problem at a point whose largest scaled constraint violation is %g", w);
  }
  if(!is_success(r.status) || (int)r.x.size() != p.n) return;
  count("sim.success_points_checked");
  nontrivial();
  const dv& x = r.x;
  if(r.its.empty()) return;
  Scal S = scaling(p, o);
  double tol = o.getn("tolerance", 1e-8), acc = std::max(tol, o.getn("acceptable_tolerance", 1e-6)), smax = o.getn("smax", 100);
  double T = r.status == Solve_Acceptable_Level ? acc : tol;
  for(int i = 0; i < p.n; i++) if(!std::isfinite(x[i])) { violate(prop, "solution-not-finite", "status %s with x[%d]=%g", status_name(r.status), i, x[i]); return; }
  if(r.faults_hit && r.evals_at_hit <= r.its[0].ncalls) return;   // invalid values may have entered the scaling, which defines the tolerances
  if(p.form == SPARSE_INEQ && (r.status != Solve_Success || o.gets("elastic_mode", "none") != "none")) for(int j = 0; j < p.m; j++) if(p.is_eq(j)) return;   // both multipliers of a relaxed equality, which scale the tolerances, may be large; only their difference is known
  dv g(p.n), J((size_t)p.m * p.n), h(p.m);
  p.grad(x.data(), g.data()); p.jac(x.data(), J.data()); p.cons(x.data(), h.data());
  double relax = relax_of(p, o, true);
  bool rem = o.gets("fixed_var", "none") == "remove";
  dv z = r.zl;
  double sl = 0, sz = 0; int ny = 0, nz = 0;
  for(int j = 0; j < p.m; j++) { sl += S.f * std::fabs(r.lam[j]) / S.c[j]; ny++; }
  for(int i = 0; i < p.n; i++) { sz += S.f * (std::fabs(r.zl[i]) + std::fabs(r.zu[i])); nz += (p.xl[i] > -1e19) + (p.xu[i] < 1e19); }
  for(int j = 0; j < p.m; j++) if(!p.eq(j)) { sz += S.f * std::fabs(r.lam[j]) / S.c[j]; nz += (p.cl[j] > -1e19) + (p.cu[j] < 1e19); }
  if(p.form == SPARSE_INEQ) for(int j = 0; j < p.m; j++) if(p.is_eq(j)) { double hid = 20 * T / p.eq_relax; sl += hid; sz += hid; }   // of both sides of the relaxed equality
  double sd = std::max(smax, (sl + sz) / std::max(1, ny + nz)) / smax, sc = std::max(smax, sz / std::max(1, nz)) / smax;
  double Tf = T, Td = T, Tc = T;
  if(r.status == Solve_Success_RelTol) {
    double rt = o.getn("rel_tolerance", 0);
    const It& t = r.its[0];
    double c0 = 0;
    for(int i = 0; i < p.n; i++) { if(p.xl[i] > -1e19) c0 = std::max(c0, S.f * t.zl[i] * (t.x[i] - p.xl[i] + 1)); if(p.xu[i] < 1e19) c0 = std::max(c0, S.f * t.zu[i] * (p.xu[i] - t.x[i] + 1)); }
    Td = std::max(Td, rt * std::max(1., t.inf_du)); Tf = std::max(Tf, rt * std::max(1., t.inf_pr)); Tc = std::max(Tc, rt * std::max(1e3, c0));
  }
  // the unscaled errors have limits of their own
  double Ad = HUGE_VAL, Ac = HUGE_VAL;
  if(r.status == Solve_Success) { Ad = 3 * std::max(tol, o.getn("dual_tol", 1.)); Ac = 3 * std::max(tol, o.getn("comp_tol", 1e-4)); if(o.getn("dual_tol", 1.) < 1e-4) count("sim.success_with_tight_dual_tol"); }
  // bounds
  for(int i = 0; i < p.n; i++) {
    double v = std::max(p.xl[i] > -1e19 ? (p.xl[i] - x[i]) / std::max(1., std::fabs(p.xl[i])) : 0, p.xu[i] < 1e19 ? (x[i] - p.xu[i]) / std::max(1., std::fabs(p.xu[i])) : 0);
    if(v > relax) violate(prop, "success-outside-bounds", "status %s: x[%d]=%.15g outside [%.15g,%.15g]", status_name(r.status), i, x[i], p.xl[i], p.xu[i]);
  }
  // constraints
  for(int j = 0; j < p.m; j++) {
    double mag = 0; for(int i = 0; i < p.n; i++) mag += std::fabs(J[j * p.n + i] * x[i]);
    double b = 10 * Tf / S.c[j] + 1e-12 * mag;
    double lo = p.cl[j] > -1e19 ? p.cl[j] - h[j] - (p.eq(j) ? 0 : (relax + p.eqr(j)) * std::max(1., std::fabs(p.cl[j]))) : -1, up = p.cu[j] < 1e19 ? h[j] - p.cu[j] - (p.eq(j) ? 0 : (relax + p.eqr(j)) * std::max(1., std::fabs(p.cu[j]))) : -1;
    if(std::max(lo, up) > b) violate(prop, "success-infeasible", "status %s: constraint %d = %.15g outside [%.15g,%.15g] by %g (tolerance %g)", status_name(r.status), j, h[j], p.cl[j], p.cu[j], std::max(lo, up), b);
  }
  // stationarity
  double worst = 0, wb = 0; int wi = -1;
  for(int i = 0; i < p.n; i++) {
    if(rem && p.xl[i] == p.xu[i]) continue;
    double v = g[i] - r.zl[i] + r.zu[i], mag = std::fabs(g[i]) + std::fabs(r.zl[i]) + std::fabs(r.zu[i]);
    for(int j = 0; j < p.m; j++) { v += J[j * p.n + i] * r.lam[j]; mag += std::fabs(J[j * p.n + i] * r.lam[j]); }
    double b = std::min(10 * Td * sd, Ad) / S.f + 1e-11 * mag;
    if(!(std::fabs(v) <= b) && (std::fabs(v) / b > worst || wi < 0)) { worst = std::fabs(v) / b; wi = i; wb = v; }
  }
  if(wi >= 0) violate(prop, "success-not-stationary", "status %s: Lagrangian gradient[%d] = %g, %.3g times the tolerance (objective scale %g)", status_name(r.status), wi, wb, worst, S.f);
  // signs and complementarity of bound multipliers
  for(int i = 0; i < p.n; i++) {
    if(rem && p.xl[i] == p.xu[i]) continue;
    for(int side = 0; side < 2; side++) {
      double zz = side ? r.zu[i] : r.zl[i], b = side ? p.xu[i] : p.xl[i];
      bool fin = side ? b < 1e19 : b > -1e19;
      if(!(zz >= 0)) violate(prop, "negative-bound-multiplier", "status %s: z[%d]=%g", status_name(r.status), i, zz);
      if(!fin) { if(zz != 0) violate(prop, "multiplier-of-missing-bound", "status %s: multiplier %g for an infinite bound of x[%d]", status_name(r.status), zz, i); continue; }
      double gap = side ? b - x[i] : x[i] - b;
      double lim = std::min(10 * Tc * sc, Ac) / S.f + zz * (relax * std::max(1., std::fabs(b)) + 1e-14 * std::fabs(x[i]));
      if(!(zz * gap <= lim)) violate(prop, "success-not-complementary", "status %s: bound multiplier %g times distance %g of x[%d] exceeds %g", status_name(r.status), zz, gap, i, lim);
    }
  }
  for(int j = 0; j < p.m; j++) {
    if(p.eq(j)) continue;
    double l = r.lam[j], ls = S.f * std::fabs(l) / S.c[j];
    bool up = l > 0; double b = up ? p.cu[j] : p.cl[j]; bool fin = up ? b < 1e19 : b > -1e19;
    if(!fin) { if(ls > 20 * Td * sd + 10 * Tc * sc) { bool ok = false; (void)ok; violate(prop, "multiplier-wrong-sign", "status %s: constraint %d has multiplier %g but no %s bound", status_name(r.status), j, l, up ? "upper" : "lower"); } continue; }
    double gap = std::fabs(b - h[j]) * S.c[j];
    double lim = 10 * Tc * sc + 20 * Td * sd * std::max(1., gap) + ls * (10 * Tf + (relax + p.eqr(j)) * S.c[j] * std::max(1., std::fabs(b)));
    if(!(ls * gap <= lim)) violate(prop, "success-not-complementary", "status %s: multiplier %g of constraint %d times distance to its %s bound %g (scaled %g, limit %g; scales f %g c %g, sc %g, sd %g)", status_name(r.status), l, j, up ? "upper" : "lower", gap / S.c[j], ls * gap, lim, S.f, S.c[j], sc, sd);
  }
}

void check_bounds(const Spec& p, const Opts& o, const Rec& r)
{
  double relax = relax_of(p, o, false);
  if(r.evals > 3) nontrivial();
  count("sim.points_checked", r.evals);
  if(r.max_viol > relax) {
    int i = r.viol_i;
    violate("C09", "evaluated-outside-bounds", "%s (evaluation %d of %d) called with x[%d]=%.12g outside [%.12g,%.12g] (relative violation %g, allowed %g)", kind_name[r.viol_kind], r.viol_eval, r.evals, i, r.viol_x, p.xl[i], p.xu[i], r.max_viol, relax);
  }
  for(auto& t : r.its) {
    if((int)t.x.size() != p.n) continue;
    for(int i = 0; i < p.n; i++) {
      if(p.xl[i] == p.xu[i] && o.gets("fixed_var", "none") == "remove") continue;
      double v = std::max(p.xl[i] > -1e19 ? (p.xl[i] - t.x[i]) / std::max(1., std::fabs(p.xl[i])) : 0, p.xu[i] < 1e19 ? (t.x[i] - p.xu[i]) / std::max(1., std::fabs(p.xu[i])) : 0);
      if(!(v < relax)) violate("C09", "iterate-not-interior", "iteration %d: x[%d]=%.12g outside the relaxed bounds of [%.12g,%.12g]", t.iter, i, t.x[i], p.xl[i], p.xu[i]);
      if(p.xl[i] > -1e19 && !(t.zl[i] > 0)) violate("C09", "bound-multiplier-not-positive", "iteration %d: lower bound multiplier of x[%d] is %g", t.iter, i, t.zl[i]);
      if(p.xu[i] < 1e19 && !(t.zu[i] > 0)) violate("C09", "bound-multiplier-not-positive", "iteration %d: upper bound multiplier of x[%d] is %g", t.iter, i, t.zu[i]);
      if(p.xl[i] <= -1e19 && t.zl[i] != 0) violate("C09", "multiplier-of-missing-bound", "iteration %d: lower multiplier %g of x[%d] without lower bound", t.iter, t.zl[i], i);
      if(p.xu[i] >= 1e19 && t.zu[i] != 0) violate("C09", "multiplier-of-missing-bound", "iteration %d: upper multiplier %g of x[%d] without upper bound", t.iter, t.zu[i], i);
    }
  }
}

static bool close(double a, double b, double scale) { return std::fabs(a - b) <= 1e-9 * (1 + scale) + 1e-9 * std::max(std::fabs(a), std::fabs(b)); }

void check_reports(const Spec& p, const Opts& o, const Rec& r, bool duals)
{
  bool rem = o.gets("fixed_var", "none") == "remove" && has_fixed(p);
  Scal S; S.c.assign(p.m, 1.); if(!r.its.empty()) S = scaling(p, o);
  auto fmag = [&](const dv& x) { double v = 0; for(int i = 0; i < p.n; i++) { double d = x[i] - p.t[i]; v += std::fabs(.5 * p.a[i] * d * d) + std::fabs(p.q[i]) * d * d * d * d + std::fabs(p.s[i]); } return p.fs * v * 1e-3; };
  auto cmag = [&](const dv& x, int j) { double v = 0; for(int i = 0; i < p.n; i++) { int k = j * p.n + i; v += std::fabs(p.A[k] * x[i]) + .5 * std::fabs(p.Q[k]) * x[i] * x[i] + std::fabs(p.R[k]); } return v * 1e-3; };
  auto dualres = [&](const dv& x, const dv& zl, const dv& zu, const dv& lam, double& mag) {
    dv g(p.n), J((size_t)p.m * p.n); p.grad(x.data(), g.data()); p.jac(x.data(), J.data());
    double w = 0; mag = 0;
    for(int i = 0; i < p.n; i++) { if(rem && p.xl[i] == p.xu[i]) continue; double v = g[i] - zl[i] + zu[i], m = std::fabs(g[i]) + zl[i] + zu[i]; for(int j = 0; j < p.m; j++) { v += J[j * p.n + i] * lam[j]; m += std::fabs(J[j * p.n + i] * lam[j]); } w = std::max(w, std::fabs(v)); mag = std::max(mag, m); }
    return w;
  };
  dv h(p.m);
  for(auto& t : r.its) {
    if((int)t.x.size() != p.n) continue;
    double f = p.f(t.x.data());
    if(!close(t.obj, f, fmag(t.x))) violate("C10", "iterate-objective", "iteration %d: objective reported %.15g, user function at the reported point %.15g", t.iter, t.obj, f);
    p.cons(t.x.data(), h.data());
    for(int j = 0; j < p.m; j++) if(!close(t.g[j], h[j], cmag(t.x, j))) violate("C10", "iterate-constraints", "iteration %d: constraint %d reported %.15g, user function %.15g", t.iter, j, t.g[j], h[j]);
    if(duals) {
      double mag, d = dualres(t.x, t.zl, t.zu, t.lam, mag);
      if(!(S.f * d <= t.inf_du * (1 + 1e-6) + 1e-10 * (1 + S.f * mag))) violate("C10", "iterate-multipliers", "iteration %d: reported multipliers give a dual infeasibility of %.12g (scaled), the solver reports %.12g", t.iter, S.f * d, t.inf_du);
    }
    if(p.m && std::isfinite(t.inf_pr) && !(t.inf_pr <= t.onenorm * (1 + 1e-9) + 1e-12 && t.onenorm <= p.m * t.inf_pr * (1 + 1e-9) + 1e-12)) violate("C10", "iterate-onenorm", "iteration %d: primal infeasibility reported as %.12g in the maximum norm and %.12g in the one norm, %d constraints", t.iter, t.inf_pr, t.onenorm, p.m);
    if(duals && p.m && o.gets("elastic_mode", "none") == "none") {   // primal infeasibility in the solver's scaling, against the relaxed bounds
      // upper estimate of the violation: distance to the bounds including slack mismatch is what is reported, so it must be at least the bound violation
      double v = 0; double rl = o.getn("bound_relax_perturb", 1e-8);
      for(int j = 0; j < p.m; j++) { double lo = p.cl[j] > -1e19 ? S.c[j] * (p.cl[j] - h[j]) - rl * std::max(1., S.c[j]) * std::max(1., std::fabs(p.cl[j])) * (p.eq(j) ? 0 : 1.01 + p.eqr(j) / rl) : -1, up = p.cu[j] < 1e19 ? S.c[j] * (h[j] - p.cu[j]) - rl * std::max(1., S.c[j]) * std::max(1., std::fabs(p.cu[j])) * (p.eq(j) ? 0 : 1.01 + p.eqr(j) / rl) : -1; v = std::max(v, std::max(lo, up)); }
      double cm = 0; for(int j = 0; j < p.m; j++) cm = std::max(cm, S.c[j] * cmag(t.x, j));
      if(!(v <= t.inf_pr * (1 + 1e-6) + 1e-8 * (1 + cm))) violate("C10", "iterate-infeasibility", "iteration %d: constraint violation of the reported point is %.12g (scaled), the solver reports %.12g", t.iter, v, t.inf_pr);
    }
  }
  if(!r.ran) return;
  if(r.its.size() > 2) nontrivial();
  count("sim.reports_checked", r.its.size());
  if((int)r.x.size() != p.n) return;
  double f = p.f(r.x.data());
  if(!r.its.empty()) {
    if(!close(r.obj, f, fmag(r.x))) violate("C10", "final-objective", "getObjective %.15g, user function at getSolution %.15g (status %s)", r.obj, f, status_name(r.status));
    const It& t = r.its.back();
    if(r.status >= 0) {
      for(int i = 0; i < p.n; i++) if(!(rem && p.xl[i] == p.xu[i]) && r.x[i] != t.x[i]) { violate("C10", "solution-is-not-last-iterate", "getSolution()[%d] = %.17g, last reported iterate %.17g (status %s)", i, r.x[i], t.x[i], status_name(r.status)); break; }
      if(r.niter != t.iter) violate("C10", "iteration-count", "getNumIterations %d, last reported iteration %d (status %s)", r.niter, t.iter, status_name(r.status));
    }
  }
  if(r.getstatus != r.status) violate("C10", "status-getter", "run returned %s, getSolveStatus %s", status_name(r.status), status_name(r.getstatus));
  if(r.nsolcb > 1) violate("C10", "solution-callback-repeated", "solution callback called %d times", r.nsolcb);
  if(r.nsolcb) {
    if(r.cb_status != r.status) violate("C10", "solution-callback-status", "solution callback status %s, run returned %s", status_name(r.cb_status), status_name(r.status));
    if(r.cbx != r.x) violate("C10", "solution-callback-x", "solution callback point differs from getSolution (status %s)", status_name(r.status));
    if(!close(r.cbobj, r.obj, 0)) violate("C10", "solution-callback-objective", "solution callback objective %.15g, getObjective %.15g", r.cbobj, r.obj);
    p.cons(r.cbx.data(), h.data());
    for(int j = 0; j < p.m; j++) if(!close(r.cbg[j], h[j], cmag(r.cbx, j))) { violate("C10", "solution-callback-constraints", "solution callback constraint %d = %.15g, user function %.15g (status %s)", j, r.cbg[j], h[j], status_name(r.status)); break; }
    auto dd = [&](const dv& a, const dv& b) { for(size_t i = 0; i < a.size(); i++) if(!(std::fabs(a[i] - b[i]) <= 1e-9 * (std::fabs(a[i]) + std::fabs(b[i])) + 1e-300)) return (int)i; return -1; };
    int k;
    if((k = dd(r.cbzl, r.zl)) >= 0) violate("C10", "multipliers-disagree", "lower bound multiplier %d: solution callback %.12g, getter %.12g", k, r.cbzl[k], r.zl[k]);
    if((k = dd(r.cbzu, r.zu)) >= 0) violate("C10", "multipliers-disagree", "upper bound multiplier %d: solution callback %.12g, getter %.12g", k, r.cbzu[k], r.zu[k]);
    if((k = dd(r.cblam, r.lam)) >= 0) violate("C10", "multipliers-disagree", "constraint multiplier %d: solution callback %.12g, getter %.12g", k, r.cblam[k], r.lam[k]);
    if(duals && !r.its.empty()) {
      const It& t = r.its.back();
      if((k = dd(r.cblam, t.lam)) >= 0 && r.status >= 0) violate("C10", "multipliers-disagree", "constraint multiplier %d: solution callback %.12g, last iterate callback %.12g", k, r.cblam[k], t.lam[k]);
      double mag, d = dualres(r.cbx, r.cbzl, r.cbzu, r.cblam, mag);
      if(r.status >= 0 && o.gets("elastic_mode", "none").compare(0, 7, "correct") && !(S.f * d <= t.inf_du * (1 + 1e-6) + 1e-10 * (1 + S.f * mag))) violate("C10", "final-multipliers", "multipliers of the solution give a dual infeasibility of %.12g (scaled), the solver reported %.12g", S.f * d, t.inf_du);
    }
  } else if(r.status >= 0) violate("C10", "no-solution-callback", "status %s without solution callback", status_name(r.status));
}

void check_books(const Spec& p, const Opts& o, const Rec& r, bool values_valid)
{
  int maxit = (int)o.getn("max_iter", 3000);
  if(r.its.size() > 3) nontrivial();
  count("sim.iterations_checked", r.its.size());
  for(size_t k = 0; k < r.its.size(); k++) {
    const It& t = r.its[k];
    if(t.iter != (int)k) { violate("C17", "iteration-numbers", "report %zu has iteration number %d", k, t.iter); break; }
    if(t.iter > maxit) { violate("C17", "iteration-limit", "iteration %d reported with max_iter %d", t.iter, maxit); break; }
    if(!(t.mu > 0) || !std::isfinite(t.mu)) violate("C17", "mu-not-positive", "iteration %d: mu = %g", t.iter, t.mu);
    if(k) {
      const It& q = r.its[k - 1];
      // (without restoration an iteration evaluates the Jacobian once, in one or two calls)
      int dj = t.njac - q.njac, de = t.ncalls - q.ncalls;
      if(de > 600 + (dj > 2 ? 600 * dj : 0)) violate("C17", "too-many-evaluations", "%d evaluations in iteration %d, %d of them of the Jacobian", de, t.iter, dj);
      // (a mu0 below the smallest barrier parameter, tolerance/11, is raised to it)
      if(!(t.mu <= std::max(q.mu, o.getn("tolerance", 1e-8) / 11 * (1 + 1e-12)))) violate("C17", "mu-increases", "mu grows from %.12g to %.12g in iteration %d", q.mu, t.mu, t.iter);
      if(!((values_valid ? t.apr > 0 : t.apr >= 0) && t.apr <= 1)) violate("C17", "primal-step-length", "iteration %d: primal step length %g", t.iter, t.apr);
      if(!((values_valid ? t.adu > 0 : t.adu >= 0) && t.adu <= 1)) violate("C17", "dual-step-length", "iteration %d: dual step length %g", t.iter, t.adu);
    }
  }
  const char* nm = status_name(r.status);
  if(std::string(nm) == "undocumented") violate("C17", "undocumented-status", "run returned %d", r.status);
  if(r.status == Max_Iter_Exceeded && (int)r.its.size() < maxit) violate("C17", "iteration-limit-too-early", "Max_Iter_Exceeded after %zu reports, max_iter %d", r.its.size(), maxit);
}
}  // namespace nlp
