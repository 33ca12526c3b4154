// C21: starting points, multipliers and warm starts are used as the user provides them, and only those
#include "checks.hpp"
#include "props.hpp"
#include <cmath>
#include <cstring>
using namespace sim;
using namespace nlp;

void run_start()
{
  Gen g;
#ifdef HIOP_SPARSE
  g.forms = {SPARSE, SPARSE, SPARSE, SPARSE_INEQ};
#endif
  g.infeasible = choose(CFG, 8) == 7;
  Spec p = draw_spec(g);
  p.distrib = p.form == DENSE && choose(CFG, 2);
  Run r; r.sp = &p; r.yields = false;
  r.opt = draw_opts(p, choose(CFG, 2));
  if(choose(CFG, 3)) r.opt.str("scaling_type", "none");
  bool lsq = choose(CFG, 2); if(!lsq) r.opt.str("duals_init", "zero");
  static const double k1[] = {1e-2, 1e-2, .3, 1e-6, .9}; r.opt.num("kappa1", k1[choose(CFG, 5)]);
  static const double k2[] = {1e-2, .4, 1e-6, .25}; r.opt.num("kappa2", k2[choose(CFG, 4)]);
  bool scaled = r.opt.gets("scaling_type", "gradient") != "none";
  double kap1 = r.opt.getn("kappa1", 1e-2), kap2 = r.opt.getn("kappa2", 1e-2), relax = r.opt.getn("bound_relax_perturb", 1e-8);
  double ftol = r.opt.getn("fixed_var_tolerance", 1e-15), fper = r.opt.getn("fixed_var_perturb", 1e-8);
  if(r.opt.gets("elastic_mode", "none") != "none") { r.opt.str("elastic_mode", "none"); }
  int mi = p.nineq();
  int mode = weighted(CFG, {2, 1, 2, 1, 3, 2});   // 0-3 as in Spec::start_mode, 4 warm start given, 5 warm start wanted but not given
  std::vector<int> ineq; for(int j = 0; j < p.m; j++) if(!p.eq(j)) ineq.push_back(j);
  Rng q(choose(CFG, 1u << 30));
  // given values: anything for the variables, positive multipliers where there are bounds
  auto near = [&](double v) { return v + q.u(-1, 1) * std::max(1., std::fabs(v)); };
  for(int i = 0; i < p.n; i++) {
    double l = p.xl[i], u = p.xu[i];
    if(mode == 4) {   // strictly inside
      if(l > -1e19 && u < 1e19) p.x0[i] = l + (u - l) * q.u(.01, .99); else if(l > -1e19) p.x0[i] = l + q.u(1e-3, 3.); else if(u < 1e19) p.x0[i] = u - q.u(1e-3, 3.); else p.x0[i] = q.u(-3, 3);
    } else if(q.p(.3)) p.x0[i] = l > -1e19 && q.p(.5) ? (q.p(.5) ? l : near(l)) : u < 1e19 ? (q.p(.5) ? u : near(u)) : q.u(-50, 50);
    p.zl0.push_back(l > -1e19 ? q.u(.01, 10) : 0.); p.zu0.push_back(u < 1e19 ? q.u(.01, 10) : 0.);
  }
  for(int j = 0; j < p.m; j++) p.lam0.push_back(q.u(-2, 2));
  std::vector<double> bod(p.m); if(p.m) p.cons(p.x0.data(), bod.data());
  for(int j : ineq) {
    double l = p.cl[j] - p.eqr(j), u = p.cu[j] + p.eqr(j), s;
    if(mode == 4) { if(l > -1e19 && u < 1e19) s = l + (u - l) * q.u(.05, .95); else if(l > -1e19) s = l + q.u(1e-2, 3.); else s = u - q.u(1e-2, 3.); }
    else s = q.p(.3) ? bod[j] : q.u(-5, 5);
    p.s0.push_back(s);
    p.vl0.push_back(l > -1e19 ? q.u(.01, 5) : 0.); p.vu0.push_back(u < 1e19 ? q.u(.01, 5) : 0.);
  }
  if(mode >= 4) r.opt.str("warm_start", "yes");
  int fallback = mode < 4 ? mode : choose(CFG, 4);
  if(p.form < CDENSE) p.start_mode = fallback;
  p.warm = mode == 4 ? 1 : mode == 5 ? 2 * (int)choose(CFG, 2) : 0;
  p.slacks_given = (fallback == 1 || fallback == 2) && choose(CFG, 3) == 0;
  r.opt.in("max_iter", mode == 5 ? 3 + choose(CFG, 30) : choose(CFG, 4) ? 1 + choose(CFG, 4) : 60);
  static const char* mn[] = {"starting point", "starting point (extended)", "starting point and multipliers", "no starting point", "warm start", "warm start wanted, not given"};
  describe("%s%s, %s%s", mn[mode], p.slacks_given ? " and slacks" : "", p.cls.c_str(), r.opt.text().c_str());
  fr_options(20);
  aborts_belong_elsewhere();
  if(mode == 5) {
    // as if no warm start had been asked for
    Run a = r; a.opt.str("warm_start", "no"); Spec pa = p; pa.warm = 0; a.sp = &pa;
    solve_elsewhere(a);
    if(a.recs.empty() || !a.recs[0].ran) return;
    aborts_belong_here();
    solve_alone(r);
    if(r.recs.empty() || !r.recs[0].ran) return;
    count("sim.missing_warm_starts");
    std::string d = r.recs[0].diff(a.recs[0]);
    if(!d.empty()) violate("C21", "missing-warm-start", "warm_start=yes without a warm start point from the user differs from warm_start=no: %s", d.c_str());
    if(r.recs[0].its.size() > 1) nontrivial();
    state_hash(r.recs[0].hash());
    return;
  }
  solve_alone(r);
  if(r.recs.empty() || !r.recs[0].ran || r.recs[0].its.empty()) return;
  const Rec& rec = r.recs[0]; const It& it = rec.its[0];
  if(it.iter != 0 || (int)it.x.size() != p.n) return;
  state_hash(rec.hash());
  count(std::string("start.").append(mn[mode]).c_str());
  nontrivial();
  auto wide = [](double b) { return std::fabs(b) < 1e19; };
  // the primal point: the user's, moved away from the bounds as documented
  auto project = [&](double x0, double l, double u, double& lo, double& hi) {
    lo = -1e300; hi = 1e300;
    if(wide(l) && wide(u)) { lo = l + std::min(kap1 * std::max(1., std::fabs(l)), kap2 * (u - l)); hi = u - std::min(kap1 * std::max(1., std::fabs(u)), kap2 * (u - l)); }
    else if(wide(l)) lo = l + kap1 * std::max(1., std::fabs(l));
    else if(wide(u)) hi = u - kap1 * std::max(1., std::fabs(u));
    return x0 < lo ? lo : x0 > hi ? hi : x0;
  };
  for(int i = 0; i < p.n; i++) {
    double l = p.xl[i], u = p.xu[i], x0 = fallback <= 2 || mode == 4 ? p.x0[i] : 0., lo, hi;
    double eps = 1e-9 + 3 * relax * (std::max(wide(l) ? std::fabs(l) : 0., wide(u) ? std::fabs(u) : 0.) + 1);
    bool fixed = wide(l) && wide(u) && u - l <= 2 * ftol * std::max(1., std::fabs(u));
    if(fixed) { if(!(std::fabs(it.x[i] - l) <= eps + 3 * fper * std::max(1., std::fabs(u)))) violate("C21", "fixed-variable-moved", "x[%d] = %.15g at the first iterate, fixed at %.15g", i, it.x[i], l); continue; }
    if(mode == 4) { if(memcmp(&it.x[i], &x0, 8)) violate("C21", "warm-start-changed", "x[%d] = %.17g at the first iterate, %.17g was given", i, it.x[i], x0); continue; }
    double want = project(x0, l, u, lo, hi);
    if(x0 >= lo + eps && x0 <= hi - eps ? memcmp(&it.x[i], &x0, 8) != 0 : !(std::fabs(it.x[i] - want) <= eps))
      violate("C21", "starting-point-changed", "x[%d] = %.17g at the first iterate, %.17g was given with bounds [%g, %g], expected %.17g", i, it.x[i], x0, l, u, want);
  }
  if(scaled) return;
  for(int i = 0; i < p.n; i++) {
    double l = p.xl[i], u = p.xu[i];
    if(wide(l) && wide(u) && u - l <= 2 * ftol * std::max(1., std::fabs(u))) continue;
    double zl = mode == 2 || mode == 4 ? p.zl0[i] : wide(l) ? 1. : 0., zu = mode == 2 || mode == 4 ? p.zu0[i] : wide(u) ? 1. : 0.;
    if(it.zl[i] != zl || it.zu[i] != zu) violate("C21", "bound-multipliers-changed", "multipliers of the bounds of x[%d] are %.17g, %.17g at the first iterate, expected %.17g, %.17g", i, it.zl[i], it.zu[i], zl, zu);
  }
  if(mode == 2 || mode == 4 || !lsq) for(int j = 0; j < p.m; j++) {
    double l = mode == 2 || mode == 4 ? p.lam0[j] : 0.;
    if(it.lam[j] != l) violate("C21", "multipliers-changed", "multiplier of constraint %d is %.17g at the first iterate, expected %.17g", j, it.lam[j], l);
  }
  std::vector<double> c(p.m); if(p.m) p.cons(it.x.data(), c.data());
  for(int k = 0; k < mi; k++) {
    int j = ineq[k]; double l = p.cl[j] - p.eqr(j), u = p.cu[j] + p.eqr(j), lo, hi, s0 = mode == 4 || p.slacks_given ? p.s0[k] : c[j];
    if(mode == 4) { if(memcmp(&it.s[k], &s0, 8)) violate("C21", "warm-start-changed", "slack %d = %.17g at the first iterate, %.17g was given", k, it.s[k], s0); continue; }
    double want = project(s0, l, u, lo, hi), mag = std::max(wide(l) ? std::fabs(l) : 0., wide(u) ? std::fabs(u) : 0.) + 1, eps = (1e-9 + 3 * relax) * mag + 1e-10 * (1 + std::fabs(s0)) + 3 * p.eqr(j) * mag;
    if(!(std::fabs(it.s[k] - want) <= eps)) violate("C21", "slacks-changed", "slack %d = %.15g at the first iterate, expected %.15g (%s %.15g, bounds [%g, %g])", k, it.s[k], want, p.slacks_given ? "given" : "constraint", s0, l, u);
  }
}
