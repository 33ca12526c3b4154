// Distributed dense solves: C05 (same answer on any number of processes), C06 (failures and stop requests end the solve everywhere)
#include "checks.hpp"
#include "props.hpp"
#include <algorithm>
#include <cstring>
using namespace sim;
using namespace nlp;


// relative difference of vectors
static double rd(const dv& a, const dv& b)
{
  if(a.size() != b.size()) return 1e300;
  double w = 0;
  for(size_t i = 0; i < a.size(); i++) { double d = std::fabs(a[i] - b[i]) / (1 + std::max(std::fabs(a[i]), std::fabs(b[i]))); if(!(d <= w)) { if(a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i]))) continue; w = std::isnan(d) ? 1e300 : d; } }
  return w;
}
static double rd(double a, double b) { return rd(dv{a}, dv{b}); }
// the reported quantities of one iteration in comparable form
struct Dev { double v; const char* what; };
static Dev devi(const It& p, const It& q)
{
  Dev d{0, "x"};
  auto up = [&](double v, const char* w) { if(v > d.v) { d.v = v; d.what = w; } };
  up(rd(p.x, q.x), "x"); up(rd(p.obj, q.obj), "objective"); up(rd(p.zl, q.zl), "lower bound multipliers"); up(rd(p.zu, q.zu), "upper bound multipliers");
  up(rd(p.lam, q.lam), "constraint multipliers"); up(rd(p.s, q.s), "slacks"); up(rd(p.g, q.g), "constraint values");
  up(rd(p.mu, q.mu), "mu"); up(rd(p.inf_pr, q.inf_pr), "primal infeasibility"); up(rd(p.inf_du, q.inf_du), "dual infeasibility"); up(rd(p.logbar, q.logbar), "log-barrier objective");
  up(rd(p.adu, q.adu), "dual step"); up(rd(p.apr, q.apr), "primal step");
  if(p.ls != q.ls) up(1, "number of line-search trials");
  if(p.iter != q.iter) up(1, "iteration number");
  return d;
}
static Dev devf(const Rec& p, const Rec& q)
{
  Dev d{0, "solution"};
  auto up = [&](double v, const char* w) { if(v > d.v) { d.v = v; d.what = w; } };
  up(rd(p.x, q.x), "solution"); up(rd(p.obj, q.obj), "final objective"); up(rd(p.zl, q.zl), "lower bound multipliers of the solution"); up(rd(p.zu, q.zu), "upper bound multipliers of the solution"); up(rd(p.lam, q.lam), "constraint multipliers of the solution");
  if(p.nsolcb && q.nsolcb) { up(rd(p.cbx, q.cbx), "solution given to the solution callback"); up(rd(p.cbg, q.cbg), "constraints given to the solution callback"); up(rd(p.cbobj, q.cbobj), "objective given to the solution callback"); up(rd(p.cblam, q.cblam), "multipliers given to the solution callback"); }
  return d;
}
// assemble the distributed record
static void join(dv& o, const std::vector<const dv*>& l) { o.clear(); for(auto v : l) o.insert(o.end(), v->begin(), v->end()); }
static Rec gather(std::vector<Run>& rr)
{
  Rec r = rr[0].recs[0];
  for(size_t k = 0; k < r.its.size(); k++) {
    std::vector<const dv*> a, b, c; for(auto& q : rr) { a.push_back(&q.recs[0].its[k].x); b.push_back(&q.recs[0].its[k].zl); c.push_back(&q.recs[0].its[k].zu); }
    dv x, y, z; join(x, a); join(y, b); join(z, c); r.its[k].x = x; r.its[k].zl = y; r.its[k].zu = z;
  }
  auto all = [&](dv Rec::*f) { std::vector<const dv*> a; for(auto& q : rr) a.push_back(&(q.recs[0].*f)); dv x; join(x, a); r.*f = x; };
  all(&Rec::x); all(&Rec::zl); all(&Rec::zu);
  if(r.nsolcb) { all(&Rec::cbx); all(&Rec::cbzl); all(&Rec::cbzu); }
  return r;
}
// the same problem with its variables in another order: same mathematics, different round-off
static Spec permuted(const Spec& p, const std::vector<int>& o)
{
  Spec q = p; int n = p.n;
  auto v = [&](dv& d, const dv& s) { for(int i = 0; i < n; i++) d[i] = s[o[i]]; };
  v(q.a, p.a); v(q.t, p.t); v(q.q, p.q); v(q.s, p.s); v(q.xl, p.xl); v(q.xu, p.xu); v(q.x0, p.x0); v(q.xstar, p.xstar);
  for(int k = 0; k < p.K; k++) for(int i = 0; i < n; i++) { q.G[k * n + i] = p.G[k * n + o[i]]; q.gsup[k * n + i] = p.gsup[k * n + o[i]]; }
  for(int j = 0; j < p.m; j++) for(int i = 0; i < n; i++) { int d = j * n + i, s = j * n + o[i]; q.A[d] = p.A[s]; q.Q[d] = p.Q[s]; q.R[d] = p.R[s]; q.sup[d] = p.sup[s]; }
  return q;
}
static void unpermute(Rec& r, const std::vector<int>& o)
{
  auto v = [&](dv& d) { if(d.size() != o.size()) return; dv s = d; for(size_t i = 0; i < o.size(); i++) d[o[i]] = s[i]; };
  for(auto& t : r.its) { v(t.x); v(t.zl); v(t.zu); }
  v(r.x); v(r.zl); v(r.zu); v(r.cbx); v(r.cbzl); v(r.cbzu);
}
// a solve on one process that differs from the plain one by round-off only
static bool reference(const Spec& p, const Opts& o, int variant, Rec& out)
{
  std::vector<int> ord(p.n); for(int i = 0; i < p.n; i++) ord[i] = i;
  Rng g(977 + variant);
  if(variant) for(int i = p.n - 1; i > 0; i--) std::swap(ord[i], ord[g.i(i + 1)]);
  Spec q = permuted(p, ord);
  Run r; r.sp = &q; r.opt = o; r.yields = false;
  if(variant) r.perturb = variant % 3 == 0 ? 1e-14 : 1e-15;
  solve_alone(r);
  if(r.recs.empty() || !r.recs[0].ran) return false;
  out = r.recs[0]; unpermute(out, ord);
  return true;
}
static bool used_fr(const Rec& r) { int last = 0; for(auto& t : r.its) { if(t.njac - last > 1 && &t != &r.its[0]) return true; last = t.njac; } return r.its.size() && r.calls[K_JAC] - last > 1; }

struct Cmp { const char* cls = nullptr; std::string msg; int compared = 0; bool result = false, sensitive = false; };
static Cmp compare(const std::vector<Rec>& refs, const Rec& d, int P)
{
  Cmp c; char b[300];
  const Rec& a = refs[0];
#define BAD(cl, ...) { snprintf(b, sizeof b, __VA_ARGS__); c.cls = cl; c.msg = b; return c; }
  size_t n = a.its.size(); bool same_end = true;
  for(auto& r : refs) { n = std::min(n, r.its.size()); same_end &= r.its.size() == a.its.size() && r.status == a.status; }
  double dev = 0;
  // with infeasibilities at round-off level, discrete decisions (filter tests, relative tolerances) are decided by round-off
  auto noise = [&](size_t k) { double s = 1; for(size_t j = k ? k - 1 : 0; j <= k && j < a.its.size(); j++) { for(double v : a.its[j].g) s = std::max(s, std::fabs(v)); if(a.its[j].inf_pr <= 1e-10 * s) return true; } return false; };
  auto failed = [](int s) { return s == Error_In_FR || s == Infeasible_Problem || s == Feasible_Not_Optimal || s == Err_Step_Computation || s == Steplength_Too_Small; };
  for(size_t k = 0; k < n; k++) {
    for(auto& r : refs) dev = std::max(dev, devi(a.its[k], r.its[k]).v);
    double tol = 1e-8 + 1e3 * dev;
    if(tol > 1e-3) { c.sensitive = true; return c; }
    if(k >= d.its.size() && noise(k)) { c.sensitive = true; return c; }
    if(k >= d.its.size()) BAD("fewer-iterations", "on %d processes the solve ended with %s after %zu iterations, on one process iteration %d is reached", P, status_name(d.status), d.its.size(), a.its[k].iter)
    Dev v = devi(a.its[k], d.its[k]);
    if(v.v > tol && a.its[k].ls != d.its[k].ls && noise(k)) { c.sensitive = true; return c; }
    if(v.v > tol) BAD("iterate-differs", "iteration %d: %s on %d processes differs from one process by %g (allowed %g)", a.its[k].iter, v.what, P, v.v, tol)
    c.compared++;
  }
  if(!same_end) { c.sensitive = true; return c; }
  for(auto& r : refs) dev = std::max(dev, devf(a, r).v);
  double tf = 1e-8 + 1e3 * dev;
  if(tf > 1e-3) { c.sensitive = true; return c; }
  if(d.its.size() && (d.status != a.status || d.its.size() != a.its.size()) && (noise(std::min(a.its.size(), d.its.size()) - 1) || (used_fr(a) && failed(a.status) && failed(d.status)))) { c.sensitive = true; return c; }
  if(d.status != a.status) BAD("status-differs", "status %s on %d processes, %s on one", status_name(d.status), P, status_name(a.status))
  if(d.its.size() != a.its.size() || d.niter != a.niter) BAD("iterations-differ", "%zu reported iterates on %d processes, %zu on one", d.its.size(), P, a.its.size())
  Dev v = devf(a, d);
  if(v.v > tf) BAD("result-differs", "%s on %d processes differs from one process by %g (allowed %g)", v.what, P, v.v, tf)
  c.result = true;
  return c;
#undef BAD
}
// a problem close to p (objective and starting point change by up to 1%)
static Spec neighbour(const Spec& p, int v)
{
  Spec q = p; Rng g(4711 + v);
  auto j = [&](dv& d) { for(double& x : d) x *= 1 + .01 * (2 * g.u() - 1); };
  j(q.a); j(q.t); j(q.q); j(q.s); j(q.w); j(q.x0);
  return q;
}
// A difference counts when a problem next to it shows one as well: at isolated problems (ties, singular systems) a decision
// may hang on round-off in a way that all references agree on.
static bool confirmed(const Spec& p, const Opts& o, int P, const WorldCfg& w, int work)
{
  for(int v = 0; v < 5; v++) {
    Spec q = neighbour(p, v);
    std::vector<Rec> refs;
    for(int k = 0; k < 10; k++) { Rec r; if(!reference(q, o, k, r)) break; refs.push_back(r); }
    if(refs.size() < 10) continue;
    std::vector<Run> rr(P);
    for(int k = 0; k < P; k++) { rr[k].sp = &q; rr[k].opt = o; rr[k].work = work; }
    if(!run_world(w, [&](int rank) { solve(rr[rank], rank, P); })) continue;
    bool ok = true; for(auto& r : rr) ok &= !r.recs.empty() && r.recs[0].ran;
    if(!ok) continue;
    Cmp c = compare(refs, gather(rr), P);
    if(c.cls) { ev("also on neighbour %d: %s", v, c.msg.c_str()); return true; }
  }
  return false;
}
void run_dist()
{
  Gen g; g.form = DENSE; g.maxn = 14;
  bool c6 = want("C06");
  int kind = c6 ? weighted(CFG, {3, 1, 1}) : weighted(CFG, {5, 1, .7});   // 0 plain 1 degenerate 2 infeasible
  g.degenerate = kind == 1; g.infeasible = kind == 2;
  Spec p = draw_spec(g);
  int P = range(CFG, 2, thorough() ? 8 : 6);
  draw_partition(p, P);
  Opts o = draw_opts(p, c6 ? 1 : choose(CFG, 2));
  if(o.find("recalc_lsq_duals_tol")) o.num("recalc_lsq_duals_tol", 1e10);   // with 0, round-off in the infeasibility decides which duals are used
  o.in("max_iter", std::min(40., o.getn("max_iter", 40)));
  describe("%s P=%d cols=", p.cls.c_str(), P);
  for(int c : p.cols) describe("%d,", c);
  describe("%s", o.text().c_str());
  WorldCfg w = draw_world(P);
  w.max_steps = 30000000;
  fr_options(20);
  int work = choose(SCHED, 3) == 2 ? 30 : 0;
  std::vector<Run> rr(P);
  std::vector<Fault> faults; int stop_at = -1;
  if(c6) {
    if(choose(FAULT, 5) == 4) { stop_at = choose(FAULT, 12); describe(" stop at iteration %d", stop_at); }
    else { Fault f; f.kind = (int)choose(FAULT, 5) - 1; f.at = choose(FAULT, 3) ? choose(FAULT, f.kind < 0 ? 60 : 15) : choose(FAULT, 3); f.cnt = choose(FAULT, 3) ? 1000000 : 1; faults.push_back(f); describe(" %s fails at call %d%s", f.kind < 0 ? "any evaluation" : kind_name[f.kind], f.at, f.cnt > 1 ? " and later" : ""); }
  }
  std::vector<Rec> refs;
  aborts_belong_elsewhere();
  if(!c6) for(int v = 0; v < 3; v++) { Rec r; if(!reference(p, o, v, r)) { count("sim.reference_not_available"); return; } refs.push_back(r); }
  for(int k = 0; k < P; k++) { rr[k].sp = &p; rr[k].opt = o; rr[k].work = work; rr[k].faults = faults; rr[k].stop_at = stop_at; rr[k].abort_counts_after_fault = c6; }
  bool back = run_world(w, [&](int rank) { solve(rr[rank], rank, P); });
  if(!back) return;
  for(auto& r : rr) if(r.recs.empty() || !r.recs[0].ran) return;
  Rec& r0 = rr[0].recs[0];
  describe(" -> %s after %zu iterations", status_name(r0.status), r0.its.size());
  char b[60]; snprintf(b, sizeof b, "status.%s", status_name(r0.status)); count(b);
  state_hash(r0.hash());
  const char* pr = prop();
  // agreement of the processes
  for(int k = 1; k < P; k++) {
    Rec& q = rr[k].recs[0];
    if(q.status != r0.status || q.getstatus != r0.getstatus) violate(pr, "status-differs-between-ranks", "rank 0 returns %s (getter %s), rank %d %s (getter %s)", status_name(r0.status), status_name(r0.getstatus), k, status_name(q.status), status_name(q.getstatus));
    if(q.its.size() != r0.its.size() || q.niter != r0.niter) violate(pr, "iterations-differ-between-ranks", "rank 0: %zu reports, %d iterations; rank %d: %zu reports, %d iterations", r0.its.size(), r0.niter, k, q.its.size(), q.niter);
    if(q.nsolcb != r0.nsolcb || q.cb_status != r0.cb_status) violate(pr, "solution-callback-differs-between-ranks", "rank 0: %d solution callbacks, status %d; rank %d: %d, status %d", r0.nsolcb, r0.cb_status, k, q.nsolcb, q.cb_status);
    if(!c6) {
      for(size_t i = 0; i < r0.its.size() && i < q.its.size(); i++) {
        It x = r0.its[i], y = q.its[i]; x.x = y.x; x.zl = y.zl; x.zu = y.zu;
        Dev d = devi(x, y);
        if(d.v > 0) ev("iteration %d: rank 0 and %d: %s differ by %g (primal step %.17g %.17g dual step %.17g %.17g mu %g %g)", x.iter, k, d.what, d.v, x.apr, y.apr, x.adu, y.adu, x.mu, y.mu);
        if(d.v > 1e-9) { violate("C05", "report-differs-between-ranks", "iteration %d: %s on rank 0 and rank %d differ by %g", x.iter, d.what, k, d.v); break; }
      }
      double d = std::max(rd(r0.obj, q.obj), rd(r0.lam, q.lam));
      if(d > 1e-9) violate("C05", "result-differs-between-ranks", "objective or constraint multipliers differ between rank 0 and %d by %g", k, d);
    }
  }
  if(has_violation()) return;
  if(c6) {
    bool hit = false; int after = 0, first_hit = 0;
    for(auto& r : rr) { hit |= r.recs[0].faults_hit || r.recs[0].stop_hit; after += r.recs[0].bad_calls_after; if(r.recs[0].faults_hit) first_hit = r.recs[0].evals - r.recs[0].evals_at_hit - 1; }
    if(!hit) { count("sim.fault_not_reached"); return; }
    nontrivial();
    bool stop = r0.stop_hit;
    if(stop && r0.status != User_Stopped) violate("C06", "stop-request-status", "the user asked to stop at iteration %d, the solver returned %s", stop_at, status_name(r0.status));
    if(!stop && r0.status != Error_In_User_Function) violate("C06", "user-failure-status", "%s failed, the solver returned %s", kind_name[r0.hit_kind], status_name(r0.status));
    if(after) violate("C06", "calls-after-end", "%d user calls after the outcome was reported", after);
    (void)first_hit;
    return;
  }
  // against one process
  Rec d = gather(rr);
  if(tracing()) for(size_t k = 0; k < d.its.size() && k < refs[0].its.size(); k++) { It &x = refs[0].its[k], &y = d.its[k]; ev("iteration %d one/many: obj %.15g %.15g inf_pr %g %g inf_du %g %g mu %g %g ls %d %d apr %.12g %.12g dev %g", x.iter, x.obj, y.obj, x.inf_pr, y.inf_pr, x.inf_du, y.inf_du, x.mu, y.mu, x.ls, y.ls, x.apr, y.apr, devi(x, y).v); }
  Cmp c = compare(refs, d, P);
  if(c.cls) {   // many more round-off level variants before it counts
    for(int v = 3; v < 24; v++) { Rec r; if(!reference(p, o, v, r)) return; refs.push_back(r); }
    c = compare(refs, d, P);
    count("sim.comparisons_repeated_with_more_references");
    if(c.cls && confirmed(p, o, P, w, work)) violate("C05", c.cls, "%s", c.msg.c_str());
    else if(c.cls) count("sim.differences_not_confirmed_by_neighbours");
  }
  count("sim.iterations_compared", c.compared);
  if(c.compared > 3) nontrivial();
  if(c.result) { count("sim.results_compared"); if(used_fr(refs[0])) count("sim.restoration_compared"); }
  if(c.sensitive) count("sim.reference_too_sensitive");
}
