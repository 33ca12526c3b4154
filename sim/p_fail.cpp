// C07: a failing or stopping user callback ends the solve with the documented status; objects stay usable
#include "checks.hpp"
#include "props.hpp"
using namespace sim;
using namespace nlp;

void run_failing()
{
  Gen g;
#ifdef HIOP_SPARSE
  g.forms = {SPARSE, SPARSE, SPARSE, SPARSE_INEQ, MDS};
#endif
  int kind = weighted(CFG, {4, 1.5, 1});     // 0 plain 1 infeasible (restoration) 2 degenerate
  g.infeasible = kind == 1; g.degenerate = kind == 2;
  Spec p = draw_spec(g);
  p.distrib = p.form == DENSE && choose(CFG, 2);
  Run r; r.sp = &p; r.yields = false;
  r.opt = draw_opts(p, 1);
  int mi = (int)r.opt.getn("max_iter", 60); r.opt.in("max_iter", mi > 60 ? 60 : mi);
  describe("%s%s", p.cls.c_str(), r.opt.text().c_str());
  fr_options(20);
  aborts_belong_elsewhere();
  // the undisturbed solve tells which calls there are to fail
  Run ref = r;
  solve_alone(ref);
  if(ref.recs.empty() || !ref.recs[0].ran) return;
  Rec& q = ref.recs[0];
  bool stop = choose(FAULT, 6) == 5;
  bool later = choose(FAULT, 3) != 0;
  if(stop) {
    if(q.its.empty()) return;
    r.stop_at = choose(FAULT, (uint32_t)q.its.size());
    describe(" stop requested at iteration %d of %zu", r.stop_at, q.its.size());
  } else {
    Fault f;
    int k;
    if(choose(FAULT, 2)) { f.kind = -1; k = q.evals; }
    else { std::vector<int> ks; for(int i = K_F; i <= K_HESS; i++) if(q.calls[i]) ks.push_back(i); if(ks.empty()) return; f.kind = ks[choose(FAULT, (uint32_t)ks.size())]; k = q.calls[f.kind]; }
    if(k < 1) return;
    f.at = later ? choose(FAULT, (uint32_t)k) : choose(FAULT, (uint32_t)std::min(k, 6));
    f.cnt = choose(FAULT, 2) ? 1 : 1000000;
    r.faults.push_back(f);
    describe(" %s fails at call %d of %d%s", f.kind < 0 ? "evaluation" : kind_name[f.kind], f.at, k, f.cnt > 1 ? " and later" : "");
  }
  r.abort_counts_after_fault = true;
  r.reruns = choose(CFG, 2); r.rerun_mode = choose(CFG, 2);
  // a further solve with the same objects is not disturbed; debug assertions about it are not this property's business
  r.hook = [](int phase) { if(phase == 1) aborts_belong_elsewhere(); };
  solve_alone(r);
  if(r.recs.empty() || !r.recs[0].ran) return;
  Rec& c = r.recs[0];
  describe(" -> %s", status_name(c.status));
  char b[60]; snprintf(b, sizeof b, "status.%s", status_name(c.status)); count(b);
  state_hash(c.hash());
  if(!c.faults_hit && !c.stop_hit) { count("sim.fault_not_reached"); return; }
  nontrivial();
  if(stop) {
    if(c.status != User_Stopped) violate("C07", "stop-request-status", "the user asked to stop at iteration %d, the solver returned %s", r.stop_at, status_name(c.status));
    else if(c.its.back().iter != r.stop_at) violate("C07", "stopped-late", "the user asked to stop at iteration %d, the last reported iteration is %d", r.stop_at, c.its.back().iter);
  } else {
    if(c.status != Error_In_User_Function) violate("C07", "user-failure-status", "%s failed (evaluation %d), the solver returned %s", kind_name[c.hit_kind], c.evals_at_hit, status_name(c.status));
    if(c.evals - c.evals_at_hit - 1 > 8) violate("C07", "calls-after-failure", "%d further evaluations after %s failed", c.evals - c.evals_at_hit - 1, kind_name[c.hit_kind]);
  }
  if(c.bad_calls_after) violate("C07", "calls-after-end", "user functions called after the outcome was reported");
  if(r.reruns && r.recs.size() > 1 && r.recs[1].ran) {
    count("sim.solves_after_failure");
    Rec& s = r.recs[1];
    if(s.status == Error_In_User_Function) violate("C07", "not-usable-after-failure", "after the failing solve the next one reports Error_In_User_Function although nothing fails");
  }
}
