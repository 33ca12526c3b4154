// C19: whatever happens in a solve, everything obtained is released with the objects, repeated solves do not accumulate, nothing is written outside of what was obtained
#include "checks.hpp"
#include "props.hpp"
#include "linfault.hpp"
#include <unistd.h>
#include <fcntl.h>
using namespace sim;
using namespace nlp;

static int descriptors() { int k = 0; for(int i = 3; i < 128; i++) k += fcntl(i, F_GETFD) != -1; return k; }

// twice the same, with memory tracked the second time (what is kept once for all processes does not count)
void released_twice(const std::function<bool()>& once, const char* what)
{
  if(!once()) return;
  int fd0 = descriptors();
  track(true);
  bool ok = once();
  track(false);
  std::string o = overrun_text();
  if(!o.empty()) { violate("C19", "written-outside", "%s: a block was written beyond its end, obtained in %s", what, o.c_str()); return; }
  if(!ok) return;
  Live l = live();
  count("sim.solves_with_tracked_memory");
  if(l.blocks) violate("C19", "memory-not-released", "%s: %zu blocks with %zu bytes are left after all objects were destroyed, obtained in %s", what, l.blocks, l.bytes, live_text(4).c_str());
  if(l.files || descriptors() > fd0) violate("C19", "file-not-closed", "%s: %zu files (%d descriptors) are left open", what, l.files, descriptors() - fd0);
}

void run_memory()
{
#ifndef HIOP_DST_FULL
  if(choose(CFG, 8) == 7) { run_pridec_memory(); return; }
#endif
  Gen g;
#ifdef HIOP_SPARSE
  g.forms = {SPARSE, SPARSE, SPARSE, SPARSE_INEQ, MDS};
#endif
  int kind = weighted(CFG, {4, 2, 1});     // 0 plain 1 infeasible (restoration) 2 degenerate
  g.infeasible = kind == 1; g.degenerate = kind == 2;
  Spec p = draw_spec(g);
  p.distrib = p.form == DENSE && choose(CFG, 2);
  Run r; r.sp = &p; r.yields = false;
  r.opt = draw_opts(p, 1);
  int mi = (int)r.opt.getn("max_iter", 40); r.opt.in("max_iter", mi > 40 ? 40 : mi);
  int fault = weighted(FAULT, {2, 3, 1.5, 1, 3});    // 0 none 1 failing evaluation 2 values that are not numbers 3 stop 4 failing factorizations and solves
  int n = p.distrib && fault != 4 ? 1 + choose(CFG, 3) : 1;
  bool c_if = false;
  if(n == 1 && p.form != SPARSE_INEQ && choose(CFG, 5) == 4) {
    c_if = true; if(fault == 1) fault = 0;      // (there is no agreed way for such functions to report failures)
    p.split = false; p.start_mode = 0; p.distrib = false;
    p.form = p.form == DENSE ? CDENSE : p.form == MDS ? CMDS : CSPARSE;
    r.fortran = p.form != CMDS && choose(CFG, 2);
  }
  if(n > 1) draw_partition(p, n);
  WorldCfg w = draw_world(n); w.random_order = false; w.max_steps = 20000000;
  if(choose(CFG, 4) == 3) { r.opt.in("verbosity_level", choose(CFG, 13)); if(p.form != DENSE && p.form != CDENSE) r.opt.str("write_kkt", "yes"); }
  if(choose(CFG, 4) == 3) r.opt.str("time_kkt", "on");
  if(!c_if) { r.reruns = choose(CFG, 4); r.rerun_mode = choose(CFG, 2); }
  r.clear_faults_on_rerun = choose(FAULT, 2);
  describe("%d processes, %s%s%s", n, r.fortran ? "Fortran interface, " : c_if ? "C interface, " : "", p.cls.c_str(), r.opt.text().c_str());
  fr_options(20);
  aborts_belong_elsewhere();
  int evals = 0, its = 0; std::vector<lin::Fault> plan;
  if(fault) {                        // where the faults can go
    Run ref = r; ref.reruns = 0;
    lin::L = lin::State(); lin::L.on = fault == 4;
    std::vector<Run> v(n, ref);
    run_world(w, [&](int k) { solve(v[k], k, n); });
    lin::L.on = false;
    if(v[0].recs.empty() || !v[0].recs[0].ran) return;
    evals = v[0].recs[0].evals; its = (int)v[0].recs[0].its.size();
    if(fault == 4) {
      std::vector<int> rs; for(int i = 0; i < lin::NROUTINE; i++) if(lin::L.calls[i]) rs.push_back(i);
      for(int i = 0, k = 1 + choose(FAULT, 3); i < k && !rs.empty(); i++) {
        lin::Fault f; f.routine = rs[choose(FAULT, (uint32_t)rs.size())];
        f.at = choose(FAULT, (uint32_t)lin::L.calls[f.routine]); f.cnt = choose(FAULT, 2) ? 1 + choose(FAULT, 4) : 1000000; f.act = choose(FAULT, 2);
        plan.push_back(f);
        describe(" %s %d fails, %d times", lin::routine_name[f.routine], f.at, f.cnt);
      }
    }
  }
  if(fault == 1 || fault == 2) {
    Fault f; f.kind = -1; f.at = choose(FAULT, (uint32_t)std::max(1, evals)); f.cnt = fault == 1 && choose(FAULT, 2) ? 1000000 : 1; f.act = fault == 1 ? A_FAIL : A_NAN + choose(FAULT, 3);
    r.faults.push_back(f);
    describe(" evaluation %d of %d %s", f.at, evals, fault == 1 ? "fails" : "returns values that are not numbers");
  }
  if(fault == 3) { r.stop_at = choose(FAULT, (uint32_t)std::max(1, its)); describe(" stopped at iteration %d", r.stop_at); }
  Live after[8]; int runs = 0;
  std::vector<Run> v;
  auto once = [&] {
    lin::State L = lin::State(); L.on = fault == 4; L.plan = plan; lin::L = L;
    runs = 0;
    v.assign(n, r);
    if(n == 1) v[0].hook = [&](int phase) { if(phase == 1 && runs < 8) after[runs++] = live(); };
    run_world(w, [&](int k) { solve(v[k], k, n); });
    lin::L.on = false;
    for(auto& q : v) if(q.recs.empty() || !q.recs.back().ran) return false;
    return true;
  };
  released_twice(once, fault == 0 ? "undisturbed" : fault == 1 ? "failing evaluation" : fault == 2 ? "invalid values" : fault == 3 ? "stopped" : "failing linear solver");
  if(v.empty() || v[0].recs.empty() || !v[0].recs.back().ran) return;
  Rec& c = v[0].recs[0];
  // further solves do not need more memory than the one before
  if(n == 1 && !c_if && fault != 4 && runs == r.reruns + 1 && runs >= 3) {
    size_t k = runs - 1;
    bool same = v[0].recs[k].diff(v[0].recs[k - 1]).empty();
    if(same) count("sim.accumulation_compared");
    if(same && after[k].blocks > after[k - 1].blocks) violate("C19", "memory-accumulates", "after solve %zu with the same %s %zu blocks with %zu bytes are in use, %zu blocks with %zu bytes after the identical solve before", k + 1, r.rerun_mode ? "problem" : "solver", after[k].blocks, after[k].bytes, after[k - 1].blocks, after[k - 1].bytes);
  }
  char b[60]; snprintf(b, sizeof b, "status.%s", status_name(c.status)); count(b);
  describe(" -> %s", status_name(c.status));
  if(lin::L.hits) count("fault.linear_solver", lin::L.hits);
  state_hash(c.hash());
  if(c.its.size() > 1 || c.faults_hit || lin::L.hits) nontrivial();
}
