// The same solve under circumstances that must not matter: C11 (other solver instances, memory contents, earlier solves), C15 (clocks), C18 (diagnostic output)
#include "checks.hpp"
#include "props.hpp"
#include <unistd.h>
using namespace sim;
using namespace nlp;

static Spec some_problem()
{
  Gen g;
#ifdef HIOP_SPARSE
  g.forms = {SPARSE, SPARSE, SPARSE, SPARSE_INEQ, MDS};
#endif
  int kind = weighted(CFG, {4, 1.5, 1});
  g.infeasible = kind == 1; g.degenerate = kind == 2;
  Spec p = draw_spec(g);
  p.distrib = p.form == DENSE && choose(CFG, 2);
  return p;
}
static Opts some_options(const Spec& p, int maxit)
{
  Opts o = draw_opts(p, 1);
  int mi = (int)o.getn("max_iter", maxit); o.in("max_iter", mi > maxit ? maxit : mi);
  return o;
}
static bool ran(const Run& r, size_t k = 0) { return r.recs.size() > k && r.recs[k].ran; }
// the solve on n processes; one Run per process
static std::vector<Run> solve_on(const Run& r0, int n, const WorldCfg& w)
{
  std::vector<Run> v(n, r0);
  run_world(w, [&](int k) { solve(v[k], k, n); });
  return v;
}
static std::string differ(const std::vector<Run>& a, const std::vector<Run>& b)
{
  for(size_t k = 0; k < a.size(); k++) {
    if(!ran(a[k]) || !ran(b[k])) return "";
    std::string d = a[k].recs[0].diff(b[k].recs[0]);
    if(!d.empty()) return a.size() > 1 ? "process " + std::to_string(k) + ": " + d : d;
  }
  return "";
}
static void finish(const Rec& r, size_t least)
{
  char b[60]; snprintf(b, sizeof b, "status.%s", status_name(r.status)); count(b);
  state_hash(r.hash());
  if(r.its.size() > least) nontrivial();
}

// ------------------------------------------------------------------ C11
void run_repeat()
{
#ifndef HIOP_DST_FULL
  if(choose(CFG, 8) == 7) { run_pridec_same(); return; }
#endif
  fr_options(20);
  aborts_belong_elsewhere();
  int mode = weighted(CFG, {2, 3, 3, 1.5, 1.5, 3});   // 0 memory contents 1 further solves with the same objects 2 several instances interleaved 3 nested 4 after a disturbed solve 5 one after the other
  if(mode == 0) {
    Spec p = some_problem();
    int n = p.distrib ? 1 + choose(CFG, 3) : 1;
    if(n > 1) draw_partition(p, n);
    Run r; r.sp = &p; r.yields = n > 1; r.opt = some_options(p, 60);
    WorldCfg w = draw_world(n); w.random_order = false;
    int f0 = choose(FAULT, 4), f1 = (f0 + 1 + choose(FAULT, 3)) % 4; uint32_t s0 = choose(FAULT, 1000), s1 = choose(FAULT, 1000);
    describe("memory contents %d then %d, %d processes, %s%s", f0, f1, n, p.cls.c_str(), r.opt.text().c_str());
    set_fill(f0, s0); auto a = solve_on(r, n, w);
    set_fill(f1, s1); auto b = solve_on(r, n, w);
    set_fill(-1);
    std::string d = differ(a, b);
    if(!d.empty()) violate("C11", "depends-on-memory-contents", "the same solve with other previous contents of memory: %s", d.c_str());
    count("sim.memory_contents_pairs");
    if(ran(a[0])) finish(a[0].recs[0], 2);
    return;
  }
  if(mode == 1 || mode == 4) {
    Spec p = some_problem();
    Run r; r.sp = &p; r.yields = false; r.opt = some_options(p, 60);
    r.reruns = 1 + choose(CFG, 2); r.rerun_mode = choose(CFG, 2);
    describe("%d further solves with the same %s, %s%s", r.reruns, r.rerun_mode ? "problem" : "solver", p.cls.c_str(), r.opt.text().c_str());
    Run solo; solo = r; solo.reruns = 0;
    solve_elsewhere(solo);
    if(!ran(solo)) return;
    aborts_belong_here();          // (the same solve in a fresh process came to an end)
    if(mode == 4) {
      if(choose(FAULT, 2) && !solo.recs[0].its.empty()) { r.stop_at = choose(FAULT, (uint32_t)solo.recs[0].its.size()); describe(" first one stopped at iteration %d", r.stop_at); }
      else { Fault f; f.kind = -1; f.at = choose(FAULT, (uint32_t)std::max(1, solo.recs[0].evals)); f.cnt = choose(FAULT, 2) ? 1 : 1000000; r.faults.push_back(f); describe(" evaluation %d of %d of the first one fails", f.at, solo.recs[0].evals); }
    }
    solve_alone(r);
    for(size_t k = mode == 4; k < r.recs.size(); k++) {
      if(!ran(r, k)) break;
      std::string d = solo.recs[0].diff(r.recs[k]);
      count(mode == 4 ? "sim.solves_after_disturbed_solves" : "sim.repeated_solves");
      if(!d.empty()) { violate("C11", k == 0 ? "not-repeatable" : mode == 4 ? "solve-after-disturbed-solve-differs" : r.rerun_mode ? "new-solver-same-problem-differs" : "same-solver-differs", "solve %zu against a fresh one: %s", k + 1, d.c_str()); break; }
    }
    finish(solo.recs[0], 2);
    return;
  }
  int n = 2 + (mode != 3 ? choose(CFG, thorough() ? 4 : 3) : choose(CFG, 2));
  std::vector<Spec> ps; for(int i = 0; i < n; i++) ps.push_back(i > 0 && choose(CFG, 3) == 0 ? ps[0] : some_problem());
  std::vector<Run> solo(n), with(n);
  describe("%d instances %s:", n, mode == 2 ? "interleaved" : mode == 3 ? "nested" : "one after the other");
  for(int i = 0; i < n; i++) {
    solo[i].sp = &ps[i]; solo[i].yields = false; solo[i].opt = some_options(ps[i], 25);
    describe(" [%s%s]", ps[i].cls.c_str(), solo[i].opt.text().c_str());
    with[i] = solo[i];
    solve_elsewhere(solo[i]);
    if(!ran(solo[i])) return;
  }
  aborts_belong_here();            // (each of the solves came to an end in a fresh process)
  if(mode == 2) {
    for(int i = 0; i < n; i++) {
      with[i].yields = true; with[i].work = choose(SCHED, 3);
      with[i].hook = [](int) { yield(choose(SCHED, 20)); };
    }
    run_tasks(n, 1 + choose(SCHED, 2), [&](int i) { yield(choose(SCHED, 50)); solve(with[i], 0, 1); });
  } else if(mode == 5) {
    for(int i = 0; i < n; i++) solve_alone(with[i]);
  } else {
    // instance i+1 lives, partly or completely, inside a callback of instance i
    for(int i = 0; i + 1 < n; i++) {
      int at = choose(SCHED, (uint32_t)std::max(1, solo[i].recs[0].evals)); bool done = false;
      Run* in = &with[i + 1];
      with[i].on_eval = [in, at, done](int e) mutable { if(e == at && !done) { done = true; solve(*in, 0, 1); } };
    }
    solve_alone(with[0]);
  }
  for(int i = 0; i < n; i++) {
    if(!ran(with[i])) continue;
    std::string d = solo[i].recs[0].diff(with[i].recs[0]);
    count(mode == 2 ? "sim.interleaved_instances" : mode == 3 ? "sim.nested_instances" : "sim.consecutive_instances");
    if(!d.empty()) violate("C11", mode == 2 ? "interleaved-instance-differs" : mode == 3 ? "nested-instance-differs" : "consecutive-instance-differs", "instance %d of %d, alone in a fresh process against with the others: %s", i, n, d.c_str());
  }
  finish(solo[0].recs[0], 1);
}

// ------------------------------------------------------------------ C15
void run_clock()
{
#ifndef HIOP_DST_FULL
  if(choose(CFG, 8) == 7) { run_pridec_same(); return; }
#endif
  fr_options(20);
  aborts_belong_elsewhere();
  Spec p = some_problem();
  int n = p.distrib ? 1 + choose(CFG, 3) : 1;
  if(n > 1) draw_partition(p, n);
  Run r; r.sp = &p; r.yields = true; r.work = choose(SCHED, 2) * 50; r.opt = some_options(p, 60);
  if(choose(CFG, 2)) r.opt.str("time_kkt", "on");
  if(choose(CFG, 3) == 2) r.opt.in("verbosity_level", 3 + choose(CFG, 6));
  WorldCfg w = draw_world(n); w.random_order = false;
  Run calm = r; calm.work = 0;
  set_clock(ClockCfg());
  auto a = solve_on(calm, n, w);
  if(!ran(a[0])) return;
  ClockCfg c; c.mode = 1 + choose(FAULT, 5); c.skew = choose(FAULT, 2) ? 0 : 1e5 * (1 + choose(FAULT, 4));
  describe("clock mode %d skew %g, %d processes, %s%s", c.mode, c.skew, n, p.cls.c_str(), r.opt.text().c_str());
  set_clock(c);
  auto b = solve_on(r, n, w);
  set_clock(ClockCfg());
  if(!ran(b[0])) { violate("C15", "does-not-finish", "the solve finishes with a steady clock only"); return; }
  std::string d = differ(a, b);
  if(!d.empty()) violate("C15", "depends-on-clock", "steady against disturbed clock: %s", d.c_str());
  finish(a[0].recs[0], 2);
}

// ------------------------------------------------------------------ C18
void run_output()
{
#ifndef HIOP_DST_FULL
  if(choose(CFG, 8) == 7) { run_pridec_same(); return; }
#endif
  fr_options(20);
  Spec p = some_problem();
  int n = p.distrib ? 1 + choose(CFG, 3) : 1;
  if(n > 1) draw_partition(p, n);
  Run r; r.sp = &p; r.yields = n > 1; r.opt = some_options(p, 40);
  WorldCfg w = draw_world(n); w.random_order = false;
  describe("%d processes, %s%s", n, p.cls.c_str(), r.opt.text().c_str());
  aborts_belong_elsewhere();      // what is wrong without any output is not this property's business
  auto a = solve_on(r, n, w);
  if(!ran(a[0])) return;
  StdioCfg c; c.on = true;
  c.out_mode = weighted(FAULT, {2, 1, 1, 1, 1, 1}); c.file_mode = weighted(FAULT, {2, 1, 1, 1, 1, 1}); c.open_fail = weighted(FAULT, {2, 1, 1}) * .5; c.unbuffered = choose(FAULT, 4) == 3;
  Run q = r;
  int v = range(CFG, 0, 12);
  q.opt.in("verbosity_level", v);
  if(choose(CFG, 2)) q.opt.str("print_options", choose(CFG, 2) ? "yes" : "short");
  if(p.form != DENSE && choose(CFG, 2)) q.opt.str("write_kkt", "yes");
  if(choose(CFG, 2)) q.opt.str("time_kkt", "on");
  describe(" | verbosity %d write_kkt %s standard output mode %d files mode %d open failures %g", v, q.opt.gets("write_kkt", "no").c_str(), c.out_mode, c.file_mode, c.open_fail);
  aborts_belong_here();
  set_stdio(c);
  auto b = solve_on(q, n, w);
  set_stdio(StdioCfg());
  if(!ran(b[0])) { violate("C18", "does-not-finish", "the solve finishes only without output"); return; }
  std::string d = differ(a, b);
  if(!d.empty()) violate("C18", "depends-on-output", "without against with output: %s", d.c_str());
  finish(a[0].recs[0], 1);
  if(v > 0) count("sim.verbose_solves");
}
