// Workloads around single (possibly disturbed) optimization solves: C08, C09, C10, C17
#include "checks.hpp"
#include "props.hpp"
#include <unistd.h>
#include <cmath>
#include <cstring>
using namespace sim;
using namespace nlp;

static void draw_value_faults(Run& r, int total)
{
  // values that are not numbers, for a few consecutive evaluations
  int nf = 1 + choose(FAULT, 3);
  for(int k = 0; k < nf; k++) {
    Fault f; f.kind = weighted(FAULT, {3, 1, 2, 1, .5}) ; f.at = choose(FAULT, (uint32_t)std::max(2, total / 3)); f.cnt = 1 + weighted(FAULT, {3, 1, 1}) * 2; f.act = A_NAN + choose(FAULT, 3);
    r.faults.push_back(f);
  }
}

void run_single()
{
  Gen g;
#ifdef HIOP_SPARSE
  g.forms = {SPARSE, SPARSE, SPARSE, SPARSE_INEQ, MDS};
#endif
  int kind = 0;   // 0 plain 1 invalid values 2 infeasible problem 3 degenerate 4 user stop 5 user failure
  if(want("C08")) kind = weighted(CFG, {3, 2, 2, 2});
  else if(want("C09")) kind = weighted(CFG, {3, 2, 2, 2});
  else if(want("C10")) kind = weighted(CFG, {4, 0, 1, 1, 1, 1});
  else kind = weighted(CFG, {3, 2, 2, 2});
  g.infeasible = kind == 2; g.degenerate = kind == 3;
  Spec p = draw_spec(g);
  p.distrib = p.form == DENSE && choose(CFG, 2);
  Run r; r.sp = &p; r.yields = false;
  r.opt = draw_opts(p, 1);
  if(want("C17")) { if(choose(CFG, 2)) r.opt.in("max_iter", 1 + choose(CFG, 40)); }
  // the same problem again through the C interface
  bool twin = (want("C10") || want("C09")) && kind < 4 && choose(CFG, 5) == 0 && p.form != SPARSE_INEQ;
  int cform = p.form == DENSE ? CDENSE : p.form == MDS ? CMDS : CSPARSE;
  bool fortran = twin && cform != CMDS && choose(CFG, 3) == 0;
  Opts copt = r.opt;
  if(twin) {
    p.split = false; p.start_mode = 0; p.distrib = false;
    Opts o = c_defaults(cform); for(auto& x : r.opt.v) o.set(x); r.opt = o;
    describe("and through the %s interface: ", fortran ? "Fortran" : "C");
  }
  describe("%s kind=%d%s", p.cls.c_str(), kind, r.opt.text().c_str());
  if(kind == 1) draw_value_faults(r, 30);
  if(kind == 4) r.stop_at = choose(FAULT, 8);
  if(kind == 5) { Fault f; f.kind = choose(FAULT, p.form == DENSE ? 4 : 5); f.at = choose(FAULT, 12); f.cnt = 1000000; r.faults.push_back(f); }
  for(auto& f : r.faults) describe(" fault[%s at %d x%d act %d]", f.kind >= 0 ? kind_name[f.kind] : "any", f.at, f.cnt, f.act);
  fr_options(40);
  if(!want("C17") || kind == 1) aborts_belong_elsewhere();
  solve_alone(r);
  if(has_violation() && r.recs.empty()) return;
  if(r.recs.empty()) return;
  Rec& rec = r.recs[0];
  describe(" -> %s after %zu iterations, %d evaluations", status_name(rec.status), rec.its.size(), rec.evals);
  char b[60]; snprintf(b, sizeof b, "status.%s", status_name(rec.status)); count(b);
  state_hash(rec.hash());
  if(want("C08")) check_kkt(p, r.opt, rec);
  if(want("C09")) check_bounds(p, r.opt, rec);
  if(want("C10")) check_reports(p, r.opt, rec, true);
  if(twin && rec.ran) {
    Spec p2 = p; p2.form = cform;
    Run t = r; t.sp = &p2; t.opt = copt; t.fortran = fortran;
    solve_alone(t);
    if(t.recs.empty() || !t.recs[0].ran) { if(!has_violation()) violate("C10", "c-interface-solve-missing", "the solve did not return"); return; }
    Rec& c = t.recs[0];
    count(fortran ? "sim.fortran_interface_solves_compared" : "sim.c_interface_solves_compared");
    const char* lang = fortran ? "Fortran" : "C";
    if(c.evals != rec.evals || c.xhash != rec.xhash) violate("C10", "c-interface-evaluations", "%d evaluations through the %s interface, %d through the C++ interface, or at other points", c.evals, lang, rec.evals);
    else if(memcmp(&c.obj, &rec.obj, 8) && !(std::isnan(c.obj) && std::isnan(rec.obj))) violate("C10", "c-interface-objective", "objective %.17g, through the C++ interface %.17g", c.obj, rec.obj);
    else if(c.x.size() != rec.x.size() || memcmp(c.x.data(), rec.x.data(), 8 * c.x.size())) violate("C10", "c-interface-solution", "solution differs from the one of the C++ interface");
    else if(cform != CMDS && (c.status != rec.status || c.niter != rec.niter)) violate("C10", "c-interface-status", "%s after %d iterations, through the C++ interface %s after %d", status_name(c.status), c.niter, status_name(rec.status), rec.niter);
  }
  if(want("C17")) {
    check_books(p, r.opt, rec, kind != 1);
    int maxit = (int)r.opt.getn("max_iter", 150);
    // line search, corrections and restoration are bounded
    if(rec.evals > 4000 * (maxit + 2)) violate("C17", "too-many-evaluations", "%d evaluations with max_iter %d", rec.evals, maxit);
  }
}
