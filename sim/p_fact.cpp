// C16: factorizations and solves that fail, at the boundary to LAPACK (and to the sparse solver, see ma57 stand-in)
#include "checks.hpp"
#include "props.hpp"
#include "linfault.hpp"
#include <map>
#include <cstring>
#include <algorithm>
#include <cmath>
using namespace sim;
using namespace nlp;

namespace lin {
State L;
const char* routine_name[NROUTINE] = {"KKT factorization", "other symmetric factorization", "symmetric solve", "dposvx", "Cholesky factorization", "Cholesky solve"};
void begin(int kkt_min, int neg, bool ic)
{
  L = State(); L.on = true; L.kkt_min = kkt_min; L.neg = neg; L.ic = ic;
}
/// fault for the coming call of the routine, or null
const Fault* next(int routine)
{
  int k = L.calls[routine]++;
  L.since_eval[routine]++;
  if(routine == KKT) { L.worst_kkt = std::max(L.worst_kkt, L.since_eval[KKT]); if(L.persist_hit) L.after_persist++; }
  for(auto& f : L.plan) if(f.routine == routine && k >= f.at && k < f.at + f.cnt) {
    L.hits++; L.hit_routine[routine]++;
    if(f.cnt >= 1000 && f.act != WRONG_INERTIA && (f.routine == KKT || (f.routine == SOLVE && L.ic))) L.persist_hit = true;
    ev("fault: %s %d act %d", routine_name[routine], k, f.act);
    return &f;
  }
  return nullptr;
}
void bad(const void* A, int why) { L.state[A] = why; }
void used(const void* A)
{
  auto it = L.state.find(A);
  if(it == L.state.end() || !it->second || L.misuse) return;
  L.misuse = it->second; L.misuse_call = L.calls[KKT];
}
/// a factorization begins
void matrix(bool kkt, const void* A, const double* v, long nv)
{
  L.state[A] = 0; L.is_kkt[A] = kkt;
  if(!kkt) return;
  L.solve_failed = L.solve_ok = false;
  std::vector<double> m(v, v + nv);
  // after a wrong inertia the system has to be regularized (the first regularization is not small)
  if(L.last_wrong && L.irregular == 1 && m == L.last && std::all_of(m.begin(), m.end(), [](double d) { return std::fabs(d) < 1e6; })) L.same++;
  L.last.swap(m); L.last_wrong = false;
}
/// what the factorization reports
void outcome(bool kkt, const void* A, bool failed, int neg, bool zeros)
{
  if(failed) { bad(A, 1); L.irregular += kkt; return; }
  if(!kkt) return;
  if(neg != L.neg || zeros) L.irregular++;
  if(L.ic && zeros && !L.inertia_exact) { bad(A, 3); return; }
  if(L.ic && (neg > L.neg || (L.inertia_exact && neg < L.neg && !zeros))) { bad(A, 2); L.last_wrong = true; }
}
void solved(const void* A, bool failed)
{
  auto it = L.is_kkt.find(A);
  if(it == L.is_kkt.end() || !it->second) return;
  if(failed) L.solve_failed = L.solve_failed || !L.solve_ok;
  else { L.solve_ok = true; L.solve_failed = false; }
}
void evaluation()
{
  for(int& k : L.since_eval) k = 0;
  L.last_wrong = false;
  if(L.solve_failed) { L.after_failed_solve++; L.solve_failed = false; }
  L.solve_ok = true;   // (the solves of the second order correction follow an evaluation; without them the step is shortened)
}
}  // namespace lin
using namespace lin;

extern "C" {
void __real_dsytrf_(char*, int*, double*, int*, int*, double*, int*, int*);
void __real_dsytrs_(char*, int*, int*, double*, int*, int*, double*, int*, int*);
void __real_dposvx_(char*, char*, int*, int*, double*, int*, double*, int*, char*, double*, double*, int*, double*, int*, double*, double*, double*, double*, int*, int*);
void __real_dpotrf_(char*, int*, double*, int*, int*);
void __real_dpotrs_(char*, int*, int*, double*, int*, double*, int*, int*);

void __wrap_dsytrf_(char* u, int* n, double* A, int* lda, int* ipiv, double* w, int* lw, int* info)
{
  User own_memory;
  bool kkt = L.kkt_min >= 0 && *n >= L.kkt_min;
  if(L.on && *lw != -1) matrix(kkt, A, A, (long)*n * *lda);
  __real_dsytrf_(u, n, A, lda, ipiv, w, lw, info);
  if(!L.on || *lw == -1) return;
  const lin::Fault* f = next(kkt ? KKT : SYM);
  if(f) {
    if(f->act == WRONG_INERTIA) {
      // one more (or less) negative eigenvalue: the sign of a pivot is wrong
      double sg = f->at % 3 == 2 ? -1 : 1; bool done = false;
      // or a pivot vanishes, numerically
      if(f->at % 4 == 1) for(int k = *n - 1; k >= 0 && !done; k--) if(ipiv[k] > 0 && A[(long)k * *lda + k] > 1e-8) { A[(long)k * *lda + k] = f->at % 8 == 1 ? 1e-15 : -1e-16; done = true; sim::count("fault.vanishing_pivot"); }
      for(int t = 0; t < 2 && !done; t++, sg = -sg) for(int k = *n - 1; k >= 0 && !done; k--) if(ipiv[k] > 0 && A[(long)k * *lda + k] * sg > 1e-8) { A[(long)k * *lda + k] *= -1; done = true; }
    } else *info = f->act == ILLEGAL ? -4 : 1 + (int)(f->at % *n);
  }
  // inertia, from the block diagonal factor (lower triangle)
  int neg = 0, zero = 0;
  for(int k = 0; k < *n; k++) {
    double d = A[(long)k * *lda + k];
    if(ipiv[k] > 0) { if(d < -1e-14) neg++; else if(d < 1e-14) zero++; }
    else if(k + 1 < *n) { double s = A[(long)k * *lda + k + 1], e = A[(long)(k + 1) * *lda + k + 1]; double det = (d / std::fabs(s)) * e - std::fabs(s); if(det < 0) neg++; else if(d < 0) neg += 2; k++; }
  }
  outcome(kkt, A, *info != 0, neg, zero > 0);
}
void __wrap_dsytrs_(char* u, int* n, int* nr, double* A, int* lda, int* ipiv, double* B, int* ldb, int* info)
{
  User own_memory;
  if(L.on) {
    used(A);
    if(next(SOLVE)) { *info = -3; solved(A, true); return; }
  }
  __real_dsytrs_(u, n, nr, A, lda, ipiv, B, ldb, info);
  if(L.on) solved(A, *info != 0);
}
void __wrap_dposvx_(char* fact, char* u, int* n, int* nr, double* A, int* lda, double* AF, int* ldaf, char* eq, double* S, double* B, int* ldb, double* X, int* ldx, double* rc, double* fe, double* be, double* w, int* iw, int* info)
{
  User own_memory;
  const lin::Fault* f = L.on ? next(POSVX) : nullptr;
  if(f && f->act != WRONG_INERTIA) { *info = f->act == ILLEGAL ? -6 : 1 + (int)(f->at % *n); *rc = 0; return; }
  __real_dposvx_(fact, u, n, nr, A, lda, AF, ldaf, eq, S, B, ldb, X, ldx, rc, fe, be, w, iw, info);
  if(f && *info == 0) *info = *n + 1;   // badly conditioned: the solution was computed nevertheless
}
void __wrap_dpotrf_(char* u, int* n, double* A, int* lda, int* info)
{
  User own_memory;
  const lin::Fault* f = L.on ? next(POTRF) : nullptr;
  __real_dpotrf_(u, n, A, lda, info);
  if(!L.on) return;
  if(f) *info = f->act == ILLEGAL ? -4 : 1 + (int)(f->at % *n);
  L.state[A] = *info ? 1 : 0;
}
void __wrap_dpotrs_(char* u, int* n, int* nr, double* A, int* lda, double* B, int* ldb, int* info)
{
  User own_memory;
  if(L.on) {
    used(A);
    if(next(POSOLVE)) { *info = -5; return; }
  }
  __real_dpotrs_(u, n, nr, A, lda, B, ldb, info);
}
}

void run_factorizations()
{
  Gen g;
#ifdef HIOP_SPARSE
  g.forms = {SPARSE, SPARSE, SPARSE, SPARSE_INEQ};
#else
  g.forms = {MDS, MDS, MDS, DENSE};
#endif
  int kind = weighted(CFG, {5, 3, 1, 1});   // 0 easy: the faults have to be overcome 1 plain 2 infeasible (restoration) 3 degenerate
  if(kind == 0) { g.nonconvex = g.far = g.scale = g.fixed = false; }
  g.infeasible = kind == 2; g.degenerate = kind == 3;
  Spec p = draw_spec(g);
  Run r; r.sp = &p; r.yields = false;
  r.opt = draw_opts(p, kind != 0);
  bool newton = p.form != DENSE, sparse = p.form == SPARSE || p.form == SPARSE_INEQ;
  if(p.form == SPARSE_INEQ) r.opt.str("KKTLinsys", "condensed");
  bool ic = r.opt.gets("fact_acceptor", "inertia_correction") == "inertia_correction" || r.opt.gets("fact_acceptor", "") == "";
  bool track = ic && p.form != SPARSE_INEQ;      // (there the systems of the fast and of the safe mode need different inertias)
  int kkt_min = p.form == SPARSE ? p.n + p.m : p.form == SPARSE_INEQ ? p.n : newton ? p.n - p.ns + p.m : -1;
  describe("%s kind=%d%s", p.cls.c_str(), kind, r.opt.text().c_str());
  fr_options(30);
  aborts_belong_elsewhere();
  Run ref = r;
  begin(kkt_min, p.m, track); if(sparse) L.lsq = p.n + (p.form == SPARSE ? p.nineq() : p.m), L.inertia_exact = true;
  ref.on_eval = [](int) { evaluation(); };
  solve_alone(ref);
  L.on = false;
  State L0 = L;
  if(ref.recs.empty() || !ref.recs[0].ran) return;
  int space = sparse ? choose(FAULT, 4) : 0;
  Rec& q = ref.recs[0];
  // the faults
  std::vector<lin::Fault> plan;
  std::vector<int> rs; for(int i = 0; i < NROUTINE; i++) if(L0.calls[i]) rs.push_back(i);
  if(rs.empty()) { count("sim.no_factorization"); return; }
  bool persistent = choose(FAULT, 4) == 3, solves = false;
  int nf = persistent ? 1 : 1 + weighted(FAULT, {3, 2, 1});
  for(int i = 0; i < nf; i++) {
    lin::Fault f;
    f.routine = L0.calls[KKT] && choose(FAULT, 3) != 2 ? (int)KKT : rs[choose(FAULT, (uint32_t)rs.size())];
    int k = L0.calls[f.routine];
    f.at = choose(FAULT, 2) ? choose(FAULT, (uint32_t)std::min(k, 4)) : choose(FAULT, (uint32_t)k);
    f.cnt = persistent ? 1000000 : 1 + weighted(FAULT, {4, 3, 2, 1, 1});
    f.act = choose(FAULT, 3);
    if(f.act == WRONG_INERTIA && ((f.routine == KKT && !ic) || f.routine == SYM)) f.act = SINGULAR;
    solves |= f.routine == SOLVE || f.routine == POSOLVE;
    plan.push_back(f);
    describe(" fault[%s %d x%d act %d]", routine_name[f.routine], f.at, f.cnt, f.act);
  }
  int base_it = q.its.size();
  bool moderate = q.its.size() <= 60;   // badly conditioned problems may be lost to any change of the regularization
  for(auto& it : q.its) { if(it.inf_du > 1e4) moderate = false; for(double l : it.lam) if(std::fabs(l) > 1e3) moderate = false; }
  int total = 0; for(auto& f : plan) total += f.cnt;                         // (all of them can meet in one factorization)
  bool curved = false; for(double v : p.Q) curved |= v != 0; for(double v : p.R) curved |= v != 0;
  bool must_solve = kind == 0 && moderate && total <= 6 && !persistent && !solves && q.status == Solve_Success && newton
    && (r.opt.gets("linsol_mode", "stable") == "stable" || r.opt.gets("linsol_mode", "") == "");   // (the other modes do without the restoration of feasibility)
  if(must_solve) r.opt.in("max_iter", base_it + 300);
  begin(kkt_min, p.m, track); if(sparse) L.lsq = p.n + (p.form == SPARSE ? p.nineq() : p.m), L.inertia_exact = true;
  L.plan = plan; L.space = space;
  r.on_eval = [](int) { evaluation(); };
  aborts_belong_here("relerr<tol|isfinite_local");   // debugging checks of the accuracy of the quasi-Newton algebra
  r.hook = [](int phase) { if(phase == 1) L.on = false; };
  solve_alone(r);
  L.on = false;
  if(r.recs.empty() || !r.recs[0].ran) return;
  Rec& c = r.recs[0];
  describe(" -> %s (undisturbed %s) after %zu iterations, %d faults", status_name(c.status), status_name(q.status), c.its.size(), L.hits);
  char b[80]; snprintf(b, sizeof b, "status.%s", status_name(c.status)); count(b);
  state_hash(c.hash());
  if(!L.hits) { count("sim.fault_not_reached"); return; }
  nontrivial();
  for(int i = 0; i < NROUTINE; i++) if(L.hit_routine[i]) { snprintf(b, sizeof b, "fault.%s", routine_name[i]); for(char* s = b; *s; s++) if(*s == ' ') *s = '_'; count(b, L.hit_routine[i]); }
  if(persistent && L.persist_hit) count("sim.persistent");
  if(L.misuse) violate("C16", "bad-factorization-used", "a solve used the factors of a factorization that %s (KKT factorization %d)", L.misuse == 1 ? "was reported as failed" : L.misuse == 3 ? "has a zero pivot" : "has the wrong inertia", L.misuse_call);
  if(L.same) violate("C16", "retried-without-regularization", "after a wrong inertia the same matrix was factorized again");
  if(L.after_failed_solve) violate("C16", "evaluated-after-failed-solve", "after a failed solve of the KKT system the user's functions were evaluated without another factorization");
  int lim = ic ? 30 : 300;
  if(L.worst_kkt > lim) violate("C16", "too-many-attempts", "%d factorizations without an evaluation of the user's functions in between", L.worst_kkt);
  if(L.after_persist > 2 * lim) violate("C16", "too-many-attempts", "%d factorizations after the linear solver started to fail", L.after_persist);
  if(!strcmp(status_name(c.status), "undocumented")) violate("C16", "undocumented-status", "run returned %d", c.status);
  check_kkt(p, r.opt, c, "C16");
  if(must_solve) {
    count("sim.recoveries_required");
    // (close to the solution the line search can fail by round-off)
    double best = 1e30; for(auto& it : c.its) best = std::min(best, std::max(it.inf_pr, it.inf_du));
    if(!is_success(c.status) && best > 1e-4 && !(curved && c.status == Infeasible_Problem)) violate("C16", "not-recovered", "undisturbed the problem is solved in %d iterations; with %d failing factorizations, which stopped, %s after %zu", base_it, L.hits, status_name(c.status), c.its.size());
  }
}
