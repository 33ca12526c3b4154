// Generated nonlinear programs, instrumented user problems for every formulation, and one recorded solve.
#pragma once
#include "sim.hpp"
#include "hiopInterface.hpp"
#include "hiopNlpFormulation.hpp"
#include "hiopAlgFilterIPM.hpp"
#include "hiopOptions.hpp"
#include <cmath>
#include <memory>
#include <string>
#include <vector>

namespace nlp {
using namespace hiop;
typedef std::vector<double> dv;

enum Form { DENSE, MDS, SPARSE, SPARSE_INEQ, CDENSE, CMDS, CSPARSE };  // the last: equalities as relaxed inequalities, condensed linear systems

/// the mathematical problem: min sum_i [a/2 (x-t)^2 + q (x-t)^4 + s sin x] + sum_k w_k/2 (g_k.x)^2  s.t. cl <= sum_i A x + Q/2 x^2 + R sin x <= cu
struct Spec {
  int form = DENSE;
  int n = 1, m = 0, K = 0;
  int ns = 0;                 // MDS: number of sparse variables (first)
  double fs = 1;              // objective scale
  dv a, t, q, s, xl, xu, x0, xstar;
  dv w, G;                    // K, K x n
  dv A, Q, R, cl, cu;         // m x n
  std::vector<char> sup;      // m x n support
  std::vector<char> gsup;     // K x n support
  bool split = true;          // constraints by subset, otherwise one call
  bool distrib = false;       // user describes a distribution even on one process
  std::vector<int> cols;      // partition (nranks+1)
  int start_mode = 0;         // 0 x0 only (basic overload) 1 x0 through the extended overload 2 duals given 3 nothing given
  int warm = 0;               // warm start point: 0 not implemented 1 given 2 written to but reported as not available
  bool slacks_given = false;  // with start modes 1 and 2
  dv zl0, zu0, lam0, s0, vl0, vu0;   // given multipliers and slacks
  bool bad_types = false;
  std::string cls;            // for descriptions
  // evaluation on full vectors
  double f(const double* x) const;
  void grad(const double* x, double* g) const;
  void cons(const double* x, double* c) const;
  void jac(const double* x, double* J) const;                  // m x n
  void hess(const double* x, double of, const double* l, double* H) const;  // n x n
  dv user_order(const double* l) const;   // from [equalities, inequalities], the order of the multipliers given to eval_Hess_Lagr
  bool is_eq(int j) const { return cl[j] == cu[j]; }
  bool eq(int j) const { return is_eq(j) && form != SPARSE_INEQ; }   // treated as an equality by the solver
  mutable double eq_relax = 1e-8;   // option eq_relax_factor
  double eqr(int j) const { return is_eq(j) && form == SPARSE_INEQ ? 1.1 * eq_relax : 0; }   // relaxation of such an equality
  int nineq() const { int k = 0; for(int j = 0; j < m; j++) k += !eq(j); return k; }
};

struct Gen {
  int form = -1;        // -1 draw among 'forms'
  std::vector<int> forms = {DENSE, MDS};
  int maxn = 12, maxm = 6;
  bool infeasible = false, degenerate = false, fixed = true, scale = true, nonconvex = true, far = true;
  int min_n = 1;
};
Spec draw_spec(const Gen& g);
void draw_partition(Spec& s, int nranks);

struct Opt { std::string name; int type; double num; std::string str; };
struct Opts {
  std::vector<Opt> v;
  void num(const char* n, double d) { set({n, 0, d, ""}); }
  void in(const char* n, int i) { set({n, 1, (double)i, ""}); }
  void str(const char* n, const char* s) { set({n, 2, 0, s}); }
  void set(const Opt& o) { for(auto& x : v) if(x.name == o.name) { x = o; return; } v.push_back(o); }
  const Opt* find(const char* n) const { for(auto& x : v) if(x.name == n) return &x; return nullptr; }
  double getn(const char* n, double d) const { auto p = find(n); return p ? p->num : d; }
  std::string gets(const char* n, const char* d) const { auto p = find(n); return p ? p->str : d; }
  void apply(hiopOptions* o) const;
  std::string text() const;
};
/// random algorithmic options; 'wild' also draws unusual algorithmic parameters
Opts draw_opts(const Spec& s, int wild);
/// the options which the C interface sets by itself
Opts c_defaults(int form);

enum Kind { K_F = 0, K_GRAD, K_CONS, K_JAC, K_HESS, K_ITER, K_FULL, K_FORCE, K_START, NKIND };
extern const char* kind_name[NKIND];
enum Action { A_OK = 0, A_FAIL, A_NAN, A_INF, A_ONE_NAN };
struct Fault {
  int kind = -1;   // -1 any evaluation (F..HESS)
  int at = 0;      // index among the calls of that kind (or of all evaluations)
  int cnt = 1;     // how many consecutive calls (large = persistent)
  int act = A_FAIL;
};

struct It {
  int iter; double obj, logbar; dv x, zl, zu, s, g, lam; double inf_pr, inf_du, onenorm, mu, adu, apr; int ls;
  int ncalls;      // evaluations done before this report
  int njac = 0;    // Jacobian evaluations done before this report
};
struct Full { dv x, zl, zu, yc, yd, s, vl, vu; };
struct Rec {
  std::vector<It> its; std::vector<Full> fulls;
  int status = -99999;
  bool ran = false;
  int calls[NKIND] = {0}; int evals = 0;
  int bad_calls_after = 0; bool done = false;
  int faults_hit = 0; int hit_kind = -1; int evals_at_hit = -1;
  bool stop_hit = false;
  // solution callback
  int nsolcb = 0; int cb_status = 0; dv cbx, cbzl, cbzu, cbg, cblam; double cbobj = 0;
  // getters
  double obj = 0; dv x, zl, zu, lam; int niter = -1, getstatus = 0;
  uint64_t hash() const;     // bitwise hash of everything reported
  void pack(std::string& s, bool out, size_t& pos);   // what diff() compares
  std::string diff(const Rec& o) const;   // first difference (empty: identical bit for bit)
  std::vector<int> evalseq;  // kinds of the evaluations in order (when wanted)
  uint64_t xhash = 0;        // hash of all evaluation points
  double max_viol = 0; int viol_i = -1, viol_kind = -1, viol_eval = -1; double viol_x = 0;
};

struct Run {
  const Spec* sp = nullptr;
  Opts opt;
  std::vector<Fault> faults;
  int stop_at = -1;            // iterate callback asks to stop at this iteration
  int stop_full_at = -1;
  int work = 0;                // virtual duration of user calls
  bool yields = true;
  bool use_full_cb = false;    // option callback_... full iterate callback
  int reruns = 0;              // number of further run() calls
  bool fortran = false;        // through the Fortran binding (with a C problem form)
  int rerun_mode = 0;          // 0 same solver object 1 new solver on the same problem object
  bool clear_faults_on_rerun = true;
  double perturb = 0;          // relative perturbation of function values (round-off level reference)
  const char* optfile = nullptr;
  bool getters = true;
  std::function<void(int phase)> hook;    // 0 before run (options set), 1 after run, 2 solver destroyed, 3 problem destroyed
  std::function<void(hiopAlgFilterIPMBase*, int run)> with_alg;   // before every run()
  std::function<void(const It&)> on_iter;
  std::function<void(int evaluation)> on_eval;
  std::vector<Rec> recs;       // one per run
  double xtol = 0;
  bool abort_counts_after_fault = false;   // an abort is this property's business once user code has failed or asked to stop
};
/// perform the solve(s) on this rank
void solve(Run& r, int rank = 0, int nranks = 1);
/// work in the scratch directory, with an options file for the restoration problems that limits their iterations
void fr_options(int max_iter);
/// run one solve alone on a world of one process
void solve_alone(Run& r);
/// the same in a copy of the process, which leaves no trace in this one
void solve_elsewhere(Run& r);

const char* status_name(int s);
bool is_success(int s);
}  // namespace nlp
