// a nonlinear program made of functions, dense or mixed dense-sparse, for demonstrations
#pragma once
#include "hiopInterface.hpp"
#include "hiopNlpFormulation.hpp"
#include "hiopAlgFilterIPM.hpp"
#include <functional>
#include <vector>
#include <string>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
using namespace hiop;
typedef std::vector<double> V;
struct Iter { int iter; double obj, inf_pr, inf_du, mu, alpha_du, alpha_pr; V x, zl, zu, g, lam; };
struct Def {
  int n = 0, m = 0, ns = 0;                 // ns: number of sparse variables (mixed dense-sparse)
  V xl, xu, x0, cl, cu;
  std::function<double(const double*)> f;
  std::function<void(const double*, double*)> grad, cons, jac;   // jac: m x n row-major
  std::function<void(const double*, double, const double*, double*)> hess;   // n x n row-major, Lagrangian
  // hooks
  std::function<bool(const char*, const double*)> called = [](const char*, const double*) { return true; };
  std::function<bool(const Iter&)> on_iter = [](const Iter&) { return true; };
  bool onecall = false;
  // results
  std::vector<Iter> iters;
  bool have_sol = false; int sol_status = -999; Iter sol;
  bool one(const char* w, const double* x) { return called(w, x); }
  bool vi(size_type n_, double* l, double* u, hiopInterfaceBase::NonlinearityType* t) { for(int i = 0; i < n; i++) { l[i] = xl[i]; u[i] = xu[i]; t[i] = hiopInterfaceBase::hiopNonlinear; } return true; }
  bool ci(double* l, double* u, hiopInterfaceBase::NonlinearityType* t) { for(int i = 0; i < m; i++) { l[i] = cl[i]; u[i] = cu[i]; t[i] = hiopInterfaceBase::hiopNonlinear; } return true; }
  Iter mk(int it, double obj, double ipr, double idu, const double* x, const double* zl, const double* zu, const double* g, const double* lam, double mu, double ad, double ap)
  { Iter r{it, obj, ipr, idu, mu, ad, ap}; r.x.assign(x, x + n); if(zl) r.zl.assign(zl, zl + n); if(zu) r.zu.assign(zu, zu + n); if(g) r.g.assign(g, g + m); if(lam) r.lam.assign(lam, lam + m); return r; }
};
#define DEMO_COMMON \
  Def& d; \
  bool get_prob_sizes(size_type& n, size_type& m) override { n = d.n; m = d.m; return true; } \
  bool get_vars_info(const size_type& n, double* l, double* u, NonlinearityType* t) override { return d.vi(n, l, u, t); } \
  bool get_cons_info(const size_type& m, double* l, double* u, NonlinearityType* t) override { return d.ci(l, u, t); } \
  bool eval_f(const size_type& n, const double* x, bool, double& o) override { if(!d.one("f", x)) return false; o = d.f(x); return true; } \
  bool eval_grad_f(const size_type& n, const double* x, bool, double* g) override { if(!d.one("grad", x)) return false; d.grad(x, g); return true; } \
  bool eval_cons(const size_type& n, const size_type& m, const size_type& k, const size_type* idx, const double* x, bool, double* c) override \
  { if(d.onecall) return false; if(!d.one("cons", x)) return false; V a(d.m + 1); if(d.m) d.cons(x, a.data()); for(int i = 0; i < (int)k; i++) c[i] = a[idx[i]]; return true; } \
  bool eval_cons(const size_type& n, const size_type& m, const double* x, bool, double* c) override { if(!d.onecall) return false; if(!d.one("cons", x)) return false; if(d.m) d.cons(x, c); return true; } \
  bool get_starting_point(const size_type& n, double* x) override { for(int i = 0; i < d.n; i++) x[i] = d.x0[i]; return true; } \
  void solution_callback(hiopSolveStatus s, size_type n, const double* x, const double* zl, const double* zu, size_type m, const double* g, const double* lam, double obj) override \
  { d.have_sol = true; d.sol_status = s; d.sol = d.mk(-1, obj, 0, 0, x, zl, zu, g, lam, 0, 0, 0); } \
  bool iterate_callback(int it, double obj, double lobj, int n, const double* x, const double* zl, const double* zu, int m_in, const double* s, int m, const double* g, const double* lam, \
    double ipr, double idu, double op, double mu, double ad, double ap, int ls) override \
  { d.iters.push_back(d.mk(it, obj, ipr, idu, x, zl, zu, g, lam, mu, ad, ap)); return d.on_iter(d.iters.back()); }
struct DenseP : hiopInterfaceDenseConstraints {
  DenseP(Def& q) : d(q) {}
  DEMO_COMMON
  bool eval_Jac_cons(const size_type& n, const size_type& m, const size_type& k, const size_type* idx, const double* x, bool, double* J) override
  { if(d.onecall) return false; if(!d.one("jac", x)) return false; V a((size_t)d.m * d.n + 1); if(d.m) d.jac(x, a.data()); for(int i = 0; i < (int)k; i++) memcpy(J + (size_t)i * d.n, a.data() + (size_t)idx[i] * d.n, sizeof(double) * d.n); return true; }
  bool eval_Jac_cons(const size_type& n, const size_type& m, const double* x, bool, double* J) override { if(!d.onecall) return false; if(!d.one("jac", x)) return false; if(d.m) d.jac(x, J); return true; }
};
struct MdsP : hiopInterfaceMDS {   // every Jacobian entry of a sparse variable is stored; sparse Hessian block is diagonal
  MdsP(Def& q) : d(q) {}
  DEMO_COMMON
  bool get_sparse_dense_blocks_info(int& nxs, int& nxd, int& nje, int& nji, int& nhss, int& nhsd) override
  { nxs = d.ns; nxd = d.n - d.ns; int e = 0, q = 0; for(int i = 0; i < d.m; i++) (d.cl[i] == d.cu[i] ? e : q)++; nje = e * d.ns; nji = q * d.ns; nhss = d.ns; nhsd = 0; return true; }
  bool eval_Jac_cons(const size_type& n, const size_type& m, const size_type& k, const size_type* idx, const double* x, bool, const size_type& nxs, const size_type& nxd, const int& nnz, int* ii, int* jj, double* MM, double* JD) override
  {
    if(!d.one("jac", x)) return false;
    V a((size_t)d.m * d.n + 1); if(d.m) d.jac(x, a.data()); int t = 0;
    for(int i = 0; i < (int)k; i++) for(int j = 0; j < d.ns; j++, t++) { if(ii) { ii[t] = i; jj[t] = j; } if(MM) MM[t] = a[(size_t)idx[i] * d.n + j]; }
    if(JD) for(int i = 0; i < (int)k; i++) for(int j = d.ns; j < d.n; j++) JD[(size_t)i * (d.n - d.ns) + j - d.ns] = a[(size_t)idx[i] * d.n + j];
    return true;
  }
  bool eval_Hess_Lagr(const size_type& n, const size_type& m, const double* x, bool, const double& of, const double* lam, bool, const size_type& nxs, const size_type& nxd, const int& nss, int* ii, int* jj, double* MM, double* HD, int& nsd, int*, int*, double*) override
  {
    if(!d.one("hess", x)) return false;
    V h((size_t)d.n * d.n); d.hess(x, of, lam, h.data());
    for(int j = 0; j < d.ns; j++) { if(ii) ii[j] = jj[j] = j; if(MM) MM[j] = h[(size_t)j * d.n + j]; }
    int nd = d.n - d.ns; if(HD) for(int i = 0; i < nd; i++) for(int j = 0; j < nd; j++) HD[(size_t)i * nd + j] = h[(size_t)(i + d.ns) * d.n + j + d.ns];
    return true;
  }
};
typedef std::vector<std::pair<std::string, std::string>> Set;
static void set_options(hiopNlpFormulation& nlp, const Set& s)
{
  nlp.options->SetIntegerValue("verbosity_level", 0);
  for(auto& o : s) {
    char* e; double v = strtod(o.second.c_str(), &e);
    if(*e) nlp.options->SetStringValue(o.first.c_str(), o.second.c_str());
    else if(o.second.find_first_of(".e") == std::string::npos) nlp.options->SetIntegerValue(o.first.c_str(), atoi(o.second.c_str()));
    else nlp.options->SetNumericValue(o.first.c_str(), v);
  }
}
struct Res { int status; double obj; V x; int iters; };
static Res run_solver(hiopNlpFormulation& nlp, bool newton, int n)
{
  Res r; r.x.resize(n);
  if(newton) { hiopAlgFilterIPMNewton s(dynamic_cast<hiopNlpFormulation*>(&nlp)); r.status = s.run(); r.obj = s.getObjective(); s.getSolution(r.x.data()); r.iters = s.getNumIterations(); }
  else { hiopAlgFilterIPMQuasiNewton s(dynamic_cast<hiopNlpDenseConstraints*>(&nlp)); r.status = s.run(); r.obj = s.getObjective(); s.getSolution(r.x.data()); r.iters = s.getNumIterations(); }
  return r;
}
static Res solve_dense(Def& d, const Set& s) { DenseP p(d); hiopNlpDenseConstraints nlp(p); set_options(nlp, s); return run_solver(nlp, false, d.n); }
static Res solve_mds(Def& d, const Set& s) { MdsP p(d); hiopNlpMDS nlp(p); set_options(nlp, s); nlp.options->SetStringValue("duals_update_type", "linear"); nlp.options->SetStringValue("duals_init", "zero"); nlp.options->SetStringValue("Hessian", "analytical_exact"); nlp.options->SetStringValue("KKTLinsys", "xdycyd"); return run_solver(nlp, true, d.n); }
static const double INF = 1e20;
#define CHECK(c, ...) do { if(!(c)) { printf("WRONG: " __VA_ARGS__); printf("\n"); fflush(stdout); _Exit(1); } } while(0)
#ifdef DEMO_MPI
#include <mpi.h>
#include <unistd.h>
// variables distributed evenly; separable objective, linear constraints
struct DistP : hiopInterfaceDenseConstraints {
  int n, m, R, N; V w, a, l, u, cl, cu, x0; std::function<double(int, int)> A; std::vector<index_type> cols;
  std::function<bool(const char*)> called = [](const char*) { return true; };
  std::vector<Iter> iters; std::function<bool(int)> on_iter = [](int) { return true; };
  DistP(int n_, int m_) : n(n_), m(m_), w(n_, 1.), a(n_), l(n_, -1e20), u(n_, 1e20), cl(m_, -1e20), cu(m_, 1e20), x0(n_)
  { MPI_Comm_rank(MPI_COMM_WORLD, &R); MPI_Comm_size(MPI_COMM_WORLD, &N); for(int r = 0; r <= N; r++) cols.push_back((index_type)((long)n * r / N)); }
  int lo() const { return cols[R]; } int nl() const { return cols[R + 1] - cols[R]; }
  bool get_prob_sizes(size_type& a_, size_type& b_) override { a_ = n; b_ = m; return true; }
  bool get_vecdistrib_info(size_type, index_type* c) override { for(int r = 0; r <= N; r++) c[r] = cols[r]; return true; }
  bool get_vars_info(const size_type&, double* L, double* U, NonlinearityType* t) override { for(int i = 0; i < nl(); i++) { L[i] = l[lo() + i]; U[i] = u[lo() + i]; t[i] = hiopNonlinear; } return true; }
  bool get_cons_info(const size_type&, double* L, double* U, NonlinearityType* t) override { for(int i = 0; i < m; i++) { L[i] = cl[i]; U[i] = cu[i]; t[i] = hiopLinear; } return true; }
  bool eval_f(const size_type&, const double* x, bool, double& o) override
  { if(!called("f")) return false; double s = 0; for(int i = 0; i < nl(); i++) { double d = x[i] - a[lo() + i]; s += w[lo() + i] * d * d / 2; } MPI_Allreduce(&s, &o, 1, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD); return true; }
  bool eval_grad_f(const size_type&, const double* x, bool, double* g) override { if(!called("grad")) return false; for(int i = 0; i < nl(); i++) g[i] = w[lo() + i] * (x[i] - a[lo() + i]); return true; }
  bool eval_cons(const size_type&, const size_type&, const size_type& k, const size_type* idx, const double* x, bool, double* c) override
  { if(!called("cons")) return false; V s(k + 1), o(k + 1); for(int i = 0; i < (int)k; i++) for(int j = 0; j < nl(); j++) s[i] += A((int)idx[i], lo() + j) * x[j];
    MPI_Allreduce(s.data(), o.data(), (int)k, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD); for(int i = 0; i < (int)k; i++) c[i] = o[i]; return true; }
  bool eval_Jac_cons(const size_type&, const size_type&, const size_type& k, const size_type* idx, const double* x, bool, double* J) override
  { if(!called("jac")) return false; for(int i = 0; i < (int)k; i++) for(int j = 0; j < nl(); j++) J[i * nl() + j] = A((int)idx[i], lo() + j); return true; }
  bool get_starting_point(const size_type&, double* x) override { for(int i = 0; i < nl(); i++) x[i] = x0[lo() + i]; return true; }
  bool iterate_callback(int it, double obj, double lobj, int n_, const double* x, const double* zl, const double* zu, int m_in, const double* s, int m_, const double* g, const double* lam,
    double ipr, double idu, double op, double mu, double ad, double ap, int ls) override
  { iters.push_back(Iter{it, obj, ipr, idu, mu, ad, ap, {}, {}, {}, {}, {}}); return on_iter(it); }
};
static Res solve_dist(DistP& p, const Set& s) { hiopNlpDenseConstraints nlp(p); set_options(nlp, s); Res r; hiopAlgFilterIPMQuasiNewton q(&nlp); r.status = q.run(); r.obj = q.getObjective(); r.iters = q.getNumIterations(); return r; }
// all processes have to leave with the same status and iteration count, within the time given
static void same_everywhere(const Res& r) { int v[2] = {r.status, r.iters}, lo[2], hi[2]; MPI_Allreduce(v, lo, 2, MPI_INT, MPI_MIN, MPI_COMM_WORLD); MPI_Allreduce(v, hi, 2, MPI_INT, MPI_MAX, MPI_COMM_WORLD); CHECK(lo[0] == hi[0] && lo[1] == hi[1], "processes left with different results: status %d/%d iterations %d/%d", lo[0], hi[0], lo[1], hi[1]); }
#endif
