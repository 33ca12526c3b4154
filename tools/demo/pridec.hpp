// a primal decomposition problem with closed-form master solutions, for demonstrations
#pragma once
#include "hiopInterfacePrimalDecomp.hpp"
#include "hiopAlgPrimalDecomp.hpp"
#include "hiopOptions.hpp"
#include <mpi.h>
#include <vector>
#include <functional>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
using namespace hiop;
typedef std::vector<double> V;
struct Prob : hiopInterfacePriDecProblem {
  int n, nc, S, rank; V x, last; std::vector<V> masters; double obj = 0; RecourseApproxEvaluator* ev = nullptr;
  V rvals; int full = 0; std::vector<V> rgrads;
  std::vector<int> nev; std::function<void(int, int)> delay = [](int, int) {};   // (rank, term)
  Prob(int n_, int nc_, int S_, int r) : n(n_), nc(nc_), S(S_), rank(r), x(n_), nev(S_) {}
  double a(int i) const { return 1.0 + 0.5 * i; }
  double w(int s) const { return 1.0 + 0.25 * s; }
  double b(int s, int i) const { return -1.0 + 0.3 * s + 0.1 * i; }
  double f(int s, const double* z) const { double v = 0; for(int i = 0; i < nc; i++) v += 0.5 * w(s) * (z[i] - b(s, i)) * (z[i] - b(s, i)); return v; }
  V g(int s, const double* z) const { V v(nc); for(int i = 0; i < nc; i++) v[i] = w(s) * (z[i] - b(s, i)); return v; }
  double favg(const double* z) const { double v = 0; for(int s = 0; s < S; s++) v += f(s, z) / S; return v; }
  V gavg(const double* z) const { V v(nc); for(int s = 0; s < S; s++) { V q = g(s, z); for(int i = 0; i < nc; i++) v[i] += q[i] / S; } return v; }
  hiopSolveStatus solve_master(hiopVector& xo, const bool& inc, const double&, const double*, const double*, const char*) override
  {
    obj = 0;
    if(inc) { rvals.push_back(ev->get_rval()); rgrads.push_back(V(ev->get_rgrad()->local_data(), ev->get_rgrad()->local_data() + nc)); full++; }
    for(int i = 0; i < n; i++) {
      double z = a(i);
      if(inc && i < nc) { double G = ev->get_rgrad()->local_data()[i], H = ev->get_rhess()->local_data()[i], x0 = ev->get_x0()->local_data()[i]; z = (a(i) - G + H * x0) / (1 + H); }
      x[i] = z; obj += 0.5 * (z - a(i)) * (z - a(i)); xo.local_data()[i] = z;
    }
    if(inc) { double e = 0; ev->eval_f(n, x.data(), true, e); obj += e; }
    masters.push_back(x);
    return Solve_Success;
  }
  bool eval_f_rterm(size_type s, const int& k, const double* z, double& v) override { delay(rank, (int)s); nev[s]++; v = f((int)s, z); return true; }
  bool eval_grad_rterm(size_type s, const int& k, double* z, hiopVector& gr) override { V q = g((int)s, z); for(int i = 0; i < nc; i++) gr.local_data()[i] = q[i]; return true; }
  size_type get_num_rterms() const override { return S; }
  size_type get_num_vars() const override { return n; }
  void get_solution(double* o) const override { for(int i = 0; i < n; i++) o[i] = x[i]; }
  double get_objective() override { return obj; }
  bool set_recourse_approx_evaluator(const int, RecourseApproxEvaluator* e) override { ev = e; return true; }
};
#define CHECK(c, ...) do { if(!(c)) { printf("WRONG: " __VA_ARGS__); printf("\n"); fflush(stdout); MPI_Abort(MPI_COMM_WORLD, 1); } } while(0)
