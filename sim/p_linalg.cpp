// Distributed vectors and dense matrices (C14): random programs of operations executed by simulated processes on their parts,
// every operation compared with plain loops over the undistributed data, starting from the gathered operands.
#include "sim.hpp"
#include "props.hpp"
#include "hiopVectorPar.hpp"
#include "hiopVectorCompoundPD.hpp"
#include "hiopMatrixDenseRowMajor.hpp"
#include "hiopKrylovSolver.hpp"
#include "hiopLinearOperator.hpp"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <limits>
#include <memory>
#include <mpi.h>
using namespace sim;
using namespace hiop;
typedef std::vector<double> dv;

enum K { SETZERO, SETCONST, SETCONST_P, COPY, COPYARR, COPY_P, COPYTO, MULT, DIV, DIV_P, MINC, MINV, MAXC, MAXV, ABS, SGN, SQRT, SCALE, AXPY, AXPY_P, AXZPY, AXDZPY, AXDZPY_P,
         ADDC, ADDC_P, NEG, INV, LOGGRAD, DAMPADD, PROJECT, SELECT, ADJUST, NEWCOPY, CLONE, FROMSTART,
         TWONORM, DOT, INFNORM, ONENORM, MINALL, MIN_P, ALLPOS, ALLPOS_P, MATCHES, ISZERO, ISEQUAL, NLESS, NABSLESS,
         INFLOC, ONELOC, LOGBAR, SUMLOC, DAMPLOC, FRAC, FRAC_P, FINITE,
         M_ZERO, M_CONST, M_COPY, M_COPYBUF, M_TIMES, M_TRANS, M_MMT, M_ADD, M_MAX, M_ROWMAX, M_SCALEROW, M_APPEND, M_REPLACE, M_SHIFT, M_GETROW, M_COPYROWS, M_COPYIDX, M_NEWCOPY, M_FINITE,
         M_JACFR, V_FRPARTS, M_COPYTO, PCG, BICG, WHOLE, NOPS };
static const char* KN[] = {"setToZero", "setToConstant", "setToConstant_w_patternSelect", "copyFrom", "copyFrom(array)", "copy_from_w_pattern", "copyTo", "componentMult", "componentDiv", "componentDiv_w_selectPattern",
  "component_min(constant)", "component_min", "component_max(constant)", "component_max", "component_abs", "component_sgn", "component_sqrt", "scale", "axpy", "axpy_w_pattern", "axzpy", "axdzpy", "axdzpy_w_pattern",
  "addConstant", "addConstant_w_patternSelect", "negate", "invert", "addLogBarrierGrad", "addLinearDampingTerm", "projectIntoBounds_local", "selectPattern", "adjustDuals_plh", "new_copy", "alloc_clone", "copy_from_starting_at",
  "twonorm", "dotProductWith", "infnorm", "onenorm", "min", "min_w_pattern", "allPositive", "allPositive_w_patternSelect", "matchesPattern", "is_zero", "is_equal", "numOfElemsLessThan", "numOfElemsAbsLessThan",
  "infnorm_local", "onenorm_local", "logBarrier_local", "sum_local", "linearDampingTerm_local", "fractionToTheBdry_local", "fractionToTheBdry_w_pattern_local", "is*_local",
  "matrix setToZero", "matrix setToConstant", "matrix copyFrom", "matrix copyFrom(buffer)", "timesVec", "transTimesVec", "timesMatTrans", "addMatrix", "max_abs_value", "row_max_abs_value", "scale_row", "appendRow", "replaceRow",
  "shiftRows", "getRow", "copyRowsFrom", "copyRowsFrom(indexes)", "matrix new_copy", "matrix isfinite", "set_Jac_FR", "copyToStarting", "matrix copy_to", "conjugate gradient solve", "BiCGStab solve", "operation on whole objects"};

const char* whole_case(uint64_t seed, bool real, dv& val, dv& mag);
static const int NV = 5, NP = 2, NM = 3;
struct Op {
  int k, a, b, c, p, q, i1, i2;
  double s, t, u;
  bool flag;
  uint64_t seed;
};
// undistributed state; mag = error scale of the entries written by the last operation (0: must be exact)
struct St {
  int n;
  dv v[NV], p[NP], mag[NV];
  int m[NM], mmax[NM];
  dv M[NM], Mmag[NM];
};
struct Exp {
  dv val, mag;            // results that all processes must get
  std::vector<dv> lval, lmag; // results of each process for its own part
  const char* name = nullptr; // of an operation on whole objects
  int krylov = 0; dv rhs, dia, one; double coef = 0, tol = 0; // the result is judged by its residual
  int skip_rows_m = -1, skip_lo = 0, skip_hi = 0; // rows with unspecified contents
};
static std::vector<int> part;
static int nr;
static std::vector<std::vector<int>> own_; // positions of the undistributed vector held by each process, in local order
// compound vectors: sizes of the parts and whether a part is distributed
struct Part { int n, off; bool dist; std::vector<index_type> part; };
static std::vector<Part> parts;

static double value(Rng& g, int style)
{
  switch(style) {
    case 0: return (double)(g.i(9) - 4);                                                    // many zeros and ties
    case 1: return g.u(-2, 2);
    case 2: return (g.p(0.5) ? -1 : 1) * std::pow(10., g.u(-8, 8));
    case 3: return g.p(0.7) ? 0. : g.u(-1, 1);
    default: return (g.p(0.5) ? -1 : 1) * std::pow(10., g.u(-60, 60));
  }
}
static dv fresh(uint64_t seed, int n, int style)
{
  Rng g(seed); dv d(n);
  for(auto& x : d) x = value(g, style);
  return d;
}
// operand variants derived from the seed of the operation
static dv positive(uint64_t seed, int n) { Rng g(seed); dv d(n); for(auto& x : d) x = std::pow(10., g.u(-6, 4)); return d; }
static dv nonzero(uint64_t seed, int n) { Rng g(seed); dv d(n); for(auto& x : d) x = (g.p(0.5) ? -1 : 1) * std::pow(10., g.u(-5, 5)); return d; }
static dv masked(dv d, const dv& p, double other) { for(size_t i = 0; i < d.size(); i++) if(p[i] == 0) d[i] = other; return d; }
static dv slice(const dv& d, int r) { dv o; for(int i : own_[r]) o.push_back(d[i]); return o; }
static dv mslice(const dv& d, int m, int n, int r) { dv o; for(int i = 0; i < m; i++) o.insert(o.end(), d.begin() + i * n + part[r], d.begin() + i * n + part[r + 1]); return o; }

// special operands of an operation, the same for the model and the processes
struct Sp { dv x, y, z, w; };
static Sp special(const Op& o, const St& s)
{
  Sp e; int n = s.n;
  switch(o.k) {
    case COPYARR: case FROMSTART: e.x = fresh(o.seed, n, o.i1); break;
    case DIV: case AXDZPY: case INV: e.x = nonzero(o.seed, n); break;
    case DIV_P: case AXDZPY_P: e.x = masked(nonzero(o.seed, n), s.p[o.p], 0.); break;
    case SQRT: e.x = positive(o.seed, n); for(int i = 0; i < n; i += 3) e.x[i] = 0; break;
    case LOGGRAD: case LOGBAR: e.x = masked(positive(o.seed, n), s.p[o.p], o.flag ? 0. : -1.); break;
    case ADJUST: e.x = positive(o.seed, n); e.y = positive(o.seed + 1, n); break;
    case FRAC: e.x = positive(o.seed, n); break;
    case FRAC_P: e.x = masked(positive(o.seed, n), s.p[o.p], o.flag ? 0. : -1.); break;
    case PROJECT: {
      Rng g(o.seed); e.x.resize(n); e.y.resize(n); e.z = fresh(o.seed + 7, n, 2);
      for(int i = 0; i < n; i++) { e.x[i] = value(g, 1) * 10; e.y[i] = e.x[i] + std::pow(10., g.u(-3, 3)); }
      if(n && o.i1 == 0) { int i = g.i(n); std::swap(e.x[i], e.y[i]); } // inconsistent bounds
      break;
    }
    case ISZERO: e.x.assign(n, 0.); if(n && o.flag) e.x[o.seed % n] = o.t; break;
    case ISEQUAL: e.x = s.v[o.a]; if(n && o.flag) e.x[o.seed % n] += 1 + std::fabs(e.x[o.seed % n]); break;
    case FINITE: e.x = s.v[o.a]; if(n && o.i1 < 3) e.x[o.seed % n] = o.i1 == 0 ? INFINITY : o.i1 == 1 ? -INFINITY : NAN; break;
    case MATCHES: e.x = s.v[o.a]; if(o.flag) e.x = masked(e.x, s.p[o.p], 0.); if(n && o.i1 == 0) e.x[o.seed % n] = 1e-300; break;
    case ALLPOS: case ALLPOS_P: e.x = positive(o.seed, n); if(n && o.flag) e.x[(o.seed / 3) % n] = o.i1 == 0 ? 0. : -1.; break;
    case M_COPYBUF: e.x = fresh(o.seed, s.m[o.a] * n, o.i1); break;
    case M_TIMES: e.x = fresh(o.seed, s.m[o.a], 1); if(o.t == 0 && o.flag) e.x.assign(s.m[o.a], NAN); break; // beta 0: the contents of y must not matter
    case M_TRANS: e.x = fresh(o.seed, s.m[o.a], 1); break;
    case M_MMT: e.x = fresh(o.seed, s.m[o.a] * s.m[o.b], 1); break;
    case M_SCALEROW: e.x = nonzero(o.seed, s.m[o.a]); break;
    case M_FINITE: e.x = s.M[o.a]; if(!e.x.empty() && o.i1 < 3) e.x[o.seed % e.x.size()] = o.i1 == 0 ? INFINITY : o.i1 == 1 ? -INFINITY : NAN; break;
    case PCG: case BICG: {
      Rng g(o.seed); e.x = fresh(o.seed + 1, n, o.i1 == 0 ? 3 : 1); e.y.resize(n); e.z.resize(n);
      for(auto& z : e.y) { z = std::pow(10., g.u(-1, 2)); if(o.k == BICG && o.flag && g.p(0.3)) z = -z; }
      for(auto& z : e.z) z = g.u(-1, 1);
      break;
    }
    case V_FRPARTS: e.x = fresh(o.seed, o.i1, 1); e.y = fresh(o.seed + 1, o.i2, 1); break;
  }
  return e;
}
// row permutation / selection for copyRowsFrom(indexes): rows of the source
static std::vector<int> rowsel(const Op& o, int nd, int ns)
{
  Rng g(o.seed); std::vector<int> r;
  for(int i = 0; i < nd; i++) r.push_back(g.i(ns));
  return r;
}

static void model(const Op& o, St& s, Exp& e)
{
  int n = s.n; Sp x = special(o, s);
  dv& d = s.v[o.a]; dv& g = s.mag[o.a]; const dv &b = s.v[o.b], &c = s.v[o.c], &p = s.p[o.p], &q = s.p[o.q];
  dv& M = s.M[o.a % NM]; dv& Mg = s.Mmag[o.a % NM]; int m = s.m[o.a % NM];
  for(auto& z : s.mag) z.assign(n, 0.);
  for(int k = 0; k < NM; k++) s.Mmag[k].assign(s.M[k].size(), 0.);
  e = Exp(); e.lval.resize(nr); e.lmag.resize(nr);
  auto out = [&](double v, double t) { e.val.push_back(v); e.mag.push_back(t); };
  auto lout = [&](int r, double v, double t) { e.lval[r].push_back(v); e.lmag[r].push_back(t); };
#define ALL(stmt) for(int i = 0; i < n; i++) { stmt; }
#define LOC(init, stmt, res, tol) for(int r = 0; r < nr; r++) { init; for(int i : own_[r]) { stmt; } lout(r, res, tol); }
  double sum = 0, as = 0;
  switch(o.k) {
    case SETZERO: ALL(d[i] = 0) break;
    case SETCONST: ALL(d[i] = o.s) break;
    case SETCONST_P: ALL(d[i] = p[i] == 1 ? o.s : 0.) break;
    case COPY: case NEWCOPY: case CLONE: { dv t = b; d = t; break; }
    case COPYARR: case FROMSTART: d = x.x; break;
    case COPY_P: ALL(if(p[i] == 1) d[i] = b[i]) break;
    case COPYTO: for(int r = 0; r < nr; r++) for(int i : own_[r]) lout(r, d[i], 0); break;
    case MULT: ALL(d[i] *= b[i]; g[i] = std::fabs(d[i])) break;
    case DIV: ALL(d[i] /= x.x[i]; g[i] = std::fabs(d[i])) break;
    case DIV_P: ALL(d[i] = p[i] == 0 ? 0. : d[i] / x.x[i]; g[i] = std::fabs(d[i])) break;
    case MINC: ALL(d[i] = std::min(d[i], o.s)) break;
    case MINV: ALL(d[i] = std::min(d[i], b[i])) break;
    case MAXC: ALL(d[i] = std::max(d[i], o.s)) break;
    case MAXV: ALL(d[i] = std::max(d[i], b[i])) break;
    case ABS: ALL(d[i] = std::fabs(d[i])) break;
    case SGN: ALL(d[i] = d[i] > 0 ? 1 : d[i] < 0 ? -1 : 0) break;
    case SQRT: ALL(d[i] = std::sqrt(x.x[i]); g[i] = d[i]) break;
    case SCALE: ALL(d[i] *= o.s; g[i] = std::fabs(d[i])) break;
    case AXPY: ALL(g[i] = std::fabs(d[i]) + std::fabs(o.s * b[i]); d[i] += o.s * b[i]) break;
    case AXPY_P: ALL(if(p[i] == 1) { g[i] = std::fabs(d[i]) + std::fabs(o.s * b[i]); d[i] += o.s * b[i]; }) break;
    case AXZPY: ALL(g[i] = std::fabs(d[i]) + std::fabs(o.s * b[i] * c[i]); d[i] += o.s * b[i] * c[i]) break;
    case AXDZPY: ALL(double t = o.s * b[i] / x.x[i]; g[i] = std::fabs(d[i]) + std::fabs(t); d[i] += t) break;
    case AXDZPY_P: ALL(if(p[i] == 1) { double t = o.s * b[i] / x.x[i]; g[i] = std::fabs(d[i]) + std::fabs(t); d[i] += t; }) break;
    case ADDC: ALL(g[i] = std::fabs(d[i]) + std::fabs(o.s); d[i] += o.s) break;
    case ADDC_P: ALL(if(p[i] == 1) { g[i] = std::fabs(d[i]) + std::fabs(o.s); d[i] += o.s; }) break;
    case NEG: ALL(d[i] = -d[i]) break;
    case INV: ALL(d[i] = 1 / x.x[i]; g[i] = std::fabs(d[i])) break;
    case LOGGRAD: ALL(if(p[i] == 1) { double t = o.s / x.x[i]; g[i] = std::fabs(d[i]) + std::fabs(t); d[i] += t; }) break;
    case DAMPADD: ALL(g[i] = std::fabs(o.s * d[i]) + std::fabs(o.t); d[i] = o.s * d[i] + (p[i] - q[i]) * o.t) break;
    case SELECT: ALL(if(p[i] == 0) d[i] = 0) break;
    case PROJECT:
      ALL(double lo = x.x[i]; double up = x.y[i]; double k1 = o.s; double k2 = o.t; d[i] = x.z[i];
          double pl = k1 * std::max(1., std::fabs(lo)); double pu = k1 * std::max(1., std::fabs(up));
          if(p[i] != 0 && q[i] != 0) { pl = std::min(pl, k2 * (up - lo)); pu = std::min(pu, k2 * (up - lo)); }
          if(p[i] != 0 && d[i] < lo + pl) d[i] = lo + pl; else if(q[i] != 0 && d[i] > up - pu) d[i] = up - pu;
          g[i] = std::fabs(lo) + std::fabs(up) + std::fabs(d[i]))
      for(int r = 0; r < nr; r++) {
        bool fine = true; for(int i : own_[r]) if(p[i] != 0 && q[i] != 0 && x.x[i] > x.y[i]) fine = false;
        lout(r, fine, 0);
      }
      if(n && o.i1 == 0) { d = x.z; g.assign(n, 0); } // contents are then not specified; the processes restore them
      break;
    case ADJUST:
      ALL(d[i] = x.y[i]; if(p[i] == 1) { double ref = o.s / x.x[i]; double lo = ref / o.t; double hi = ref * o.t; if(d[i] < lo) d[i] = lo; else if(d[i] > hi) d[i] = hi; } g[i] = std::fabs(d[i]))
      break;
    case TWONORM: { ALL(sum += d[i] * d[i]) out(std::sqrt(sum), std::sqrt(sum) + 1e-150); break; } // squares of tiny entries may vanish
    case DOT: ALL(sum += d[i] * b[i]; as += std::fabs(d[i] * b[i])) out(sum, as); break;
    case INFNORM: ALL(sum = std::max(sum, std::fabs(d[i]))) out(sum, 0); break;
    case ONENORM: ALL(sum += std::fabs(d[i])) out(sum, sum); break;
    case MINALL: sum = std::numeric_limits<double>::max(); ALL(sum = std::min(sum, d[i])) out(sum, 0); break;
    case MIN_P: sum = std::numeric_limits<double>::max(); ALL(if(p[i] == 1) sum = std::min(sum, d[i])) out(sum, 0); break;
    case ALLPOS: sum = 1; ALL(d[i] = x.x[i]; if(d[i] <= 0) sum = 0) out(sum, 0); break;
    case ALLPOS_P: sum = 1; ALL(d[i] = x.x[i]; if(p[i] != 0 && d[i] <= 0) sum = 0) out(sum, 0); break;
    case MATCHES: sum = 1; ALL(d[i] = x.x[i]; if(p[i] == 0 && d[i] != 0) sum = 0) out(sum, 0); break;
    case ISZERO: sum = 1; ALL(d[i] = x.x[i]; if(d[i] != 0) sum = 0) out(sum, 0); break;
    case ISEQUAL: sum = 1; ALL(if(d[i] != x.x[i]) sum = 0) out(sum, 0); break;
    case NLESS: ALL(sum += d[i] < o.s) out(sum, 0); break;
    case NABSLESS: ALL(sum += std::fabs(d[i]) < o.s) out(sum, 0); break;
    case INFLOC: LOC(double t = 0, t = std::max(t, std::fabs(d[i])), t, 0) break;
    case ONELOC: LOC(double t = 0, t += std::fabs(d[i]), t, t) break;
    case LOGBAR: LOC(double t = 0; double a = 0, if(p[i] == 1) { t += std::log(x.x[i]); a += std::fabs(std::log(x.x[i])); }, t, a + 1) ALL(d[i] = x.x[i]) break;
    case SUMLOC: LOC(double t = 0; double a = 0, t += d[i]; a += std::fabs(d[i]), t, a) break;
    case DAMPLOC: LOC(double t = 0; double a = 0, if(p[i] == 1 && q[i] == 0) { t += d[i]; a += std::fabs(d[i]); }, t * o.s * o.t, a * std::fabs(o.s * o.t)) break;
    case FRAC: ALL(d[i] = x.x[i]) LOC(double t = 1, if(b[i] < 0) t = std::min(t, -o.s * x.x[i] / b[i]), t, t) break;
    case FRAC_P: ALL(d[i] = x.x[i]) LOC(double t = 1, if(b[i] < 0 && p[i] != 0) t = std::min(t, -o.s * x.x[i] / b[i]), t, t) break;
    case FINITE: for(int r = 0; r < nr; r++) {
        int a = 0, b2 = 0, f = 1;
        for(int i : own_[r]) { a |= std::isnan(x.x[i]); b2 |= std::isinf(x.x[i]); f &= (int)std::isfinite(x.x[i]); }
        lout(r, a, 0); lout(r, b2, 0); lout(r, f, 0);
      } break;
    case M_ZERO: std::fill(M.begin(), M.end(), 0.); break;
    case M_CONST: std::fill(M.begin(), M.end(), o.s); break;
    case M_COPY: case M_NEWCOPY: { dv t = s.M[o.b]; M = t; Mg.assign(M.size(), 0); s.m[o.a] = s.m[o.b]; if(o.k == M_NEWCOPY) s.mmax[o.a] = s.mmax[o.b]; break; }
    case M_COPYBUF: M = x.x; break;
    case M_TIMES:
      for(int i = 0; i < m; i++) { double t = o.t == 0 ? 0 : o.t * x.x[i], a = std::fabs(t); for(int j = 0; j < n; j++) { t += o.s * M[i * n + j] * b[j]; a += std::fabs(o.s * M[i * n + j] * b[j]); } out(t, a); }
      break;
    case M_TRANS: { // destination vector b
      dv& y = s.v[o.b]; dv& yg = s.mag[o.b];
      ALL(double t = o.t * y[i]; double a = std::fabs(t); for(int k = 0; k < m; k++) { t += o.s * M[k * n + i] * x.x[k]; a += std::fabs(o.s * M[k * n + i] * x.x[k]); } y[i] = t; yg[i] = a)
      break;
    }
    case M_MMT: {
      const dv& B = s.M[o.b]; int mb = s.m[o.b];
      for(int i = 0; i < m; i++) for(int k = 0; k < mb; k++) { double t = o.t * x.x[i * mb + k], a = std::fabs(t); for(int j = 0; j < n; j++) { double z = o.s * M[i * n + j] * B[k * n + j]; t += z; a += std::fabs(z); } out(t, a); }
      break;
    }
    case M_ADD: { const dv& B = s.M[o.b]; for(size_t i = 0; i < M.size(); i++) { Mg[i] = std::fabs(M[i]) + std::fabs(o.s * B[i]); M[i] += o.s * B[i]; } break; }
    case M_MAX: for(double z : M) sum = std::max(sum, std::fabs(z)); out(sum, 0); break;
    case M_ROWMAX: for(int i = 0; i < m; i++) { sum = 0; for(int j = 0; j < n; j++) sum = std::max(sum, std::fabs(M[i * n + j])); out(sum, 0); } break;
    case M_SCALEROW: for(int i = 0; i < m; i++) for(int j = 0; j < n; j++) { double& z = M[i * n + j]; z = o.flag ? z / x.x[i] : z * x.x[i]; Mg[i * n + j] = 4 * std::fabs(z); } break;
    case M_APPEND: if(m < s.mmax[o.a]) { M.insert(M.end(), b.begin(), b.end()); s.m[o.a]++; Mg.assign(M.size(), 0); } break;
    case M_REPLACE: if(m) std::copy(b.begin(), b.end(), M.begin() + (size_t)(o.i1 % m) * n); break;
    case M_SHIFT:
      if(m >= 2) {
        int sh = 1 + o.i1 % (m - 1); if(o.flag) sh = -sh;
        dv t = M;
        for(int i = 0; i < m; i++) { int f = i - sh; if(f >= 0 && f < m) std::copy(t.begin() + f * n, t.begin() + (f + 1) * n, M.begin() + i * n); }
        e.skip_rows_m = o.a; e.skip_lo = sh > 0 ? 0 : m + sh; e.skip_hi = sh > 0 ? sh : m;
      }
      break;
    case M_GETROW: if(m) { dv& y = s.v[o.b]; std::copy(M.begin() + (size_t)(o.i1 % m) * n, M.begin() + (size_t)(o.i1 % m + 1) * n, y.begin()); } break;
    case M_COPYROWS: {
      const dv B = s.M[o.b]; int k = std::min(m, s.m[o.b]); k = k ? 1 + o.i1 % k : 0; int at = m - k ? o.i2 % (m - k + 1) : 0;
      if(o.a != o.b) std::copy(B.begin(), B.begin() + (size_t)k * n, M.begin() + (size_t)at * n);
      break;
    }
    case M_COPYIDX: {
      const dv B = s.M[o.b]; int mb = s.m[o.b];
      if(o.a != o.b && m <= mb && m) { auto r = rowsel(o, m, mb); for(int i = 0; i < m; i++) std::copy(B.begin() + (size_t)r[i] * n, B.begin() + (size_t)(r[i] + 1) * n, M.begin() + (size_t)i * n); }
      break;
    }
    case M_FINITE: for(int r = 0; r < nr; r++) { int f = 1; for(int i = 0; i < m; i++) for(int j = part[r]; j < part[r + 1]; j++) f &= (int)std::isfinite(x.x[i * n + j]); lout(r, f, 0); } break;
    case M_JACFR: {
      const dv& B = s.M[o.b]; int mb = s.m[o.b], ex = 2 * (m + mb);
      for(int r = 0; r < nr; r++) for(int i = 0; i < m + mb; i++) {
        for(int j = part[r]; j < part[r + 1]; j++) lout(r, i < m ? M[i * n + j] : B[(i - m) * n + j], 0);
        if(r == nr - 1) for(int j = 0; j < ex; j++) {
          double z = 0; if(i < m) z = j == i ? -1 : j == m + i ? 1 : 0; else z = j == 2 * m + i - m ? -1 : j == 2 * m + mb + i - m ? 1 : 0;
          lout(r, z, 0);
        }
      }
      break;
    }
    case V_FRPARTS:
      for(int r = 0; r < nr; r++) {
        for(int i = part[r]; i < part[r + 1]; i++) lout(r, d[i], 0);
        if(r == nr - 1) { for(double z : x.x) lout(r, z, 0); for(double z : x.y) lout(r, z, 0); }
      }
      break;
    case PCG: case BICG:
      ALL(g[i] = INFINITY; d[i] = 0) out(0, INFINITY); e.krylov = 1; e.rhs = x.x; e.dia = x.y; e.one = x.z; e.coef = o.i2 * 0.5; e.tol = o.p ? 1e-9 : 1e-4;
      break;
    case WHOLE: e.name = whole_case(o.seed, false, e.val, e.mag); break;
    case M_COPYTO: for(int r = 0; r < nr; r++) for(double z : mslice(M, m, n, r)) lout(r, z, 0); break;
  }
}

// the objects of one process
struct Obj {
  hiopVector* v[NV]; hiopVector* p[NP]; hiopMatrixDense* M[NM];
};
struct After { dv val, lval; dv v[NV], p[NP], M[NM]; int m[NM]; };

static hiopVectorPar* vec(const dv& d) { auto v = new hiopVectorPar((int)d.size()); if(!d.empty()) v->copyFrom(d.data()); return v; }
static dv loc(const hiopVector& v)
{
  if(auto c = dynamic_cast<const hiopVectorCompoundPD*>(&v)) { dv o; for(int k = 0; k < c->get_num_parts(); k++) { dv t = loc(c->getVector(k)); o.insert(o.end(), t.begin(), t.end()); } return o; }
  const double* a = v.local_data_const(); return a ? dv(a, a + v.get_local_size()) : dv();
}
static void put_local(hiopVector& v, const dv& l)
{
  if(auto c = dynamic_cast<hiopVectorCompoundPD*>(&v)) {
    size_t at = 0;
    for(int k = 0; k < c->get_num_parts(); k++) { hiopVector& w = c->getVector(k); if(w.get_local_size()) w.copyFrom(l.data() + at); at += w.get_local_size(); }
  } else if(!l.empty()) v.copyFrom(l.data());
}
static hiopVector* new_vec(int n, index_type* cp)
{
  if(parts.empty()) return new hiopVectorPar(n, cp, MPI_COMM_WORLD);
  auto c = new hiopVectorCompoundPD(true);
  for(auto& p : parts) c->addVector(p.dist ? new hiopVectorPar(p.n, p.part.data(), MPI_COMM_WORLD) : new hiopVectorPar(p.n));
  return c;
}
static dv loc(hiopMatrixDense& M) { double* a = M.local_data(); return a ? dv(a, a + (size_t)M.m() * M.get_local_size_n()) : dv(); }
static hiopMatrixDenseRowMajor& rm(hiopMatrixDense* m) { return dynamic_cast<hiopMatrixDenseRowMajor&>(*m); }

// diagonal plus rank-one matrix acting on distributed vectors
struct DiagRank1 : hiopLinearOperator {
  hiopVector *d, *u; double c;
  DiagRank1(hiopVector* d_, hiopVector* u_, double c_) : d(d_), u(u_), c(c_) {}
  bool times_vec(hiopVector& y, const hiopVector& x) { double t = c * u->dotProductWith(x); y.copyFrom(x); y.componentMult(*d); y.axpy(t, *u); return true; }
  bool trans_times_vec(hiopVector& y, const hiopVector& x) { return times_vec(y, x); }
};
struct DiagInv : hiopLinearOperator {
  hiopVector* d;
  DiagInv(hiopVector* d_) : d(d_) {}
  bool times_vec(hiopVector& y, const hiopVector& x) { if(&y != &x) y.copyFrom(x); y.componentDiv(*d); return true; }
  bool trans_times_vec(hiopVector& y, const hiopVector& x) { return times_vec(y, x); }
};
static void real_op(const Op& o, Obj& s, int r, const St& shape, After& A, const Sp& x, std::vector<int>& colpart)
{
  hiopVector &d = *s.v[o.a], &b = *s.v[o.b], &c = *s.v[o.c], &p = *s.p[o.p], &q = *s.p[o.q];
  hiopMatrixDenseRowMajor& M = *dynamic_cast<hiopMatrixDenseRowMajor*>(s.M[o.a % NM]); hiopMatrixDenseRowMajor& B = *dynamic_cast<hiopMatrixDenseRowMajor*>(s.M[o.b % NM]); // not used with compound vectors
  int n = shape.n; int m = s.M[o.a % NM] ? M.m() : 0;
  auto put = [&](hiopVector& v, const dv& g) { put_local(v, slice(g, r)); };
  auto tmp = [&](const dv& g) { std::unique_ptr<hiopVector> t(s.v[0]->alloc_clone()); put(*t, g); return t; };
  auto out = [&](double v) { A.val.push_back(v); };
  auto lout = [&](double v) { A.lval.push_back(v); };
  switch(o.k) {
    case SETZERO: d.setToZero(); break;
    case SETCONST: d.setToConstant(o.s); break;
    case SETCONST_P: d.setToConstant_w_patternSelect(o.s, p); break;
    case COPY: d.copyFrom(b); break;
    case NEWCOPY: { hiopVector* t = b.new_copy(); delete s.v[o.a]; s.v[o.a] = t; break; }
    case CLONE: { hiopVector* t = b.alloc_clone(); t->copyFrom(b); delete s.v[o.a]; s.v[o.a] = t; break; }
    case COPYARR: { dv l = slice(x.x, r); if(!parts.empty()) put_local(d, l); else d.copyFrom(l.empty() ? nullptr : l.data()); break; }
    case FROMSTART: { dv l = slice(x.x, r); d.copy_from_starting_at(l.data(), 0, n); break; }
    case COPY_P: d.copy_from_w_pattern(b, p); break;
    case COPYTO: { dv l(d.get_local_size()); d.copyTo(l.data()); A.lval = l; break; }
    case MULT: d.componentMult(b); break;
    case DIV: d.componentDiv(*tmp(x.x)); break;
    case DIV_P: d.componentDiv_w_selectPattern(*tmp(x.x), p); break;
    case MINC: d.component_min(o.s); break;
    case MINV: d.component_min(b); break;
    case MAXC: d.component_max(o.s); break;
    case MAXV: d.component_max(b); break;
    case ABS: d.component_abs(); break;
    case SGN: d.component_sgn(); break;
    case SQRT: put(d, x.x); d.component_sqrt(); break;
    case SCALE: d.scale(o.s); break;
    case AXPY: d.axpy(o.s, b); break;
    case AXPY_P: d.axpy_w_pattern(o.s, b, p); break;
    case AXZPY: d.axzpy(o.s, b, c); break;
    case AXDZPY: d.axdzpy(o.s, b, *tmp(x.x)); break;
    case AXDZPY_P: d.axdzpy_w_pattern(o.s, b, *tmp(x.x), p); break;
    case ADDC: d.addConstant(o.s); break;
    case ADDC_P: d.addConstant_w_patternSelect(o.s, p); break;
    case NEG: d.negate(); break;
    case INV: put(d, x.x); d.invert(); break;
    case LOGGRAD: d.addLogBarrierGrad(o.s, *tmp(x.x), p); break;
    case DAMPADD: d.addLinearDampingTerm(p, q, o.s, o.t); break;
    case SELECT: d.selectPattern(p); break;
    case PROJECT: put(d, x.z); lout(d.projectIntoBounds_local(*tmp(x.x), p, *tmp(x.y), q, o.s, o.t)); if(n && o.i1 == 0) put(d, x.z); break;
    case ADJUST: put(d, x.y); d.adjustDuals_plh(*tmp(x.x), p, o.s, o.t); break;
    case TWONORM: out(d.twonorm()); break;
    case DOT: out(d.dotProductWith(b)); break;
    case INFNORM: out(d.infnorm()); break;
    case ONENORM: out(d.onenorm()); break;
    case MINALL: out(d.min()); break;
    case MIN_P: out(d.min_w_pattern(p)); break;
    case ALLPOS: put(d, x.x); out(d.allPositive() != 0); break;
    case ALLPOS_P: put(d, x.x); out(d.allPositive_w_patternSelect(p) != 0); break;
    case MATCHES: put(d, x.x); out(d.matchesPattern(p)); break;
    case ISZERO: put(d, x.x); out(d.is_zero()); break;
    case ISEQUAL: out(d.is_equal(*tmp(x.x))); break;
    case NLESS: out((double)d.numOfElemsLessThan(o.s)); break;
    case NABSLESS: out((double)d.numOfElemsAbsLessThan(o.s)); break;
    case INFLOC: lout(d.infnorm_local()); break;
    case ONELOC: lout(d.onenorm_local()); break;
    case LOGBAR: put(d, x.x); lout(d.logBarrier_local(p)); break;
    case SUMLOC: lout(d.sum_local()); break;
    case DAMPLOC: lout(d.linearDampingTerm_local(p, q, o.s, o.t)); break;
    case FRAC: put(d, x.x); lout(d.fractionToTheBdry_local(b, o.s)); break;
    case FRAC_P: put(d, x.x); lout(d.fractionToTheBdry_w_pattern_local(b, o.s, p)); break;
    case FINITE: { auto t = tmp(x.x); lout(t->isnan_local()); lout(t->isinf_local()); lout(t->isfinite_local()); break; }
    case M_ZERO: M.setToZero(); break;
    case M_CONST: M.setToConstant(o.s); break;
    case M_COPY: M.copyFrom(B); break;
    case M_NEWCOPY: { hiopMatrixDense* t = o.flag ? B.new_copy() : B.alloc_clone(); if(!o.flag) t->copyFrom(B); delete s.M[o.a]; s.M[o.a] = t; break; }
    case M_COPYBUF: { dv l = mslice(x.x, m, n, r); M.copyFrom(l.data()); break; }
    case M_TIMES: { std::unique_ptr<hiopVector> y(vec(x.x)); M.timesVec(o.t, *y, o.s, b); for(double z : loc(*y)) out(z); break; }
    case M_TRANS: { std::unique_ptr<hiopVector> y(vec(x.x)); M.transTimesVec(o.t, b, o.s, *y); break; }
    case M_MMT: {
      hiopMatrixDenseRowMajor W(m, B.m()); if(!x.x.empty()) W.copyFrom(x.x.data());
      if(o.flag) { std::unique_ptr<hiopMatrixDense> W2(W.new_copy()); M.timesMatTrans(o.t, *W2, o.s, B); for(double z : loc(*W2)) out(z); }
      else { M.timesMatTrans(o.t, W, o.s, B); for(double z : loc(W)) out(z); }
      break;
    }
    case M_ADD: M.addMatrix(o.s, B); break;
    case M_MAX: out(M.max_abs_value()); break;
    case M_ROWMAX: { hiopVectorPar y(m); M.row_max_abs_value(y); for(double z : loc(y)) out(z); break; }
    case M_SCALEROW: { std::unique_ptr<hiopVector> y(vec(x.x)); M.scale_row(*y, o.flag); break; }
    case M_APPEND: if(m < shape.mmax[o.a]) M.appendRow(b); break;
    case M_REPLACE: if(m) M.replaceRow(o.i1 % m, b); break;
    case M_SHIFT: if(m >= 2) { int sh = 1 + o.i1 % (m - 1); M.shiftRows(o.flag ? -sh : sh); } break;
    case M_GETROW: if(m) M.getRow(o.i1 % m, b); break;
    case M_COPYROWS: {
      int k = std::min(m, (int)B.m()); k = k ? 1 + o.i1 % k : 0; int at = m - k ? o.i2 % (m - k + 1) : 0;
      if(o.a != o.b) M.copyRowsFrom((const hiopMatrixDense&)B, k, at);
      break;
    }
    case M_COPYIDX: if(o.a != o.b && m <= B.m() && m) { auto rr = rowsel(o, m, B.m()); std::vector<index_type> ii(rr.begin(), rr.end()); M.copyRowsFrom((const hiopMatrix&)B, ii.data(), m); } break;
    case M_FINITE: { std::unique_ptr<hiopMatrixDense> t(M.alloc_clone()); dv l = mslice(x.x, m, n, r); if(!l.empty()) t->copyFrom(l.data()); else t->setToZero(); lout(t->isfinite()); break; }
    case M_JACFR: {
      int ex = 2 * (m + B.m()); std::vector<index_type> cp(colpart.begin(), colpart.end()); cp.back() += ex;
      hiopMatrixDenseRowMajor J(m + B.m(), n + ex, cp.data(), MPI_COMM_WORLD);
      if(o.flag) { std::unique_ptr<hiopMatrixDense> J2(J.alloc_clone()); rm(J2.get()).set_Jac_FR(M, B); A.lval = loc(*J2); }
      else { J.setToConstant(3.); J.set_Jac_FR(M, B); A.lval = loc(J); }
      break;
    }
    case V_FRPARTS: {
      std::vector<index_type> cp(colpart.begin(), colpart.end()); cp.back() += o.i1 + o.i2;
      hiopVectorPar t(n + o.i1 + o.i2, cp.data(), MPI_COMM_WORLD); t.setToConstant(7.);
      std::unique_ptr<hiopVector> y(vec(x.x)), z(vec(x.y));
      d.copyToStarting(t, 0); y->copyToStarting(t, n); z->copyToStarting(t, n + o.i1);
      A.lval = loc(t);
      break;
    }
    case PCG: case BICG: {
      put(d, x.x); auto D = tmp(x.y), U = tmp(x.z); DiagRank1 A(D.get(), U.get(), o.i2 * 0.5); DiagInv P(D.get()); auto x0 = tmp(dv(n, 0.)); bool ok;
      std::unique_ptr<hiopKrylovSolver> ks; hiopLinearOperator* pre = o.q ? &P : nullptr;
      if(o.k == PCG) ks.reset(new hiopPCGSolver(n, &A, pre, nullptr, x0.get())); else ks.reset(new hiopBiCGStabSolver(n, &A, pre, nullptr, x0.get()));
      ks->set_max_num_iter(o.i1 == 4 ? 3 : 4 * n + 10); ks->set_tol(o.p ? 1e-9 : 1e-4);
      ok = o.k == PCG ? dynamic_cast<hiopPCGSolver&>(*ks).solve(&d) : dynamic_cast<hiopBiCGStabSolver&>(*ks).solve(&d);
      out(ok);
      break;
    }
    case WHOLE: { dv v, g; whole_case(o.seed, true, v, g); A.val = v; break; }
    case M_COPYTO: { dv l((size_t)m * M.get_local_size_n()); M.copy_to(l.data()); A.lval = l; break; }
  }
}

static bool near(double a, double b, double mag, double rel)
{
  if(std::isinf(mag)) return true;
  if(std::memcmp(&a, &b, 8) == 0 || a == b) return true;
  if(mag == 0) return std::isnan(a) && std::isnan(b);
  return std::fabs(a - b) <= rel * mag + 1e-290;
}

void run_linalg()
{
  nr = 1 + weighted(CFG, {1, 3, 4, 3, 2, 2});
  if(thorough() && chance(CFG, 0.2)) nr = range(CFG, 6, 8);
  int n = range(CFG, 0, 12); if(chance(CFG, 0.15)) n = range(CFG, 30, 300);
  part.assign(nr + 1, 0);
  int style = weighted(CFG, {3, 3, 1});
  Rng g(choose(CFG, 1u << 30));
  if(style == 0) for(int r = 1; r < nr; r++) part[r] = (int)((long)n * r / nr);
  else if(style == 1) { for(int r = 1; r < nr; r++) part[r] = g.i(n + 1); std::sort(part.begin() + 1, part.begin() + nr); }
  else { int at = g.i(nr); for(int r = 1; r < nr; r++) part[r] = r > at ? n : 0; }
  part[nr] = n;
  own_.assign(nr, {}); parts.clear();
  bool compound = chance(CFG, 0.25);
  if(compound) {
    int np = range(CFG, 1, 4), off = 0;
    for(int k = 0; k < np; k++) {
      Part q; q.dist = chance(CFG, 0.6); q.off = off; q.n = q.dist && g.p(0.7) ? n : g.i(8);
      if(q.dist) { q.part.assign(nr + 1, 0); if(q.n == n) std::copy(part.begin(), part.end(), q.part.begin()); else { for(int r = 1; r < nr; r++) q.part[r] = g.i(q.n + 1); std::sort(q.part.begin() + 1, q.part.begin() + nr); q.part[nr] = q.n; } }
      off += q.n; parts.push_back(q);
    }
    n = off;
    for(int r = 0; r < nr; r++) for(auto& q : parts) for(int i = q.dist ? q.part[r] : 0; i < (q.dist ? q.part[r + 1] : q.n); i++) own_[r].push_back(q.off + i);
  } else for(int r = 0; r < nr; r++) for(int i = part[r]; i < part[r + 1]; i++) own_[r].push_back(i);
  set_fill(weighted(CFG, {1, 2, 2, 2}), choose(CFG, 1u << 20));
  St s0; s0.n = n;
  int vs = weighted(CFG, {2, 3, 2, 1, 1});
  for(int k = 0; k < NV; k++) { s0.v[k] = fresh(g.next(), n, vs); s0.mag[k].assign(n, 0); }
  for(int k = 0; k < NP; k++) { double pr = g.u(); s0.p[k].resize(n); for(auto& x : s0.p[k]) x = g.p(pr) ? 1. : 0.; }
  for(int k = 0; k < NM; k++) { if(compound) { s0.m[k] = s0.mmax[k] = 0; continue; } s0.m[k] = k == 1 ? s0.m[0] : range(CFG, 0, 5); s0.mmax[k] = s0.m[k] + (k == 1 ? s0.mmax[0] - s0.m[0] : range(CFG, 0, 3)); s0.M[k] = fresh(g.next(), s0.m[k] * n, vs == 4 ? 2 : vs); s0.Mmag[k].assign(s0.M[k].size(), 0); }
  // the program; a model run keeps the magnitudes in range and matches dimensions
  std::vector<Op> ops; St s = s0; int nops = range(CFG, 3, thorough() ? 60 : 30);
  std::vector<St> shape;
  for(int i = 0; i < nops; i++) {
    Op o; memset(&o, 0, sizeof o);
    o.k = std::min((int)choose(CFG, NOPS + 9), (int)WHOLE); if(compound) { if(o.k >= M_ZERO && o.k < PCG) o.k = (o.k - M_ZERO) * 2; if(o.k == COPYTO || o.k == FROMSTART || o.k == ISEQUAL) o.k = LOGGRAD; } o.a = (int)choose(CFG, NV); o.b = (int)choose(CFG, NV);
    uint64_t sd = choose(CFG, 1u << 30); Rng h(sd); o.seed = h.next() >> 20;
    o.c = h.i(NV); o.p = h.i(NP); o.q = h.i(NP); o.i1 = h.i(5); o.i2 = h.i(5); o.flag = h.p(0.5);
    o.s = h.p(0.5) ? (double)(h.i(5) - 2) : h.u(-3, 3); o.t = h.p(0.6) ? (double)h.i(2) : h.u(-2, 2); o.u = h.u(-2, 2);
    if(o.k == ISZERO) o.t = h.p(0.5) ? 1e-300 : -2.;
    if(o.k == FRAC || o.k == FRAC_P) o.s = h.u(0.01, 0.99);
    if(o.k == PROJECT) { o.s = h.p(0.5) ? 1e-2 : std::pow(10., h.u(-8, -1)); o.t = h.u(1e-3, 0.49); }
    if(o.k == ADJUST) { o.s = std::pow(10., h.u(-8, 0)); o.t = std::pow(10., h.u(0, 10)); }
    if(o.k == NLESS || o.k == NABSLESS) o.s = h.i(4) - 1.;
    if(o.k == M_MMT && std::isnan(o.t)) o.t = 1;
    if(o.k >= M_ZERO && o.k < PCG && o.k != V_FRPARTS) {
      o.a %= NM;
      if(o.k == M_COPY || o.k == M_ADD || o.k == M_MMT || o.k == M_COPYROWS || o.k == M_COPYIDX || o.k == M_NEWCOPY || o.k == M_JACFR) o.b %= NM;
      if(o.k == M_COPY || o.k == M_ADD) { if(s.m[o.a] != s.m[o.b]) o.b = o.a; }
      if(o.k == M_NEWCOPY && o.a == o.b) o.b = (o.a + 1) % NM;
    }
    if((o.k == NEWCOPY || o.k == CLONE) && o.a == o.b) o.b = (o.a + 1) % NV;
    // aliased operands only where an operation on itself is meaningful
    if((o.k == FRAC || o.k == FRAC_P || o.k == AXZPY || o.k == AXPY || o.k == AXPY_P) && o.a == o.b) o.b = (o.a + 1) % NV;
    if(o.k == AXZPY && o.a == o.c) o.c = (o.a + 1) % NV;
    bool big = false;
    for(int k = 0; k < NV; k++) for(double z : s.v[k]) if(!(std::fabs(z) < 1e70)) { big = true; o.k = COPYARR; o.a = k; o.i1 = 1; }
    for(int k = 0; k < NM && !big && !compound; k++) for(double z : s.M[k]) if(!(std::fabs(z) < 1e70)) { big = true; o.k = M_COPYBUF; o.a = k; o.i1 = 1; }
    shape.push_back(s);
    Exp e; model(o, s, e);
    ops.push_back(o);
  }
  describe("distributed linear algebra: %d processes, %s of %d elements, local sizes", nr, compound ? "compound vectors" : "vectors", n);
  for(int r = 0; r < nr; r++) describe(" %d", (int)own_[r].size());
  describe(", %d operations:", nops);
  for(auto& o : ops) describe(" %s", KN[o.k]);
  WorldCfg wc = draw_world(nr);
  std::vector<std::vector<After>> rec(nr); const int* cur0m = s0.m;
  // the special operands depend on the (gathered) state of the processes only through ISEQUAL etc.; take those from the process' own part
  bool ok = run_world(wc, [&](int r) {
    std::vector<int> cp = part; std::vector<index_type> ip(cp.begin(), cp.end());
    Obj o;
    for(int k = 0; k < NV; k++) { o.v[k] = new_vec(n, nr > 1 || (g.s & 1) ? ip.data() : nullptr); put_local(*o.v[k], slice(s0.v[k], r)); }
    for(int k = 0; k < NP; k++) { o.p[k] = o.v[0]->alloc_clone(); put_local(*o.p[k], slice(s0.p[k], r)); }
    for(int k = 0; k < NM; k++) { o.M[k] = nullptr; if(compound) continue; o.M[k] = new hiopMatrixDenseRowMajor(s0.m[k], n, ip.data(), MPI_COMM_WORLD, s0.mmax[k]); dv l = mslice(s0.M[k], s0.m[k], n, r); if(!l.empty() && o.M[k]) o.M[k]->copyFrom(l.data()); }
    if(o.v[0]->get_size() != n || (!compound && o.v[0]->get_local_size() != part[r + 1] - part[r])) violate("C14", "linalg.sizes", "a vector of %d elements with %d of them on process %d reports sizes %d and %d", n, (int)own_[r].size(), r, (int)o.v[0]->get_size(), (int)o.v[0]->get_local_size());
    for(size_t i = 0; i < ops.size(); i++) {
      rec[r].emplace_back(); After& A = rec[r].back();
      St cur; Sp x;
      const Op& p = ops[i];
      if(p.k == ISEQUAL || p.k == FINITE || p.k == MATCHES || p.k == M_FINITE) { // operands derived from present contents: only the own part is needed
        cur = shape[i];
        auto back = [&](dv& dst, const dv& l) { for(size_t j = 0; j < l.size(); j++) dst[own_[r][j]] = l[j]; };
        if(p.k == M_FINITE) { dv l = loc(*o.M[p.a]); int nl = part[r + 1] - part[r]; for(int q = 0; q < cur.m[p.a]; q++) std::copy(l.begin() + q * nl, l.begin() + (q + 1) * nl, cur.M[p.a].begin() + q * n + part[r]); }
        else back(cur.v[p.a], loc(*o.v[p.a]));
        x = special(p, cur);
      } else x = special(p, shape[i]);
      real_op(p, o, r, shape[i], A, x, cp);
      rec[r].back();
      for(int k = 0; k < NV; k++) A.v[k] = loc(*o.v[k]);
      for(int k = 0; k < NP; k++) A.p[k] = loc(*o.p[k]);
      for(int k = 0; k < NM; k++) { A.m[k] = o.M[k] ? o.M[k]->m() : cur0m[k]; if(o.M[k]) A.M[k] = loc(*o.M[k]); }
    }
    for(auto& v : o.v) delete v;
    for(auto& v : o.p) delete v;
    for(auto& v : o.M) delete v;
  });
  if(!ok) return;
  // compare, operation by operation, each starting from the contents the processes really had
  St cur = s0; int checked = 0;
  for(size_t i = 0; i < ops.size() && !has_violation(); i++) {
    const Op& o = ops[i]; Exp e; St before = cur;
    model(o, cur, e);
    auto bad = [&](const char* what, const char* fmt, double got, double want, int r, int at) {
      char cls[128]; snprintf(cls, sizeof cls, "linalg.%s.%s", what, e.name ? e.name : KN[o.k]);
      char txt[200]; snprintf(txt, sizeof txt, fmt, got, want);
      violate("C14", cls, "operation %d, %s on %d elements over %d processes (process %d has %d), entry %d: %s", (int)i, e.name ? e.name : KN[o.k], n, nr, r, (int)own_[r].size(), at, txt);
    };
    for(int r = 0; r < nr && !has_violation(); r++) {
      After& A = rec[r][i];
      double rel = 1e-13 + 4e-16 * n;
      if(A.val.size() != e.val.size()) { bad("result", "%g results instead of %g", A.val.size(), e.val.size(), r, 0); break; }
      for(size_t k = 0; k < e.val.size(); k++) {
        if(!near(A.val[k], e.val[k], e.mag[k], rel)) { bad("result", "got %.17g, undistributed %.17g", A.val[k], e.val[k], r, (int)k); break; }
        if(r && o.k != WHOLE && std::memcmp(&A.val[k], &rec[0][i].val[k], 8)) { bad("differs", "got %.17g, process 0 got %.17g", A.val[k], rec[0][i].val[k], r, (int)k); break; }
      }
      if(A.lval.size() != e.lval[r].size()) { bad("local result", "%g results instead of %g", A.lval.size(), e.lval[r].size(), r, 0); break; }
      for(size_t k = 0; k < A.lval.size(); k++) if(!near(A.lval[k], e.lval[r][k], e.lmag[r][k], rel)) { bad("local result", "got %.17g, undistributed %.17g", A.lval[k], e.lval[r][k], r, (int)k); break; }
      for(int k = 0; k < NV && !has_violation(); k++) {
        if(A.v[k].size() != own_[r].size()) { bad("contents", "%g local elements instead of %g", A.v[k].size(), own_[r].size(), r, k); break; }
        for(size_t h = 0; h < own_[r].size(); h++) { int j = own_[r][h]; if(!near(A.v[k][h], cur.v[k][j], cur.mag[k][j], 1e-13)) { bad("contents", "got %.17g, undistributed %.17g", A.v[k][h], cur.v[k][j], r, j); break; } }
      }
      for(int k = 0; k < NP && !has_violation(); k++) if(A.p[k] != slice(cur.p[k], r)) bad("operand", "a pattern vector was changed%.0s%.0s", 0, 0, r, k);
      for(int k = 0; k < NM && !has_violation() && !compound; k++) {
        if(A.m[k] != cur.m[k]) { bad("contents", "%g rows instead of %g", A.m[k], cur.m[k], r, k); break; }
        dv w = mslice(cur.M[k], cur.m[k], n, r), t = mslice(cur.Mmag[k], cur.m[k], n, r); int nl = part[r + 1] - part[r];
        if(A.M[k].size() != w.size()) { bad("contents", "%g local matrix entries instead of %g", A.M[k].size(), w.size(), r, k); break; }
        for(size_t j = 0; j < w.size(); j++) {
          int row = nl ? (int)j / nl : 0; if(k == e.skip_rows_m && row >= e.skip_lo && row < e.skip_hi) continue;
          if(!near(A.M[k][j], w[j], t[j], 1e-13)) { bad("contents", "matrix entry: got %.17g, undistributed %.17g", A.M[k][j], w[j], r, (int)j); break; }
        }
      }
    }
    if(has_violation()) break;
    // continue from what the processes have
    for(int k = 0; k < NV; k++) for(int r = 0; r < nr; r++) for(size_t h = 0; h < own_[r].size(); h++) cur.v[k][own_[r][h]] = rec[r][i].v[k][h];
    for(int k = 0; k < NM && !compound; k++) for(int r = 0; r < nr; r++) for(int q = 0; q < cur.m[k]; q++) { int nl = part[r + 1] - part[r]; std::copy(rec[r][i].M[k].begin() + q * nl, rec[r][i].M[k].begin() + (q + 1) * nl, cur.M[k].begin() + q * n + part[r]); }
    if(e.krylov && rec[0][i].val[0] == 1) {
      const dv& d = cur.v[o.a]; double t = 0, rr = 0, bb = 0, mx = 0;
      for(int k = 0; k < n; k++) { t += e.one[k] * d[k]; bb += e.rhs[k] * e.rhs[k]; }
      for(int k = 0; k < n; k++) { double z = e.dia[k] * d[k] + e.coef * t * e.one[k] - e.rhs[k]; rr += z * z; mx = std::max(mx, std::fabs(e.dia[k] * d[k]) + std::fabs(e.coef * t * e.one[k])); }
      if(!(std::sqrt(rr) <= 1.01 * e.tol * std::sqrt(bb) + 1e-12 * mx * n)) violate("C14", o.k == PCG ? "linalg.krylov.pcg" : "linalg.krylov.bicgstab", "operation %d: %s over %d processes reports success with residual %g, right-hand side norm %g, tolerance %g", (int)i, KN[o.k], nr, std::sqrt(rr), std::sqrt(bb), e.tol);
      count("krylov.converged");
    } else if(e.krylov) count("krylov.not converged");
    ev("op %s", KN[o.k]);
    for(int k = 0; k < NV; k++) ev_mem("v", cur.v[k].data(), cur.v[k].size() * 8);
    if(!rec[0][i].val.empty()) ev_mem("val", rec[0][i].val.data(), rec[0][i].val.size() * 8);
    char nm[96]; snprintf(nm, sizeof nm, "op.%s%s", compound && !e.name ? "compound " : "", e.name ? e.name : KN[o.k]); count(nm);
    state_hash((uint64_t)o.k * 1000 + nr * 100 + style * 10 + (part[1] == 0) * 2 + (part[nr - 1] == n));
    checked++;
  }
  if(checked > 2 && nr > 1) nontrivial();
}
