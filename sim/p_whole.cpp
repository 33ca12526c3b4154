// Objects that every process holds whole (C14): one operation on local vectors, dense or sparse (triplet) matrices, drawn from a seed; either
// executed by the library or computed by its definition with plain loops. mag = sum of the magnitudes of the terms (0: must be exact).
#include "sim.hpp"
#include "props.hpp"
#include "hiopVectorPar.hpp"
#include "hiopVectorIntSeq.hpp"
#include "hiopMatrixDenseRowMajor.hpp"
#include "hiopMatrixSparseTriplet.hpp"
#include "hiopMatrixSparseCSRSeq.hpp"
#include "hiopMatrixMDS.hpp"
#include <algorithm>
#include <cmath>
#include <memory>
using namespace sim;
using namespace hiop;
typedef std::vector<double> dv;
typedef std::vector<int> iv;

namespace {
struct Trip { int m, n; iv i, j; dv v; };
typedef std::unique_ptr<hiopVectorPar> VP;
typedef std::unique_ptr<hiopMatrixDenseRowMajor> DP;
typedef std::unique_ptr<hiopMatrixSparseTriplet> SP;

VP rv(const dv& a) { VP p(new hiopVectorPar((int)a.size())); for(size_t i = 0; i < a.size(); i++) p->local_data()[i] = a[i]; return p; }
DP rd(const dv& a, int m, int n) { DP p(new hiopMatrixDenseRowMajor(m, n)); if(!a.empty()) p->copyFrom(a.data()); return p; }
void fill(hiopMatrixSparseTriplet& p, const Trip& t) { for(size_t k = 0; k < t.v.size(); k++) { p.i_row()[k] = t.i[k]; p.j_col()[k] = t.j[k]; p.M()[k] = t.v[k]; } }
SP rs(const Trip& t) { SP p(new hiopMatrixSparseTriplet(t.m, t.n, (int)t.v.size())); fill(*p, t); return p; }
std::unique_ptr<hiopVectorIntSeq> ri(const iv& a) { std::unique_ptr<hiopVectorIntSeq> p(new hiopVectorIntSeq((int)a.size())); for(size_t i = 0; i < a.size(); i++) p->local_data_host()[i] = a[i]; return p; }
// random entries, ordered by row and column; upper: only the upper triangle
Trip rtrip(Rng& g, int m, int n, bool upper)
{
  Trip t; t.m = m; t.n = n; double p = g.p(0.2) ? 0.1 : g.u(0.2, 1);
  for(int i = 0; i < m; i++) for(int j = upper ? i : 0; j < n; j++) if(g.p(p)) { t.i.push_back(i); t.j.push_back(j); t.v.push_back(g.p(0.2) ? (double)(g.i(3) - 1) : g.u(-3, 3)); }
  return t;
}
}

const char* whole_case(uint64_t seed, bool real, dv& val, dv& mag)
{
  Rng g(seed);
  auto rnd = [&]() { return g.p(0.4) ? (double)(g.i(7) - 3) : g.u(-2, 2); };
  auto arr = [&](int n) { dv a(n); for(auto& z : a) z = rnd(); return a; };
  auto pat = [&](int n) { dv a(n); double p = g.u(); for(auto& z : a) z = g.p(p); return a; };
  auto count1 = [](const dv& a) { return (int)std::count(a.begin(), a.end(), 1.); };
  auto exact = [&](const dv& a) { val.insert(val.end(), a.begin(), a.end()); mag.insert(mag.end(), a.size(), 0.); };
  auto vec = [&](const hiopVectorPar& v) { dv a(v.local_data_const(), v.local_data_const() + v.get_local_size()); exact(a); };
  auto den = [&](const hiopMatrixDenseRowMajor& A) { for(int i = 0; i < (int)A.m() * A.n(); i++) { val.push_back(A.local_data_const()[i]); mag.push_back(0); } };
  auto trip = [&](const hiopMatrixSparseTriplet& A) { for(int k = 0; k < A.numberOfNonzeros(); k++) exact({(double)A.i_row()[k], (double)A.j_col()[k], A.M()[k]}); };
  auto xtrip = [&](const Trip& t) { for(size_t k = 0; k < t.v.size(); k++) exact({(double)t.i[k], (double)t.j[k], t.v[k]}); };
  // W with contributions: entries and magnitudes
  dv W, G; auto start = [&](const dv& w, double beta) { W = w; G = w; for(auto& z : W) z = beta == 0 ? 0 : z * beta; for(size_t i = 0; i < G.size(); i++) G[i] = std::fabs(W[i]); };
  auto add = [&](int at, double t) { W[at] += t; G[at] += std::fabs(t); };
  auto done = [&]() { val.insert(val.end(), W.begin(), W.end()); mag.insert(mag.end(), G.begin(), G.end()); };
  double alpha = rnd(), beta = g.p(0.5) ? (double)g.i(2) : rnd();
  int m = 1 + g.i(5), n = 1 + g.i(6), k = 1 + g.i(5);
  switch(g.i(23)) {
    case 0: {
      dv a = arr(m * n), x = arr(n * k), w = arr(m * k);
      if(real) { auto A = rd(a, m, n), X = rd(x, n, k), R = rd(w, m, k); A->timesMat(beta, *R, alpha, *X); den(*R); return "whole timesMat"; }
      start(w, beta); for(int i = 0; i < m; i++) for(int j = 0; j < k; j++) for(int l = 0; l < n; l++) add(i * k + j, alpha * a[i * n + l] * x[l * k + j]);
      done(); return "whole timesMat";
    }
    case 1: {
      dv a = arr(m * n), x = arr(m * k), w = arr(n * k);
      if(real) { auto A = rd(a, m, n), X = rd(x, m, k), R = rd(w, n, k); A->transTimesMat(beta, *R, alpha, *X); den(*R); return "whole transTimesMat"; }
      start(w, beta); for(int i = 0; i < n; i++) for(int j = 0; j < k; j++) for(int l = 0; l < m; l++) add(i * k + j, alpha * a[l * n + i] * x[l * k + j]);
      done(); return "whole transTimesMat";
    }
    case 2: {
      dv a = arr(n * n), d = arr(n); double c = rnd();
      if(real) { auto A = rd(a, n, n); auto D = rv(d); A->addDiagonal(alpha, *D); A->addDiagonal(c); den(*A); return "whole addDiagonal"; }
      start(a, 1); for(int i = 0; i < n; i++) { add(i * n + i, alpha * d[i]); add(i * n + i, c); }
      done(); return "whole addDiagonal";
    }
    case 3: {
      dv a = arr(n * n); int at = g.i(n), len = g.i(n - at + 1), way = g.i(3), src = g.i(3); double c = rnd(); dv d = arr(len + (way == 1 ? src + g.i(3) : 0)); bool rest = g.p(0.3) && way == 1;
      if(real) {
        auto A = rd(a, n, n); auto D = rv(d);
        if(way == 0) A->addSubDiagonal(alpha, at, *D); else if(way == 1) A->addSubDiagonal(at, alpha, *D, src, rest ? -1 : len); else A->addSubDiagonal(at, len, c);
        den(*A); return "whole addSubDiagonal";
      }
      if(rest) len = std::min((int)d.size() - src, n - at);
      start(a, 1); for(int i = 0; i < len; i++) add((at + i) * n + at + i, way == 0 ? alpha * d[i] : way == 1 ? alpha * d[src + i] : c);
      done(); return "whole addSubDiagonal";
    }
    case 4: {
      dv a = arr(n * n);
      if(real) { auto A = rd(a, n, n); exact({(double)A->symmetrize()}); den(*A); return "whole symmetrize"; }
      for(int i = 0; i < n; i++) for(int j = 0; j < i; j++) a[i * n + j] = a[j * n + i];
      exact({1.}); exact(a); return "whole symmetrize";
    }
    case 5: {   // blocks of the upper triangle
      int N = n + m + g.i(4), r0 = g.i(N - n - m + 1), c0 = r0 + n + g.i(N - n - m - r0 + 1); bool tr = g.p(0.5); dv a = tr ? arr(m * n) : arr(m * m), w = arr(N * N);
      const char* nm = tr ? "whole transAddToSymDenseMatrixUpperTriangle" : "whole addUpperTriangleToSymDenseMatrixUpperTriangle";
      if(real) {
        auto A = tr ? rd(a, m, n) : rd(a, m, m), R = rd(w, N, N);
        if(tr) A->transAddToSymDenseMatrixUpperTriangle(r0, c0, alpha, *R); else A->addUpperTriangleToSymDenseMatrixUpperTriangle(c0, alpha, *R);
        den(*R); return nm;
      }
      start(w, 1);
      if(tr) for(int i = 0; i < m; i++) for(int j = 0; j < n; j++) add((r0 + j) * N + c0 + i, alpha * a[i * n + j]);
      else for(int i = 0; i < m; i++) for(int j = i; j < m; j++) add((c0 + i) * N + c0 + j, alpha * a[i * m + j]);
      done(); return nm;
    }
    case 6: {
      dv s = arr(n); iv ix(g.i(8)); for(auto& z : ix) z = g.i(n); bool raw = g.p(0.5);
      if(real) { auto S = rv(s); auto I = ri(ix); VP d(new hiopVectorPar((int)ix.size())); d->setToConstant(9.); if(raw) d->copy_from_indexes(S->local_data(), *I); else d->copy_from_indexes(*S, *I); vec(*d); return "whole copy_from_indexes"; }
      for(int z : ix) exact({s[z]});
      return "whole copy_from_indexes";
    }
    case 7: {
      dv s = arr(g.i(8)), d = arr(g.i(8)); int a = g.i((int)s.size() + 1), b = g.i((int)d.size() + 1), mx = std::min((int)s.size() - a, (int)d.size() - b), len = g.p(0.3) ? -1 : g.i(mx + 1); dv p = pat((int)d.size());
      bool w = g.p(0.5); if(!w && (a == (int)s.size() || b == (int)d.size())) len = -1;
      const char* nm = w ? "whole startingAtCopyToStartingAt_w_pattern" : "whole startingAtCopyToStartingAt";
      if(real) { auto S = rv(s), D = rv(d), P = rv(p); if(w) S->startingAtCopyToStartingAt_w_pattern(a, *D, b, *P, len); else S->startingAtCopyToStartingAt(a, *D, b, len); vec(*D); return nm; }
      if(len < 0) len = mx;
      if(w) { for(int i = b, f = 0; i < (int)d.size() && f < len; i++) if(p[i] == 1) d[i] = s[a + f++]; }
      else for(int i = 0; i < len; i++) d[b + i] = s[a + i];
      exact(d); return nm;
    }
    case 8: {
      dv s = arr(n), p = pat(n); int at = g.i(3); dv d = arr(at + count1(p) + g.i(3));
      if(real) { auto S = rv(s), P = rv(p), D = rv(d); S->copyToStartingAt_w_pattern(*D, at, *P); vec(*D); return "whole copyToStartingAt_w_pattern"; }
      for(int i = 0; i < n; i++) if(p[i] == 1) d[at++] = s[i];
      exact(d); return "whole copyToStartingAt_w_pattern";
    }
    case 9: {
      dv p = pat(n), v = arr(n); iv ic, id; for(int i = 0; i < n; i++) (p[i] == 1 ? ic : id).push_back(i); dv c = arr((int)ic.size()), d = arr((int)id.size()); bool to = g.p(0.5);
      const char* nm = to ? "whole copy_to_two_vec_w_pattern" : "whole copy_from_two_vec_w_pattern";
      if(real) {
        auto V = rv(v), C = rv(c), D = rv(d); auto IC = ri(ic), ID = ri(id);
        if(to) { V->copy_to_two_vec_w_pattern(*C, *IC, *D, *ID); vec(*C); vec(*D); vec(*V); } else { V->copy_from_two_vec_w_pattern(*C, *IC, *D, *ID); vec(*V); vec(*C); vec(*D); }
        return nm;
      }
      for(size_t i = 0; i < ic.size(); i++) if(to) c[i] = v[ic[i]]; else v[ic[i]] = c[i];
      for(size_t i = 0; i < id.size(); i++) if(to) d[i] = v[id[i]]; else v[id[i]] = d[i];
      if(to) { exact(c); exact(d); exact(v); } else { exact(v); exact(c); exact(d); }
      return nm;
    }
    case 10: {
      int len = g.i(5), at = g.i(4), way = g.i(4); dv big = arr(at + len + g.i(3)), s = arr(len);
      if(real) {
        auto B = rv(big), S = rv(s);
        if(way == 0) { B->copyFromStarting(at, S->local_data(), len); vec(*B); }
        else if(way == 1) { B->copyFromStarting(at, *S); vec(*B); }
        else if(way == 2) { B->copyToStarting(at, *S); vec(*S); }
        else { std::vector<hiopInterfaceBase::NonlinearityType> t(big.size(), hiopInterfaceBase::hiopNonlinear), q(len + 2, hiopInterfaceBase::hiopLinear); if(len) q[0] = hiopInterfaceBase::hiopNonlinear; B->set_array_from_to(t.data(), at, at + len, q.data(), len ? 1 : 0); B->set_array_from_to(t.data(), at, at + len / 2, hiopInterfaceBase::hiopQuadratic); for(auto z : t) exact({(double)z}); }
        return "whole copies at an offset";
      }
      if(way < 2) { std::copy(s.begin(), s.end(), big.begin() + at); exact(big); }
      else if(way == 2) exact(dv(big.begin() + at, big.begin() + at + len));
      else for(int i = 0; i < (int)big.size(); i++) exact({(double)(i >= at && i < at + len / 2 ? hiopInterfaceBase::hiopQuadratic : i >= at && i < at + len ? hiopInterfaceBase::hiopLinear : hiopInterfaceBase::hiopNonlinear)});
      return "whole copies at an offset";
    }
    case 11: {
      Trip t = rtrip(g, m, n, false); bool tr = g.p(0.5); dv x = arr(tr ? m : n), y = arr(tr ? n : m), sc = arr(m); for(auto& z : sc) if(z == 0) z = 2; bool inv = g.p(0.5);
      if(real) {
        auto A = rs(t); auto X = rv(x), Y = rv(y), C = rv(sc); VP R(new hiopVectorPar(m)); R->setToConstant(7.);
        if(tr) A->transTimesVec(beta, *Y, alpha, *X); else A->timesVec(beta, *Y, alpha, *X);
        vec(*Y); A->row_max_abs_value(*R); vec(*R); exact({A->max_abs_value()});
        std::unique_ptr<hiopMatrixSparse> B(A->new_copy()); B->scale_row(*C, inv); trip(dynamic_cast<hiopMatrixSparseTriplet&>(*B)); trip(*A);
        return "whole sparse products";
      }
      start(y, beta); for(size_t e = 0; e < t.v.size(); e++) if(tr) add(t.j[e], alpha * x[t.i[e]] * t.v[e]); else add(t.i[e], alpha * x[t.j[e]] * t.v[e]);
      done(); dv mx(m, 0.); double all = 0; for(size_t e = 0; e < t.v.size(); e++) { mx[t.i[e]] = std::max(mx[t.i[e]], std::fabs(t.v[e])); all = std::max(all, std::fabs(t.v[e])); }
      exact(mx); exact({all});
      for(size_t e = 0; e < t.v.size(); e++) { double z = inv ? t.v[e] / sc[t.i[e]] : t.v[e] * sc[t.i[e]]; exact({(double)t.i[e], (double)t.j[e]}); val.push_back(z); mag.push_back(std::fabs(z)); }
      xtrip(t); return "whole sparse products";
    }
    case 12: {
      Trip t = rtrip(g, m, n, false); dv d(n); for(auto& z : d) z = (g.p(0.3) ? -1 : 1) * std::pow(10., g.u(-3, 3)); int N = m + g.i(4), at = g.i(N - m + 1); dv w = arr(N * N);
      if(real) { auto A = rs(t); auto D = rv(d); auto R = rd(w, N, N); A->addMDinvMtransToDiagBlockOfSymDeMatUTri(at, alpha, *D, *R); den(*R); return "whole addMDinvMtransToDiagBlockOfSymDeMatUTri"; }
      dv a(m * n, 0.); for(size_t e = 0; e < t.v.size(); e++) a[t.i[e] * n + t.j[e]] = t.v[e];
      start(w, 1); for(int i = 0; i < m; i++) for(int j = i; j < m; j++) for(int l = 0; l < n; l++) add((at + i) * N + at + j, alpha * a[i * n + l] * a[j * n + l] / d[l]);
      done(); return "whole addMDinvMtransToDiagBlockOfSymDeMatUTri";
    }
    case 13: {
      Trip t = rtrip(g, m, n, false), u = rtrip(g, k, n, false); dv d(n); for(auto& z : d) z = (g.p(0.3) ? -1 : 1) * std::pow(10., g.u(-3, 3));
      bool tm = g.p(0.4); int N = m + k + g.i(3), r0 = g.i(N - m - k + 1), c0 = r0 + m + g.i(N - m - k - r0 + 1); dv w = tm ? arr(m * k) : arr(N * N);
      const char* nm = tm ? "whole sparse timesMatTrans" : "whole addMDinvNtransToSymDeMatUTri";
      if(real) {
        auto A = rs(t), B = rs(u); auto D = rv(d); auto R = tm ? rd(w, m, k) : rd(w, N, N);
        if(tm) A->timesMatTrans(beta, *R, alpha, *B); else A->addMDinvNtransToSymDeMatUTri(r0, c0, alpha, *D, *B, *R);
        den(*R); return nm;
      }
      dv a(m * n, 0.), b(k * n, 0.); for(size_t e = 0; e < t.v.size(); e++) a[t.i[e] * n + t.j[e]] = t.v[e]; for(size_t e = 0; e < u.v.size(); e++) b[u.i[e] * n + u.j[e]] = u.v[e];
      start(w, tm ? beta : 1);
      for(int i = 0; i < m; i++) for(int j = 0; j < k; j++) for(int l = 0; l < n; l++) { double z = alpha * a[i * n + l] * b[j * n + l]; if(tm) add(i * k + j, z); else add((r0 + i) * N + c0 + j, z / d[l]); }
      done(); return nm;
    }
    case 14: {
      Trip t = rtrip(g, m, n, false); int N = n + m + g.i(4), r0 = g.i(N - n - m + 1), c0 = r0 + n + g.i(N - n - m - r0 + 1); dv w = arr(N * N), w2 = arr(m * n);
      if(real) { auto A = rs(t); auto R = rd(w, N, N), Q = rd(w2, m, n); A->transAddToSymDenseMatrixUpperTriangle(r0, c0, alpha, *R); den(*R); A->copy_to(*Q); den(*Q); return "whole sparse transAddToSymDenseMatrixUpperTriangle"; }
      start(w, 1); for(size_t e = 0; e < t.v.size(); e++) add((r0 + t.j[e]) * N + c0 + t.i[e], alpha * t.v[e]);
      done(); std::fill(w2.begin(), w2.end(), 0.); for(size_t e = 0; e < t.v.size(); e++) w2[t.i[e] * n + t.j[e]] = t.v[e];
      exact(w2); return "whole sparse transAddToSymDenseMatrixUpperTriangle";
    }
    case 15: {
      Trip t = rtrip(g, m, n, false), d; bool block = g.p(0.5); iv rows; int r0 = 0, at = 0, st = 0, cnt = 0;
      if(block) { r0 = g.i(m); cnt = g.i(m - r0 + 1); at = g.i(3); st = g.i(3); d.m = 1 + at + cnt + g.i(2); d.n = n + g.i(2); for(int i = 0; i < cnt; i++) rows.push_back(r0 + i); }
      else { for(int i = 0; i < m; i++) if(g.p(0.6)) rows.push_back(i); if(rows.empty()) rows.push_back(m - 1); d.m = (int)rows.size(); d.n = n; }
      Trip e; for(size_t r = 0; r < rows.size(); r++) for(size_t z = 0; z < t.v.size(); z++) if(t.i[z] == rows[r]) { e.i.push_back(at + (int)r); e.j.push_back(t.j[z]); e.v.push_back(t.v[z]); }
      size_t nnz = block ? t.v.size() + st + g.i(2) : e.v.size(); d.i.assign(nnz, 0); d.j.assign(nnz, 0); d.v.assign(nnz, 9.);
      const char* nm = block ? "whole copyRowsBlockFrom" : "whole sparse copyRowsFrom";
      if(real) { auto A = rs(t), D = rs(d); std::vector<index_type> ii(rows.begin(), rows.end()); ii.push_back(0); if(block) D->copyRowsBlockFrom(*A, r0, cnt, at, st); else D->copyRowsFrom(*A, ii.data(), (int)rows.size()); trip(*D); return nm; }
      for(size_t z = 0; z < e.v.size(); z++) { d.i[st + z] = e.i[z]; d.j[st + z] = e.j[z]; d.v[st + z] = e.v[z]; }
      xtrip(d); return nm;
    }
    case 16: {   // blocks of a sparse matrix under construction
      int way = g.i(8), r0 = g.i(3), c0 = g.i(3), st = g.i(3); bool off = g.p(0.5); double c = rnd();
      Trip t = rtrip(g, m, n, false); dv x = arr(n), p = pat(n); int np = count1(p), len = way == 0 || way == 1 ? (int)t.v.size() : n;
      Trip d; int B = std::max(m, n) + 5; d.m = B; d.n = B; size_t nnz = st + len + g.i(3); if(way < 2) nnz = std::max(nnz, t.v.size()); d.i.assign(nnz, 0); d.j.assign(nnz, 0); d.v.assign(nnz, 9.);
      static const char* NM[] = {"whole copySubmatrixFrom", "whole copySubmatrixFromTrans", "whole copySubDiagonalFrom", "whole setSubDiagonalTo", "whole copyDiagMatrixToSubblock", "whole copyDiagMatrixToSubblock_w_pattern", "whole setSubmatrixToConstantDiag_w_colpattern", "whole setSubmatrixToConstantDiag_w_rowpattern"};
      if(real) {
        auto A = rs(t), D = rs(d); auto X = rv(x), P = rv(p);
        switch(way) {
          case 0: D->copySubmatrixFrom(*A, r0, c0, st, off); break;
          case 1: D->copySubmatrixFromTrans(*A, r0, c0, st, off); break;
          case 2: D->copySubDiagonalFrom(r0, n, *X, st, c); break;
          case 3: D->setSubDiagonalTo(r0, n, c, st); break;
          case 4: D->copyDiagMatrixToSubblock(c, r0, c0, st, n); break;
          case 5: D->copyDiagMatrixToSubblock_w_pattern(*X, r0, c0, st, np, *P); break;
          case 6: D->setSubmatrixToConstantDiag_w_colpattern(c, r0, c0, st, np, *P); break;
          case 7: D->setSubmatrixToConstantDiag_w_rowpattern(c, r0, c0, st, np, *P); break;
        }
        trip(*D); return NM[way];
      }
      auto put = [&](int i, int j, double v) { d.i[st] = i; d.j[st] = j; d.v[st++] = v; };
      if(way < 2) { for(size_t e = 0; e < t.v.size(); e++) if(!off || t.i[e] != t.j[e]) { if(way == 0) put(r0 + t.i[e], c0 + t.j[e], t.v[e]); else put(r0 + t.j[e], c0 + t.i[e], t.v[e]); } }
      else for(int i = 0, f = 0; i < n; i++) {
        if(way == 2) put(r0 + i, r0 + i, c * x[i]); else if(way == 3) put(r0 + i, r0 + i, c); else if(way == 4) put(r0 + i, c0 + i, c);
        else if(p[i] == 1) { if(way == 5) put(r0 + f, c0 + f, x[i]); else if(way == 6) put(r0 + i, c0 + f, c); else put(r0 + f, c0 + i, c); f++; }
      }
      xtrip(d); return NM[way];
    }
    case 17: {   // symmetric sparse matrices, upper triangle
      Trip t = rtrip(g, n, n, true); dv x = arr(n), y = arr(n); int N = n + g.i(4), at = g.i(N - n + 1); dv w = arr(N * N); int vs = g.i(3); dv v = arr(n + vs);
      iv perm(t.v.size()); for(size_t e = 0; e < perm.size(); e++) { perm[e] = (int)e; std::swap(perm[e], perm[g.i((int)e + 1)]); }
      if(real) {
        hiopMatrixSymSparseTriplet A(n, (int)t.v.size()); fill(A, t); auto X = rv(x), Y = rv(y), V = rv(v); auto R = rd(w, N, N);
        A.timesVec(beta, *Y, alpha, *X); vec(*Y); A.addUpperTriangleToSymDenseMatrixUpperTriangle(at, alpha, *R); den(*R); A.startingAtAddSubDiagonalToStartingAt(0, alpha, *V, vs, n); vec(*V);
        exact({(double)A.numberOfOffDiagNonzeros(), (double)A.is_diagonal()}); A.extract_diagonal(*X); vec(*X);
        int nz = n + A.numberOfOffDiagNonzeros(); hiopMatrixSymSparseTriplet H(n + vs, nz); iv hi(nz), hj(nz); dv hv(nz); auto DG = rv(y);
        H.set_Hess_FR(A, hi.data(), hj.data(), hv.data(), *DG); trip(H); for(int e = 0; e < nz; e++) exact({(double)hi[e], (double)hj[e], hv[e]});
        Trip q = t; for(size_t e = 0; e < q.v.size(); e++) { q.i[e] = t.i[perm[e]]; q.j[e] = t.j[perm[e]]; q.v[e] = t.v[perm[e]]; }
        if(!q.v.empty()) { auto Q = rs(q); Q->sort(); trip(*Q); }
        return "whole symmetric sparse operations";
      }
      dv y0 = y; start(y, beta); for(size_t e = 0; e < t.v.size(); e++) { add(t.i[e], alpha * t.v[e] * x[t.j[e]]); if(t.i[e] != t.j[e]) add(t.j[e], alpha * t.v[e] * x[t.i[e]]); }
      done(); start(w, 1); for(size_t e = 0; e < t.v.size(); e++) add((at + t.i[e]) * N + at + t.j[e], alpha * t.v[e]);
      done(); start(v, 1); int offd = 0; for(size_t e = 0; e < t.v.size(); e++) if(t.i[e] == t.j[e]) add(vs + t.i[e], alpha * t.v[e]); else offd++;
      done(); exact({(double)offd, (double)(offd == 0)}); dv dia(n, 0.); for(size_t e = 0; e < t.v.size(); e++) if(t.i[e] == t.j[e]) dia[t.i[e]] = t.v[e];
      exact(dia); Trip H; auto put = [&](int i, int j, double v) { H.i.push_back(i); H.j.push_back(j); H.v.push_back(v); };
      for(int i = 0; i < n; i++) { put(i, i, dia[i] + y0[i]); for(size_t e = 0; e < t.v.size(); e++) if(t.i[e] == i && t.j[e] != i) put(i, t.j[e], t.v[e]); }
      xtrip(H); xtrip(H); xtrip(t); return "whole symmetric sparse operations";
    }
    case 18: case 19: {   // compressed rows: X (m x n), Y (n x k), Z (m x n); products, transposes, sums, twice with the same patterns
      Trip tx = rtrip(g, m, n, false), ty = rtrip(g, n, k, false), tz = rtrip(g, m, n, false); bool viaCSR = g.p(0.5); dv c = arr(n), r = arr(m), dg = arr(n); double gam = rnd(), b2 = rnd();
      Trip tx2 = tx, ty2 = ty; for(auto& z : tx2.v) z = rnd(); for(auto& z : ty2.v) z = rnd();
      if(real) {
        auto csr = [&](const hiopMatrixSparseCSRSeq& A) { for(int i = 0; i <= (int)A.m(); i++) exact({(double)A.i_row()[i]}); for(int p = 0; p < A.numberOfNonzeros(); p++) exact({(double)A.j_col()[p], A.M()[p]}); };
        hiopMatrixSparseCSRSeq X, Y, Z, XT; auto A = rs(tx), B = rs(ty), C = rs(tz), A2 = rs(tx2), B2 = rs(ty2); auto VC = rv(c), VR = rv(r), DG = rv(dg);
        X.form_from_symbolic(*A); X.form_from_numeric(*A); Y.form_from_symbolic(*B); Y.form_from_numeric(*B); Z.form_from_symbolic(*C); Z.form_from_numeric(*C);
        if(viaCSR) { XT.form_transpose_from_symbolic(X); XT.form_transpose_from_numeric(X); } else { XT.form_transpose_from_symbolic(*A); XT.form_transpose_from_numeric(*A); }
        csr(XT);
        std::unique_ptr<hiopMatrixSparseCSR> M(X.times_mat_alloc(Y)); X.times_mat_symbolic(*M, Y); M->setToConstant(77.); X.times_mat_numeric(0., *M, alpha, Y);
        X.form_from_numeric(*A2); Y.form_from_numeric(*B2); X.times_mat_numeric(b2, *M, gam, Y); csr(dynamic_cast<hiopMatrixSparseCSRSeq&>(*M));
        if(viaCSR) XT.form_transpose_from_numeric(X); else XT.form_transpose_from_numeric(*A2);
        csr(XT);
        X.scale_cols(*VC); X.scale_rows(*VR); csr(X);
        std::unique_ptr<hiopMatrixSparseCSR> S(X.add_matrix_alloc(Z)); X.add_matrix_symbolic(*S, Z); S->setToConstant(77.); X.add_matrix_numeric(*S, gam, Z, beta); csr(dynamic_cast<hiopMatrixSparseCSRSeq&>(*S));
        hiopMatrixSparseCSRSeq D; D.form_diag_from_symbolic(*DG); D.form_diag_from_numeric(*DG); D.addDiagonal(alpha, *VC); D.addDiagonal(gam); csr(D); D.set_diagonal(b2); csr(D);
        return "whole compressed-row operations";
      }
      // dense, with the pattern and magnitudes of the entries
      typedef std::vector<std::pair<double, double>> DM; // value, magnitude (negative: not stored)
      auto dense = [&](const Trip& t) { DM d(t.m * t.n, {0., -1.}); for(size_t e = 0; e < t.v.size(); e++) d[t.i[e] * t.n + t.j[e]] = {t.v[e], std::fabs(t.v[e])}; return d; };
      auto csr = [&](const DM& d, int R, int C) {
        double p = 0; exact({0.}); for(int i = 0; i < R; i++) { for(int j = 0; j < C; j++) p += d[i * C + j].second >= 0; exact({p}); }
        for(int i = 0; i < R; i++) for(int j = 0; j < C; j++) if(d[i * C + j].second >= 0) { exact({(double)j}); val.push_back(d[i * C + j].first); mag.push_back(d[i * C + j].second); }
      };
      auto trans = [&](const DM& d, int R, int C) { DM t(R * C); for(int i = 0; i < R; i++) for(int j = 0; j < C; j++) t[j * R + i] = d[i * C + j]; return t; };
      DM x = dense(tx), y = dense(ty), z = dense(tz), x2 = dense(tx2), y2 = dense(ty2), M(m * k, {0., -1.});
      csr(trans(x, m, n), n, m);
      for(int i = 0; i < m; i++) for(int j = 0; j < k; j++) { auto& e = M[i * k + j]; for(int l = 0; l < n; l++) if(x[i * n + l].second >= 0 && y[l * k + j].second >= 0) {
        double a = alpha * x[i * n + l].first * y[l * k + j].first * b2, b = gam * x2[i * n + l].first * y2[l * k + j].first; e.first += a + b; e.second = std::max(e.second, 0.) + std::fabs(a) + std::fabs(b); } }
      csr(M, m, k); csr(trans(x2, m, n), n, m);
      for(int i = 0; i < m; i++) for(int j = 0; j < n; j++) if(x2[i * n + j].second >= 0) { auto& e = x2[i * n + j]; e.first *= c[j] * r[i]; e.second = std::fabs(e.first); }
      csr(x2, m, n);
      DM S(m * n, {0., -1.}); for(int i = 0; i < m * n; i++) if(x2[i].second >= 0 || z[i].second >= 0) S[i] = {gam * x2[i].first + beta * z[i].first, std::fabs(gam * x2[i].first) + std::fabs(beta * z[i].first)};
      csr(S, m, n);
      DM D(n * n, {0., -1.}); for(int i = 0; i < n; i++) D[i * n + i] = {dg[i] + alpha * c[i] + gam, std::fabs(dg[i]) + std::fabs(alpha * c[i]) + std::fabs(gam)};
      csr(D, n, n); for(int i = 0; i < n; i++) D[i * n + i] = {b2, 0.};
      csr(D, n, n); return "whole compressed-row operations";
    }
    case 20: case 21: {   // mixed dense-sparse matrices: A (m x (n+nd)), B (k x (n+nd)); symmetric block diagonal of sizes n and nd
      int nd = g.i(4), N = n + nd; Trip ta = rtrip(g, m, n, false), tb = rtrip(g, k, n, false), th = rtrip(g, n, n, true); dv da = arr(m * nd), db = arr(k * nd), dh = arr(nd * nd), x = arr(N), y = arr(m), z = arr(N), w = arr(m * k), sc = arr(m), h = arr(N);
      for(auto& c : sc) if(c == 0) c = 2; bool inv = g.p(0.5); for(int i = 0; i < nd; i++) for(int j = 0; j < i; j++) dh[i * nd + j] = dh[j * nd + i];
      int T = N + m + g.i(3), r0 = g.i(T - N - m + 1), c0 = r0 + N + g.i(T - N - m - r0 + 1), at = g.i(T - N + 1); dv u = arr(T * T);
      if(real) {
        auto mk = [&](int rows, const Trip& t, const dv& d) {
          std::unique_ptr<hiopMatrixMDS> A(new hiopMatrixMDS(rows, n, nd, (int)t.v.size(), "DEFAULT"));
          for(size_t e = 0; e < t.v.size(); e++) { A->sp_irow()[e] = t.i[e]; A->sp_jcol()[e] = t.j[e]; A->sp_M()[e] = t.v[e]; }
          for(size_t e = 0; e < d.size(); e++) A->de_local_data()[e] = d[e];
          return A;
        };
        auto A = mk(m, ta, da), B = mk(k, tb, db); auto X = rv(x), Y = rv(y), Z = rv(z), C = rv(sc), H = rv(h); auto W1 = rd(w, m, k), U = rd(u, T, T), U2 = rd(u, T, T); VP R(new hiopVectorPar(m)); R->setToConstant(7.);
        A->timesVec(beta, *Y, alpha, *X); vec(*Y); auto Y2 = rv(y); A->transTimesVec(beta, *Z, alpha, *Y2); vec(*Z);
        A->timesMatTrans(beta, *W1, alpha, *B); den(*W1); A->transAddToSymDenseMatrixUpperTriangle(r0, c0, alpha, *U); den(*U);
        A->row_max_abs_value(*R); vec(*R); exact({A->max_abs_value(), (double)A->m(), (double)A->n()});
        A->scale_row(*C, inv); auto E = rv(y); A->timesVec(0., *E, 1., *X); vec(*E);
        hiopMatrixSymBlockDiagMDS S(n, nd, (int)th.v.size(), "DEFAULT");
        for(size_t e = 0; e < th.v.size(); e++) { S.sp_irow()[e] = th.i[e]; S.sp_jcol()[e] = th.j[e]; S.sp_M()[e] = th.v[e]; }
        for(size_t e = 0; e < dh.size(); e++) S.de_local_data()[e] = dh[e];
        S.timesVec(beta, *H, alpha, *X); vec(*H); S.addUpperTriangleToSymDenseMatrixUpperTriangle(at, alpha, *U2); den(*U2);
        return "whole mixed dense-sparse operations";
      }
      dv a(m * N, 0.), b(k * N, 0.), s(N * N, 0.);
      for(size_t e = 0; e < ta.v.size(); e++) a[ta.i[e] * N + ta.j[e]] = ta.v[e]; for(size_t e = 0; e < tb.v.size(); e++) b[tb.i[e] * N + tb.j[e]] = tb.v[e];
      for(int j = 0; j < nd; j++) { for(int i = 0; i < m; i++) a[i * N + n + j] = da[i * nd + j]; for(int i = 0; i < k; i++) b[i * N + n + j] = db[i * nd + j]; for(int i = 0; i < nd; i++) s[(n + i) * N + n + j] = dh[i * nd + j]; }
      for(size_t e = 0; e < th.v.size(); e++) s[th.i[e] * N + th.j[e]] = s[th.j[e] * N + th.i[e]] = th.v[e];
      start(y, beta); for(int i = 0; i < m; i++) for(int j = 0; j < N; j++) add(i, alpha * a[i * N + j] * x[j]);
      done(); start(z, beta); for(int i = 0; i < m; i++) for(int j = 0; j < N; j++) add(j, alpha * a[i * N + j] * y[i]);
      done(); start(w, beta); for(int i = 0; i < m; i++) for(int j = 0; j < k; j++) for(int l = 0; l < N; l++) add(i * k + j, alpha * a[i * N + l] * b[j * N + l]);
      done(); start(u, 1); for(int i = 0; i < m; i++) for(int j = 0; j < N; j++) add((r0 + j) * T + c0 + i, alpha * a[i * N + j]);
      done(); double all = 0; for(int i = 0; i < m; i++) { double q = 0; for(int j = 0; j < N; j++) q = std::max(q, std::fabs(a[i * N + j])); exact({q}); all = std::max(all, q); }
      exact({all, (double)m, (double)N});
      start(y, 0); for(int i = 0; i < m; i++) for(int j = 0; j < N; j++) add(i, (inv ? a[i * N + j] / sc[i] : a[i * N + j] * sc[i]) * x[j]);
      done(); start(h, beta); for(int i = 0; i < N; i++) for(int j = 0; j < N; j++) add(i, alpha * s[i * N + j] * x[j]);
      done(); start(u, 1); for(int i = 0; i < N; i++) for(int j = i; j < N; j++) add((at + i) * T + at + j, alpha * s[i * N + j]);
      done(); return "whole mixed dense-sparse operations";
    }
    default: {   // the Jacobian of feasibility restoration
      Trip a = rtrip(g, m, n, false), b = rtrip(g, k, n, false), d; int nz = (int)(a.v.size() + b.v.size()) + 2 * (m + k); d.m = m + k; d.n = n + 2 * (m + k); 
      if(real) {
        auto A = rs(a), B = rs(b); hiopMatrixSparseTriplet D(d.m, d.n, nz); iv di(nz), dj(nz); dv dvv(nz);
        D.set_Jac_FR(*A, *B, di.data(), dj.data(), dvv.data()); trip(D); for(int e = 0; e < nz; e++) exact({(double)di[e], (double)dj[e], dvv[e]});
        return "whole sparse set_Jac_FR";
      }
      auto put = [&](int i, int j, double v) { d.i.push_back(i); d.j.push_back(j); d.v.push_back(v); };
      for(int i = 0; i < m; i++) { for(size_t e = 0; e < a.v.size(); e++) if(a.i[e] == i) put(i, a.j[e], a.v[e]); put(i, n + i, -1); put(i, n + m + i, 1); }
      for(int i = 0; i < k; i++) { for(size_t e = 0; e < b.v.size(); e++) if(b.i[e] == i) put(m + i, b.j[e], b.v[e]); put(m + i, n + 2 * m + i, -1); put(m + i, n + 2 * m + k + i, 1); }
      xtrip(d); xtrip(d); return "whole sparse set_Jac_FR";
    }
  }
}
