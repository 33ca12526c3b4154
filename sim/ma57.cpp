// Stand-in for the HSL MA57 solver (not available here): dense symmetric indefinite factorization with the same calling conventions, space requests and inertia
// reports, and with injected failures.
#include "sim.hpp"
#include "linfault.hpp"
#include <algorithm>
#include <cmath>
#include <cstring>
#include "hiop_defs.hpp"
#ifdef HIOP_DST_FULL
extern "C" {
void __real_dsytrf_(char*, int*, double*, int*, int*, double*, int*, int*);
void __real_dsytrs_(char*, int*, int*, double*, int*, int*, double*, int*, int*);

void ma57id_(double* cntl, int* icntl)
{
  sim::User own_memory;
  for(int i = 0; i < 5; i++) cntl[i] = 0;
  for(int i = 0; i < 20; i++) icntl[i] = 0;
  cntl[0] = 0.01; cntl[1] = 1e-20;
}
void ma57ad_(int* n, int* ne, int* irn, int* jcn, int* lkeep, int* keep, int*, int*, int* info, double*)
{
  sim::User own_memory;
  memset(info, 0, 40 * sizeof(int));
  if(*lkeep < 2 * *ne) { info[0] = -15; return; }
  for(int k = 0; k < *ne; k++) { keep[k] = irn[k]; keep[*ne + k] = jcn[k]; }
  // forecast for the factors, sometimes too small
  long r = (long)*n * *n + *n, i = *n + 4;
  int low = lin::L.on ? lin::L.space : 0;
  info[8] = (int)(low & 1 ? std::max(1L, r / 3) : r);
  info[9] = (int)(low & 2 ? std::max(1L, i / 3) : i);
}
void ma57bd_(int* n, int* ne, double* a, double* fact, int* lfact, int* ifact, int* lifact, int*, int* keep, int*, int*, double* cntl, int* info, double*)
{
  sim::User own_memory;
  memset(info, 0, 40 * sizeof(int));
  int N = *n; long need = (long)N * N + N;
  if(*lfact < need) { info[0] = -3; info[1] = *lfact; info[16] = (int)need; return; }
  if(*lifact < N + 4) { info[0] = -4; info[1] = *lifact; info[17] = N + 4; return; }
  const lin::Fault* f = nullptr;
  bool kkt = lin::L.on && lin::L.kkt_min >= 0 && N >= lin::L.kkt_min;
  if(kkt && lin::L.lsq >= 0) {
    bool id = *ne >= lin::L.lsq;
    for(int k = 0; k < lin::L.lsq && id; k++) id = keep[k] == k + 1 && keep[*ne + k] == k + 1 && a[k] == 1.;
    if(id) kkt = false;
  }
  if(lin::L.on) { lin::matrix(kkt, fact, a, *ne); f = lin::next(kkt ? lin::KKT : lin::SYM); }
  std::fill(fact, fact + need, 0.);
    for(int k = 0; k < *ne; k++) {
    int i = keep[k] - 1, j = keep[*ne + k] - 1;
    if(i < 0 || j < 0 || i >= N || j >= N) { info[0] = 1; continue; }
    if(i < j) std::swap(i, j);
    fact[(long)j * N + i] += a[k];
  }
  int lw = 64 * N, inf = 0; std::vector<double> w(lw); char u = 'L';
  __real_dsytrf_(&u, n, fact, n, ifact, w.data(), &lw, &inf);
  if(f && f->act == lin::WRONG_INERTIA) {
    double sg = f->at % 3 == 2 ? -1 : 1; bool done = false;
    for(int t = 0; t < 2 && !done; t++, sg = -sg) for(int k = N - 1; k >= 0 && !done; k--) if(ifact[k] > 0 && fact[(long)k * N + k] * sg > 1e-8) { fact[(long)k * N + k] *= -1; done = true; }
  }
  int neg = 0, rank = N; double tiny = cntl[1];
  for(int k = 0; k < N; k++) {
    double d = fact[(long)k * N + k];
    if(ifact[k] > 0) { if(!(std::fabs(d) > tiny)) rank--; else if(d < 0) neg++; }
    else if(k + 1 < N) {
      double s = fact[(long)k * N + k + 1], e = fact[(long)(k + 1) * N + k + 1];
      double det = (d / std::fabs(s)) * e - std::fabs(s);
      if(det < 0) neg++; else if(d < 0) neg += 2;
      k++;
    }
  }
  if(f && f->act != lin::WRONG_INERTIA) rank = std::min(rank, N - 1);
  info[23] = neg; info[24] = rank;
  if(rank < N) info[0] = 4;
  if(lin::L.on) lin::outcome(kkt, fact, info[0] == 4, neg, false);
}
void ma57dd_(int* job, int* n, int* ne, double* a, int* irn, int* jcn, double* fact, int* lfact, int* ifact, int*, double* rhs, double* x, double* resid, double*, int*, int* icntl, double*, int* info, double*)
{
  sim::User own_memory;
  memset(info, 0, 40 * sizeof(int));
  if(lin::L.on) {
    lin::used(fact);
    if(lin::next(lin::SOLVE)) { info[0] = -8; lin::solved(fact, true); return; }
  }
  int N = *n, one = 1, inf = 0; char u = 'L';
  if(lin::L.on) lin::solved(fact, false);
  // a zero pivot of a deficient matrix solves to zero
  std::vector<double> F(fact, fact + (long)N * N);
  for(int k = 0; k < N; k++) if(ifact[k] > 0 && F[(long)k * N + k] == 0) F[(long)k * N + k] = 1e300; else if(ifact[k] < 0) k++;
  std::copy(rhs, rhs + N, x);
  __real_dsytrs_(&u, n, &one, F.data(), n, ifact, x, n, &inf);
  for(int it = 0; it < icntl[8]; it++) {
    std::copy(rhs, rhs + N, resid);
    for(int k = 0; k < *ne; k++) { int i = irn[k] - 1, j = jcn[k] - 1; resid[i] -= a[k] * x[j]; if(i != j) resid[j] -= a[k] * x[i]; }
    std::vector<double> d(resid, resid + N);
    __real_dsytrs_(&u, n, &one, F.data(), n, ifact, d.data(), n, &inf);
    for(int i = 0; i < N; i++) x[i] += d[i];
  }
}
void ma57cd_(int*, int* n, double* fact, int*, int* ifact, int*, int* nrhs, double* rhs, int* lrhs, double*, int*, int*, int*, int* info)
{
  sim::User own_memory;
  int inf = 0; char u = 'L'; info[0] = 0;
  if(lin::L.on) { lin::used(fact); if(lin::next(lin::SOLVE)) { info[0] = -8; lin::solved(fact, true); return; } }
  if(lin::L.on) lin::solved(fact, false);
  __real_dsytrs_(&u, n, nrhs, fact, n, ifact, rhs, lrhs, &inf);
}
void ma57ed_(int*, int* ic, int*, double* fact, int* lfact, double* newfac, int* lnew, int* ifact, int* lifact, int* newifc, int* linew, int* info)
{
  sim::User own_memory;
  info[0] = 0;
  if(*ic == 0) std::copy(fact, fact + std::max(0, std::min(*lfact, *lnew)), newfac);
  else std::copy(ifact, ifact + std::max(0, std::min(*lifact, *linew)), newifc);
}
}
#endif
