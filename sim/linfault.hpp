// faults of the linear solvers, decided by the simulator
#pragma once
#include <map>
#include <vector>
namespace lin {
enum Routine { KKT = 0, SYM, SOLVE, POSVX, POTRF, POSOLVE, NROUTINE };
enum Act { SINGULAR = 0, ILLEGAL, WRONG_INERTIA };
struct Fault { int routine, at, cnt, act; };
struct State {
  bool on = false, ic = true;
  int kkt_min = -1, neg = 0, space = 0, lsq = -1;   // lsq: order of the identity block of the systems for initial multipliers (sparse)
  std::vector<Fault> plan;
  int calls[NROUTINE] = {0}, hit_routine[NROUTINE] = {0}, since_eval[NROUTINE] = {0};
  int hits = 0, worst_kkt = 0, after_persist = 0, misuse = 0, misuse_call = 0;
  bool persist_hit = false;
  std::map<const void*, int> state;
  // the matrices of consecutive KKT factorizations
  std::vector<double> last; bool last_wrong = false, inertia_exact = false; int irregular = 0, same = 0;
  bool solve_failed = false, solve_ok = false; int after_failed_solve = 0;   // the solves with the current factors of the KKT system failed, without exception
  std::map<const void*, bool> is_kkt;
};
extern State L;
extern const char* routine_name[NROUTINE];
void begin(int kkt_min, int neg, bool ic);
const Fault* next(int routine);
void bad(const void* A, int why);
void used(const void* A);
void matrix(bool kkt, const void* A, const double* v, long nv);
void outcome(bool kkt, const void* A, bool failed, int neg, bool zeros);
void solved(const void* A, bool failed);
void evaluation();
}
