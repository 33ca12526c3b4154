// Deterministic simulator core: choice streams, event log, fibers, simulated MPI, run harness.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <functional>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- choices
enum Stream { CFG = 0, SCHED = 1, FAULT = 2, NSTREAMS = 3 };
/// recorded choice in [0,n); 0 is always the simplest alternative
uint32_t choose(Stream s, uint32_t n);
/// recorded choice, 1 with probability p
bool chance(Stream s, double p);
/// recorded choice in [lo,hi], lo is the simplest
inline int range(Stream s, int lo, int hi) { return lo + (int)choose(s, (uint32_t)(hi - lo + 1)); }
/// pick with weights; index 0 is the simplest
int weighted(Stream s, std::initializer_list<double> w);

/// local PRNG for bulk data, to be seeded from one recorded choice
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
  uint64_t next()
  {
    s += 0x9E3779B97F4A7C15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  double u() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
  double u(double a, double b) { return a + (b - a) * u(); }
  int i(int n) { return (int)(next() % (uint64_t)n); }
  bool p(double q) { return u() < q; }
};

// ---------------------------------------------------------------- observations
/// fold into the event log (and print it in trace mode)
void ev(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void ev_mem(const char* what, const void* p, size_t nbytes);
/// record a violation of property 'prop' ("*" = the property being checked). Same class => same finding
void violate(const char* prop, const char* cls, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
bool has_violation();
/// for this run, failed assertions and exhausted step budgets are only counted (the property being checked does not speak about them)
void aborts_belong_elsewhere();
void aborts_belong_here(const char* except = nullptr);   // except: assertions ('|' separated parts of their text) that still belong elsewhere
void count(const char* name, uint64_t n = 1);
void nontrivial();
void describe(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void state_hash(uint64_t h);    // adds a distinct-state observation
const char* prop();             // property being checked
bool want(const char* p);       // is p the property being checked
bool tracing();
bool thorough();
const char* scratch_dir();      // per-run scratch directory (created on demand, removed after the run)
/// run body in a copy of this process in its present state and get what it returns; false: it did not finish (aborted where aborts belong elsewhere).
/// Nothing the body does to the state of the process is seen here; it must not need recorded choices.
bool elsewhere(const std::function<std::string()>& body, std::string& out);
/// end the run right now with what was observed
[[noreturn]] void finish_now();

// ---------------------------------------------------------------- scheduling
struct WorldCfg {
  int n = 1;
  int policy = 0;          // 0 round robin 1 uniform 2 bursts 3 slow rank 4 fast rank
  int special = 0;         // slow / fast rank
  int max_delay = 0;       // message delay in steps
  int slow_link = -1;      // destination rank with long delays
  bool allow_sync = false; // blocking / non-blocking sends may be synchronous (rendezvous)
  bool random_order = false; // order of reductions
  bool early_leave = true; // non-roots may leave rooted collectives early
  bool poison = true;      // receive buffers hold garbage while pending
  uint64_t max_steps = 3000000;
};
/// swarm-style random configuration
WorldCfg draw_world(int n);

/// run body(rank) on cfg.n ranks. Returns true if all ranks returned
bool run_world(const WorldCfg& cfg, const std::function<void(int)>& body);

/// run independent tasks (each its own world of size 1) interleaved at yield points
bool run_tasks(int n, int policy, const std::function<void(int)>& body, uint64_t max_steps = 3000000);

/// scheduling point inside user code; work = virtual duration in steps
void yield(int work = 0);
int my_rank();
int my_world_size();
bool in_fiber();
uint64_t steps();

// ---------------------------------------------------------------- clock
struct ClockCfg {
  int mode = 0;        // 0 steady 1 frozen 2 jumping both ways 3 backwards 4 fast
  double skew = 0.;    // per rank skew magnitude
};
void set_clock(const ClockCfg& c);
double now();          // true virtual time

// ---------------------------------------------------------------- output
struct FileSink { int mode = 0; uint64_t bytes = 0; bool own = false; };
struct StdioCfg {
  bool on = false;
  int out_mode = 0;       // standard output: 0 fine 1 every write fails 2 some writes fail 3 short writes 4 full after 5000 bytes 5 closed
  int file_mode = 0;      // files opened for writing, likewise
  double open_fail = 0;   // probability that opening a file for writing fails
  bool unbuffered = false;
};
/// replace standard output and the files the library opens for writing by (failing) sinks
void set_stdio(const StdioCfg& c);

// ---------------------------------------------------------------- input
struct ReadCfg { bool shorts = false; long error_at = -1; };
/// reads of the library return few bytes at a time; reading fails (EIO) after error_at bytes
void set_reads(const ReadCfg& c);

// ---------------------------------------------------------------- allocator
/// contents of freshly allocated memory: 0 zeros, 1 NaN pattern, 2 0xFF, 3 seeded garbage, -1 leave
void set_fill(int mode, uint64_t seed = 1);

/// code between these belongs to the library / to its user (or to the simulator): memory obtained by the library is tracked
struct Lib { int old; Lib(); ~Lib(); };
struct User { int old; User(); ~User(); };
void track(bool on);            // from now on, blocks obtained by the library are remembered and have guard zones
struct Live { size_t blocks = 0, bytes = 0, files = 0; };
Live live();                    // blocks (obtained since tracking started) and files the library did not release yet
std::string live_text(int max); // where they were obtained
std::string overrun_text();     // first block that was written beyond its end (empty: none)

}  // namespace sim

/// entry points of the checks (p_*.cpp): run one simulated execution of the named workload
void run_property(const char* prop);
