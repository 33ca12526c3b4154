#include "sim.hpp"
#include "mpi.h"
#include <algorithm>
#include <cassert>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <dirent.h>
#include <exception>
#include <fcntl.h>
#include <malloc.h>
#include <map>
#include <memory>
#include <new>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <cmath>
#include <ctime>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>

namespace sim {

// ================================================================= shared result area
struct Viol { char prop[8]; char cls[240]; char msg[800]; };
struct Ctr { char name[56]; uint64_t n; };
static const uint32_t RECCAP = 6u << 20;
struct Shared {
  volatile int finished;
  uint64_t hash, shash, nev, steps;
  double vtime;
  int nviol; Viol viol[6];
  int nctr; Ctr ctr[160];
  int nontriv;
  char desc[600];
  int nstates; uint64_t states[64];
  uint32_t nrec[NSTREAMS];
};
static Shared* sh = nullptr;
static uint32_t* rec[NSTREAMS];

static std::string g_prop = "C00";
static bool g_trace = false, g_thorough = false, g_in_child = false;
static char g_scratch[128] = "";
static FILE* g_tracef = nullptr;

// ================================================================= choices
struct StreamState { bool ovr = false; std::vector<uint32_t> val; size_t pos = 0; uint64_t s = 0; };
static StreamState st[NSTREAMS];

static uint64_t mix(uint64_t a, uint64_t b)
{
  uint64_t z = a + 0x9E3779B97F4A7C15ull * (b + 1);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static void record(Stream s, uint32_t v)
{
  uint32_t k = sh->nrec[s];
  if(k < RECCAP) { rec[s][k] = v; sh->nrec[s] = k + 1; }
}
static bool next_override(StreamState& x, uint32_t n, uint32_t& v)
{
  if(!x.ovr) return false;
  v = x.pos < x.val.size() ? x.val[x.pos] : 0;
  x.pos++;
  if(v >= n) v = v % n;
  return true;
}
static uint64_t rnd(StreamState& x)
{
  x.s += 0x9E3779B97F4A7C15ull;
  uint64_t z = x.s;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
uint32_t choose(Stream s, uint32_t n)
{
  User own_memory;
  if(n <= 1) return 0;
  StreamState& x = st[s];
  uint32_t v;
  if(!next_override(x, n, v)) v = (uint32_t)((rnd(x) >> 16) % n);
  record(s, v);
  return v;
}
bool chance(Stream s, double p)
{
  if(p <= 0) return false;
  StreamState& x = st[s];
  uint32_t v;
  if(!next_override(x, 2, v)) v = ((double)(rnd(x) >> 11) * (1.0 / 9007199254740992.0)) < p ? 1 : 0;
  record(s, v);
  return v != 0;
}
int weighted(Stream s, std::initializer_list<double> w)
{
  StreamState& x = st[s];
  uint32_t v, n = (uint32_t)w.size();
  if(!next_override(x, n, v)) {
    double t = 0; for(double a : w) t += a;
    double r = (double)(rnd(x) >> 11) * (1.0 / 9007199254740992.0) * t;
    v = 0;
    for(double a : w) { if(r < a) break; r -= a; v++; }
    if(v >= n) v = n - 1;
  }
  record(s, v);
  return (int)v;
}

// ================================================================= observations
static inline void fold(uint64_t& h, const void* p, size_t n)
{
  const unsigned char* c = (const unsigned char*)p;
  uint64_t x = h;
  while(n >= 8) { uint64_t v; memcpy(&v, c, 8); x = (x ^ v) * 0x9FB21C651E98DF25ull; x ^= x >> 32; c += 8; n -= 8; }
  uint64_t v = n; for(size_t i = 0; i < n; i++) v = (v << 8) | c[i];
  x = (x ^ v) * 0x9FB21C651E98DF25ull; x ^= x >> 29;
  h = x;
}
void ev(const char* fmt, ...)
{
  User own_memory;
  char b[512];
  va_list a; va_start(a, fmt); int n = vsnprintf(b, sizeof b, fmt, a); va_end(a);
  if(n > (int)sizeof b - 1) n = sizeof b - 1;
  fold(sh->hash, b, n);
  sh->nev++;
  if(g_trace && g_tracef) { fprintf(g_tracef, "%8llu r%d %s\n", (unsigned long long)steps(), my_rank(), b); fflush(g_tracef); }
}
void ev_mem(const char* what, const void* p, size_t n)
{
  User own_memory;
  fold(sh->hash, what, strlen(what));
  fold(sh->hash, p, n);
  sh->nev++;
  if(g_trace && g_tracef) {
    fprintf(g_tracef, "%8llu r%d %s", (unsigned long long)steps(), my_rank(), what);
    for(size_t i = 0; i < n / 8 && i < 24; i++) { double d; memcpy(&d, (const char*)p + 8 * i, 8); fprintf(g_tracef, " %.10g", d); }
    fprintf(g_tracef, "\n"); fflush(g_tracef);
  }
}
static void sanitize(char* s) { for(; *s; s++) if(*s == '\n' || *s == '\t') *s = ' '; }
static bool g_aborts_ok = false;
static std::string g_aborts_except;
static bool excepted(const char* cls);
void violate(const char* p, const char* cls, const char* fmt, ...)
{
  User own_memory;
  char m[800];
  va_list a; va_start(a, fmt); vsnprintf(m, sizeof m, fmt, a); va_end(a);
  const char* pp = (p[0] == '*') ? g_prop.c_str() : p;
  if(g_trace && g_tracef) { fprintf(g_tracef, "!!! VIOLATES %s [%s] %s\n", pp, cls, m); fflush(g_tracef); }
  if(g_prop != pp) { count("other_property_observations"); return; }
  if(p[0] == '*' && (excepted(cls) || (g_aborts_ok && (!strncmp(cls, "assert:", 7) || !strcmp(cls, "no-progress"))))) { fold(sh->hash, cls, strlen(cls)); count("sim.runs_cut_short_by_an_abort"); if(getenv("DST_SHOWCUT")) { static char z[400]; snprintf(z,400,"cut.%.300s",cls); count(z);} return; }
  for(int i = 0; i < sh->nviol; i++) if(!strcmp(sh->viol[i].cls, cls)) return;
  if(sh->nviol >= 6) return;
  Viol& v = sh->viol[sh->nviol];
  snprintf(v.prop, sizeof v.prop, "%s", pp);
  snprintf(v.cls, sizeof v.cls, "%s", cls);
  snprintf(v.msg, sizeof v.msg, "%s", m);
  sanitize(v.cls); sanitize(v.msg);
  fold(sh->hash, v.cls, strlen(v.cls));
  sh->nviol++;
}
void aborts_belong_elsewhere() { g_aborts_ok = true; }
void aborts_belong_here(const char* except) { g_aborts_ok = false; g_aborts_except = except ? except : ""; }
static bool excepted(const char* cls)
{
  if(strncmp(cls, "assert:", 7)) return false;
  size_t i = 0;
  while(i < g_aborts_except.size()) { size_t e = g_aborts_except.find('|', i); if(e == std::string::npos) e = g_aborts_except.size(); if(strstr(cls, g_aborts_except.substr(i, e - i).c_str())) return true; i = e + 1; }
  return false;
}
bool has_violation() { return sh->nviol > 0; }
void count(const char* name, uint64_t n)
{
  User own_memory;
  for(int i = 0; i < sh->nctr; i++) if(!strncmp(sh->ctr[i].name, name, 55)) { sh->ctr[i].n += n; return; }
  if(sh->nctr >= 160) return;
  Ctr& c = sh->ctr[sh->nctr];
  snprintf(c.name, sizeof c.name, "%s", name); c.n = n;
  sh->nctr++;
}
void nontrivial() { sh->nontriv = 1; }
void describe(const char* fmt, ...)
{
  User own_memory;
  size_t l = strlen(sh->desc);
  if(l > 560) return;
  va_list a; va_start(a, fmt); vsnprintf(sh->desc + l, sizeof sh->desc - l, fmt, a); va_end(a);
  sanitize(sh->desc);
}
void state_hash(uint64_t h)
{
  User own_memory;
  if(sh->nstates < 64) sh->states[sh->nstates++] = h;
}
const char* prop() { return g_prop.c_str(); }
bool want(const char* p) { return g_prop == p; }
bool tracing() { return g_trace; }
bool thorough() { return g_thorough; }
const char* scratch_dir()
{
  if(!g_scratch[0]) {
    snprintf(g_scratch, sizeof g_scratch, "/tmp/dst_scratch_%d", (int)getpid());
    mkdir(g_scratch, 0700);
  }
  return g_scratch;
}
static void remove_dir(const char* dir)
{
  if(strncmp(dir, "/tmp/dst_scratch_", 17) != 0) return;
  DIR* d = opendir(dir);
  if(!d) return;
  while(dirent* e = readdir(d)) {
    if(!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
    char p[600]; snprintf(p, sizeof p, "%s/%s", dir, e->d_name);
    if(unlink(p) != 0) { chmod(p, 0700); rmdir(p); }
  }
  closedir(d);
  rmdir(dir);
}

// ================================================================= allocator
static int g_fill = -1;
static uint64_t g_fill_seed = 1;
void set_fill(int mode, uint64_t seed) { g_fill = mode; g_fill_seed = seed; }
static void fill_mem(void* p, size_t n)
{
  switch(g_fill) {
  case 0: memset(p, 0, n); break;
  case 1: { uint64_t v = 0x7ff8dead7ff8deadull; size_t i = 0; for(; i + 8 <= n; i += 8) memcpy((char*)p + i, &v, 8); break; }
  case 2: memset(p, 0xFF, n); break;
  case 3: { uint64_t s = g_fill_seed; size_t i = 0;
      for(; i + 8 <= n; i += 8) { s = s * 6364136223846793005ull + 1442695040888963407ull; double d = ((double)(int64_t)s) * 1e-15; memcpy((char*)p + i, &d, 8); }
      break; }
  default: break;
  }
}
static void check_free(void* p);
static int g_npending = 0;

}  // namespace sim

// ---- who owns the memory
extern "C" { void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_free(void*); int __real_fclose(FILE*); }
namespace sim {
static int g_lib = 0; static bool g_track = false;
Lib::Lib() : old(g_lib) { g_lib = 1; }
Lib::~Lib() { g_lib = old; }
User::User() : old(g_lib) { g_lib = 0; }
User::~User() { g_lib = old; }
struct Block { void* p; size_t n; uint64_t seq; void* at[10]; Block* next; };
static Block* g_blocks[1 << 13]; static Block* g_spare = nullptr;
static size_t g_nblocks = 0, g_nbytes = 0; static long g_nfiles = 0; static uint64_t g_blockseq = 0; static Block g_overrun;
static inline size_t slot(void* p) { return ((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 51; }
static const size_t GUARD = 24;
static void stack_of(void** at, void** fp);
static inline bool tracked() { return g_track && g_lib; }
static void* remember(void* p, size_t n, void** fp)
{
  Block* b = g_spare; if(b) g_spare = b->next; else b = (Block*)__real_malloc(sizeof(Block));
  b->p = p; b->n = n; b->seq = g_blockseq++; stack_of(b->at, fp);
  memset((char*)p + n, 0xC7, GUARD);
  size_t h = slot(p); b->next = g_blocks[h]; g_blocks[h] = b; g_nblocks++; g_nbytes += n;
  return p;
}
static void check_guard(Block* b)
{
  if(g_overrun.p) return;
  for(size_t i = 0; i < GUARD; i++) if(((unsigned char*)b->p)[b->n + i] != 0xC7) { g_overrun = *b; return; }
}
static size_t forget(void* p)
{
  if(!g_nblocks || !p) return 0;
  for(Block** q = &g_blocks[slot(p)]; *q; q = &(*q)->next) if((*q)->p == p) {
      Block* b = *q; check_guard(b); size_t n = b->n; *q = b->next; b->next = g_spare; g_spare = b; g_nblocks--; g_nbytes -= n; return n;
    }
  return 0;
}
}  // namespace sim
extern "C" {
void* __wrap_malloc(size_t n) { if(!sim::tracked()) return __real_malloc(n); void* p = __real_malloc(n + sim::GUARD); return p ? sim::remember(p, n, (void**)__builtin_frame_address(0)) : p; }
void* __wrap_calloc(size_t a, size_t b) { if(!sim::tracked()) return __real_calloc(a, b); void* p = __wrap_malloc(a * b); if(p) memset(p, 0, a * b); return p; }
void* __wrap_realloc(void* q, size_t n)
{
  size_t o = q ? sim::forget(q) : 0;
  if(!sim::tracked() && !o) return __real_realloc(q, n);
  void* p = __real_realloc(q, n + sim::GUARD);
  return p ? sim::remember(p, n, (void**)__builtin_frame_address(0)) : p;
}
void __wrap_free(void* p) { sim::forget(p); __real_free(p); }
int __wrap_fclose(FILE* f) { if(sim::g_lib && sim::g_track) sim::g_nfiles--; return __real_fclose(f); }
}

static inline void* sim_alloc(size_t n)
{
  void* p = sim::tracked() ? __real_malloc(n + sim::GUARD) : __real_malloc(n ? n : 1);
  if(!p) throw std::bad_alloc();
  if(sim::tracked()) sim::remember(p, n, (void**)__builtin_frame_address(0));
  if(sim::g_fill >= 0) sim::fill_mem(p, n);
  return p;
}
void* operator new(size_t n) { return sim_alloc(n); }
void* operator new[](size_t n) { return sim_alloc(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim_alloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim_alloc(n); }
static inline void sim_free(void* p)
{
  if(p && sim::g_npending) sim::check_free(p);
  sim::forget(p);
  if(p && sim::g_fill >= 0) sim::fill_mem(p, malloc_usable_size(p));   // released memory does not keep its contents
  __real_free(p);
}
void operator delete(void* p) noexcept { sim_free(p); }
void operator delete[](void* p) noexcept { sim_free(p); }
void operator delete(void* p, size_t) noexcept { sim_free(p); }
void operator delete[](void* p, size_t) noexcept { sim_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim_free(p); }

namespace sim {

// ================================================================= fibers
struct World;
struct Fiber {
  ucontext_t ctx;
  char* stack = nullptr; size_t ssz = 0;
  int rank = 0; World* w = nullptr;
  bool done = false, blocked = false;
  std::function<bool()> pred;
  const char* why = "";
  uint64_t sleep_until = 0, last_run = 0;
  uint64_t coll_seq[64];
};

struct Msg {
  int src, dst, tag, comm; int type; size_t bytes;
  bool eager; std::vector<char> data; const void* sbuf; uint64_t sum;
  struct sim_request_ *sreq = nullptr, *rreq = nullptr;
  uint64_t ready; bool done = false; uint64_t id;
};
enum RK { RSEND, RRECV };
struct sim_request_ {
  RK kind; void* buf; size_t bytes; int type; int src, dst, tag, comm; Fiber* f; World* w;
  bool complete = false; uint64_t complete_at = 0; uint64_t sum = 0; bool poisoned = false; bool flagged = false;
  bool internal = false; // blocking op, lives in the MPI layer
  int st_src = 0, st_tag = 0; size_t st_bytes = 0;
  std::shared_ptr<Msg> msg; uint64_t id;
  void** owner = nullptr; void* owner_ret = nullptr; // stack frame that holds the buffer (nullptr: not on a stack)
};
struct Coll {
  std::string kind; int count, type, op, root; int arrived = 0, left = 0;
  std::vector<bool> in; std::vector<std::vector<char>> data; std::vector<char> result; bool reduced = false;
};
struct World {
  WorldCfg cfg; std::vector<std::unique_ptr<Fiber>> f;
  std::deque<std::shared_ptr<Msg>> unexpected;      // arrived order of posting, unmatched
  std::vector<sim_request_*> posted;                 // unmatched receives in post order
  std::vector<std::shared_ptr<Msg>> flight;          // matched, not transferred
  std::map<std::pair<int, uint64_t>, Coll> colls;    // (comm, seq)
  int ncomm = 3;
  std::vector<double> clk_off;
};

static ucontext_t g_main;
static Fiber* g_cur = nullptr;
static World* g_w0 = nullptr;          // world outside fibers
static uint64_t g_step = 0;
static uint64_t g_msgid = 0;
static std::vector<sim_request_*> g_live;   // all live requests
static ClockCfg g_clk;

// ---- memory of the library
static void stack_of(void** at, void** fp)
{
  for(int i = 0; i < 10; i++) at[i] = nullptr;
  if(!g_cur) return;
  char* lo = g_cur->stack; char* hi = lo + g_cur->ssz - 16;
  for(int i = 0; i < 10 && (char*)fp >= lo && (char*)fp < hi && !((uintptr_t)fp & 7); i++) { at[i] = fp[1]; void** up = (void**)fp[0]; if(up <= fp) break; fp = up; }
}
void track(bool on)
{
  g_track = on;
  if(!on) return;
  for(auto& h : g_blocks) while(h) { Block* b = h; h = b->next; b->next = g_spare; g_spare = b; }
  g_nblocks = g_nbytes = 0; g_nfiles = 0; g_overrun.p = nullptr; g_blockseq = 0;
}
Live live() { Live l; l.blocks = g_nblocks; l.bytes = g_nbytes; l.files = g_nfiles > 0 ? g_nfiles : 0; return l; }
extern "C" char __executable_start;
static std::string where(const Block& b)
{
  char exe[512]; ssize_t k = readlink("/proc/self/exe", exe, sizeof exe - 1); if(k < 0) return "?"; exe[k] = 0;
  std::string cmd = std::string("addr2line -Cf -e ") + exe;
  char t[40]; for(void* a : b.at) if(a) { snprintf(t, sizeof t, " 0x%lx", (unsigned long)((char*)a - &__executable_start) - 1); cmd += t; }
  std::string out; int shown = 0;
  if(FILE* f = popen((cmd + " 2>/dev/null").c_str(), "r")) {
    char l[1000]; bool fn = true;
    while(fgets(l, sizeof l, f)) {
      if(fn) { std::string n(l); n = n.substr(0, n.find_first_of("\n(")); if(shown < 3 && n.find("std::") == std::string::npos && n.find("operator new") == std::string::npos && n.find("gnu_cxx") == std::string::npos && n.find("__wrap") == std::string::npos && n != "??") { out += (shown++ ? " < " : "") + n; } }
      fn = !fn;
    }
    pclose(f);
  }
  snprintf(t, sizeof t, " (%zu bytes)", b.n);
  return out + t;
}
std::string live_text(int max)
{
  User own_memory;
  std::vector<Block*> v; for(auto h : g_blocks) for(Block* b = h; b; b = b->next) v.push_back(b);
  std::sort(v.begin(), v.end(), [](Block* a, Block* b) { return a->seq < b->seq; });
  std::string s; std::vector<std::string> seen;
  for(Block* b : v) { if((int)seen.size() >= max) break; std::string w = where(*b); if(std::find(seen.begin(), seen.end(), w) != seen.end()) continue; s += (seen.empty() ? "" : "; ") + w; seen.push_back(w); }
  return s;
}
std::string overrun_text()
{
  User own_memory;
  for(auto h : g_blocks) for(Block* b = h; b; b = b->next) check_guard(b);
  return g_overrun.p ? where(g_overrun) : "";
}

bool in_fiber() { return g_cur != nullptr; }
int my_rank() { return g_cur ? g_cur->rank : 0; }
int my_world_size() { return g_cur ? g_cur->w->cfg.n : 1; }
uint64_t steps() { return g_step; }
double now() { return g_step * 1e-6; }

static uint64_t csum(const void* p, size_t n) { uint64_t h = 0xcbf29ce484222325ull; fold(h, p, n); return h; }

void finish_now()
{
  if(sh) { sh->steps = g_step; sh->vtime = now(); sh->finished = 1; }
  if(g_scratch[0]) remove_dir(g_scratch);
  _exit(0);
}

static size_t tsize(int t)
{
  switch(t) {
  case SIM_T_DOUBLE: case SIM_T_LONG: case SIM_T_LLONG: case SIM_T_ULONG: case SIM_T_ULLONG: return 8;
  case SIM_T_INT: case SIM_T_UNSIGNED: case SIM_T_FLOAT: return 4;
  case SIM_T_CHAR: case SIM_T_BYTE: case SIM_T_BOOL: return 1;
  }
  return 0;
}

// buffers of pending requests must stay alive, in scope and untouched
static void check_free(void* p)
{
  size_t n = malloc_usable_size(p);
  for(size_t i = 0; i < g_live.size(); i++) {
    sim_request_* r = g_live[i];
    if(r->internal || r->flagged) continue;
    if((char*)r->buf >= (char*)p && (char*)r->buf < (char*)p + n) {
      r->flagged = true;
      violate("C04", r->kind == RSEND ? "send-buffer-freed-while-pending" : "recv-buffer-freed-while-pending",
              "rank %d: buffer of pending %s (peer %d tag %d, %zu bytes) freed before the request was completed", r->f ? r->f->rank : 0,
              r->kind == RSEND ? "send" : "receive", r->kind == RSEND ? r->dst : r->src, r->tag, r->bytes);
    }
  }
}
// everything is compiled with frame pointers: walk the chain of frames of the running fiber
template<class Fn> static void walk_frames(Fn fn)
{
  char* lo = g_cur->stack; char* hi = g_cur->stack + g_cur->ssz;
  void** fp = (void**)__builtin_frame_address(0);
  while((char*)fp >= lo && (char*)fp < hi - 16) {
    if(fn(fp)) return;
    void** up = (void**)fp[0];
    if(up <= fp) return;
    fp = up;
  }
}
static void note_owner(sim_request_* r)
{
  if(!g_cur) return;
  bool in_stack = (char*)r->buf >= g_cur->stack && (char*)r->buf < g_cur->stack + g_cur->ssz;
  if(!in_stack) return;
  walk_frames([&](void** fp) { if((char*)fp > (char*)r->buf) { r->owner = fp; r->owner_ret = fp[1]; return true; } return false; });
}
static bool owner_gone(sim_request_* r)
{
  if(!r->owner) return false;
  bool gone = true;
  walk_frames([&](void** fp) { if(fp == r->owner) { gone = fp[1] != r->owner_ret; return true; } return fp > r->owner; });
  return gone;
}
static void check_pending(const char* where)
{
  if(!g_cur) return;
  for(sim_request_* r : g_live) {
    if(r->f != g_cur || r->flagged || r->internal) continue;
    if(owner_gone(r)) {
      r->flagged = true;
      violate("C04", r->kind == RSEND ? "send-buffer-out-of-scope" : "recv-buffer-out-of-scope",
              "rank %d: buffer of pending %s (tag %d) is in a stack frame that is gone (%s)", g_cur->rank, r->kind == RSEND ? "send" : "receive", r->tag, where);
      continue;
    }
    if(r->kind == RSEND) {
      if(csum(r->buf, r->bytes) != r->sum) {
        r->flagged = true;
        violate("C04", "send-buffer-modified-while-pending", "rank %d: buffer of pending send to %d tag %d changed before completion (%s)", g_cur->rank, r->dst, r->tag, where);
      }
    } else if(r->poisoned && !r->complete) {
      if(csum(r->buf, r->bytes) != r->sum) {
        r->flagged = true;
        violate("C04", "recv-buffer-modified-while-pending", "rank %d: buffer of pending receive from %d tag %d modified before completion (%s)", g_cur->rank, r->src, r->tag, where);
      }
    }
  }
}

static void add_live(sim_request_* r) { r->id = ++g_msgid; note_owner(r); g_live.push_back(r); g_npending = (int)g_live.size(); }
static void drop_live(sim_request_* r)
{
  g_live.erase(std::remove(g_live.begin(), g_live.end(), r), g_live.end());
  g_npending = (int)g_live.size();
}

static bool in_scope(sim_request_* r)
{
  if(r->internal || !r->f) return true;
  return !r->flagged;
}

// transfer everything that is due
static void progress(World* w)
{
  for(size_t i = 0; i < w->flight.size();) {
    auto m = w->flight[i];
    if(m->ready > g_step) { i++; continue; }
    sim_request_* r = m->rreq;
    const char* src = m->eager ? m->data.data() : (const char*)m->sbuf;
    if(r && m->bytes > r->bytes) {
      violate("*", "message-truncated", "message %d->%d tag %d of %zu bytes received into %zu bytes", m->src, m->dst, m->tag, m->bytes, r->bytes);
      finish_now();
    }
    if(r && r->type != m->type) violate("C04", "datatype-mismatch", "message %d->%d tag %d sent as type %d received as type %d", m->src, m->dst, m->tag, m->type, r->type);
    if(r) {
      if(r->poisoned && in_scope(r) && csum(r->buf, r->bytes) != r->sum) {
        r->flagged = true;
        violate("C04", "recv-buffer-modified-while-pending", "rank %d: buffer of pending receive from %d tag %d modified before completion", r->dst, r->src, r->tag);
      }
      if(in_scope(r)) memcpy(r->buf, src, m->bytes);
      r->complete = true; r->poisoned = false;
      r->st_src = m->src; r->st_tag = m->tag; r->st_bytes = m->bytes;
      r->sum = csum(r->buf, r->bytes);
    }
    if(m->sreq) { m->sreq->complete = true; m->sreq->msg.reset(); m->sreq = nullptr; }
    m->done = true;
    ev("xfer m%llu %d->%d t%d", (unsigned long long)m->id, m->src, m->dst, m->tag);
    w->flight.erase(w->flight.begin() + i);
  }
}

struct Loop { std::vector<Fiber*> all; int policy, special; };
static Loop* g_loop = nullptr;

static void to_sched()
{
  Fiber* me = g_cur;
  int lib = g_lib; g_lib = 0;
  swapcontext(&me->ctx, &g_main);
  g_lib = lib;
}
static void block_until(const char* why, std::function<bool()> pred)
{
  if(pred()) return;
  if(!g_cur) { violate("*", "deadlock", "single process waits forever in %s", why); finish_now(); }
  g_cur->blocked = true; g_cur->pred = std::move(pred); g_cur->why = why;
  to_sched();
}
static void sched_point()
{
  if(!g_cur) { g_step++; return; }
  to_sched();
}
void yield(int work)
{
  if(!g_cur) { g_step += 1 + work; return; }
  g_cur->sleep_until = g_step + (uint64_t)work;
  to_sched();
}

static std::function<void(int)>* g_body = nullptr;
static void trampoline()
{
  Fiber* me = g_cur;
  try {
    (*g_body)(me->rank);
  } catch(const std::exception& e) {
    violate("*", "uncaught-exception", "rank %d: %s", me->rank, e.what());
    finish_now();
  } catch(...) {
    violate("*", "uncaught-exception", "rank %d: unknown exception", me->rank);
    finish_now();
  }
  me->done = true;
  for(;;) to_sched();
}

static void loop_run(Loop& L, uint64_t max_steps)
{
  g_loop = &L;
  uint64_t limit = g_step + max_steps;
  size_t cur = L.all.size() - 1;
  for(;;) {
    bool alive = false;
    for(Fiber* f : L.all) if(!f->done) alive = true;
    if(!alive) break;
    g_step++;
    if(g_step > limit) {
      std::string s;
      for(Fiber* f : L.all) { char b[96]; snprintf(b, sizeof b, " r%d:%s", f->rank, f->done ? "done" : f->blocked ? f->why : "running"); s += b; }
      violate("*", "no-progress", "step limit reached:%s", s.c_str());
      finish_now();
    }
    World* lastw = nullptr;
    for(Fiber* f : L.all) if(f->w != lastw) { lastw = f->w; progress(lastw); }
    std::vector<int> run;
    size_t n = L.all.size();
    int forced = -1;
    for(size_t k = 0; k < n; k++) {
      size_t i = (cur + 1 + k) % n;
      Fiber* f = L.all[i];
      if(f->done || f->sleep_until > g_step) continue;
      if(f->blocked) { if(!f->pred()) continue; }
      run.push_back((int)i);
      if(g_step - f->last_run > 3000 && (forced < 0)) forced = (int)i;
    }
    if(run.empty()) {
      uint64_t t = UINT64_MAX;
      lastw = nullptr;
      for(Fiber* f : L.all) {
        if(!f->done && f->sleep_until > g_step) t = std::min(t, f->sleep_until);
        if(f->w != lastw) { lastw = f->w; for(auto& m : lastw->flight) t = std::min(t, m->ready); }
      }
      if(t == UINT64_MAX) {
        std::string s;
        for(Fiber* f : L.all) { char b[96]; snprintf(b, sizeof b, " r%d:%s", f->rank, f->done ? "returned" : f->why); s += b; }
        violate("*", "deadlock", "all remaining processes wait forever:%s", s.c_str());
        finish_now();
      }
      g_step = std::max(g_step, t);
      continue;
    }
    int pick = run[0];
    if(run.size() > 1) {
      if(forced >= 0) pick = forced;
      else switch(L.policy) {
        case 1: pick = run[choose(SCHED, (uint32_t)run.size())]; break;
        case 2: {
          bool curok = std::find(run.begin(), run.end(), (int)cur) != run.end();
          if(curok) { if(!chance(SCHED, 0.12)) pick = (int)cur; else pick = run[choose(SCHED, (uint32_t)run.size())]; }
          else pick = run[choose(SCHED, (uint32_t)run.size())];
          break; }
        case 3: {
          pick = run[choose(SCHED, (uint32_t)run.size())];
          if(L.all[pick]->rank == L.special && !chance(SCHED, 0.04)) { for(int q : run) if(L.all[q]->rank != L.special) { pick = q; break; } }
          break; }
        case 4: {
          int fast = -1;
          for(int q : run) if(L.all[q]->rank == L.special) fast = q;
          if(fast >= 0 && !chance(SCHED, 0.15)) pick = fast; else pick = run[choose(SCHED, (uint32_t)run.size())];
          break; }
        default: break;
      }
    }
    Fiber* f = L.all[pick];
    if((size_t)pick != cur) { uint64_t z = (uint64_t)pick; fold(sh->shash, &z, 8); }
    cur = (size_t)pick;
    f->blocked = false; f->pred = nullptr; f->last_run = g_step;
    g_cur = f;
    swapcontext(&g_main, &f->ctx);
    g_cur = nullptr;
  }
  g_loop = nullptr;
}

static void make_fiber(Fiber* f, World* w, int rank)
{
  f->rank = rank; f->w = w; f->ssz = 16u << 20;
  memset(f->coll_seq, 0, sizeof f->coll_seq);
  f->stack = (char*)mmap(nullptr, f->ssz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  mprotect(f->stack, 4096, PROT_NONE);
  getcontext(&f->ctx);
  f->ctx.uc_stack.ss_sp = f->stack; f->ctx.uc_stack.ss_size = f->ssz; f->ctx.uc_link = nullptr;
  makecontext(&f->ctx, (void (*)())trampoline, 0);
}

WorldCfg draw_world(int n)
{
  WorldCfg c; c.n = n;
  if(n > 1) {
    c.policy = (int)choose(CFG, 5);
    c.special = (int)choose(CFG, n);
    static const int delays[] = {0, 3, 20, 150, 1000};
    c.max_delay = delays[choose(CFG, 5)];
    c.slow_link = (int)choose(CFG, n + 1) - 1;
    c.allow_sync = choose(CFG, 2);
    c.random_order = choose(CFG, 2);
  }
  return c;
}

static void leftover_checks(World* w)
{
  // drain what is in flight
  uint64_t t = g_step;
  for(auto& m : w->flight) t = std::max(t, m->ready);
  g_step = t; progress(w);
  int nreq = 0, nmsg = 0; char d[200] = "";
  for(sim_request_* r : g_live) if(r->w == w && !r->internal) {
      nreq++;
      if(!d[0]) snprintf(d, sizeof d, "rank %d %s peer %d tag %d", r->f ? r->f->rank : 0, r->kind == RSEND ? "send" : "receive", r->kind == RSEND ? r->dst : r->src, r->tag);
    }
  if(nreq) {
    violate("C04", "request-never-completed", "%d non-blocking requests were never waited for or tested to completion, first: %s", nreq, d);
    violate("C02", "request-never-completed", "%d non-blocking requests were never waited for or tested to completion, first: %s", nreq, d);
  }
  for(auto& m : w->unexpected) { nmsg++; snprintf(d, sizeof d, "%d->%d tag %d (%zu bytes)", m->src, m->dst, m->tag, m->bytes); }
  if(nmsg) {
    violate("C04", "message-never-received", "%d messages were never received, e.g. %s", nmsg, d);
    violate("C02", "message-never-received", "%d messages were never received, e.g. %s", nmsg, d);
  }
  for(auto& c : w->colls) if(c.second.left < w->cfg.n) { violate("*", "collective-incomplete", "%s was not entered by all processes", c.second.kind.c_str()); break; }
}
static void cleanup_world(World* w)
{
  for(size_t i = 0; i < g_live.size();) if(g_live[i]->w == w) { g_live.erase(g_live.begin() + i); } else i++;
  g_npending = (int)g_live.size();
  for(auto& f : w->f) if(f->stack) munmap(f->stack, f->ssz);
}

bool run_world(const WorldCfg& cfg, const std::function<void(int)>& body)
{
  World w; w.cfg = cfg; w.clk_off.assign(cfg.n, 0.);
  std::function<void(int)> b = body;
  g_body = &b;
  Loop L; L.policy = cfg.policy; L.special = cfg.special;
  for(int r = 0; r < cfg.n; r++) { w.f.emplace_back(new Fiber); make_fiber(w.f.back().get(), &w, r); L.all.push_back(w.f.back().get()); }
  loop_run(L, cfg.max_steps);
  leftover_checks(&w);
  cleanup_world(&w);
  return true;
}
bool run_tasks(int n, int policy, const std::function<void(int)>& body, uint64_t max_steps)
{
  std::vector<std::unique_ptr<World>> ws;
  std::map<Fiber*, int> id;
  std::function<void(int)> b = [&](int) { body(id[g_cur]); };
  g_body = &b;
  Loop L; L.policy = policy; L.special = 0;
  for(int r = 0; r < n; r++) {
    ws.emplace_back(new World); ws.back()->clk_off.assign(1, 0.);
    ws.back()->f.emplace_back(new Fiber);
    Fiber* f = ws.back()->f.back().get();
    make_fiber(f, ws.back().get(), 0); id[f] = r; L.all.push_back(f);
  }
  loop_run(L, max_steps);
  for(auto& w : ws) { leftover_checks(w.get()); cleanup_world(w.get()); }
  return true;
}

static World* W()
{
  if(g_cur) return g_cur->w;
  if(!g_w0) { g_w0 = new World; g_w0->clk_off.assign(1, 0.); g_w0->f.emplace_back(new Fiber); memset(g_w0->f[0]->coll_seq, 0, sizeof g_w0->f[0]->coll_seq); g_w0->f[0]->w = g_w0; }
  return g_w0;
}
static Fiber* F() { return g_cur ? g_cur : W()->f[0].get(); }

void set_clock(const ClockCfg& c) { g_clk = c; }

// ================================================================= collectives
template<class T> static void red1(T* a, const T* b, int n, int op)
{
  for(int i = 0; i < n; i++) switch(op) {
    case SIM_O_SUM: a[i] = a[i] + b[i]; break;
    case SIM_O_PROD: a[i] = a[i] * b[i]; break;
    case SIM_O_MIN: a[i] = b[i] < a[i] ? b[i] : a[i]; break;
    case SIM_O_MAX: a[i] = b[i] > a[i] ? b[i] : a[i]; break;
    case SIM_O_LAND: a[i] = (T)(a[i] && b[i]); break;
    case SIM_O_LOR: a[i] = (T)(a[i] || b[i]); break;
  }
}
static void reduce_into(char* a, const char* b, int n, int type, int op)
{
  switch(type) {
  case SIM_T_DOUBLE: red1((double*)a, (const double*)b, n, op); break;
  case SIM_T_FLOAT: red1((float*)a, (const float*)b, n, op); break;
  case SIM_T_INT: red1((int*)a, (const int*)b, n, op); break;
  case SIM_T_UNSIGNED: red1((unsigned*)a, (const unsigned*)b, n, op); break;
  case SIM_T_LONG: case SIM_T_LLONG: red1((long*)a, (const long*)b, n, op); break;
  case SIM_T_ULONG: case SIM_T_ULLONG: red1((unsigned long*)a, (const unsigned long*)b, n, op); break;
  case SIM_T_CHAR: case SIM_T_BYTE: case SIM_T_BOOL: red1((unsigned char*)a, (const unsigned char*)b, n, op); break;
  }
}
static int comm_n(int comm) { return comm == MPI_COMM_SELF ? 1 : W()->cfg.n; }

/// enters collective; returns after 'ready' for this rank; gives access to the slot
static Coll* coll_enter(const char* kind, int comm, int count, int type, int op, int root, const void* data, size_t bytes, int wait_for /*-1 all, -2 none, r = that rank*/)
{
  World* w = W(); Fiber* f = F();
  check_pending(kind);
  sched_point();
  uint64_t seq = f->coll_seq[comm]++;
  Coll& c = w->colls[{comm, seq}];
  ev("%s n=%d t=%d op=%d root=%d", kind, count, type, op, root);
  if(bytes && data) ev_mem("  in", data, bytes);
  if(c.in.empty()) { c.kind = kind; c.count = count; c.type = type; c.op = op; c.root = root; c.in.assign(w->cfg.n, false); c.data.resize(w->cfg.n); }
  else if(c.kind != kind || c.count != count || c.type != type || c.op != op || c.root != root) {
    violate("*", "collective-mismatch", "rank %d enters %s(count %d,op %d,root %d) while others are in %s(count %d,op %d,root %d)", f->rank, kind, count, op, root,
            c.kind.c_str(), c.count, c.op, c.root);
    finish_now();
  }
  c.in[f->rank] = true; c.arrived++;
  if(bytes && data) c.data[f->rank].assign((const char*)data, (const char*)data + bytes);
  Coll* cp = &c; int n = w->cfg.n;
  if(wait_for == -1) block_until(cp->kind.c_str(), [cp, n] { return cp->arrived >= n; });
  else if(wait_for >= 0) block_until(cp->kind.c_str(), [cp, wait_for] { return (bool)cp->in[wait_for]; });
  return cp;
}
static void coll_leave(int comm, Coll* c)
{
  World* w = W(); Fiber* f = F();
  c->left++;
  if(c->left >= w->cfg.n) w->colls.erase({comm, f->coll_seq[comm] - 1});
}
static void do_reduce(Coll* c)
{
  if(c->reduced) return;
  World* w = W(); int n = w->cfg.n;
  std::vector<int> ord(n);
  int rot = w->cfg.random_order ? (int)choose(SCHED, n) : 0;
  for(int i = 0; i < n; i++) ord[i] = (i + rot) % n;
  c->result = c->data[ord[0]];
  for(int i = 1; i < n; i++) reduce_into(c->result.data(), c->data[ord[i]].data(), c->count, c->type, c->op);
  c->reduced = true;
}

}  // namespace sim
using namespace sim;

struct sim_request : sim_request_ {};

static bool bad_comm(MPI_Comm c, const char* fn)
{
  if(c <= 0) { violate("*", "invalid-communicator", "%s called with a null communicator", fn); finish_now(); }
  if(c >= 60) { violate("*", "too-many-communicators", "%s: communicator leak", fn); finish_now(); }
  return false;
}

extern "C" {
int MPI_Init(int*, char***) { return 0; }
int MPI_Init_thread(int*, char***, int, int* p) { sim::User own_memory; if(p) *p = 3; return 0; }
int MPI_Initialized(int* f) { *f = 1; return 0; }
int MPI_Finalized(int* f) { *f = 0; return 0; }
int MPI_Finalize(void) { return 0; }
int MPI_Abort(MPI_Comm, int code) { sim::User own_memory; violate("*", "mpi-abort", "MPI_Abort(%d) on rank %d", code, my_rank()); finish_now(); }
int MPI_Comm_rank(MPI_Comm c, int* r) { sim::User own_memory; bad_comm(c, "MPI_Comm_rank"); *r = c == MPI_COMM_SELF ? 0 : my_rank(); return 0; }
int MPI_Comm_size(MPI_Comm c, int* s) { sim::User own_memory; bad_comm(c, "MPI_Comm_size"); *s = c == MPI_COMM_SELF ? 1 : my_world_size(); return 0; }
int MPI_Barrier(MPI_Comm comm)
{
  sim::User own_memory;
  bad_comm(comm, "MPI_Barrier");
  if(comm_n(comm) == 1) { sched_point(); return 0; }
  Coll* c = coll_enter("Barrier", comm, 0, 0, 0, 0, nullptr, 0, -1); coll_leave(comm, c); return 0;
}
int MPI_Comm_dup(MPI_Comm comm, MPI_Comm* out)
{
  sim::User own_memory;
  bad_comm(comm, "MPI_Comm_dup");
  if(comm_n(comm) == 1) { *out = comm; return 0; }
  Coll* c = coll_enter("Comm_dup", comm, 0, 0, 0, 0, nullptr, 0, -1);
  if(c->result.empty()) { int id = W()->ncomm++; c->result.assign((char*)&id, (char*)&id + 4); }
  memcpy(out, c->result.data(), 4);
  coll_leave(comm, c); return 0;
}
int MPI_Comm_free(MPI_Comm* c) { *c = MPI_COMM_NULL; return 0; }
int MPI_Bcast(void* buf, int count, MPI_Datatype t, int root, MPI_Comm comm)
{
  sim::User own_memory;
  bad_comm(comm, "MPI_Bcast");
  if(comm_n(comm) == 1) { sched_point(); return 0; }
  bool isroot = my_rank() == root; size_t nb = count * tsize(t);
  bool leave = W()->cfg.early_leave && isroot ? !chance(SCHED, 0.3) : false;
  Coll* c = coll_enter("Bcast", comm, count, t, 0, root, isroot ? buf : nullptr, isroot ? nb : 0, isroot ? (leave ? -2 : -1) : root);
  if(!isroot && nb) memcpy(buf, c->data[root].data(), nb);
  coll_leave(comm, c); return 0;
}
int MPI_Allreduce(const void* s, void* r, int count, MPI_Datatype t, MPI_Op op, MPI_Comm comm)
{
  sim::User own_memory;
  bad_comm(comm, "MPI_Allreduce");
  size_t nb = count * tsize(t);
  const void* in = s == MPI_IN_PLACE ? r : s;
  if(s != MPI_IN_PLACE && s == r && count > 0) violate("*", "aliased-collective-buffers", "MPI_Allreduce with identical send and receive buffers");
  if(comm_n(comm) == 1) { sched_point(); if(in != r) memmove(r, in, nb); return 0; }
  Coll* c = coll_enter("Allreduce", comm, count, t, op, 0, in, nb, -1);
  do_reduce(c);
  if(nb) memcpy(r, c->result.data(), nb);
  coll_leave(comm, c); return 0;
}
int MPI_Reduce(const void* s, void* r, int count, MPI_Datatype t, MPI_Op op, int root, MPI_Comm comm)
{
  sim::User own_memory;
  bad_comm(comm, "MPI_Reduce");
  size_t nb = count * tsize(t);
  bool isroot = comm_n(comm) == 1 || my_rank() == root;
  const void* in = s == MPI_IN_PLACE ? r : s;
  if(comm_n(comm) == 1) { sched_point(); if(in != r) memmove(r, in, nb); return 0; }
  bool leave = !isroot && W()->cfg.early_leave ? !chance(SCHED, 0.3) : false;
  Coll* c = coll_enter("Reduce", comm, count, t, op, root, in, nb, isroot ? -1 : (leave ? -2 : root));
  if(isroot) { do_reduce(c); if(nb) memcpy(r, c->result.data(), nb); }
  coll_leave(comm, c); return 0;
}
int MPI_Allgatherv(const void* s, int sc, MPI_Datatype stt, void* r, const int* rc, const int* displ, MPI_Datatype rt, MPI_Comm comm)
{
  sim::User own_memory;
  bad_comm(comm, "MPI_Allgatherv");
  int n = comm_n(comm); size_t es = tsize(rt);
  if(n == 1) { sched_point(); if(s != MPI_IN_PLACE) memmove((char*)r + displ[0] * es, s, sc * tsize(stt)); return 0; }
  const void* in = s == MPI_IN_PLACE ? (char*)r + displ[my_rank()] * es : s;
  size_t nb = s == MPI_IN_PLACE ? rc[my_rank()] * es : sc * tsize(stt);
  Coll* c = coll_enter("Allgatherv", comm, 0, rt, 0, 0, in, nb, -1);
  for(int i = 0; i < n; i++) {
    if(c->data[i].size() != rc[i] * es) { violate("*", "collective-mismatch", "Allgatherv: rank %d contributes %zu bytes, %zu expected", i, c->data[i].size(), rc[i] * es); finish_now(); }
    if(rc[i]) memcpy((char*)r + displ[i] * es, c->data[i].data(), c->data[i].size());
  }
  coll_leave(comm, c); return 0;
}
int MPI_Allgather(const void* s, int sc, MPI_Datatype stt, void* r, int rcnt, MPI_Datatype rt, MPI_Comm comm)
{
  sim::User own_memory;
  bad_comm(comm, "MPI_Allgather");
  int n = comm_n(comm);
  std::vector<int> rc(n, rcnt), d(n); for(int i = 0; i < n; i++) d[i] = i * rcnt;
  return MPI_Allgatherv(s, sc, stt, r, rc.data(), d.data(), rt, comm);
}
int MPI_Gatherv(const void* s, int sc, MPI_Datatype stt, void* r, const int* rc, const int* displ, MPI_Datatype rt, int root, MPI_Comm comm)
{
  sim::User own_memory;
  bad_comm(comm, "MPI_Gatherv");
  int n = comm_n(comm); size_t es = tsize(rt);
  if(n == 1) { sched_point(); if(s != MPI_IN_PLACE) memmove((char*)r + displ[0] * es, s, sc * tsize(stt)); return 0; }
  bool isroot = my_rank() == root;
  const void* in = s == MPI_IN_PLACE ? (char*)r + displ[my_rank()] * es : s;
  size_t nb = s == MPI_IN_PLACE ? rc[my_rank()] * es : sc * tsize(stt);
  Coll* c = coll_enter("Gatherv", comm, 0, 0, 0, root, in, nb, isroot ? -1 : -2);
  if(isroot) for(int i = 0; i < n; i++) {
    if(c->data[i].size() > rc[i] * es) { violate("*", "collective-mismatch", "Gatherv size"); finish_now(); }
    if(c->data[i].size()) memcpy((char*)r + displ[i] * es, c->data[i].data(), c->data[i].size());
  }
  coll_leave(comm, c); return 0;
}
int MPI_Gather(const void* s, int sc, MPI_Datatype stt, void* r, int rcnt, MPI_Datatype rt, int root, MPI_Comm comm)
{
  sim::User own_memory;
  bad_comm(comm, "MPI_Gather");
  int n = comm_n(comm);
  std::vector<int> rc(n, rcnt), d(n); for(int i = 0; i < n; i++) d[i] = i * rcnt;
  return MPI_Gatherv(s, sc, stt, r, rc.data(), d.data(), rt, root, comm);
}
int MPI_Scatter(const void* s, int sc, MPI_Datatype stt, void* r, int rcnt, MPI_Datatype rt, int root, MPI_Comm comm)
{
  sim::User own_memory;
  bad_comm(comm, "MPI_Scatter");
  int n = comm_n(comm); size_t nb = rcnt * tsize(rt);
  if(n == 1) { sched_point(); if(r != MPI_IN_PLACE) memmove(r, s, sc * tsize(stt)); return 0; }
  bool isroot = my_rank() == root;
  Coll* c = coll_enter("Scatter", comm, 0, 0, 0, root, isroot ? s : nullptr, isroot ? n * sc * tsize(stt) : 0, isroot ? -2 : root);
  if(r != MPI_IN_PLACE) memcpy(r, c->data[root].data() + my_rank() * nb, nb);
  coll_leave(comm, c); return 0;
}

// ----------------------------------------------------------------- point to point
static sim_request* new_req(RK k, void* buf, int count, int type, int peer, int tag, int comm)
{
  sim::User own_memory;
  sim_request* r = new sim_request;
  r->kind = k; r->buf = buf; r->bytes = count * tsize(type); r->type = type; r->tag = tag; r->comm = comm;
  r->f = F(); r->w = W();
  if(k == RSEND) { r->src = my_rank(); r->dst = peer; } else { r->src = peer; r->dst = my_rank(); }
  return r;
}
static bool match(const Msg& m, const sim_request_& r)
{
  sim::User own_memory;
  return m.dst == r.dst && m.comm == r.comm && (r.src == MPI_ANY_SOURCE || r.src == m.src) && (r.tag == MPI_ANY_TAG || r.tag == m.tag);
}
static void post_send(sim_request* r, bool must_sync)
{
  sim::User own_memory;
  World* w = W();
  auto m = std::make_shared<Msg>();
  m->id = ++g_msgid; m->src = r->src; m->dst = r->dst; m->tag = r->tag; m->comm = r->comm; m->type = r->type; m->bytes = r->bytes;
  m->sbuf = r->buf; r->sum = csum(r->buf, r->bytes);
  bool sync = must_sync || (w->cfg.allow_sync && chance(SCHED, 0.5));
  m->eager = !sync;
  int d = w->cfg.max_delay ? (int)choose(SCHED, w->cfg.max_delay + 1) : 0;
  if(w->cfg.slow_link == r->dst) d += w->cfg.max_delay ? (int)choose(SCHED, 3 * w->cfg.max_delay) : 0;
  if(d) count("fault.message_delayed");
  m->ready = g_step + d;
  ev("send m%llu %d->%d t%d n%zu %s d%d", (unsigned long long)m->id, r->src, r->dst, r->tag, r->bytes, sync ? "sync" : "eager", d);
  if(r->bytes) ev_mem("  data", r->buf, r->bytes);
  { uint64_t z = ((uint64_t)r->src << 40) ^ ((uint64_t)r->dst << 20) ^ r->tag; fold(sh->shash, &z, 8); }
  if(m->eager) { m->data.assign((char*)r->buf, (char*)r->buf + r->bytes); r->complete = true; count("sim.eager_sends"); }
  else { m->sreq = r; r->msg = m; count("sim.rendezvous_sends"); }
  for(size_t i = 0; i < w->posted.size(); i++) if(match(*m, *w->posted[i])) {
      m->rreq = w->posted[i]; w->posted.erase(w->posted.begin() + i); m->rreq->msg = m; w->flight.push_back(m); progress(w); return;
    }
  w->unexpected.push_back(m);
}
static void post_recv(sim_request* r)
{
  sim::User own_memory;
  World* w = W();
  ev("recv-post %d<-%d t%d n%zu", r->dst, r->src, r->tag, r->bytes);
  if(w->cfg.poison && !r->internal && r->bytes) {
    unsigned char* c = (unsigned char*)r->buf;
    if(r->type == SIM_T_DOUBLE) { double v = 1.2345678e77; for(size_t i = 0; i + 8 <= r->bytes; i += 8) memcpy(c + i, &v, 8); }
    else memset(c, 0xA7, r->bytes);
    r->poisoned = true; r->sum = csum(r->buf, r->bytes);
  }
  for(size_t i = 0; i < w->unexpected.size(); i++) if(match(*w->unexpected[i], *r)) {
      auto m = w->unexpected[i]; w->unexpected.erase(w->unexpected.begin() + i); m->rreq = r; r->msg = m; w->flight.push_back(m); progress(w); return;
    }
  w->posted.push_back(r);
}
static void check_peer(int p, const char* fn)
{
  sim::User own_memory;
  if(p == MPI_ANY_SOURCE) return;
  if(p < 0 || p >= my_world_size()) { violate("*", "invalid-rank", "%s: peer rank %d of %d", fn, p, my_world_size()); finish_now(); }
}
int MPI_Isend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm comm, MPI_Request* rq)
{
  sim::User own_memory;
  bad_comm(comm, "MPI_Isend"); check_peer(dst, "MPI_Isend"); check_pending("MPI_Isend"); sched_point();
  sim_request* r = new_req(RSEND, (void*)b, n, t, dst, tag, comm); add_live(r); post_send(r, false); *rq = r; return 0;
}
int MPI_Irecv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm comm, MPI_Request* rq)
{
  sim::User own_memory;
  bad_comm(comm, "MPI_Irecv"); check_peer(src, "MPI_Irecv"); check_pending("MPI_Irecv"); sched_point();
  for(sim_request_* o : g_live) if(!o->internal && o->f == F() && !o->flagged && o->bytes && (char*)b < (char*)o->buf + o->bytes && (char*)o->buf < (char*)b + n * tsize(t)) {
      o->flagged = true; violate("C04", "buffer-reused-while-pending", "rank %d posts a receive into the buffer of a pending %s (tag %d)", my_rank(), o->kind == RSEND ? "send" : "receive", o->tag); }
  sim_request* r = new_req(RRECV, b, n, t, src, tag, comm); add_live(r); post_recv(r); *rq = r; return 0;
}
static void fill_status(MPI_Status* s, sim_request* r)
{
  sim::User own_memory;
  if(!s || !r) return;
  s->MPI_SOURCE = r->st_src; s->MPI_TAG = r->st_tag; s->MPI_ERROR = 0; s->sim_bytes = (int)r->st_bytes;
}
static void retire(MPI_Request* rq) { sim_request* r = *rq; drop_live(r); delete r; *rq = MPI_REQUEST_NULL; }
static bool valid(MPI_Request r, const char* fn)
{
  sim::User own_memory;
  for(sim_request_* o : g_live) if(o == (sim_request_*)r) return true;
  violate("*", "invalid-request", "%s on a request that does not exist", fn); finish_now();
}
int MPI_Test(MPI_Request* rq, int* flag, MPI_Status* s)
{
  sim::User own_memory;
  check_pending("MPI_Test"); sched_point();
  progress(W());
  if(*rq == MPI_REQUEST_NULL) { *flag = 1; return 0; }
  valid(*rq, "MPI_Test");
  if((*rq)->complete) { fill_status(s, *rq); ev("test ok r%llu", (unsigned long long)(*rq)->id); retire(rq); *flag = 1; }
  else { *flag = 0; count("sim.test_not_ready"); }
  return 0;
}
int MPI_Wait(MPI_Request* rq, MPI_Status* s)
{
  sim::User own_memory;
  check_pending("MPI_Wait"); sched_point();
  if(*rq == MPI_REQUEST_NULL) return 0;
  valid(*rq, "MPI_Wait");
  sim_request* r = *rq;
  block_until(r->kind == RSEND ? "Wait(send)" : "Wait(recv)", [r] { return r->complete; });
  check_pending("MPI_Wait");
  ev("wait ok r%llu", (unsigned long long)r->id);
  fill_status(s, r); retire(rq); return 0;
}
int MPI_Waitall(int n, MPI_Request* rq, MPI_Status* s) { sim::User own_memory; for(int i = 0; i < n; i++) MPI_Wait(rq + i, s ? s + i : nullptr); return 0; }
int MPI_Testall(int n, MPI_Request* rq, int* flag, MPI_Status* s)
{
  sim::User own_memory;
  check_pending("MPI_Testall"); sched_point(); progress(W());
  for(int i = 0; i < n; i++) if(rq[i] != MPI_REQUEST_NULL && !rq[i]->complete) { *flag = 0; return 0; }
  for(int i = 0; i < n; i++) if(rq[i] != MPI_REQUEST_NULL) { fill_status(s ? s + i : nullptr, rq[i]); retire(rq + i); }
  *flag = 1; return 0;
}
int MPI_Testany(int n, MPI_Request* rq, int* idx, int* flag, MPI_Status* s)
{
  sim::User own_memory;
  check_pending("MPI_Testany"); sched_point(); progress(W());
  bool any = false;
  for(int i = 0; i < n; i++) if(rq[i] != MPI_REQUEST_NULL) { any = true; if(rq[i]->complete) { fill_status(s, rq[i]); retire(rq + i); *idx = i; *flag = 1; return 0; } }
  *flag = any ? 0 : 1; *idx = MPI_UNDEFINED; return 0;
}
int MPI_Waitany(int n, MPI_Request* rq, int* idx, MPI_Status* s)
{
  sim::User own_memory;
  check_pending("MPI_Waitany"); sched_point();
  bool any = false; for(int i = 0; i < n; i++) if(rq[i] != MPI_REQUEST_NULL) any = true;
  if(!any) { *idx = MPI_UNDEFINED; return 0; }
  block_until("Waitany", [=] { for(int i = 0; i < n; i++) if(rq[i] != MPI_REQUEST_NULL && rq[i]->complete) return true; return false; });
  for(int i = 0; i < n; i++) if(rq[i] != MPI_REQUEST_NULL && rq[i]->complete) { fill_status(s, rq[i]); retire(rq + i); *idx = i; return 0; }
  return 0;
}
static int do_send(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm comm, bool sync)
{
  sim::User own_memory;
  bad_comm(comm, "MPI_Send"); check_peer(dst, "MPI_Send"); check_pending("MPI_Send"); sched_point();
  sim_request* r = new_req(RSEND, (void*)b, n, t, dst, tag, comm); r->internal = true; add_live(r); post_send(r, sync);
  block_until("Send", [r] { return r->complete; });
  drop_live(r); delete r; return 0;
}
int MPI_Send(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm comm) { sim::User own_memory; return do_send(b, n, t, dst, tag, comm, false); }
int MPI_Ssend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm comm) { sim::User own_memory; return do_send(b, n, t, dst, tag, comm, true); }
int MPI_Recv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm comm, MPI_Status* s)
{
  sim::User own_memory;
  bad_comm(comm, "MPI_Recv"); check_peer(src, "MPI_Recv"); check_pending("MPI_Recv"); sched_point();
  sim_request* r = new_req(RRECV, b, n, t, src, tag, comm); r->internal = true; add_live(r); post_recv(r);
  block_until("Recv", [r] { return r->complete; });
  fill_status(s, r); drop_live(r); delete r; return 0;
}
int MPI_Iprobe(int src, int tag, MPI_Comm comm, int* flag, MPI_Status* s)
{
  sim::User own_memory;
  check_pending("MPI_Iprobe"); sched_point();
  sim_request_ q; q.src = src; q.dst = my_rank(); q.tag = tag; q.comm = comm;
  for(auto& m : W()->unexpected) if(match(*m, q) && m->ready <= g_step) { *flag = 1; if(s) { s->MPI_SOURCE = m->src; s->MPI_TAG = m->tag; s->sim_bytes = (int)m->bytes; } return 0; }
  *flag = 0; return 0;
}
int MPI_Probe(int src, int tag, MPI_Comm comm, MPI_Status* s)
{
  sim::User own_memory;
  int fl = 0; uint64_t lim = 0;
  while(!fl) { MPI_Iprobe(src, tag, comm, &fl, s); if(++lim > 1000000) { violate("*", "deadlock", "MPI_Probe never matches"); finish_now(); } }
  return 0;
}
int MPI_Get_count(const MPI_Status* s, MPI_Datatype t, int* n) { *n = (int)(s->sim_bytes / tsize(t)); return 0; }
int MPI_Type_size(MPI_Datatype t, int* n) { *n = (int)tsize(t); return 0; }
int MPI_Get_processor_name(char* n, int* l) { sim::User own_memory; strcpy(n, "sim"); *l = 3; return 0; }
double MPI_Wtick(void) { return 1e-6; }
MPI_Comm MPI_Comm_f2c(MPI_Fint c) { return c; }
MPI_Fint MPI_Comm_c2f(MPI_Comm c) { return c; }
static double clock_value()
{
  sim::User own_memory;
  World* w = W(); int r = my_rank();
  if(!g_cur) g_step++;
  double t = now(), &off = w->clk_off[r];
  double base = 1.7e9 + g_clk.skew * (r % 2 ? -1. : 1.) * (r + 1);
  switch(g_clk.mode) {
  case 1: return base;
  case 2: if(chance(FAULT, 0.02)) { static const double j[] = {1., -1., 3600., -3600., 1e9, -1e9}; off += j[choose(FAULT, 6)]; count("fault.clock_jump"); } return base + t + off;
  case 3: count("fault.clock_backwards"); return base - t;
  case 4: count("fault.clock_fast"); return base + t * 1e7;
  case 5: count("fault.clock_nan_like"); return base + (chance(FAULT, 0.05) ? 1e18 : 0.) + t;
  }
  return base + t;
}
double MPI_Wtime(void) { count("sim.clock_readings"); return clock_value(); }
// other clocks of the process: the same simulated time inside a simulated execution
int clock_gettime(clockid_t id, struct timespec* ts) noexcept
{
  if(!g_in_child) return (int)syscall(SYS_clock_gettime, id, ts);
  double v = clock_value(); count("sim.clock_readings");
  ts->tv_sec = (time_t)std::floor(v); ts->tv_nsec = (long)((v - std::floor(v)) * 1e9);
  return 0;
}
int gettimeofday(struct timeval* tv, void*) noexcept
{
  struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
  if(tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
  return 0;
}
time_t time(time_t* o) noexcept { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if(o) *o = ts.tv_sec; return ts.tv_sec; }
clock_t clock(void) noexcept
{
  if(!g_in_child) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, &ts); return ts.tv_sec * 1000000 + ts.tv_nsec / 1000; }
  struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); return (clock_t)((ts.tv_sec - 1700000000) * 1000000 + ts.tv_nsec / 1000);
}

// ----------------------------------------------------------------- output files
static StdioCfg g_stdio;
static ssize_t sink_write(void* c, const char* b, size_t n)
{
  FileSink* k = (FileSink*)c;
  count("sim.output_writes");
  k->bytes += n;
  switch(k->mode) {
  case 1: count("fault.output_write_error"); errno = ENOSPC; return 0;
  case 2: if(chance(FAULT, .3)) { count("fault.output_write_error"); errno = choose(FAULT, 2) ? ENOSPC : EIO; return 0; } break;
  case 3: if(n > 1 && chance(FAULT, .5)) { count("fault.output_short_write"); return (ssize_t)(1 + choose(FAULT, (uint32_t)(n - 1))); } break;
  case 4: if(k->bytes > 5000) { count("fault.output_disk_full"); errno = ENOSPC; return 0; } break;
  case 5: count("fault.output_closed_stream"); errno = EBADF; return 0;
  }
  return (ssize_t)n;
}
static int sink_close(void* c) { sim::User own_memory; FileSink* k = (FileSink*)c; int r = k->mode == 1 || k->mode == 4 ? (errno = ENOSPC, -1) : 0; if(k->own) delete k; return r; }
static FILE* sink_open(FileSink* k)
{
  cookie_io_functions_t io; memset(&io, 0, sizeof io); io.write = sink_write; io.close = sink_close;
  return fopencookie(k, "w", io);
}
FILE* __real_fopen(const char*, const char*);
static FILE* open_file(const char* p, const char* m);
FILE* __wrap_fopen(const char* p, const char* m)
{
  bool lib = sim::g_lib && sim::g_track; sim::User own_memory;
  FILE* f = open_file(p, m);
  if(f && lib) sim::g_nfiles++;
  return f;
}
static FILE* open_file(const char* p, const char* m)
{
  if(!g_stdio.on) return __real_fopen(p, m);
  count("sim.files_opened");
  if(strpbrk(m, "wa")) {
    if(g_stdio.open_fail >= 1 || (g_stdio.open_fail > 0 && chance(FAULT, g_stdio.open_fail))) { count("fault.open_error"); errno = choose(FAULT, 2) ? EACCES : EMFILE; return nullptr; }
    FileSink* k = new FileSink; k->mode = g_stdio.file_mode; k->own = true;
    return sink_open(k);
  }
  return __real_fopen(p, m);
}
static FILE* g_stdout0 = nullptr; static FileSink g_outsink;
extern "C++" void sim::set_stdio(const StdioCfg& c)
{
  if(g_stdout0) { FILE* f = stdout; stdout = g_stdout0; g_stdout0 = nullptr; StdioCfg off; g_stdio = off; fclose(f); count("sim.output_bytes", g_outsink.bytes); }
  g_stdio = c;
  if(c.on) {
    g_outsink = FileSink(); g_outsink.mode = c.out_mode;
    g_stdout0 = stdout; stdout = sink_open(&g_outsink);
    if(c.unbuffered) setvbuf(stdout, nullptr, _IONBF, 0);
  }
}

// ----------------------------------------------------------------- input: read() of the C library as used by file streams
static sim::ReadCfg g_reads; static long g_read_bytes = 0; static uint32_t g_read_lcg = 1;
extern "C++" void sim::set_reads(const ReadCfg& c) { g_reads = c; g_read_bytes = 0; g_read_lcg = 12345; }
ssize_t read(int fd, void* p, size_t n)
{
  if((g_reads.shorts || g_reads.error_at >= 0) && n > 0) {
    if(g_reads.error_at >= 0) {
      if(g_read_bytes >= g_reads.error_at) { count("fault.read_error"); errno = EIO; return -1; }
      n = std::min(n, (size_t)(g_reads.error_at - g_read_bytes));
    }
    if(g_reads.shorts) { g_read_lcg = g_read_lcg * 1664525u + 1013904223u; n = std::min(n, (size_t)(1 + (g_read_lcg >> 16) % 7)); count("fault.short_read"); }
    long k = syscall(SYS_read, fd, p, n);
    if(k > 0) g_read_bytes += k;
    return k;
  }
  return syscall(SYS_read, fd, p, n);
}

// ----------------------------------------------------------------- process control
void __assert_fail(const char* a, const char* file, unsigned line, const char* fn) noexcept
{
  (void)line;
  const char* b = strrchr(file, '/'); b = b ? b + 1 : file;
  char cls[240]; snprintf(cls, sizeof cls, "assert:%s:%s", b, a);
  violate("*", cls, "assertion `%s' failed in %s (%s:%u) - the process aborts", a, fn ? fn : "?", b, line);
  finish_now();
}
}

static void on_exit_handler(int code, void*)
{
  if(g_in_child && !sh->finished) {
    violate("*", "process-exit", "the library called exit(%d)", code);
    finish_now();
  }
}

namespace sim {
bool elsewhere(const std::function<std::string()>& body, std::string& out)
{
  uint32_t nrec[NSTREAMS]; for(int s = 0; s < NSTREAMS; s++) nrec[s] = sh->nrec[s];
  int nviol = sh->nviol;
  FILE* f = tmpfile();
  if(!f) { perror("tmpfile"); _exit(3); }
  int fd = fileno(f);
  fflush(stdout);
  pid_t pid = fork();
  if(pid < 0) _exit(3);
  if(pid == 0) {
    g_scratch[0] = 0;
    std::string r;
    try { r = body(); }
    catch(const std::exception& e) { violate("*", "uncaught-exception", "%s", e.what()); finish_now(); }
    catch(...) { violate("*", "uncaught-exception", "unknown exception"); finish_now(); }
    r += "#";
    size_t o = 0; while(o < r.size()) { ssize_t k = write(fd, r.data() + o, r.size() - o); if(k <= 0) _exit(3); o += k; }
    finish_now();
  }
  int stt = 0;
  while(waitpid(pid, &stt, 0) < 0 && errno == EINTR) {}
  for(int s = 0; s < NSTREAMS; s++) sh->nrec[s] = nrec[s];
  sh->finished = 0;
  if(WIFSIGNALED(stt)) { signal(WTERMSIG(stt), SIG_DFL); kill(getpid(), WTERMSIG(stt)); }
  if(WEXITSTATUS(stt)) _exit(WEXITSTATUS(stt));
  off_t n = lseek(fd, 0, SEEK_END); lseek(fd, 0, SEEK_SET);
  out.resize(n); off_t o = 0; while(o < n) { ssize_t k = read(fd, &out[o], n - o); if(k <= 0) break; o += k; }
  fclose(f);
  if(out.empty()) { if(sh->nviol > nviol) finish_now(); return false; }
  out.pop_back();
  return true;
}
}

// ================================================================= harness
static uint64_t str_hash(const std::string& s) { uint64_t h = 1469598103934665603ull; for(char c : s) h = (h ^ (unsigned char)c) * 1099511628211ull; return h; }

struct RunIn { bool ovr = false; std::vector<uint32_t> v[NSTREAMS]; uint64_t seed = 0; };
struct RunOut { std::string cls, msg, json; uint64_t hash = 0; };

static int g_cpu_limit = 40;
static std::string g_want_cls; // minimiser: the failure class to keep

static void child_main(const RunIn& in)
{
  g_in_child = true;
  for(int s = 0; s < NSTREAMS; s++) { st[s].ovr = in.ovr; st[s].val = in.v[s]; st[s].pos = 0; st[s].s = mix(in.seed, 77 + s); }
  rlimit rl{(rlim_t)g_cpu_limit, (rlim_t)g_cpu_limit + 5}; setrlimit(RLIMIT_CPU, &rl);
  rlimit as{(rlim_t)6 << 30, (rlim_t)6 << 30}; setrlimit(RLIMIT_AS, &as);
  rlimit co{0, 0}; setrlimit(RLIMIT_CORE, &co);
  rlimit fz{(rlim_t)64 << 20, (rlim_t)64 << 20}; setrlimit(RLIMIT_FSIZE, &fz);
  signal(SIGXFSZ, SIG_IGN);
  on_exit(on_exit_handler, nullptr);
  if(g_trace) g_tracef = fdopen(dup(1), "w");
  const char* keep = getenv("DST_KEEP_STDIO");
  if(!keep) { int fd = open("/dev/null", O_RDWR); dup2(fd, 1); dup2(fd, 2); dup2(fd, 0); close(fd); }
  sh->hash = 0x1234; sh->shash = 0x99;
  try {
    run_property(g_prop.c_str());
  } catch(const std::exception& e) {
    violate("*", "uncaught-exception", "%s", e.what());
  } catch(...) {
    violate("*", "uncaught-exception", "unknown exception");
  }
  finish_now();
}

static void json_str(std::string& o, const char* s)
{
  o += '"';
  for(; *s; s++) { unsigned char c = *s; if(c == '"' || c == '\\') { o += '\\'; o += c; } else if(c < 32 || c > 126) { o += '?'; } else o += c; }
  o += '"';
}

static RunOut run_one(const RunIn& in, uint64_t index)
{
  memset((void*)sh, 0, sizeof *sh);
  fflush(stdout);
  pid_t pid = fork();
  if(pid < 0) { perror("fork"); exit(3); }
  if(pid == 0) child_main(in);
  int stt = 0;
  while(waitpid(pid, &stt, 0) < 0 && errno == EINTR) {}
  { char d[64]; snprintf(d, sizeof d, "/tmp/dst_scratch_%d", (int)pid); remove_dir(d); }
  if(WIFSIGNALED(stt)) {
    int sg = WTERMSIG(stt);
    Viol& v = sh->viol[sh->nviol < 6 ? sh->nviol++ : 5];
    snprintf(v.prop, sizeof v.prop, "%s", g_prop.c_str());
    if(sg == SIGXCPU) { snprintf(v.cls, sizeof v.cls, "hang"); snprintf(v.msg, sizeof v.msg, "no result within %d s of CPU time (a run normally takes milliseconds)", g_cpu_limit); sh->hash = 0; }
    else { snprintf(v.cls, sizeof v.cls, "crash:signal-%d", sg); snprintf(v.msg, sizeof v.msg, "process killed by signal %d", sg); }
  } else if(!sh->finished) {
    Viol& v = sh->viol[sh->nviol < 6 ? sh->nviol++ : 5];
    snprintf(v.prop, sizeof v.prop, "%s", g_prop.c_str());
    snprintf(v.cls, sizeof v.cls, "process-exit"); snprintf(v.msg, sizeof v.msg, "process ended with status %d", WEXITSTATUS(stt));
  }
  RunOut o; o.hash = sh->hash;
  if(sh->nviol && g_want_cls.empty()) { o.cls = sh->viol[0].cls; o.msg = sh->viol[0].msg; }
  for(int i = 0; i < sh->nviol; i++) if(g_want_cls == sh->viol[i].cls) { o.cls = sh->viol[i].cls; o.msg = sh->viol[i].msg; }
  std::string j = "{";
  char b[256];
  snprintf(b, sizeof b, "\"i\":%llu,\"seed\":%llu,\"hash\":\"%016llx\",\"shash\":\"%016llx\",\"nev\":%llu,\"steps\":%llu,\"vtime\":%.6f,\"nontriv\":%d,",
           (unsigned long long)index, (unsigned long long)in.seed, (unsigned long long)sh->hash, (unsigned long long)sh->shash, (unsigned long long)sh->nev,
           (unsigned long long)sh->steps, sh->vtime, sh->nontriv);
  j += b; j += "\"viol\":[";
  for(int i = 0; i < sh->nviol; i++) { if(i) j += ","; j += "{\"cls\":"; json_str(j, sh->viol[i].cls); j += ",\"msg\":"; json_str(j, sh->viol[i].msg); j += "}"; }
  j += "],\"ctr\":{";
  for(int i = 0; i < sh->nctr; i++) { if(i) j += ","; json_str(j, sh->ctr[i].name); snprintf(b, sizeof b, ":%llu", (unsigned long long)sh->ctr[i].n); j += b; }
  j += "},\"states\":[";
  for(int i = 0; i < sh->nstates; i++) { snprintf(b, sizeof b, "%s\"%016llx\"", i ? "," : "", (unsigned long long)sh->states[i]); j += b; }
  j += "],\"desc\":"; json_str(j, sh->desc); j += "}";
  o.json = j;
  return o;
}

static void get_streams(RunIn& o)
{
  o.ovr = true;
  for(int s = 0; s < NSTREAMS; s++) {
    o.v[s].assign(rec[s], rec[s] + sh->nrec[s]);
    while(!o.v[s].empty() && o.v[s].back() == 0) o.v[s].pop_back();
  }
}
static void save(const char* path, const RunIn& in, const RunOut& o)
{
  FILE* f = fopen(path, "w");
  if(!f) { perror(path); exit(3); }
#ifdef HIOP_DST_FULL
  const char* cfg = "full";
#else
  const char* cfg = "base";
#endif
  fprintf(f, "property %s\nbuild %s\nclass %s\nhash %016llx\ntier %s\n", g_prop.c_str(), cfg, o.cls.c_str(), (unsigned long long)o.hash, g_thorough ? "thorough" : "quick");
  static const char* nm[] = {"config", "schedule", "faults"};
  for(int s = 0; s < NSTREAMS; s++) {
    fprintf(f, "%s", nm[s]);
    for(size_t i = 0; i < in.v[s].size();) {
      size_t k = i; while(k < in.v[s].size() && in.v[s][k] == in.v[s][i]) k++;
      if(k - i > 1) fprintf(f, " %ux%zu", in.v[s][i], k - i); else fprintf(f, " %u", in.v[s][i]);
      i = k;
    }
    fprintf(f, "\n");
  }
  fprintf(f, "message %s\n", o.msg.c_str());
  fclose(f);
}
static bool load(const char* path, RunIn& in, std::string& cls, std::string& hash)
{
  FILE* f = fopen(path, "r");
  if(!f) return false;
  in.ovr = true;
  char* line = nullptr; size_t cap = 0; ssize_t n;
  while((n = getline(&line, &cap, f)) > 0) {
    while(n > 0 && (line[n - 1] == '\n')) line[--n] = 0;
    std::string l(line);
    auto sp = l.find(' ');
    std::string key = l.substr(0, sp), val = sp == std::string::npos ? "" : l.substr(sp + 1);
    if(key == "property") g_prop = val;
    else if(key == "class") cls = val;
    else if(key == "hash") hash = val;
    else if(key == "tier") g_thorough = val == "thorough";
    else {
      int s = key == "config" ? 0 : key == "schedule" ? 1 : key == "faults" ? 2 : -1;
      if(s < 0) continue;
      const char* p = val.c_str();
      while(*p) {
        while(*p == ' ') p++;
        if(!*p) break;
        char* e; unsigned long v = strtoul(p, &e, 10); unsigned long k = 1;
        if(*e == 'x') k = strtoul(e + 1, &e, 10);
        for(unsigned long i = 0; i < k; i++) in.v[s].push_back((uint32_t)v);
        if(e == p) break;
        p = e;
      }
    }
  }
  free(line); fclose(f);
  return true;
}

static void minimize(RunIn& in, RunOut& best, double budget)
{
  timeval t0; gettimeofday(&t0, nullptr);
  auto el = [&] { timeval t; gettimeofday(&t, nullptr); return (t.tv_sec - t0.tv_sec) + 1e-6 * (t.tv_usec - t0.tv_usec); };
  int tries = 0;
  auto attempt = [&](const RunIn& c) {
    if(el() > budget) return false;
    tries++;
    RunOut o = run_one(c, 0);
    if(o.cls == best.cls) {
      RunIn nin; get_streams(nin);
      // adopt what was really consumed if not longer
      size_t a = 0, b = 0; for(int s = 0; s < NSTREAMS; s++) { a += c.v[s].size(); b += nin.v[s].size(); }
      in = b <= a ? nin : c; in.ovr = true; best = o; return true;
    }
    return false;
  };
  bool changed = true;
  for(int round = 0; round < 4 && changed && el() < budget; round++) {
    changed = false;
    static const int order[] = {FAULT, SCHED, CFG};
    for(int oi = 0; oi < 3; oi++) {
      int s = order[oi];
      if(!in.v[s].empty()) { RunIn c = in; c.v[s].clear(); if(attempt(c)) { changed = true; continue; } }
      // truncate
      for(double fr : {0.25, 0.5, 0.75, 0.9}) { if(in.v[s].size() < 2) break; RunIn c = in; c.v[s].resize((size_t)(in.v[s].size() * fr)); if(attempt(c)) { changed = true; break; } }
      // zero chunks, delete chunks
      for(size_t ch = in.v[s].size() / 2; ch >= 1; ch /= 2) {
        if(in.v[s].size() > 4000 && ch < in.v[s].size() / 64) break;
        for(size_t i = 0; i < in.v[s].size() && el() < budget; i += ch) {
          bool nz = false; for(size_t k = i; k < std::min(i + ch, in.v[s].size()); k++) if(in.v[s][k]) nz = true;
          if(nz) { RunIn c = in; for(size_t k = i; k < std::min(i + ch, c.v[s].size()); k++) c.v[s][k] = 0; if(attempt(c)) { changed = true; continue; } }
          if(s != CFG) { RunIn c = in; c.v[s].erase(c.v[s].begin() + i, c.v[s].begin() + std::min(i + ch, c.v[s].size())); if(attempt(c)) { changed = true; } }
        }
        if(ch == 1) break;
      }
      // smaller values
      if(in.v[s].size() < 400) for(size_t i = 0; i < in.v[s].size() && el() < budget; i++) {
        while(i < in.v[s].size() && in.v[s][i] > 1) { RunIn c = in; c.v[s][i] /= 2; if(!attempt(c)) break; changed = true; }
      }
    }
  }
  fprintf(stderr, "minimised in %d attempts, %.1f s\n", tries, el());
}

int main(int argc, char** argv)
{
  if(!getenv("DST_NOASLR")) {
    setenv("DST_NOASLR", "1", 1);
    if(personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  std::map<std::string, std::string> o;
  for(int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if(a == "--trace") { g_trace = true; continue; }
    if(a.rfind("--", 0) == 0 && i + 1 < argc) { o[a.substr(2)] = argv[i + 1]; i++; }
  }
  if(o.count("prop")) g_prop = o["prop"];
  g_thorough = o["tier"] == "thorough";
  if(o.count("cpu")) g_cpu_limit = atoi(o["cpu"].c_str());
  sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  for(int s = 0; s < NSTREAMS; s++) rec[s] = (uint32_t*)mmap(nullptr, RECCAP * 4ull, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  uint64_t seed = o.count("seed") ? strtoull(o["seed"].c_str(), nullptr, 10) : 1;
  if(o.count("replay")) {
    RunIn in; std::string cls, hash;
    if(!load(o["replay"].c_str(), in, cls, hash)) { fprintf(stderr, "cannot read %s\n", o["replay"].c_str()); return 3; }
    RunOut r = run_one(in, 0);
    printf("%s\n", r.json.c_str());
    if(o.count("minimize")) {
      if(r.cls.empty()) { fprintf(stderr, "does not fail\n"); return 4; }
      if(o.count("class")) g_want_cls = o["class"];
      r = run_one(in, 0);
      if(r.cls.empty()) { fprintf(stderr, "does not fail this way\n"); return 4; }
      RunOut best = r; minimize(in, best, atof(o.count("budget") ? o["budget"].c_str() : "30"));
      save(o["minimize"].c_str(), in, best);
      printf("%s\n", best.json.c_str());
    }
    return 0;
  }
  uint64_t start = strtoull(o.count("start") ? o["start"].c_str() : "0", nullptr, 10), stride = strtoull(o.count("stride") ? o["stride"].c_str() : "1", nullptr, 10);
  uint64_t cnt = strtoull(o.count("count") ? o["count"].c_str() : "1", nullptr, 10);
  double tmax = o.count("time") ? atof(o["time"].c_str()) : 1e9;
  timeval t0; gettimeofday(&t0, nullptr);
  for(uint64_t k = 0; k < cnt; k++) {
    timeval t; gettimeofday(&t, nullptr);
    if((t.tv_sec - t0.tv_sec) + 1e-6 * (t.tv_usec - t0.tv_usec) > tmax) break;
    uint64_t i = start + k * stride;
    RunIn in; in.seed = mix(mix(seed, str_hash(g_prop)), i);
    RunOut r = run_one(in, i);
    printf("%s\n", r.json.c_str());
    fflush(stdout);
    if(o.count("streams")) { RunIn g; get_streams(g); save(o["streams"].c_str(), g, r); }
  }
  return 0;
}
