// C13: checkpoints: crashes, restarts, failing storage, mismatching files (needs the checkpoint code, compiled with the axom::sidre stand-in)
#include "checks.hpp"
#include "props.hpp"
#include "sidre.hpp"
#include "mpi.h"
#include <algorithm>
#include <cstring>
#include <stdexcept>
using namespace sim;
using namespace nlp;
#ifndef HIOP_USE_AXOM
void run_checkpoint() { fprintf(stderr, "needs the full build\n"); exit(3); }
#else
#include <axom/sidre/spio/IOManager.hpp>
using axom::sidre::DataStore;
using axom::sidre::Group;
using axom::sidre::View;
using axom::sidre::IOManager;
static const char* GROUP = "HiOp quasi-Newton alg state";

// ------------------------------------------------------------------ simulated storage
namespace disk {
State D;
static void num(std::string& o, uint64_t v) { o.append((char*)&v, 8); }
void put(Group* g, const std::string& pre, std::string& out)
{
  for(auto& v : g->views) {
    std::string n = pre + v.first;
    num(out, n.size()); out += n; num(out, v.second->n);
    for(long i = 0; i < v.second->n; i++) out.append((char*)(v.second->getArray() + i * v.second->stride), 8);
  }
  for(auto& c : g->groups) put(c.second.get(), pre + c.first + "/", out);
}
bool get(Group* g, const std::string& in)
{
  size_t p = 0;
  auto rd = [&](uint64_t& v) { if(p + 8 > in.size()) return false; memcpy(&v, &in[p], 8); p += 8; return true; };
  uint64_t len, n;
  if(in.size() < 8 || in.substr(in.size() - 8) != "complete") return false;
  while(p + 8 < in.size()) {
    if(!rd(len) || p + len > in.size()) return false;
    std::string name = in.substr(p, len); p += len;
    if(!rd(n) || p + 8 * n > in.size()) return false;
    Group* q = g; size_t k;
    while((k = name.find('/')) != std::string::npos) { std::string s = name.substr(0, k); name = name.substr(k + 1); if(!q->hasGroup(s)) q->createGroup(s); q = q->getGroup(s); }
    View* v = q->hasView(name) ? q->getView(name) : q->createViewAndAllocate(name, axom::sidre::DOUBLE_ID, n);
    if(v->n != (long)n) { v->n = n; v->stride = 1; v->data.assign(n + 1, 0.); }
    for(uint64_t i = 0; i < n; i++) memcpy(v->getArray() + i * v->stride, &in[p + 8 * i], 8);
    p += 8 * n;
  }
  return true;
}
// one durable step; false: the system is down
static bool op() { if(D.dead) return false; if(D.crash_at >= 0 && D.ops >= D.crash_at) { D.dead = true; ev("crash at storage operation %d", D.ops); return false; } D.ops++; return true; }
static std::string part(const std::string& base, int r) { char b[40]; snprintf(b, sizeof b, "/part_%07d", r); return base + b; }
}  // namespace disk
using disk::D;

void IOManager::write(Group* g, int num_files, const std::string& base, const std::string& protocol, const std::string&)
{
  int r, n; MPI_Comm_rank(comm, &r); MPI_Comm_size(comm, &n);
  int k = D.saves[r]++;
  D.writes++;
  if(num_files != n || protocol != Group::getDefaultIOProtocol()) throw std::invalid_argument("write: unexpected number of files or protocol");
  MPI_Barrier(comm);
  int what = -1;
  for(auto& f : D.plan) if(f.save == k && (f.rank < 0 || f.rank == r)) what = f.what;
  std::string err;
  if(r == 0) {
    bool down = D.dead;
    if(!disk::op()) { if(!down) D.files[base + ".root"] = ""; }
    else { D.files[base + ".root"] = "files " + std::to_string(num_files); }
  }
  MPI_Barrier(comm);
  yield(choose(SCHED, 4));
  if(what == disk::FAIL_OPEN) { err = "cannot open " + disk::part(base, r); count("fault.save_open_error"); }
  else {
    std::string d; disk::put(g, "", d); d += "complete";
    std::string& f = D.files[disk::part(base, r)];
    // truncated, then written in three pieces
    bool up = disk::op(); if(up) f = "";
    for(int i = 0; i < 3 && up; i++) {
      size_t a = d.size() * i / 3, b = d.size() * (i + 1) / 3;
      up = disk::op();
      if(!up) { f += d.substr(a, (b - a) / 2); break; }
      if(i == 1 && what == disk::FAIL_MIDWAY) { err = "no space left on device"; count("fault.save_device_full"); break; }
      if(i == 2 && what == disk::SHORT) { count("fault.save_lost_write"); D.shorts++; break; }
      f += d.substr(a, b - a);
      yield(choose(SCHED, 4));
    }
  }
  MPI_Barrier(comm);
  if(!err.empty()) { D.write_errors++; throw std::runtime_error(err); }
}
void IOManager::read(Group* g, const std::string& root, bool)
{
  int r, n; MPI_Comm_rank(comm, &r); MPI_Comm_size(comm, &n);
  D.reads++;
  int ok = 1;
  if(r == 0) ok = D.files.count(root) && D.files[root].substr(0, 6) == "files ";
  MPI_Bcast(&ok, 1, MPI_INT, 0, comm);
  std::string err;
  if(!ok) err = "cannot read " + root;
  else {
    int nf = atoi(D.files[root].c_str() + 6);
    std::string base = root.size() > 5 && root.substr(root.size() - 5) == ".root" ? root.substr(0, root.size() - 5) : root;
    // processes beyond the number of files have nothing to read
    if(r < nf) {
      auto f = D.files.find(disk::part(base, r));
      if(f == D.files.end()) err = "no file " + disk::part(base, r);
      else if(r == D.fail_read_rank) { err = "input/output error"; count("fault.read_error"); }
      else if(!disk::get(g, f->second)) err = "damaged file " + disk::part(base, r);
    }
  }
  yield(choose(SCHED, 4));
  MPI_Barrier(comm);
  if(!err.empty()) { D.read_errors++; throw std::runtime_error(err); }
}

// ------------------------------------------------------------------ the check
static std::vector<Run> on(const Run& r0, int n, const WorldCfg& w)
{
  std::vector<Run> v(n, r0);
  run_world(w, [&](int k) { if(r0.with_alg || r0.on_iter) { } solve(v[k], k, n); });
  return v;
}
static bool bits(double a, double b) { return !memcmp(&a, &b, 8) || a == b; }
static bool bits(const dv& a, const dv& b) { if(a.size() != b.size()) return false; for(size_t i = 0; i < a.size(); i++) if(!bits(a[i], b[i])) return false; return true; }
static const char* it_diff(const It& a, const It& b, bool first)
{
  if(!bits(a.x, b.x)) return "x"; if(!bits(a.obj, b.obj)) return "objective"; if(!bits(a.zl, b.zl) || !bits(a.zu, b.zu)) return "bound multipliers"; if(!bits(a.lam, b.lam)) return "constraint multipliers";
  if(!bits(a.s, b.s)) return "slacks"; if(!bits(a.g, b.g)) return "constraint values"; if(!bits(a.mu, b.mu)) return "mu"; if(!bits(a.inf_pr, b.inf_pr)) return "primal infeasibility"; if(!bits(a.inf_du, b.inf_du)) return "dual infeasibility";
  if(!first) { if(!bits(a.adu, b.adu) || !bits(a.apr, b.apr)) return "step length"; if(a.ls != b.ls) return "number of line-search trials"; }
  return nullptr;
}
// the solve restarted from the state at iteration k of 'a'
static void continues(const std::vector<Run>& a, const std::vector<Run>& b, int k, const char* how)
{
  for(size_t r = 0; r < a.size(); r++) {
    if(b[r].recs.empty() || !b[r].recs[0].ran) return;
    const Rec &p = a[r].recs[0], &q = b[r].recs[0];
    size_t n = p.its.size() - k, m = q.its.size();
    for(size_t j = 0; j < std::min(n, m); j++) {
      const char* d = it_diff(p.its[k + j], q.its[j], j == 0);
      if(d) { violate("C13", j == 0 ? "restart-not-at-saved-state" : "restart-diverges", "%s at iteration %d: process %zu: %s differs %zu iterations later", how, k, r, d, j); return; }
      count("sim.iterates_compared_after_restart");
    }
    if(p.status == Max_Iter_Exceeded || q.status == Max_Iter_Exceeded) continue;
    if(n != m) { violate("C13", "restart-ends-elsewhere", "%s at iteration %d: %zu instead of %zu further iterations, %s instead of %s", how, k, m, n, status_name(q.status), status_name(p.status)); return; }
    if(p.status != q.status) { violate("C13", "restart-ends-elsewhere", "%s at iteration %d: ends with %s instead of %s", how, k, status_name(q.status), status_name(p.status)); return; }
    if(!bits(p.x, q.x) || !bits(p.obj, q.obj) || !bits(p.lam, q.lam)) { violate("C13", "restart-other-solution", "%s at iteration %d: another solution", how, k); return; }
  }
  count("sim.restarts_compared");
  nontrivial();
}
static bool all_ran(const std::vector<Run>& v) { for(auto& r : v) if(r.recs.empty() || !r.recs[0].ran) return false; return true; }
static std::string differ(const std::vector<Run>& a, const std::vector<Run>& b, bool results_only = false, size_t kb = 0)
{
  for(size_t k = 0; k < a.size(); k++) {
    if(b[k].recs.size() <= kb || !b[k].recs[kb].ran) return "";
    Rec q = b[k].recs[kb]; if(results_only) { q.evals = a[k].recs[0].evals; q.xhash = a[k].recs[0].xhash; for(size_t i = 0; i < std::min(q.its.size(), a[k].recs[0].its.size()); i++) { q.its[i].ncalls = a[k].recs[0].its[i].ncalls; q.its[i].njac = a[k].recs[0].its[i].njac; } }
    std::string d = a[k].recs[0].diff(q);
    if(!d.empty()) return "process " + std::to_string(k) + ": " + d;
  }
  return "";
}
// a file is of save 'id' when all its parts are; -1 incomplete or mixed
static int saved_iteration(const std::string& base, int n)
{
  auto rt = D.files.find(base + ".root");
  if(rt == D.files.end() || rt->second != "files " + std::to_string(n)) return -1;
  int it = -2;
  for(int r = 0; r < n; r++) {
    auto f = D.files.find(disk::part(base, r));
    if(f == D.files.end()) return -1;
    Group g; if(!disk::get(&g, f->second)) return -1;
    Group* h = g.getGroup(GROUP); View* v = h ? h->getView("alg_params") : nullptr;
    if(!v || v->n < 2) return -1;
    int k = (int)v->getArray()[1];
    if(it == -2) it = k; else if(it != k) return -1;
  }
  return it;
}
// the objects of a run of several processes are all created by copies of one Run: find out which process calls
struct Life { std::vector<hiopAlgFilterIPMQuasiNewton*> alg; };

void run_checkpoint()
{
  fr_options(20);
  aborts_belong_here("relerr<tol|isfinite_local|dangerously");
  Gen g; g.forms = {DENSE};
  int kind = weighted(CFG, {5, 1, 1});
  g.infeasible = kind == 1; g.degenerate = kind == 2;
  Spec p = draw_spec(g);
  p.distrib = choose(CFG, 2);
  int n = p.distrib ? 1 + choose(CFG, 4) : 1;
  if(n > 1) draw_partition(p, n);
  Run r; r.sp = &p; r.yields = n > 1; r.opt = draw_opts(p, 1);
  int mi = (int)r.opt.getn("max_iter", 80); r.opt.in("max_iter", std::min(mi, 80));
  WorldCfg w = draw_world(n); w.random_order = false;
  int mode = weighted(CFG, {5, 2, 3, 3});  // 0 crash and restart from file 1 failing saves 2 missing, mismatching or unreadable file 3 the API with groups
  D.reboot();
  describe("%d processes, %s%s", n, p.cls.c_str(), r.opt.text().c_str());
  aborts_belong_elsewhere();
  std::vector<Run> ref = on(r, n, w);
  if(!all_ran(ref)) return;
  aborts_belong_here("relerr<tol|isfinite_local|dangerously");
  const Rec& q = ref[0].recs[0];
  char b[60]; snprintf(b, sizeof b, "status.%s", status_name(q.status)); count(b);
  state_hash(q.hash());
  int L = (int)q.its.size() - 1;   // last iteration
  if(L < 1) { count("sim.too_short"); return; }
  bool numbered = choose(CFG, 2);
  int every = 1 + choose(CFG, (uint32_t)std::max(1, std::min(L, 8)));
  Run s = r;
  s.opt.str("checkpoint_save", "yes"); s.opt.in("checkpoint_save_every_N_iter", every); s.opt.str("checkpoint_file", numbered ? "chk_#_#" : "chk");
  auto file = [&](int it) { return numbered ? "chk_" + std::to_string(it) + "_" + std::to_string(it) : std::string("chk"); };
  if(mode == 0 || mode == 1) {
    int nsaves = L / every;
    int total = nsaves * (1 + 4 * n);
    if(mode == 0) { D.crash_at = choose(FAULT, (uint32_t)(total + 3)); describe(" every %d, crash at storage operation %d of %d", every, D.crash_at, total); }
    else {
      int nf = 1 + choose(FAULT, 3);
      for(int i = 0; i < nf; i++) { disk::Fault f; f.save = choose(FAULT, (uint32_t)nsaves + 1); f.rank = (int)choose(FAULT, n + 1) - 1; f.what = choose(FAULT, 3); D.plan.push_back(f); describe(" save %d fails (%d) on process %d", f.save, f.what, f.rank); }
    }
    std::vector<Run> l1 = on(s, n, w);
    if(!all_ran(l1)) { return; }
    std::string d = differ(ref, l1);
    if(!d.empty()) { violate("C13", "saving-changes-the-solve", "with checkpoints saved every %d iterations%s: %s", every, D.write_errors ? " (some failing)" : "", d.c_str()); return; }
    count("sim.saves", D.writes / n);
    if(D.dead) count("fault.crash");
    D.reboot();
    // restart from the latest complete checkpoint, or from a damaged one
    std::string use; int it = -1; std::vector<std::string> names; for(int k = every; k <= L; k += every) if(names.empty() || numbered) names.push_back(file(k));
    for(auto& f : names) { int k = saved_iteration(f, n); if(k > it) { it = k; use = f; } }
    if(!names.empty() && choose(FAULT, 4) == 3) { use = names[choose(FAULT, (uint32_t)names.size())]; it = saved_iteration(use, n); }
    if(use.empty()) { use = file(every); count("sim.nothing_saved"); }
    Run t = r; t.opt.str("checkpoint_load_on_start", "yes"); t.opt.str("checkpoint_file", choose(CFG, 2) ? use.c_str() : use.c_str());
    describe(" restart from %s (iteration %d)", use.c_str(), it);
    if(it >= 0 && choose(CFG, 3) == 0) t.reruns = 1;
    std::vector<Run> l2 = on(t, n, w);
    if(!all_ran(l2)) return;
    if(it >= 0) {
      continues(l1, l2, it, "restart");
      if(t.reruns) { std::string e; for(int k = 0; k < n; k++) if(l2[k].recs.size() > 1 && l2[k].recs[1].ran) { e = l2[k].recs[0].diff(l2[k].recs[1]); if(!e.empty()) break; } if(!e.empty()) violate("C13", "second-restart-differs", "loading again with the same objects: %s", e.c_str()); }
    } else {
      count("sim.incomplete_checkpoint_loaded");
      std::string e = differ(ref, l2, true);
      if(!e.empty()) violate("C13", "unusable-checkpoint-changes-the-solve", "loading an incomplete checkpoint, against a solve without: %s", e.c_str());
      nontrivial();
    }
    return;
  }
  std::vector<hiopAlgFilterIPMQuasiNewton*> alg(n, nullptr);
  if(mode == 2) {
    std::vector<Run> l1 = on(s, n, w);
    if(!all_ran(l1)) return;
    D.reboot();
    int k = L / every * every; std::string use = file(k ? k : every);
    int m = weighted(CFG, {1, 3, 2, 2, 2, 2}), n2 = n; Spec p2 = p;
    static const char* names[] = {"missing file", "truncated or missing part", "other number of processes", "other problem", "views missing or of other size", "read error on one process"};
    int victim = choose(FAULT, n);
    describe(" %s", names[m]); snprintf(b, sizeof b, "fault.checkpoint_%d", m); count(b);
    bool have = saved_iteration(use, n) >= 0;
    if(m == 0) use = "nowhere";
    if(m == 1 && have) { std::string& f = D.files[disk::part(use, victim)]; if(choose(FAULT, 4) == 0) D.files.erase(disk::part(use, victim)); else f.resize(choose(FAULT, (uint32_t)f.size())); }
    if(m == 2) { if(!p.distrib || p.n < 2) return; do n2 = 1 + choose(CFG, 4); while(n2 == n && n > 0 && choose(CFG, 8)); if(n2 == n) n2 = n % 4 + 1; draw_partition(p2, n2); if(n2 == 1) p2.cols.clear(); }
    if(m == 3) { Spec o = draw_spec(g); o.distrib = p.distrib; if(n > 1) draw_partition(o, n); if(o.m == p.m && (o.n == p.n || r.opt.gets("fixed_var", "none") == "remove")) return; /* of equal size for the algorithm */ p2 = o; }
    if(m == 4 && have) {
      int how = choose(FAULT, 4);
      for(int v = 0; v < n; v++) if(how != 1 || v == victim || n == 1) {
        Group gr; disk::get(&gr, D.files[disk::part(use, v)]); Group* h = gr.getGroup(GROUP);
        if(how == 0) { gr.groups["other"] = std::move(gr.groups[GROUP]); gr.groups.erase(GROUP); }
        else { auto i = h->views.begin(); std::advance(i, choose(FAULT, (uint32_t)h->views.size())); if(how == 3) { i->second->n++; i->second->data.resize(i->second->n + 1); } else h->views.erase(i); }
        std::string d; disk::put(&gr, "", d); D.files[disk::part(use, v)] = d + "complete";
      }
    }
    if(m == 5) D.fail_read_rank = victim;
    Run r2 = r; r2.sp = &p2; r2.yields = n2 > 1;
    WorldCfg w2 = w; w2.n = n2;
    bool fresh_needed = m == 2 || m == 3;
    std::vector<Run> f2 = ref;
    if(fresh_needed) { aborts_belong_elsewhere(); f2 = on(r2, n2, w2); if(!all_ran(f2)) return; aborts_belong_here("relerr<tol|isfinite_local|dangerously"); }
    Run t = r2; t.opt.str("checkpoint_load_on_start", "yes"); t.opt.str("checkpoint_file", use.c_str());
    std::vector<Run> l2 = on(t, n2, w2);
    if(!all_ran(l2)) return;
    if(D.reads == 0) violate("C13", "not-read", "no attempt to read the checkpoint");
    check_kkt(p2, t.opt, l2[0].recs[0], "C13");
    std::string e = differ(f2, l2, true);
    if(!e.empty()) violate("C13", "unusable-checkpoint-changes-the-solve", "%s, against a solve without: %s", names[m], e.c_str());
    nontrivial();
    return;
  }
  // saving from the iterate callback to a group, loading from it into another solver
  int k = choose(FAULT, (uint32_t)L + 1), k2 = choose(FAULT, 3) ? -1 : (int)choose(FAULT, (uint32_t)k + 1) - 1;
  int stride = 1 + choose(CFG, 3), bad = choose(FAULT, 3) == 2 ? 1 + choose(FAULT, 2) : 0;
  describe(" API: save at %d%s stride %d%s", k, k2 >= 0 ? " (group used before)" : "", stride, bad ? " damaged" : "");
  std::vector<DataStore> ds(n);
  Run a1 = r; int calls = 0, errors = 0;
  a1.with_alg = [&](hiopAlgFilterIPMBase* a, int) { alg[my_rank()] = dynamic_cast<hiopAlgFilterIPMQuasiNewton*>(a); };
  a1.on_iter = [&](const It& t) {
    if(t.iter != k && t.iter != k2) return;
    Group* root = ds[my_rank()].getRoot(); Group* gr = root->getGroup(GROUP); if(!gr) gr = root->createGroup(GROUP);
    try { alg[my_rank()]->save_state_to_sidre_group(*gr); calls++; } catch(const std::exception&) { errors++; }
    if(t.iter == k2 || stride == 1) return;
  };
  std::vector<Run> l1 = on(a1, n, w);
  if(!all_ran(l1)) return;
  std::string d = differ(ref, l1);
  if(!d.empty()) { violate("C13", "saving-changes-the-solve", "with the state saved to a group at iteration %d: %s", k, d.c_str()); return; }
  if(errors) { if(k2 < 0) violate("C13", "save-error", "saving to an empty group failed"); count("sim.group_of_other_size"); return; }
  if(!calls) return;
  for(int v = 0; v < n; v++) {
    Group* gr = ds[v].getRoot()->getGroup(GROUP);
    if(stride > 1) for(auto& x : gr->views) { View& o = *x.second; std::vector<double> z(o.n * stride + 1, NAN); for(long i = 0; i < o.n; i++) z[i * stride] = o.getArray()[i]; o.data = z; o.stride = stride; }
    if(bad == 1 || (bad == 2 && v == n - 1)) { auto i = gr->views.begin(); std::advance(i, choose(FAULT, (uint32_t)gr->views.size())); gr->views.erase(i); }
  }
  Run a2 = r; std::vector<int> thrown(n, 0);
  a2.with_alg = [&](hiopAlgFilterIPMBase* a, int) {
    int v = my_rank();
    try { dynamic_cast<hiopAlgFilterIPMQuasiNewton*>(a)->load_state_from_sidre_group(*ds[v].getRoot()->getGroup(GROUP)); } catch(const std::exception&) { thrown[v] = 1; }
  };
  std::vector<Run> l2 = on(a2, n, w);
  if(!all_ran(l2)) return;
  int nt = 0; for(int t : thrown) nt += t;
  if(!bad) {
    if(nt) violate("C13", "load-error", "loading a saved group failed on %d of %d processes", nt, n);
    else continues(l1, l2, k, "group loaded");
  } else {
    count("fault.damaged_group");
    if(!nt) violate("C13", "damage-not-reported", "a group without one of its views was loaded");
    else if(nt < n) violate("C13", "failure-not-agreed", "loading failed on %d of %d processes only", nt, n);
    else { std::string e = differ(ref, l2, true); if(!e.empty()) violate("C13", "unusable-checkpoint-changes-the-solve", "after a failed load from a group: %s", e.c_str()); }
    nontrivial();
  }
}
#endif
