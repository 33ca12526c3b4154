// C12: the options objects against a small reference model, under damaged options files, failing reads and arbitrary API calls
#include "checks.hpp"
#include "props.hpp"
#include "hiopLogger.hpp"
#include <cctype>
#include <cerrno>
#include <cfloat>
#include <climits>
#include <cstdlib>
#include <cstring>
#include <sys/stat.h>
#include <unistd.h>
using namespace sim;
using namespace nlp;
#include "options_doc.inc"

namespace {
// ------------------------------------------------------------------ reference model
struct MOpt { const OptDoc* d; double num; std::string s; bool file = false, run = false; };
struct Model {
  std::vector<MOpt> o; bool nlp;
  explicit Model(bool isnlp) : nlp(isnlp)
  {
    auto add = [&](const OptDoc& d) { o.push_back({&d, d.def, d.sdef, false, false}); };
    if(nlp) for(auto& d : doc_nlp) add(d); else for(auto& d : doc_pridec) add(d);
    consistent();
  }
  MOpt* find(const std::string& n) { for(auto& x : o) if(n == x.d->name) return &x; return nullptr; }
  MOpt& at(const char* n) { return *find(n); }
  bool user(const char* n) { MOpt& x = at(n); return x.file || x.run; }
  void consistent()
  {
    double tol = at("tolerance").num;
    for(const char* t : {"acceptable_tolerance", "dual_tol", "cons_tol", "comp_tol"}) {
      if(!nlp && t[0] != 'a') continue;
      if(at(t).num < tol && user(t)) at(t).num = tol;
    }
    if(!nlp) return;
    std::string& kkt = at("KKTLinsys").s;
    bool qn = at("Hessian").s == "quasinewton_approx";
    if(qn && user("Hessian") && (kkt == "xycyd" || kkt == "xdycyd" || kkt == "full" || kkt == "normaleqn")) kkt = "auto";
    if(!qn) at("duals_update_type").s = "linear";
    std::string& sp = at("linear_solver_sparse").s;
    if(kkt == "full" && sp != "resolve" && sp != "pardiso" && sp != "strumpack") sp = "auto";
    if(kkt == "condensed" && sp != "cusolver-chol") sp = "auto";
    if(sp == "resolve" || sp == "cusolver-chol") sp = "auto";           // no CUDA
    at("compute_mode").s = "cpu";                                        // no GPU
    if(kkt == "full" || sp == "strumpack") at("fact_acceptor").s = "inertia_free";
    if(at("moving_lim_rel").num * at("moving_lim_abs").num != 0) at("moving_lim_rel").num = 0;
#ifndef HIOP_USE_AXOM
    static const char* ck[] = {"checkpoint_save", "checkpoint_save_every_N_iter", "checkpoint_file", "checkpoint_load_on_start"};
    for(const char* c : ck) at(c).file = at(c).run = false;
#endif
  }
  // a value of the right type was given
  void mark(MOpt& x, bool f) { if(f) x.file = true; else x.run = true; }
  void num(const std::string& n, double v, bool f)
  {
    MOpt* x = find(n);
    if(x && x->d->type == 0 && (f || !x->file) && v >= x->d->lo && v <= x->d->hi) { x->num = v; mark(*x, f); }
    consistent();
  }
  void in(const std::string& n, int v, bool f)
  {
    MOpt* x = find(n);
    if(x && x->d->type == 1 && (f || !x->file) && v >= x->d->lo && v <= x->d->hi) { x->num = v; mark(*x, f); }
    consistent();
  }
  void str(const std::string& n, std::string v, bool f)
  {
    MOpt* x = find(n);
    if(x && x->d->type == 2 && (f || !x->file)) {
      if(x->d->range.empty()) { x->s = v; mark(*x, f); }
      else {
        for(auto& c : v) c = (char)tolower((unsigned char)c);
        for(auto& r : x->d->range) if(r == v) { x->s = v; mark(*x, f); break; }
      }
    }
    consistent();
  }
};
// number at the start of a token: 0 none 1 the whole token is a number 2 only a part of it (or an extreme value): reading it or not are both fine
int number(const std::string& t, bool integer, double& v)
{
  size_t i = 0, n = t.size();
  auto dig = [&](size_t k) { return k < n && t[k] >= '0' && t[k] <= '9'; };
  if(i < n && (t[i] == '+' || t[i] == '-')) i++;
  size_t d0 = i; while(dig(i)) i++;
  size_t nd = i - d0;
  if(!integer) {
    if(i < n && t[i] == '.') { size_t j = i + 1; while(dig(j)) j++; if(nd + (j - i - 1) > 0) { nd += j - i - 1; i = j; } }
    if(nd && i < n && (t[i] == 'e' || t[i] == 'E')) { size_t j = i + 1; if(j < n && (t[j] == '+' || t[j] == '-')) j++; if(dig(j)) { while(dig(j)) j++; i = j; } }
  }
  if(!nd) return 0;
  std::string p = t.substr(0, i);
  errno = 0;
  if(integer) { long l = strtol(p.c_str(), nullptr, 10); if(errno || l > INT_MAX || l < INT_MIN) return 0; v = (double)l; return i == n ? 1 : 2; }
  v = strtod(p.c_str(), nullptr);
  if(errno == ERANGE) { if(fabs(v) > 1) return 0; return 2; }
  return i == n ? 1 : 2;
}
struct Reading { std::vector<Model> m; std::string clean; bool too_many = false; };
// what reading these bytes does to the model; 'cut': the last line was cut off by a read error
void read_file(Reading& R, const std::string& bytes, bool cut)
{
  size_t p = 0;
  while(p < bytes.size()) {
    size_t e = bytes.find('\n', p); bool last = e == std::string::npos; if(last) e = bytes.size();
    std::string line = bytes.substr(p, e - p); p = e + 1;
    bool maybe = last && cut;
    size_t i = 0; auto sp = [](char c) { return c == ' ' || (c >= 9 && c <= 13); };
    while(i < line.size() && sp(line[i])) i++;
    if(i == line.size() || line[i] == '#') continue;
    std::string tok[2];
    for(int k = 0; k < 2; k++) { while(i < line.size() && sp(line[i])) i++; while(i < line.size() && !sp(line[i])) tok[k] += line[i++]; }
    if(tok[1].empty()) continue;
    const OptDoc* d = nullptr; for(auto& x : R.m[0].o) if(tok[0] == x.d->name) d = x.d;
    if(!d) continue;
    double v = 0; std::string s = tok[1]; bool use = true;
    if(d->type == 2) { size_t z = s.find('\0'); if(z != std::string::npos) { maybe = true; s.resize(z); } }
    else { int k = number(s, d->type == 1, v); if(k == 0) use = false; if(k == 2) maybe = true; }
    if(!use) continue;
    R.clean += tok[0] + " " + tok[1] + "\n";
    size_t n = R.m.size();
    if(maybe) { if(n >= 16) { R.too_many = true; return; } for(size_t k = 0; k < n; k++) R.m.push_back(R.m[k]); count("sim.ambiguous_tokens"); }
    for(size_t k = 0; k < n; k++) {
      if(d->type == 0) R.m[k].num(tok[0], v, true); else if(d->type == 1) R.m[k].in(tok[0], (int)v, true); else R.m[k].str(tok[0], s, true);
    }
  }
}

// ------------------------------------------------------------------ generators
const OptDoc& some_opt(bool nlp)
{
  if(nlp) return doc_nlp[choose(CFG, sizeof doc_nlp / sizeof *doc_nlp)];
  return doc_pridec[choose(CFG, sizeof doc_pridec / sizeof *doc_pridec)];
}
double some_num(const OptDoc& d, Stream s)
{
  switch(choose(s, 14)) {
    case 0: return d.def; case 1: return d.lo; case 2: return d.hi;
    case 3: return std::nextafter(d.lo, -HUGE_VAL); case 4: return std::nextafter(d.hi, HUGE_VAL);
    case 5: return std::nan(""); case 6: return HUGE_VAL; case 7: return -HUGE_VAL; case 8: return 0; case 9: return -1;
    case 10: return 1e300; case 11: return d.hi * 2; case 12: return 5e-324;
    default: return d.lo + (d.hi - d.lo) * pow(10., -(double)choose(s, 16));
  }
}
int some_int(const OptDoc& d, Stream s)
{
  switch(choose(s, 9)) {
    case 0: return (int)d.def; case 1: return (int)d.lo; case 2: return (int)d.hi; case 3: return (int)d.lo - 1; case 4: return d.hi < INT_MAX ? (int)d.hi + 1 : INT_MAX;
    case 5: return INT_MAX; case 6: return INT_MIN; case 7: return -1;
    default: return (int)d.lo + (int)choose(s, (uint32_t)std::min(1000., d.hi - d.lo + 1));
  }
}
std::string some_str(const OptDoc& d, Stream s)
{
  int k = choose(s, 8);
  if(k == 7) { static const char* odd[] = {"%s%s%s%s%s%n", "", "yes", "Path/To/File", "\xff\xfe", "none none", "true", "0"}; return odd[choose(s, 8)]; }
  if(k == 6) return std::string(1 + choose(s, 6000), 'x');
  std::string v = d.range.empty() ? "State_File.Chk" : d.range[choose(s, (uint32_t)d.range.size())];
  if(k == 5) v += "x";
  if(k == 4) for(auto& c : v) c = (char)toupper(c);
  if(k == 3 && !v.empty()) v.pop_back();
  return v;
}
std::string some_token(const OptDoc& d)
{
  char b[80];
  if(d.type == 2) return some_str(d, CFG);
  if(d.type == 1) { snprintf(b, sizeof b, "%d", some_int(d, CFG)); }
  else { double v = some_num(d, CFG); snprintf(b, sizeof b, choose(CFG, 2) ? "%.17g" : "%g", v); }
  std::string t = b;
  switch(choose(CFG, 12)) {
    case 11: { static const char* odd[] = {"abc", "nan", "inf", "0x10", "1e", "--1", "1,5", "1e999", "1e-999", "%d%n%s", "99999999999999999999", "1e-3abc", ".", "+", "\"1\"", "1..2"}; return odd[choose(CFG, 16)]; }
    case 10: return "+" + t;
    case 9: return t + (choose(CFG, 2) ? ";" : ",");
    default: return t;
  }
}
std::string some_line(bool nlp, const std::string& optline)
{
  const OptDoc& d = some_opt(nlp);
  int k = weighted(CFG, {8, 1, 1, 1, 1, 1, 1, 1, 1, 1, .3, 1});
  std::string l = optline.empty() ? std::string(d.name) + " " + some_token(d) : optline;
  switch(k) {
    case 1: return "# " + l;
    case 2: return "";
    case 3: return "  \t" + l + "\t # comment";
    case 4: return l + "\r";
    case 5: return std::string(d.name);                       // no value
    case 6: return "no_such_option " + some_token(d);
    case 7: { std::string u = l; for(auto& c : u) c = (char)toupper(c); return u; }
    case 8: { static const char* odd[] = {"%s%s%s%n %n", "%s%s%s%s%s%s%s%s", "= = =", "tolerance=1e-3", "\x01\x02\x7f", "max_iter", "{", "tolerance : 1"}; return odd[choose(CFG, 8)]; }
    case 9: { std::string u = l; u.insert(choose(CFG, (uint32_t)u.size() + 1), 1, (char)choose(CFG, 256)); return u; }
    case 10: return std::string(200 + choose(CFG, 20000), "a %"[choose(CFG, 3)]);
    case 11: return l + " " + some_token(d);
    default: return l;
  }
}
std::string some_file(bool nlp, int maxlines)
{
  std::string b; int n = choose(CFG, maxlines);
  for(int i = 0; i < n; i++) b += some_line(nlp, "") + "\n";
  return b;
}
// damage in the storage
void damage(std::string& b)
{
  if(b.empty()) return;
  uint32_t n = (uint32_t)b.size();
  switch(weighted(FAULT, {3, 3, 2, 1, 1, 1, 1})) {
    case 1: b.resize(choose(FAULT, n)); count("fault.file_truncated"); break;
    case 2: { int k = 1 + choose(FAULT, 8); for(int i = 0; i < k; i++) b[choose(FAULT, n)] ^= (char)(1 << choose(FAULT, 8)); count("fault.file_bits_flipped"); break; }
    case 3: { uint32_t a = choose(FAULT, n), l = choose(FAULT, n - a + 1); for(uint32_t i = a; i < a + l; i++) b[i] = 0; count("fault.file_block_zeroed"); break; }
    case 4: { uint32_t a = choose(FAULT, n), l = choose(FAULT, n - a + 1); b.insert(choose(FAULT, n), b.substr(a, l)); count("fault.file_block_repeated"); break; }
    case 5: { uint32_t a = choose(FAULT, n), l = choose(FAULT, n - a + 1); b.erase(a, l); count("fault.file_block_lost"); break; }
    case 6: { Rng r(choose(FAULT, 1 << 16)); uint32_t a = choose(FAULT, n); for(uint32_t i = a; i < n; i++) b[i] = (char)r.i(256); count("fault.file_garbage"); break; }
    default: break;
  }
}
// put the bytes where the library will look; returns what can be read and whether reading stops with an error
bool store(const char* path, const std::string& b, std::string& readable, bool& cut)
{
  readable = b; cut = false;
  switch(weighted(FAULT, {12, 1, 1, 1})) {
    case 1: readable.clear(); count("fault.file_missing"); return true;
    case 2: readable.clear(); mkdir(path, 0700); count("fault.file_is_a_directory"); return true;
    case 3: readable.clear(); if(symlink(path, path) == 0) count("fault.file_is_a_link_loop"); return true;
  }
  FILE* f = fopen(path, "w"); if(!f) return false;
  fwrite(b.data(), 1, b.size(), f); fclose(f);
  return true;
}

template<class O> struct Subject {
  O* o; std::vector<Model> cand; bool nlp;
  bool ok = true;
  std::string differs(Model& m)
  {
    char b[400];
    for(auto& x : m.o) {
      if(x.d->type == 0) { double v = o->GetNumeric(x.d->name); if(!(v == x.num)) { snprintf(b, sizeof b, "%s is %.17g, expected %.17g", x.d->name, v, x.num); return b; } }
      else if(x.d->type == 1) { int v = o->GetInteger(x.d->name); if(v != (int)x.num) { snprintf(b, sizeof b, "%s is %d, expected %d", x.d->name, v, (int)x.num); return b; } }
      else { std::string v = o->GetString(x.d->name); if(v != x.s) { snprintf(b, sizeof b, "%s is '%.60s', expected '%.60s'", x.d->name, v.c_str(), x.s.c_str()); return b; } }
      if(o->is_user_defined(x.d->name) != (x.file || x.run)) { snprintf(b, sizeof b, "%s: is_user_defined() is %d, expected %d", x.d->name, (int)o->is_user_defined(x.d->name), (int)(x.file || x.run)); return b; }
    }
    return "";
  }
  void check(const char* after)
  {
    if(!ok) return;
    count("sim.options_states_checked");
    for(auto& x : cand[0].o) {
      bool in = true; char b[200];
      if(x.d->type == 0) { double v = o->GetNumeric(x.d->name); in = v >= x.d->lo && v <= x.d->hi; snprintf(b, sizeof b, "%s = %g outside [%g,%g]", x.d->name, v, x.d->lo, x.d->hi); }
      else if(x.d->type == 1) { int v = o->GetInteger(x.d->name); in = v >= x.d->lo && v <= x.d->hi; snprintf(b, sizeof b, "%s = %d outside [%g,%g]", x.d->name, v, x.d->lo, x.d->hi); }
      else if(!x.d->range.empty()) { std::string v = o->GetString(x.d->name); in = false; for(auto& r : x.d->range) in |= r == v; snprintf(b, sizeof b, "%s = '%.80s' is not one of the documented values", x.d->name, v.c_str()); }
      if(!in) { ok = false; violate("C12", "value-outside-range", "after %s: %s", after, b); return; }
    }
    std::string first; size_t k = 0;
    for(size_t i = 0; i < cand.size(); i++) { std::string d = differs(cand[i]); if(d.empty()) { if(k != i) cand[k] = cand[i]; k++; } else if(first.empty()) first = d; }
    if(!k) { ok = false; violate("C12", first.find("is_user_defined") != std::string::npos ? "user-defined-flag" : "wrong-value", "after %s: %s", after, first.c_str()); return; }
    cand.erase(cand.begin() + k, cand.end());
  }
};

template<class O> void object_level(bool nlp)
{
  std::string b = some_file(nlp, thorough() ? 60 : 25), readable; bool cut = false;
  damage(b);
  bool dflt = choose(CFG, 2);
  const char* path = dflt ? (nlp ? "hiop.options" : "hiop_pridec.options") : "Other.Options";
  if(!store(path, b, readable, cut)) return;
  ReadCfg rc;
  if(choose(FAULT, 3) == 2) rc.shorts = true;
  if(choose(FAULT, 5) == 4 && !readable.empty()) { rc.error_at = choose(FAULT, (uint32_t)readable.size()); readable.resize(rc.error_at); cut = true; }
  Reading R; R.m.push_back(Model(nlp));
  read_file(R, readable, cut);
  if(R.too_many) return;
  describe("%s options, file of %zu bytes%s%s", nlp ? "solver" : "primal decomposition", b.size(), rc.error_at >= 0 ? " read error" : "", rc.shorts ? " short reads" : "");
  set_reads(rc);
  Subject<O> S; S.nlp = nlp; S.cand = R.m;
  S.o = dflt ? new O() : new O(path);
  set_reads(ReadCfg());
  S.check("reading the options file");
  hiopLogger* log = nullptr;
  int n = choose(SCHED, thorough() ? 60 : 25);
  for(int i = 0; i < n && S.ok && !has_violation(); i++) {
    char what[300];
    const OptDoc& d = some_opt(nlp);
    bool f = choose(SCHED, 8) == 7; int t = d.type;
    std::string name = d.name;
    switch(weighted(SCHED, {12, 1, 1, .5, .7})) {
      case 1: t = choose(SCHED, 3); break;                                               // perhaps a wrong type
      case 2: { static const char* odd[] = {"", "no_such_option", "%s%n%s", "tolerance ", "Tolerance", "\xff"}; name = odd[choose(SCHED, 6)]; break; }
      case 3: if(!log) { log = new hiopLogger(S.o, stdout, 0); S.o->SetLog(log); } else { S.o->SetLog(nullptr); delete log; log = nullptr; } S.check("SetLog"); continue;
      case 4: { FILE* q = fopen(choose(SCHED, 2) ? "printed" : "/dev/full", "w"); if(q) { S.o->print(q, choose(SCHED, 2) ? "%s" : nullptr); fclose(q); } S.check("print"); continue; }
    }
    if(t == 0) { double v = some_num(d, SCHED); for(auto& m : S.cand) m.num(name, v, f); snprintf(what, sizeof what, "SetNumericValue(%.40s, %g, %d)", name.c_str(), v, (int)f); S.o->SetNumericValue(name.c_str(), v, f); }
    else if(t == 1) { int v = some_int(d, SCHED); for(auto& m : S.cand) m.in(name, v, f); snprintf(what, sizeof what, "SetIntegerValue(%.40s, %d, %d)", name.c_str(), v, (int)f); S.o->SetIntegerValue(name.c_str(), v, f); }
    else { std::string v = some_str(d, SCHED); for(auto& m : S.cand) m.str(name, v, f); snprintf(what, sizeof what, "SetStringValue(%.40s, %.60s, %d)", name.c_str(), v.c_str(), (int)f); S.o->SetStringValue(name.c_str(), v.c_str(), f); }
    ev("%s", what);
    S.check(what);
    count("sim.api_calls");
  }
  uint64_t h = 1469598103934665603ull;
  for(auto& x : S.cand[0].o) { uint64_t v; memcpy(&v, &x.num, 8); h = (h ^ v) * 1099511628211ull; for(char c : x.s) h = (h ^ (unsigned char)c) * 1099511628211ull; h = h * 3 + x.file * 2 + x.run; }
  state_hash(h);
  if(n > 2 && b.size() > 20) nontrivial();
  S.o->SetLog(nullptr);
  delete log; delete S.o;
}

std::string render(const Opt& o)
{
  char b[120];
  if(o.type == 2) return o.name + " " + o.str;
  if(o.type == 1) snprintf(b, sizeof b, " %d", (int)o.num); else snprintf(b, sizeof b, " %.17g", o.num);
  return o.name + b;
}
/// a solve with a damaged options file is the solve with a file that holds its readable lines only
void solver_level()
{
  aborts_belong_elsewhere();
  fr_options(20);
  Gen g;
  Spec p = draw_spec(g);
  Opts all = draw_opts(p, 1), api, none;
  all.in("max_iter", 30);
  all.in("verbosity_level", choose(CFG, 3));
  std::vector<Opt> in_file;
  for(auto& o : all.v) { bool keep = o.name == "max_iter" || o.name == "Hessian"; if(!keep && choose(CFG, 2)) in_file.push_back(o); else api.v.push_back(o); }
  std::string b, readable; bool cut = false;
  int extra = choose(CFG, 6);
  for(auto& o : in_file) b += (choose(CFG, 4) == 3 ? some_line(true, render(o)) : render(o)) + "\n";
  for(int i = 0; i < extra; i++) { std::string l = choose(CFG, 2) ? "no_such_option 1" : some_line(true, "moving_lim_abs 0"); b += l + "\n"; }
  damage(b);
  const char* path = "hiop.options";
  if(!store(path, b, readable, cut)) return;
  Reading R; R.m.push_back(Model(true));
  read_file(R, readable, cut);
  if(R.too_many || R.m.size() > 1) return;
  for(auto& o : api.v) { if(o.type == 0) R.m[0].num(o.name, o.num, false); else if(o.type == 1) R.m[0].in(o.name, (int)o.num, false); else R.m[0].str(o.name, o.str, false); }
  FILE* f = fopen("clean.options", "w"); if(!f) return;
  fwrite(R.clean.data(), 1, R.clean.size(), f); fclose(f);
  describe("solve with an options file of %zu bytes, %s%s", b.size(), p.cls.c_str(), all.text().c_str());
  Run r; r.sp = &p; r.yields = false; r.opt = api;
  Run ref = r; ref.optfile = "clean.options"; solve_elsewhere(ref);
  if(ref.recs.empty() || !ref.recs[0].ran) return;
  if(choose(CFG, 2)) r.optfile = path;
  ReadCfg rc; if(choose(FAULT, 3) == 2) { rc.shorts = true; set_reads(rc); }
  solve_alone(r);
  set_reads(ReadCfg());
  if(r.recs.empty() || !r.recs[0].ran) return;
  count("sim.solves_with_damaged_options_files");
  std::string d = ref.recs[0].diff(r.recs[0]);
  if(!d.empty()) violate("C12", "solve-differs", "with the readable lines only against with the whole file: %s", d.c_str());
  state_hash(r.recs[0].hash());
  if(r.recs[0].its.size() > 2) nontrivial();
}
}

void run_options()
{
  if(chdir(scratch_dir()) != 0) return;
  switch(weighted(CFG, {5, 2, 3})) {
    case 1: object_level<hiopOptionsPriDec>(false); break;
    case 2: solver_level(); break;
    default: object_level<hiopOptionsNLP>(true); break;
  }
}
