// simulated storage under the axom::sidre stand-in
#pragma once
#include "hiop_defs.hpp"
#ifdef HIOP_USE_AXOM
#include <axom/sidre/core/DataStore.hpp>
#include <map>
#include <string>
#include <vector>
namespace disk {
enum What { FAIL_OPEN = 0, FAIL_MIDWAY, SHORT };      // SHORT: data lost without an error
struct Fault { int save, rank, what; };                // rank -1: all
struct State {
  std::map<std::string, std::string> files;
  int ops = 0, crash_at = -1; bool dead = false;
  int nranks = 1;
  std::vector<int> saves;                              // per process: saves started
  std::vector<Fault> plan;
  int write_errors = 0, read_errors = 0, reads = 0, writes = 0, shorts = 0;
  int fail_read_rank = -1;                             // reading fails on this process
  void reboot() { ops = 0; crash_at = -1; dead = false; plan.clear(); fail_read_rank = -1; saves.assign(16, 0); }
};
extern State D;
void put(axom::sidre::Group* g, const std::string& pre, std::string& out);
bool get(axom::sidre::Group* g, const std::string& in);
}
#endif
