// dispatch: property -> workload
#include "sim.hpp"
#include "props.hpp"
#include <cstring>
#include <cstdlib>
void run_property(const char* p)
{
  int k = atoi(p + 1);
  if(p[0] == 'C') switch(k) {
    case 1: case 2: case 3: case 4: run_pridec(); return;
    case 5: case 6: run_dist(); return;
    case 7: run_failing(); return;
    case 11: run_repeat(); return;
    case 12: run_options(); return;
    case 13: run_checkpoint(); return;
    case 14: run_linalg(); return;
    case 15: run_clock(); return;
    case 16: run_factorizations(); return;
    case 18: run_output(); return;
    case 21: run_start(); return;
    case 20: run_pridec_stop(); return;
    case 19: run_memory(); return;
    case 8: case 9: case 10: case 17: run_single(); return;
  }
  fprintf(stderr, "unknown property %s\n", p);
  exit(3);
}
