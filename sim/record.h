#ifndef SIM_RECORD_H
#define SIM_RECORD_H
#include "rt.h"
namespace sim {
// Shared between a simulated run (child process) and its parent.
struct Record {
  volatile int valid;
  Cls cls;
  int opIndex;
  int runInBatch;
  bool fired;
  Point firedPoint;
  u64 trace, steps;
  u64 seed;
  char msg[512];
  // statistics
  u64 runs, ops, skipped, failedOps, totalSteps, schedPoints, switches;
  u64 faults[P_N];
  u64 opcount[128];
  u64 ndistinct, ninter, nruns;
  u64 probes[64];
};
extern Record* g_rec;
}  // namespace sim
#endif
