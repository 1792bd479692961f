// Controlled OpenMP runtime: interface of shim.cpp
#pragma once
#include <functional>
#include <string>
namespace omps {
struct Opt {
  int threads = 2;    // nthreads-var: size of a team without num_threads clause
  int delay = -1;     // -1: all interleavings (DPOR); k: every schedule with at most k delays
  bool norace = false; // a data race is a violation
  bool cache = false;  // merge executions that reach the same state at a barrier or region end (everything the body
                       // changes must then be allocated inside the body, and nothing it allocates may outlive it)
  long maxexec = 2000000; // give up (reported as an error of the check, never silently)
};
struct Stats { long execs = 0, steps = 0, redundant = 0, races = 0, merged = 0, states = 0, regions = 0, restarts = 0, maxexecs = 0; };
// Runs body once per schedule; returns "" or the first failure (with the schedule that leads to it).
std::string explore(const Opt &, const std::function<std::string()> &body, Stats &);
void set_threads(int n); // for runs outside explore()
bool controlled();       // false when linked without the runtime
}
