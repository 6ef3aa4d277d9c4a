#include "run.h"
void run_surr0(const Case &, RunOpts &, RunTrace &) { sim::fail("harness", "surrogate cases need the surrogate binary"); }
void run_surr1(const Case &, RunOpts &, RunTrace &) { sim::fail("harness", "surrogate cases need the surrogate binary"); }
