#pragma once
#include "run.h"
struct Stats {
  uint64_t runs = 0, calls = 0, gens = 0, switches = 0, steps = 0, conflicts = 0, regions = 0;
  uint64_t f_nan = 0, f_throw = 0, f_oom = 0, f_io_short = 0, f_io_eintr = 0, f_io_enospc = 0, f_io_eio = 0, f_io_open = 0,
           f_clock = 0, f_lost = 0, f_crash = 0, f_dup = 0, f_reorder = 0, f_cancel = 0, f_entropy = 0, f_fill = 0, f_stall = 0, f_restart = 0, f_resume = 0;
  uint64_t shash = 0, sthash = 0, nontriv = 0; int64_t simns = 0;
};
extern Stats ST;
Case gen_case(const std::string &prop, uint64_t seed);
void check_case(const Case &c);
extern std::vector<sim::Switch> g_case_trace;    // schedule of the run under test, for the replay file
