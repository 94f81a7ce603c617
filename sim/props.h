// What each property means on simulated runs.
#pragma once
#include <unordered_set>

#include "gen.h"

struct Stats {
  int64_t runs = 0, steps = 0, sim_ns = 0, allocs = 0, io_ops = 0, sched_points = 0, switches = 0;
  int64_t evaluations = 0, nontrivial = 0;
  std::map<std::string, int64_t> faults;    // kind -> times injected
  std::map<std::string, int64_t> outcomes;  // how runs ended / what was compared
  std::unordered_set<uint64_t> execs, scheds, tests;
};
struct Verdict {
  Viols v;
  bool nontrivial = false;
  uint64_t hash = 0;     // over all runs of the evaluation
  std::string trace;     // of the last run, when asked for
};
Test make_test(const std::string &prop, uint64_t seed, int64_t index, bool thorough, Stats &st);
Verdict evaluate(const Test &t, Stats &st, bool want_trace = false);
J test_json(const Test &t);
Test test_from(const J &j);
std::map<std::string, std::string> outputs_of(const std::vector<std::string> &argv);  // role -> path
std::map<std::string, std::string> inputs_of(const std::vector<std::string> &argv);
