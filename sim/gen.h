// Seeded generator of cases: inputs as files, options, environments, faults.
#pragma once
#include "model.h"

struct Test {
  std::string prop, kind;
  std::vector<std::string> argv;
  std::map<std::string, std::string> files;
  Env env;
  std::vector<Fault> faults;
  // second half of the pair (what it means depends on prop and kind)
  std::vector<std::string> argv2;
  std::map<std::string, std::string> files2;  // replaces/adds files for the second run
  Env env2;
  std::vector<int64_t> kills;                 // C08: steps at which successive runs die
  bool gone = false;                          // C06: files2 names a file that is missing
};
struct GenOpt {
  int maxwords = 60;          // reference length cap
  int ref = -1;               // Kind or -1
  int hyp = -1;
  bool align = false;
  bool lattice = false;
  bool wantjson = true, wantsbs = true, wantnlp = true, wantlog = true;
  bool permitted = false;     // C10: hypothesis is a permitted wording (or a near miss)
  bool nearmiss = false;
  double errs = -1;
  int big = 0;                // 1: long words (files beyond any buffer size), 2: many words
};
void gen_case(Rng &r, const GenOpt &g, Test &t);
Env gen_env(Rng &r, bool rough = true);
bool csv_small_block_ok(const Test &t);
