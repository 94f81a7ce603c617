// Independent reference model: reads the rendered inputs of a case, and checks
// the outputs of a run against them.  Shares no code with /repo.
#pragma once
#include <array>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "json.h"
#include "rt.h"

typedef std::vector<std::string> Words;

struct Opts {
  std::string cmd, ref, hyp, ref_json, syn, sidecar, sbs, nlp, json, log, symbols, approach = "adapted";
  int numbests = 100, thr = 0, ctx = 5;
  bool use_case = false, use_punct = false, no_cut = false, no_hyp = false, no_approx = false, add_ins = false,
       case_stats = false;
};
Opts parse_argv(const std::vector<std::string> &argv);

struct WTag { std::string id, type; };
struct NlpRow {
  std::string token, speaker, ts, endTs, punct, prepunct, casing, labels, conf, label;  // label: best label
  std::vector<WTag> wtags;
};
struct Item {
  bool entity = false;
  std::string word;                // plain word
  std::string label;               // ___id_LABEL___
  std::vector<Words> cands;        // permitted wordings
};
struct HypTok {
  std::string tok, orig;
  float st = 0, en = 0;
};
struct Rule { Words lhs; std::vector<Words> alts; };
struct Graph {
  struct E { int to; int w; };     // w < 0: empty move
  std::vector<std::vector<E>> out;
  int start = 0, end = 0;
  int add() { out.emplace_back(); return (int)out.size() - 1; }
};
struct Lattice {
  struct A { int from, to; int label; };
  int nstates = 0, start = 0;
  bool weighted = false;
  std::vector<A> arcs;
  std::set<int> finals;
  std::map<int, std::string> syms;
};
struct Inputs {
  Opts o;
  bool ok = true;
  std::string why;
  bool ref_nlp = false, hyp_fst = false;
  std::vector<NlpRow> rows;
  std::vector<Item> items;
  std::vector<HypTok> hyp;
  std::vector<Rule> rules;
  std::map<std::string, int> ids;
  Graph g;
  Lattice lat;
  int id(const std::string &w) { return ids.emplace(w, (int)ids.size()).first->second; }
};
enum Kind { TXT, CTM, NLP, FST };
Kind kind_of(const std::string &path);
std::string lower_utf8(const std::string &s);
Inputs read_inputs(const std::vector<std::string> &argv, const std::map<std::string, std::string> &files);
Graph build_graph(Inputs &in, const std::vector<Item> &items);
std::vector<Rule> user_rules(const std::string &text);
void add_auto_rules(std::vector<Rule> &rules, const std::set<std::string> &symbols, bool cut, bool hyp);
bool accepts(const Graph &g, const std::vector<int> &words);
int min_edits(const Graph &g, const std::vector<int> &words);
int64_t ref_len(const Inputs &in);

struct Viol { std::string sig, detail; };
typedef std::vector<Viol> Viols;

struct SRow { std::string ref, hyp, err, cls, tags; };
struct Sbs {
  bool ok = false;
  std::string why;
  std::vector<SRow> rows;
  std::vector<std::pair<int64_t, std::string>> groups;
  int ins = 0, del = 0, sub = 0, n = 0;
};
Sbs parse_sbs(const std::string &text);
// log messages without their time stamps; console text has its colours removed
std::vector<std::string> log_lines(const std::string &text);
std::string strip_ansi(const std::string &s);

void check_rows(Inputs &in, const Sbs &s, Viols &v);                       // C01
void check_bound(Inputs &in, const Sbs &s, Viols &v);                      // C01 lower bound / identity
void check_headline(Inputs &in, const Sbs &s, const std::string *json, const std::vector<std::string> &log, bool align,
                    Viols &v);                                             // C02
void check_breakdowns(Inputs &in, const Sbs &s, const std::string &json, const std::vector<std::string> &log, Viols &v);  // C03
std::string predict_nlp(Inputs &in, const Sbs &s, bool add_ins, bool &ok);  // C04
void check_lattice(Inputs &in, const Sbs &s, Viols &v);                    // C13
int lattice_min_edits(Inputs &in);
std::string fst_binary(const Lattice &l, const std::vector<float> *weights = nullptr);
bool fst_parse(const std::string &bin, Lattice &l);
