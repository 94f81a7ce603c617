#include "props.h"

#include <algorithm>
#include <errno.h>
#include <signal.h>
#include <string.h>

using std::map;
using std::set;
using std::string;
using std::vector;

static string S(int64_t n) { return std::to_string(n); }
template <class T>
static const T &pick(Rng &r, const vector<T> &v) { return v[r.below((int64_t)v.size())]; }

static string valof(const vector<string> &a, const string &k) {
  for (size_t i = 0; i + 1 < a.size(); i++)
    if (a[i] == k) return a[i + 1];
  return "";
}
static bool has(const vector<string> &a, const string &k) { return std::find(a.begin(), a.end(), k) != a.end(); }
static bool is_align(const vector<string> &a) { return a.size() > 1 && a[1] == "align"; }
map<string, string> outputs_of(const vector<string> &a) {
  map<string, string> m;
  bool ref_nlp = kind_of(valof(a, "--ref")) == NLP;
  // without an NLP reference wer announces that it skips the aligned NLP
  if (has(a, "--output-sbs")) m["sbs"] = valof(a, "--output-sbs");
  if (!is_align(a) && has(a, "--json-log")) m["json"] = valof(a, "--json-log");
  if (has(a, "--output-nlp") && ref_nlp) m["nlp"] = valof(a, "--output-nlp");
  return m;
}
map<string, string> inputs_of(const vector<string> &a) {
  map<string, string> m;
  static const char *names[4] = {"txt", "ctm", "nlp", "fst"};
  m[string("ref-") + names[kind_of(valof(a, "--ref"))]] = valof(a, "--ref");
  m[string("hyp-") + names[kind_of(valof(a, "--hyp"))]] = valof(a, "--hyp");
  if (has(a, "--syn")) m["syn"] = valof(a, "--syn");
  if (has(a, "--ref-json")) m["norm"] = valof(a, "--ref-json");
  if (has(a, "--wer-sidecar")) m["sidecar"] = valof(a, "--wer-sidecar");
  if (has(a, "--symbols")) m["symbols"] = valof(a, "--symbols");
  return m;
}

// ------------------------------------------------------------------ serialisation
static J env_json(const Env &e) {
  J j = J::obj();
  Env d;
  d.seed = 0;
#define F(x) if (!(e.x == d.x)) j.set(#x, J(e.x));
  j.set("seed", J((int64_t)e.seed));
  F(chunk) F(eintr) F(wshort) F(csv_block) F(heap_fill) F(heap_shuffle) F(stack_fill) F(clock0) F(clock_jump) F(tz) F(lang)
  F(locale_ok) F(tty) F(sched) F(spurious) F(pid) F(limit) F(cap)
#undef F
  return j;
}
static Env env_from(const J &j) {
  Env e;
  e.seed = (uint64_t)j.at("seed").num(0);
#define F(x) if (j.has(#x)) e.x = (decltype(e.x))j.at(#x).num(0);
  F(chunk) F(eintr) F(wshort) F(csv_block) F(heap_fill) F(heap_shuffle) F(stack_fill) F(clock0) F(clock_jump)
  F(locale_ok) F(tty) F(sched) F(spurious) F(pid) F(limit) F(cap)
#undef F
  if (j.has("tz")) e.tz = j.at("tz").s;
  if (j.has("lang")) e.lang = j.at("lang").s;
  return e;
}
J test_json(const Test &t) {
  J j = J::obj();
  j.set("property", J(t.prop)).set("kind", J(t.kind));
  auto strs = [](const vector<string> &v) {
    J a = J::arr();
    for (auto &x : v) a.push(J(x));
    return a;
  };
  auto files = [](const map<string, string> &m) {
    J o = J::obj();
    for (auto &p : m) o.set(p.first, J(p.second));
    return o;
  };
  j.set("argv", strs(t.argv));
  j.set("files", files(t.files));
  j.set("env", env_json(t.env));
  J fs = J::arr();
  for (auto &f : t.faults) {
    J o = J::obj();
    o.set("op", J(f.op)).set("path", J(f.path)).set("nth", J(f.nth)).set("err", J(f.err)).set("persist", J(f.persist)).set("off", J(f.off));
    fs.push(o);
  }
  j.set("faults", fs);
  if (!t.argv2.empty()) j.set("argv2", strs(t.argv2));
  if (!t.files2.empty()) j.set("files2", files(t.files2));
  j.set("env2", env_json(t.env2));
  if (!t.kills.empty()) {
    J k = J::arr();
    for (auto x : t.kills) k.push(J(x));
    j.set("kills", k);
  }
  if (t.gone) j.set("gone", J(true));
  return j;
}
Test test_from(const J &j) {
  Test t;
  t.prop = j.at("property").s;
  t.kind = j.at("kind").s;
  for (auto &x : j.at("argv").a) t.argv.push_back(x.s);
  for (auto &x : j.at("argv2").a) t.argv2.push_back(x.s);
  for (auto &p : j.at("files").o) t.files[p.first] = p.second.s;
  for (auto &p : j.at("files2").o) t.files2[p.first] = p.second.s;
  t.env = env_from(j.at("env"));
  t.env2 = env_from(j.at("env2"));
  for (auto &f : j.at("faults").a) {
    Fault x;
    x.op = f.at("op").s;
    x.path = f.at("path").s;
    x.nth = f.at("nth").num();
    x.err = (int)f.at("err").num();
    x.persist = (int)f.at("persist").num();
    x.off = f.at("off").num();
    t.faults.push_back(x);
  }
  for (auto &k : j.at("kills").a) t.kills.push_back(k.num());
  t.gone = j.has("gone");
  return t;
}

// ------------------------------------------------------------------ running
struct Runner {
  Stats &st;
  bool trace;
  Verdict &out;
  RunResult go(const vector<string> &argv, const map<string, string> &files, const Env &env, const vector<Fault> &faults = {}, bool sites = false) {
    RunConfig c;
    c.sites = sites;
    c.argv = argv;
    c.files = files;
    c.env = env;
    c.faults = faults;
    RunResult r = rt_run(c, trace);
    st.runs++;
    st.steps += r.steps;
    st.sim_ns += r.sim_ns;
    st.allocs += r.allocs;
    st.io_ops += r.io_ops;
    st.sched_points += r.sched_points;
    st.switches += r.switches;
    st.execs.insert(r.hash);
    if (r.sched_points) st.scheds.insert(r.sched_hash);
    auto &f = st.faults;
    if (r.eintrs) f["EINTR"] += r.eintrs;
    if (r.short_reads) f["short read"] += r.short_reads;
    if (r.short_writes) f["short write"] += r.short_writes;
    if (r.spurious) f["spurious wake-up"] += r.spurious;
    if (r.clock_jumps) f["clock jump"] += r.clock_jumps;
    for (size_t i = 0; i < faults.size() && i < r.fired.size(); i++)
      if (r.fired[i]) {
        string k = faults[i].op;
        if (k == "open" || k == "read" || k == "write" || k == "close") {
          const char *e = strerrorname_np(faults[i].err);
          k += string(" ") + (e ? e : "error");
        } else if (k == "alloc")
          k = "allocation failure";
        else if (k == "thread")
          k = "thread start failure";
        else if (k == "kill")
          k = "process death";
        f[k] += r.fired[i];
      }
    out.hash = fnv(&r.hash, 8, out.hash);
    out.hash = fnv(&r.kind, sizeof r.kind, fnv(&r.code, sizeof r.code, out.hash));
    for (auto &x : r.files) out.hash = fnv(x.second.data.data(), x.second.data.size(), out.hash);
    if (trace) out.trace = r.trace;
    st.outcomes[r.kind == K_EXIT ? (r.code ? "run failed with a status" : "run succeeded")
                : r.kind == K_SIGNAL && r.code == SIGABRT ? "run ended by an uncaught error"
                                                          : "run: " + r.status()]++;
    return r;
  }
};
static const string *fileof(const RunResult &r, const string &p) {
  auto it = r.files.find(p);
  return it == r.files.end() || !it->second.exists ? nullptr : &it->second.data;
}
static string data(const RunResult &r, const string &p) {
  auto *s = fileof(r, p);
  return s ? *s : "";
}
static bool any_fired(const RunResult &r) {
  for (int x : r.fired)
    if (x) return true;
  return false;
}
static vector<string> messages(const RunResult &r) {  // console text
  return log_lines(strip_ansi(r.out));
}
static string clip(const string &s) { return s.size() > 90 ? s.substr(0, 90) + "..." : s; }
static string first_diff(const string &a, const string &b) {
  size_t i = 0, line = 1;
  while (i < a.size() && i < b.size() && a[i] == b[i]) line += a[i++] == '\n';
  size_t s = i ? a.rfind('\n', i - 1) : string::npos;
  s = s == string::npos ? 0 : s + 1;
  auto at = [&](const string &x) {
    if (s >= x.size()) return string("(end)");
    return clip(x.substr(s, x.find('\n', s) == string::npos ? string::npos : x.find('\n', s) - s));
  };
  return "line " + S(line) + ": '" + at(a) + "' against '" + at(b) + "'";
}
static void same_outputs(const vector<string> &argv, const RunResult &a, const RunResult &b, const string &sig, const string &how, Viols &v) {
  for (auto &o : outputs_of(argv)) {
    auto *x = fileof(a, o.second), *y = fileof(b, o.second);
    if (!x && !y) continue;
    if (!x || !y) {
      v.push_back({sig + o.first, how + ": the " + o.first + " output is " + (y ? "present" : "missing") + " unlike without"});
      return;
    }
    if (*x != *y) {
      v.push_back({sig + o.first, how + ": the " + o.first + " output changes, " + first_diff(*x, *y)});
      return;
    }
  }
}
static bool degraded_notice(const RunResult &r) { return r.out.find("Speaker switch diagnostics failed from memory error") != string::npos; }

// the wer run that shows the rows of an align run
static vector<string> shadow_argv(const vector<string> &argv) {
  vector<string> a = argv;
  a[1] = "wer";
  a.push_back("--output-sbs");
  a.push_back("/sim/shadow.sbs");
  return a;
}
static string sbs_path(const vector<string> &argv) { return valof(argv, "--output-sbs"); }

// ------------------------------------------------------------------ evaluation
static void eval_content(const Test &t, Runner &R, Verdict &o) {  // C01 C02 C03 C04 C10
  RunResult r = R.go(t.argv, t.files, t.env, t.faults);
  if (!r.ok()) {
    // nothing went wrong around the program: giving up is its own doing
    if (t.faults.empty() && t.prop != "C10" && (r.kind == K_EXIT || r.kind == K_SIGNAL || r.kind == K_HEAP))
      o.v.push_back({"no-result", "a run on well-formed inputs, without a fault, ends with: " + r.status()});
    return;
  }
  Inputs in = read_inputs(t.argv, t.files);
  if (!in.ok) return;
  string sbs_text;
  bool al = is_align(t.argv);
  if (al && sbs_path(t.argv).empty()) {
    auto a2 = shadow_argv(t.argv);
    RunResult w = R.go(a2, t.files, t.env);
    if (!w.ok()) return;
    sbs_text = data(w, "/sim/shadow.sbs");
  } else {
    if (sbs_path(t.argv).empty()) return;
    sbs_text = data(r, sbs_path(t.argv));
  }
  Sbs s = parse_sbs(sbs_text);
  o.nontrivial = s.rows.size() > 1;
  if (!s.ok) {
    o.v.push_back({"sbs-unreadable", s.why});
    return;
  }
  auto out = outputs_of(t.argv);
  auto log = messages(r);
  if (t.prop == "C01") {
    check_rows(in, s, o.v);
    if (o.v.empty()) check_bound(in, s, o.v);
  } else if (t.prop == "C02") {
    string js = out.count("json") ? data(r, out["json"]) : "";
    check_headline(in, s, out.count("json") ? &js : nullptr, log, al, o.v);
  } else if (t.prop == "C03") {
    if (!out.count("json") || degraded_notice(r)) return;
    check_breakdowns(in, s, data(r, out["json"]), log, o.v);
  } else if (t.prop == "C04") {
    if (!out.count("nlp") || degraded_notice(r)) return;
    bool ok;
    string want = predict_nlp(in, s, in.o.add_ins, ok);
    if (!ok) o.v.push_back({"nlp-rows", want});
    else {
      string got = data(r, out["nlp"]);
      if (got != want) o.v.push_back({al ? "align-nlp" : "nlp", "the aligned NLP differs from the rows and the reference, " + first_diff(want, got)});
    }
  } else if (t.prop == "C10") {
    vector<int> h;
    for (auto &x : in.hyp) h.push_back(in.id(x.tok));
    bool perm = accepts(in.g, h);
    int errs = s.ins + s.del + s.sub;
    R.st.outcomes[perm ? "wording permitted" : "wording not permitted"]++;
    if (perm && errs) o.v.push_back({"permitted-scored", "a permitted wording scores " + S(errs) + " errors"});
    if (!perm && !errs) o.v.push_back({"forbidden-accepted", "a wording no rule permits scores no error"});
    int mn = min_edits(in.g, h);
    if (errs < mn) o.v.push_back({"too-few-errors", S(errs) + " errors for a wording " + S(mn) + " edits away from any permitted one"});
  }
}
static void eval_pair(const Test &t, Runner &R, Verdict &o) {  // C05
  RunResult a = R.go(t.argv, t.files, t.env);
  auto f2 = t.files;
  for (auto &p : t.files2) f2[p.first] = p.second;
  if (t.kind == "history") {  // an earlier run on other contents has been here
    RunResult h = R.go(t.argv, f2, t.env2);
    f2.clear();
    for (auto &x : h.files)
      if (x.second.exists && x.first[0] != '<') f2[x.first] = x.second.data;
    for (auto &p : t.files) f2[p.first] = p.second;
    R.st.outcomes["run after one on other contents"]++;
  }
  const auto &av2 = t.argv2.empty() ? t.argv : t.argv2;
  RunResult b = R.go(av2, f2, t.env2);
  o.nontrivial = a.steps > 0;
  if (a.kind != b.kind || a.code != b.code) {
    o.v.push_back({"status", "one run ends with " + a.status() + ", the other with " + b.status()});
    return;
  }
  if (!a.ok()) return;
  auto oa = outputs_of(t.argv), ob = outputs_of(av2);
  for (auto &p : oa)
    if (ob.count(p.first)) {
      string x = data(a, p.second), y = data(b, ob[p.first]);
      if (x != y) {
        o.v.push_back({p.first, "the " + p.first + " outputs differ, " + first_diff(x, y)});
        return;
      }
    }
  auto la = messages(a), lb = messages(b);
  if (!t.argv2.empty()) {
    auto keep = [](vector<string> &l) {
      vector<string> k;
      for (auto &x : l)
        if (x.compare(0, 6, "[wer] ") == 0 && x.find("Side-by-Side") == string::npos) k.push_back(x);
      l = k;
    };
    keep(la);
    keep(lb);
  }
  for (size_t i = 0; i < std::max(la.size(), lb.size()); i++) {
    string x = i < la.size() ? la[i] : "(end)", y = i < lb.size() ? lb[i] : "(end)";
    if (x != y) {
      o.v.push_back({"log", "log message " + S(i) + " differs: '" + clip(x) + "' against '" + clip(y) + "'"});
      return;
    }
  }
}
static string role_of(const map<string, string> &m, const string &path) {
  for (auto &p : m)
    if (p.second == path) return p.first;
  return "?";
}
static void eval_input_fault(const Test &t, Runner &R, Verdict &o) {  // C06, and C10/C13 with faults
  RunResult a = R.go(t.argv, t.files, t.env);
  if (!a.ok()) return;
  auto f2 = t.files;
  string role = "?", how;
  auto ins = inputs_of(t.argv);
  if (!t.faults.empty()) {
    role = role_of(ins, t.faults[0].path);
    how = "after a failing " + t.faults[0].op + " of the " + role + " input";
  } else
    for (auto &p : t.files2) {
      role = role_of(ins, p.first);
      if (t.gone) {
        f2.erase(p.first);
        how = "with the " + role + " input missing";
      } else {
        f2[p.first] = p.second;
        how = "with the " + role + " input damaged";
      }
      R.st.faults[t.gone ? "missing input file" : "torn input file"]++;
    }
  RunResult b = R.go(t.argv, f2, t.env, t.faults);
  o.nontrivial = t.faults.empty() || any_fired(b);
  if (!b.ok()) return;
  if (!t.faults.empty() && !any_fired(b)) return;
  if (t.prop == "C10") return eval_content(t, R, o);
  same_outputs(t.argv, a, b, "silent-" + role + "-" + (t.faults.empty() ? string("damage") : t.faults[0].op) + ":", how + " the run still succeeds", o.v);
  if (!o.v.empty()) o.v[0].sig = o.v[0].sig.substr(0, o.v[0].sig.find(':'));
}
static void eval_output_fault(const Test &t, Runner &R, Verdict &o) {  // C07
  Env calm;
  RunResult a = R.go(t.argv, t.files, calm);
  if (!a.ok()) return;
  RunResult b = R.go(t.argv, t.files, t.env, t.faults);
  auto outs = outputs_of(t.argv);
  bool fired = any_fired(b);
  o.nontrivial = fired || b.short_writes || b.eintrs;
  if (!b.ok()) {
    if (!fired) o.v.push_back({"undisturbed-failure", "without any lasting fault the run ends with " + b.status()});
    return;
  }
  for (size_t i = 0; i < t.faults.size(); i++)
    if (b.fired[i]) {
      string role = role_of(outs, t.faults[i].path);
      o.v.push_back({"success-despite-" + role + "-" + t.faults[i].op, "the run exits successfully although a " + t.faults[i].op + " of the " +
                                                                           role + " output failed (" + strerror(t.faults[i].err) + ")"});
      return;
    }
  for (auto &p : outs) {
    string x = data(a, p.second), y = data(b, p.second);
    if (!fileof(b, p.second)) o.v.push_back({"missing-" + p.first, "the run succeeds but the " + p.first + " output does not exist"});
    else if (x != y) o.v.push_back({"incomplete-" + p.first, "the run succeeds but the " + p.first + " output is incomplete, " + first_diff(x, y)});
  }
}
static bool is_prefix(const string &p, const string &s) { return p.size() <= s.size() && s.compare(0, p.size(), p) == 0; }
static void eval_crash(const Test &t, Runner &R, Verdict &o) {  // C08
  Env calm = t.env;
  RunResult a = R.go(t.argv, t.files, calm);
  if (!a.ok()) return;
  auto outs = outputs_of(t.argv);
  string logp = valof(t.argv, "--log");
  map<string, string> disk = t.files;
  for (auto &p : t.files2) disk[p.first] = p.second;
  for (size_t k = 0; k <= t.kills.size(); k++) {
    vector<Fault> f;
    bool last = k == t.kills.size();
    if (!last) {
      Fault x;
      x.op = "kill";
      x.nth = t.kills[k];
      f.push_back(x);
    }
    Env e = last ? t.env2 : t.env;
    RunResult r = R.go(t.argv, disk, e, f);
    for (auto &p : inputs_of(t.argv)) {
      auto *d = fileof(r, p.second);
      if (!d || *d != t.files.at(p.second)) {
        o.v.push_back({"input-harmed", "the " + p.first + " input is changed by the run"});
        return;
      }
    }
    string before = disk.count(logp) ? disk[logp] : "";
    if (!logp.empty() && !is_prefix(before, data(r, logp))) {
      o.v.push_back({"log-overwritten", "the log file does not keep what it held before"});
      return;
    }
    if (r.kind == K_KILLED) {
      o.nontrivial = true;
      bool json_done = false, others_done = true;
      for (auto &p : outs) {
        auto *d = fileof(r, p.second);
        const string &full = *fileof(a, p.second);
        bool asbefore = disk.count(p.second) ? d && *d == disk[p.second] : !d;
        bool done = d && *d == full;
        if (!asbefore && !(d && is_prefix(*d, full))) {
          o.v.push_back({"torn-" + p.first, "after death at step " + S(t.kills[k]) + " the " + p.first +
                                                " output is neither as before nor a prefix of the finished one" + (d ? ", " + first_diff(full, *d) : string(" (removed)"))});
          return;
        }
        if (p.first == "json") json_done = done && !asbefore;
        else others_done &= done;
      }
      if (json_done && !others_done) {
        o.v.push_back({"json-first", "after death at step " + S(t.kills[k]) + " the JSON report is complete but another output is not"});
        return;
      }
      for (auto &x : r.files)
        if (x.second.exists && x.first[0] != '<') disk[x.first] = x.second.data;
        else disk.erase(x.first);
      continue;
    }
    // ran to its end
    if (!r.ok()) {
      o.v.push_back({"repeat-fails", "the repeated run ends with " + r.status()});
      return;
    }
    for (auto &p : outs)
      if (data(a, p.second) != data(r, p.second)) {
        o.v.push_back({"repeat-differs-" + p.first, "the repeated run over the leftovers writes a different " + p.first + " output, " +
                                                        first_diff(data(a, p.second), data(r, p.second))});
        return;
      }
    if (!logp.empty()) {
      string l0 = t.files.count(logp) ? t.files.at(logp) : "";
      string added = data(r, logp).substr(before.size()), want = data(a, logp).substr(l0.size());
      if (log_lines(added) != log_lines(want)) {
        o.v.push_back({"repeat-log", "the repeated run appends a different log, " + first_diff(want, added)});
        return;
      }
    }
    for (auto &x : r.files)
      if (x.second.exists && x.first[0] != '<') disk[x.first] = x.second.data;
  }
  if (t.kind == "leftover") o.nontrivial = true;
}
static void eval_resource(const Test &t, Runner &R, Verdict &o) {  // C09
  RunResult a = R.go(t.argv, t.files, t.env);
  if (!a.ok()) return;
  RunResult b = R.go(t.argv, t.files, t.env, t.faults);
  o.nontrivial = any_fired(b);
  if (!any_fired(b) || !b.ok()) return;
  string what = t.faults[0].op == "thread" ? "a thread could not be started" : "allocation " + S(t.faults[0].nth) + " failed";
  if (degraded_notice(b) && !degraded_notice(a)) {
    R.st.outcomes["announced degradation"]++;
    auto outs = outputs_of(t.argv);
    if (outs.count("sbs")) {
      Sbs x = parse_sbs(data(a, outs["sbs"])), y = parse_sbs(data(b, outs["sbs"]));
      bool same = x.ok && y.ok && x.rows.size() == y.rows.size() && x.groups == y.groups;
      for (size_t i = 0; same && i < x.rows.size(); i++)
        same = x.rows[i].ref == y.rows[i].ref && x.rows[i].hyp == y.rows[i].hyp && x.rows[i].err == y.rows[i].err && x.rows[i].cls == y.rows[i].cls;
      if (!same) o.v.push_back({"degraded-rows", what + " and the announced degradation changed the alignment"});
    }
    if (outs.count("json")) {
      J x, y;
      if (!jparse(data(a, outs["json"]), x) || !jparse(data(b, outs["json"]), y)) o.v.push_back({"degraded-json", "JSON does not parse"});
      else
        for (auto *k : {"bestWER", "classWER", "unigrams", "bigrams"})
          if (x.at("wer").at(k).str() != y.at("wer").at(k).str()) {
            o.v.push_back({"degraded-figures", what + " and the announced degradation changed " + k});
            break;
          }
    }
    return;
  }
  same_outputs(t.argv, a, b, "silent-", what + ", yet the run succeeds", o.v);
  if (!o.v.empty()) return;
  auto la = messages(a), lb = messages(b);
  auto best = [](const vector<string> &l) {
    vector<string> r;
    for (auto &x : l)
      if (x.find("best WER") != string::npos) r.push_back(x);
    return r;
  };
  if (best(la) != best(lb)) o.v.push_back({"silent-log", what + ", the run succeeds and reports different headline figures"});
}
static void eval_ends(const Test &t, Runner &R, Verdict &o) {  // C11
  RunResult r = R.go(t.argv, t.files, t.env, t.faults);
  o.nontrivial = true;
  bool calm = t.kind == "wellformed";
  string last;
  {
    auto m = messages(r);
    for (auto &x : m)
      if (!x.empty()) last = x;
  }
  string where = "; last message: '" + clip(last) + "'" + (r.err.empty() ? "" : "; stderr: '" + clip(r.err) + "'");
  switch (r.kind) {
    case K_EXIT:
      if (calm && r.code) o.v.push_back({"fails-on-good-input", "a well-formed case without faults ends with " + r.status() + where});
      return;
    case K_SIGNAL:
      if (r.code == SIGABRT) {
        if (calm) o.v.push_back({"aborts-on-good-input", "a well-formed case without faults ends with " + r.status() + where});
        else if (r.err.empty() && r.out.empty()) o.v.push_back({"silent-abort", "the run aborts without any message"});
        return;
      }
      o.v.push_back({"signal-" + S(r.code), "the run ends with " + r.status() + where});
      return;
    default:
      o.v.push_back({r.kind == K_DEADLOCK ? "deadlock" : r.kind == K_HEAP ? "heap" : "unbounded", "the run ends with: " + r.status() + where});
  }
}
static void eval_sinks(const Test &t, Runner &R, Verdict &o) {  // C12
  string logp = valof(t.argv, "--log");
  string before = t.files.count(logp) ? t.files.at(logp) : "";
  RunResult a = R.go(t.argv, t.files, t.env);
  bool started = fileof(a, logp) != nullptr;
  if (!started) return;
  string full = data(a, logp);
  if (!is_prefix(before, full)) {
    o.v.push_back({"log-overwritten", "what the log file held before is gone"});
    return;
  }
  auto lf = log_lines(full.substr(before.size())), lc = messages(a);
  auto cmp = [&](const vector<string> &want, const vector<string> &got, const string &sig, const string &how) {
    for (size_t i = 0; i < std::max(want.size(), got.size()); i++) {
      string x = i < want.size() ? want[i] : "(end)", y = i < got.size() ? got[i] : "(end)";
      if (x != y) {
        o.v.push_back({sig, how + ": message " + S(i) + " is '" + clip(y) + "' instead of '" + clip(x) + "'"});
        return;
      }
    }
  };
  cmp(lc, lf, "log-vs-console", "the log file differs from the console");
  o.nontrivial = lc.size() > 3;
  if (!o.v.empty()) return;
  if (t.kind == "death" || t.kind == "error") {  // the same holds for runs that do not get to their end
    map<string, string> files = t.files;
    for (auto &p : t.files2) files[p.first] = p.second;
    if (t.gone)
      for (auto &p : t.files2) files.erase(p.first);
    vector<Fault> fs = t.faults;
    for (int64_t k : t.kills) {
      Fault x;
      x.op = "kill";
      x.nth = k;
      fs.push_back(x);
    }
    RunResult b = R.go(t.argv, files, t.env, fs);
    string lb = data(b, logp);
    if (!is_prefix(before, lb)) {
      o.v.push_back({"log-overwritten", "what the log file held before is gone"});
      return;
    }
    lb = lb.substr(before.size());
    if (t.kind == "error") {
      o.nontrivial = !b.ok();
      cmp(messages(b), log_lines(lb), "error-log", "in a run that ends with " + b.status() + " the log file differs from the console");
      return;
    }
    o.nontrivial = b.kind == K_KILLED;
    auto whole = [](const string &x) { return log_lines(x.substr(0, x.rfind('\n') + 1)); };
    auto mc = whole(strip_ansi(b.out)), ml = whole(lb);
    size_t n = std::min(mc.size(), ml.size());
    if (std::max(mc.size(), ml.size()) - n > 1) {
      o.v.push_back({"death-log", "death at step " + S(t.kills[0]) + " leaves " + S((int64_t)mc.size()) + " messages on the console and " + S((int64_t)ml.size()) +
                                      " in the log file; the last one in both: '" + (n ? clip(mc[n - 1]) : string()) + "'"});
      return;
    }
    mc.resize(n), ml.resize(n);
    cmp(mc, ml, "death-log-differs", "after death at step " + S(t.kills[0]) + " the log file differs from the console");
    return;
  }
  if (t.faults.empty()) return;
  RunResult b = R.go(t.argv, t.files, t.env, t.faults);
  o.nontrivial = any_fired(b);
  bool on_log = t.faults[0].path == logp;
  string how = string("while the ") + (on_log ? "log file" : "console") + " fails";
  if (a.kind != b.kind || a.code != b.code) {
    o.v.push_back({"sink-status", how + " the run ends with " + b.status() + " instead of " + a.status()});
    return;
  }
  if (on_log) cmp(lc, messages(b), "console-loses", how + ", the console");
  else cmp(lf, log_lines(data(b, logp).substr(std::min(before.size(), data(b, logp).size()))), "log-loses", how + ", the log file");
  if (o.v.empty()) same_outputs(t.argv, a, b, "sink-output-", how, o.v);
}
static void eval_lattice(const Test &t, Runner &R, Verdict &o) {  // C13
  if (t.kind == "fault") return eval_input_fault(t, R, o);
  RunResult r = R.go(t.argv, t.files, t.env);
  Inputs in = read_inputs(t.argv, t.files);
  if (!in.ok) return;
  if (!r.ok()) {
    o.v.push_back({"lattice-fails", "a well-formed lattice case ends with " + r.status() + (r.err.empty() ? "" : "; stderr: '" + clip(r.err) + "'")});
    return;
  }
  auto out = outputs_of(t.argv);
  Sbs s = parse_sbs(data(r, out["sbs"]));
  o.nontrivial = s.rows.size() > 1;
  if (!s.ok) {
    o.v.push_back({"sbs-unreadable", s.why});
    return;
  }
  check_lattice(in, s, o.v);
  if (!o.v.empty()) return;
  check_rows(in, s, o.v);
  if (!o.v.empty()) return;
  int errs = s.ins + s.del + s.sub, mn = lattice_min_edits(in);
  if (mn == 0) R.st.outcomes["lattice contains the reference"]++;
  if (mn == 0 && errs && !in.lat.weighted) o.v.push_back({"lattice-missed", S(errs) + " errors although a path spells the reference"});
  if (errs < mn) o.v.push_back({"too-few-errors", S(errs) + " errors reported, no path allows fewer than " + S(mn)});
  string js = out.count("json") ? data(r, out["json"]) : "";
  if (o.v.empty()) check_headline(in, s, out.count("json") ? &js : nullptr, messages(r), false, o.v);
}
Verdict evaluate(const Test &t, Stats &st, bool want_trace) {
  Verdict o;
  o.hash = 1469598103934665603ull;
  Runner R{st, want_trace, o};
  const string &p = t.prop;
  if (p == "C01" || p == "C02" || p == "C03" || p == "C04") eval_content(t, R, o);
  else if (p == "C05") eval_pair(t, R, o);
  else if (p == "C06") eval_input_fault(t, R, o);
  else if (p == "C07") eval_output_fault(t, R, o);
  else if (p == "C08") eval_crash(t, R, o);
  else if (p == "C09") eval_resource(t, R, o);
  else if (p == "C10") {
    if (t.kind == "fault") eval_input_fault(t, R, o);
    else eval_content(t, R, o);
  } else if (p == "C11") eval_ends(t, R, o);
  else if (p == "C12") eval_sinks(t, R, o);
  else if (p == "C13") eval_lattice(t, R, o);
  st.evaluations++;
  if (o.nontrivial) st.nontrivial++;
  return o;
}

// ------------------------------------------------------------------ test generation
static void calm_csv(Test &t, Env &e) {
  if (!csv_small_block_ok(t)) e.csv_block = 1 << 24;
}
static string tear(Rng &r, const string &s) {
  if (s.empty()) return s;
  return s.substr(0, r.below((int64_t)s.size()));
}
static string mutate(Rng &r, string s) {
  switch (r.below(6)) {
    case 0: return tear(r, s);
    case 1: for (int k = (int)r.range(1, 8); k > 0 && !s.empty(); k--) s[r.below((int64_t)s.size())] = (char)r.below(256); return s;
    case 2: {
      string g;
      for (int k = (int)r.below(200); k > 0; k--) g += (char)r.below(256);
      return g;
    }
    case 3: return "";
    case 4: {
      size_t a = r.below((int64_t)s.size() + 1), n = (size_t)r.below(60);
      return s.substr(0, a) + (a + n < s.size() ? s.substr(a + n) : "");
    }
    default: {
      static const vector<string> bits = {"|", "||||", "\n", "\n\n", " ", "\t", "[", "]", "'", "___", "___0_X___", "<ins>", "<del>", "<eps>", "-", "--",
                                          ":", "['", "{", "}", "\"", "nan", "1e999", "-1", string(1, '\0'), "\xff\xfe", "#", ";", "<", ">", "<>"};
      for (int k = (int)r.range(1, 4); k > 0; k--) s.insert(r.below((int64_t)s.size() + 1), bits[r.below((int64_t)bits.size())]);
      return s;
    }
  }
}
// is this cut of the file certain to leave it structurally incomplete or shorter in a detectable way?
static bool damage_detectable(Rng &r, const string &role, const string &orig, string &out) {
  if (role == "norm" || role == "sidecar") {
    size_t end = orig.find_last_of('}');
    if (end == string::npos) return false;
    out = orig.substr(0, r.below((int64_t)end + 1));
    return true;
  }
  if (role == "hyp-fst") {
    out = orig.substr(0, r.below((int64_t)orig.size()));
    return true;
  }
  if (role == "symbols") {
    // a cut inside the id may leave another id, and one between lines a shorter table: neither shows
    out = orig.substr(0, r.below((int64_t)orig.size()));
    size_t bol = out.rfind('\n');
    bol = bol == string::npos ? 0 : bol + 1;
    size_t w = bol;
    while (w < out.size() && out[w] != ' ' && out[w] != '\t') w++;
    if (w == bol) return false;
    out.resize(w);
    return true;
  }
  if (role == "ref-nlp" || role == "hyp-nlp" || role == "ref-ctm" || role == "hyp-ctm") {
    // a line cut before its last separator
    bool nlp = role.find("nlp") != string::npos;
    vector<size_t> starts;
    size_t a = 0, k = 0;
    while (a < orig.size()) {
      if (!(nlp && k == 0)) starts.push_back(a);
      k++;
      a = orig.find('\n', a);
      if (a == string::npos) break;
      a++;
    }
    if (starts.empty()) return false;
    size_t s = starts[r.below((int64_t)starts.size())];
    if (!nlp && s == 0) return false;  // the first line of a CTM decides its layout
    size_t e = orig.find('\n', s);
    if (e == string::npos) e = orig.size();
    size_t sep = orig.rfind(nlp ? '|' : ' ', e ? e - 1 : 0);
    if (sep == string::npos || sep <= s + 1) return false;
    size_t cut = (size_t)r.range((int64_t)s + 1, (int64_t)sep);
    out = orig.substr(0, cut);
    if (r.p(.3)) out += orig.substr(e);  // hole rather than truncation
    return true;
  }
  return false;
}
static Fault read_fault(Rng &r, const RunResult &scout, const string &path) {
  Fault f;
  f.path = path;
  int n = 1;
  auto it = scout.files.find(path);
  if (it != scout.files.end()) n = std::max(1, it->second.nreads);
  if (r.p(.15)) {
    f.op = "open";
    f.err = (int)pick(r, vector<int>{ENOENT, EACCES, EMFILE, EIO, ENOMEM, EISDIR});
    int k = it == scout.files.end() ? 1 : std::max(1, it->second.opens_r);
    f.nth = r.range(1, k);
    f.persist = r.p(.7);
  } else {
    f.op = "read";
    f.err = (int)pick(r, vector<int>{EIO, EIO, EISDIR, ESTALE, ENOMEM, ETIMEDOUT});
    f.nth = r.range(1, n);
    f.persist = r.p(.8);
  }
  return f;
}

// an allocation to fail: mostly one of a call path picked evenly, as a few paths make most of them
static int64_t pick_alloc(Rng &r, const RunResult &s) {
  if (r.p(.2)) {  // while some file is open
    vector<std::pair<int64_t, int64_t>> w;
    for (auto &x : s.files)
      if (x.second.a1 > x.second.a0) w.push_back({x.second.a0 + 1, x.second.a1});
    if (!w.empty()) {
      auto x = pick(r, w);
      return r.range(x.first, x.second);
    }
  }
  int top = 0;
  for (auto x : s.sites) top = std::max(top, (int)x);
  if (top && r.p(.7)) {
    int k = (int)r.range(1, top);
    vector<int64_t> at;
    for (size_t i = 0; i < s.sites.size(); i++)
      if (s.sites[i] == k) at.push_back((int64_t)i + 1);
    if (!at.empty()) return pick(r, at);
  }
  return r.range(1, std::max<int64_t>(1, s.allocs));
}

Test make_test(const string &prop, uint64_t seed, int64_t index, bool thorough, Stats &st) {
  uint64_t h = fnv(prop.data(), prop.size(), seed * 1000003 + 17);
  h = fnv(&index, sizeof index, h);
  Rng r(h);
  Test t;
  t.prop = prop;
  Verdict dummy;
  Stats scratch;
  Runner R{scratch, false, dummy};
  GenOpt g;
  g.maxwords = thorough ? (int)pick(r, vector<int>{60, 120, 400, 1000}) : (int)pick(r, vector<int>{30, 60, 60, 120, 300});
  if (prop[1] == '0' && prop[2] < '7' && r.p(thorough ? .06 : .025)) g.big = (int)r.range(1, 2);
  if (prop[1] == '0' && prop[2] < '7' && r.p(.01)) g.big = 3;
  if (prop == "C11" && r.p(.008)) g.big = (int)r.range(1, 2);
  if (const char *b = getenv("SIM_BIG")) g.big = atoi(b);
  if (prop == "C01" || prop == "C02") {
    g.align = r.p(prop == "C02" ? .1 : .07);
    if (g.align) g.ref = NLP, g.hyp = CTM;
    gen_case(r, g, t);
    t.env = gen_env(r);
    calm_csv(t, t.env);
    if (r.p(.25)) {
      t.kind = "faulted";
      RunResult s = R.go(t.argv, t.files, t.env, {}, true);
      auto ins = inputs_of(t.argv);
      vector<string> ps;
      for (auto &p : ins) ps.push_back(p.second);
      if (r.p(.8)) t.faults.push_back(read_fault(r, s, pick(r, ps)));
      else {
        Fault f;
        f.op = "thread";
        f.nth = 1;
        f.err = EAGAIN;
        t.faults.push_back(f);
      }
    }
  } else if (prop == "C03") {
    g.ref = r.p(.95) ? NLP : -1;
    gen_case(r, g, t);
    t.env = gen_env(r);
    calm_csv(t, t.env);
    if (r.p(.15)) {
      RunResult s = R.go(t.argv, t.files, t.env, {}, true);
      vector<string> ps;
      for (auto &p : inputs_of(t.argv)) ps.push_back(p.second);
      t.faults.push_back(read_fault(r, s, pick(r, ps)));
    }
  } else if (prop == "C04") {
    g.ref = NLP;
    g.align = r.p(.5);
    if (g.align) g.hyp = CTM;
    gen_case(r, g, t);
    t.env = gen_env(r);
    calm_csv(t, t.env);
  } else if (prop == "C05") {
    g.align = r.p(.12);
    if (g.align) g.ref = NLP, g.hyp = CTM;
    g.lattice = !g.align && r.p(.1);
    gen_case(r, g, t);
    t.env = gen_env(r, false);
    t.env2 = gen_env(r);
    calm_csv(t, t.env);
    calm_csv(t, t.env2);
    if (r.p(.3)) {
      t.kind = "leftovers";
      for (auto &p : outputs_of(t.argv)) t.files2[p.second] = r.p(.5) ? string((size_t)r.below(20000), 'x') : "old\n";
      string lp = valof(t.argv, "--log");
      if (!lp.empty()) t.files2[lp] = "an older log\n";
    } else if (r.p(.25)) {
      t.kind = "history";
      for (auto &p : inputs_of(t.argv)) {
        if (!t.files.count(p.second)) continue;
        const string c = t.files[p.second];
        if (p.first == "symbols" || p.first == "hyp-fst" || r.p(.3)) continue;
        vector<string> l;
        size_t a = 0;
        for (size_t b; a < c.size(); a = b + 1) {
          b = c.find('\n', a);
          if (b == string::npos) b = c.size() - 1;
          l.push_back(c.substr(a, b + 1 - a));
        }
        if (l.size() > 2) l.erase(l.begin() + r.range(1, (int64_t)l.size() - 1));
        string x;
        for (auto &y : l) x += y;
        if (l.size() <= 2 && p.first != "norm" && p.first != "sidecar") {
          size_t sp = x.rfind(' ');
          if (sp != string::npos) x = x.substr(0, sp);
        }
        t.files2[p.second] = x;
      }
    } else if (!g.align && r.p(.3)) {
      t.kind = "subset";
      for (size_t i = 0; i < t.argv.size(); i++) {
        if ((t.argv[i] == "--json-log" || t.argv[i] == "--output-sbs" || t.argv[i] == "--output-nlp" || t.argv[i] == "--log") && r.p(.5)) {
          i++;
          continue;
        }
        t.argv2.push_back(t.argv[i]);
      }
    }
  } else if (prop == "C06" || (prop == "C10" && r.p(.15)) || (prop == "C13" && r.p(.4))) {
    t.kind = "fault";
    g.lattice = prop == "C13" || (prop == "C06" && r.p(.12));
    g.permitted = prop == "C10";
    g.maxwords = 60;
    gen_case(r, g, t);
    t.env = gen_env(r, false);
    calm_csv(t, t.env);
    auto ins = inputs_of(t.argv);
    vector<string> roles;
    for (auto &p : ins)
      if (prop == "C06" || (prop == "C10" && (p.first == "syn" || p.first == "norm")) ||
          (prop == "C13" && (p.first == "symbols" || p.first == "hyp-fst")))
        roles.push_back(p.first);
    if (roles.empty()) roles.push_back(ins.begin()->first);
    string role = pick(r, roles);
    if (prop == "C10" || r.p(.6)) {
      RunResult s = R.go(t.argv, t.files, t.env, {}, true);
      t.faults.push_back(read_fault(r, s, ins[role]));
    } else if (r.p(.2)) {
      t.gone = true;
      t.files2[ins[role]] = "";
    } else {
      string out;
      if (damage_detectable(r, role, t.files[ins[role]], out)) t.files2[ins[role]] = out;
      else {
        RunResult s = R.go(t.argv, t.files, t.env, {}, true);
        t.faults.push_back(read_fault(r, s, ins[role]));
      }
    }
  } else if (prop == "C07") {
    g.align = r.p(.2);
    if (g.align) g.hyp = CTM;
    if (g.align || r.p(.6)) g.ref = NLP;
    g.maxwords = r.p(.9) ? 60 : 300;
    gen_case(r, g, t);
    if (r.p(.3)) t.env = gen_env(r);
    calm_csv(t, t.env);
    auto outs = outputs_of(t.argv);
    if (!outs.empty() && r.p(.85)) {
      RunResult s = R.go(t.argv, t.files, t.env, {}, true);
      int k = r.p(.8) ? 1 : 2;
      vector<string> ps;
      for (auto &p : outs) ps.push_back(p.second);
      while (k-- > 0) {
        Fault f;
        f.path = pick(r, ps);
        switch (r.below(6)) {
          case 0:
            f.op = "open";
            f.err = (int)pick(r, vector<int>{EACCES, ENOSPC, EROFS, ENOENT, EISDIR, EMFILE});
            f.persist = 1;
            break;
          case 1: f.op = "close"; f.err = (int)pick(r, vector<int>{EIO, ENOSPC, EDQUOT}); break;
          default:
            f.op = "write";
            f.err = (int)pick(r, vector<int>{ENOSPC, EIO, EDQUOT, EFBIG});
            f.off = r.below(std::max<int64_t>(1, (int64_t)data(s, f.path).size()));
            f.persist = r.p(.7);
        }
        t.faults.push_back(f);
      }
    } else {
      t.env.wshort = (int)pick(r, vector<int>{1, 3, 50, 5000});
      t.env.eintr = (int)pick(r, vector<int>{0, 100, 400});
    }
  } else if (prop == "C08") {
    g.maxwords = 40;
    g.align = r.p(.15);
    if (g.align) g.hyp = CTM;
    if (g.align || r.p(.6)) g.ref = NLP;
    gen_case(r, g, t);
    t.env = gen_env(r, false);
    calm_csv(t, t.env);
    t.env2 = t.env;
    if (r.p(.5)) {
      t.env2 = gen_env(r);
      calm_csv(t, t.env2);
    }
    if (r.p(.5))
      for (auto &p : outputs_of(t.argv))
        if (r.p(.7)) {
          static const vector<string> old = {"old\n", "", "{\"wer\": {\"bestWER\": {\"numErrors\": 7}}, \"other\": [1, 2]}\n", "token|speaker|ts\nold|1|0.5\n",
                                             "<done>\n", "[]"};
          t.files2[p.second] = r.p(.4) ? string((size_t)r.below(20000), 'x') : pick(r, old);
        }
    string lp = valof(t.argv, "--log");
    if (!lp.empty() && r.p(.5)) t.files[lp] = "an older log\nof two lines\n";
    RunResult s = R.go(t.argv, t.files, t.env, {}, true);
    if (r.p(.07)) t.kind = "leftover";
    else
      for (int k = (int)pick(r, vector<int>{1, 1, 1, 2, 3}); k > 0; k--)
        // half of the deaths fall in the last part of the run, where the outputs are written
        t.kills.push_back(r.p(.5) ? r.range(1, std::max<int64_t>(1, s.steps)) : r.range(std::max<int64_t>(1, s.steps * 6 / 10), std::max<int64_t>(1, s.steps)));
  } else if (prop == "C09") {
    g.maxwords = 40;
    g.lattice = r.p(.06);
    gen_case(r, g, t);
    t.env = gen_env(r, false);
    calm_csv(t, t.env);
    RunResult s = R.go(t.argv, t.files, t.env, {}, true);
    Fault f;
    if (s.threads > 0 && r.p(.3)) {
      f.op = "thread";
      f.err = EAGAIN;
      f.nth = r.range(1, s.threads);
    } else {
      f.op = "alloc";
      f.nth = pick_alloc(r, s);
      f.persist = (int)pick(r, vector<int>{1, 1, 1, 1, 2, 5, 1000000});
    }
    t.faults.push_back(f);
  } else if (prop == "C10") {
    g.permitted = true;
    g.nearmiss = r.p(.35);
    g.maxwords = thorough ? 150 : 60;
    gen_case(r, g, t);
    t.env = gen_env(r, false);
    calm_csv(t, t.env);
  } else if (prop == "C11") {
    g.maxwords = 40;
    g.align = r.p(.12);
    if (g.align) g.ref = NLP, g.hyp = CTM;
    g.lattice = !g.align && r.p(.1);
    gen_case(r, g, t);
    t.env = gen_env(r);
    calm_csv(t, t.env);
    t.env.cap = 1 << 30;
    if (r.p(.45)) t.kind = "wellformed";
    else {
      t.kind = "stressed";
      auto ins = inputs_of(t.argv), outs = outputs_of(t.argv);
      RunResult s = R.go(t.argv, t.files, t.env, {}, true);
      vector<string> ip, op;
      for (auto &p : ins) ip.push_back(p.second);
      for (auto &p : outs) op.push_back(p.second);
      for (int k = (int)pick(r, vector<int>{1, 1, 2, 3}); k > 0; k--) switch (r.below(9)) {
          case 8: {  // options nobody should use
            static const vector<vector<string>> odd = {
                {"--numbests", "0"}, {"--numbests", "-5"}, {"--numbests", "many"}, {"--pr_threshold", "-1"},
                {"--pr_threshold", "2147483647"}, {"--speaker-switch-context", "2147483647"}, {"--speaker-switch-context", "-2147483648"},
                {"--levenstein-max-error-streak", "0"}, {"--levenstein-max-error-streak", "-1"},
                {"--composition-approach", "bogus"}, {"--composition-approach", ""}, {"--version"}, {"--help"}, {"--unknown"},
                {"--output-sbs", ""}, {"--output-nlp", "/sim/no/such/dir/x"}, {"--json-log", ""}, {"--log", ""}, {"--log", "/sim/no/such/dir/x"},
                {"--syn", ""}, {"--ref", ""}, {"--hyp", "/sim/hyp.fst"}, {"surplus"}};
            for (auto &w : pick(r, odd)) t.argv.push_back(w);
            if (r.p(.1)) t.argv.erase(t.argv.begin() + 1 + r.below((int64_t)t.argv.size() - 1));
            break;
          }
          case 0: case 1: t.faults.push_back(read_fault(r, s, pick(r, ip))); break;
          case 2: {
            Fault f;
            f.op = r.p(.5) ? "write" : r.p(.5) ? "open" : "close";
            f.path = !op.empty() && r.p(.7) ? pick(r, op) : r.p(.5) ? string("<stdout>") : valof(t.argv, "--log");
            f.err = (int)pick(r, vector<int>{ENOSPC, EIO, EACCES, EPIPE});
            f.off = r.below(3000);
            f.persist = r.p(.6);
            t.faults.push_back(f);
            break;
          }
          case 3: case 4: {
            Fault f;
            f.op = r.p(.9) ? "alloc" : "thread";
            f.err = EAGAIN;
            f.nth = f.op == "alloc" ? pick_alloc(r, s) : r.range(1, 2);
            f.persist = (int)pick(r, vector<int>{1, 1, 2, 1000000});
            t.faults.push_back(f);
            break;
          }
          case 5: t.files.erase(pick(r, ip)); break;
          default: {
            string p = pick(r, ip);
            if (t.files.count(p)) t.files[p] = mutate(r, t.files[p]);
          }
        }
    }
  } else if (prop == "C12") {
    g.maxwords = 40;
    gen_case(r, g, t);
    t.env = gen_env(r);
    calm_csv(t, t.env);
    string lp = valof(t.argv, "--log");
    if (r.p(.5)) t.files[lp] = r.p(.5) ? "an older log\n" : string((size_t)r.below(9000), 'l') + "\n";
    double what = (double)r.below(1000) / 1000;
    if (what < .15) {
      t.kind = "death";
      RunResult s = R.go(t.argv, t.files, t.env, {}, true);
      t.kills.push_back(r.range(1, std::max<int64_t>(1, s.steps)));
    } else if (what < .3) {
      t.kind = "error";
      auto ins = inputs_of(t.argv);
      vector<string> ip;
      for (auto &p : ins) ip.push_back(p.second);
      string p = pick(r, ip);
      if (r.p(.5)) {
        RunResult s = R.go(t.argv, t.files, t.env, {}, true);
        t.faults.push_back(read_fault(r, s, p));
      } else if (r.p(.3)) {
        t.gone = true;
        t.files2[p] = "";
      } else
        t.files2[p] = mutate(r, t.files[p]);
    } else if (what < .9) {
      RunResult s = R.go(t.argv, t.files, t.env, {}, true);
      Fault f;
      f.op = "write";
      f.path = r.p(.6) ? lp : "<stdout>";
      f.err = (int)pick(r, vector<int>{ENOSPC, EIO, EPIPE, EDQUOT});
      int64_t base = f.path == lp && t.files.count(lp) ? (int64_t)t.files[lp].size() : 0;
      int64_t size = (int64_t)data(s, f.path).size();
      f.off = r.range(base, std::max(base, size - 1));
      f.persist = r.p(.75);
      t.faults.push_back(f);
    }
  } else if (prop == "C13") {
    t.kind = "lattice";
    g.lattice = true;
    g.maxwords = r.p(.8) ? 20 : 36;
    g.errs = 0;
    gen_case(r, g, t);
    t.env = gen_env(r, false);
    calm_csv(t, t.env);
  }
  for (auto *m : {&scratch.faults, &scratch.outcomes}) (void)m;
  st.runs += scratch.runs;
  st.steps += scratch.steps;
  st.sim_ns += scratch.sim_ns;
  st.io_ops += scratch.io_ops;
  string key = test_json(t).str(-1);
  st.tests.insert(fnv(key.data(), key.size()));
  if (g.big == 3)  // long inputs come in whole blocks, or one case takes a minute
    for (Env *e : {&t.env, &t.env2}) e->chunk = 0, e->eintr = 0, e->wshort = 0, e->csv_block = 1 << 24;
  return t;
}
