#include "model.h"

#include <algorithm>
#include <climits>
#include <functional>

using std::map;
using std::set;
using std::string;
using std::vector;

// ------------------------------------------------------------------ options
Opts parse_argv(const vector<string> &a) {
  Opts o;
  for (size_t i = 1; i < a.size(); i++) {
    const string &k = a[i];
    auto val = [&]() { return i + 1 < a.size() ? a[++i] : string(); };
    if (k == "wer" || k == "align") o.cmd = k;
    else if (k == "--ref" || k == "-r") o.ref = val();
    else if (k == "--hyp") o.hyp = val();
    else if (k == "--ref-json") o.ref_json = val();
    else if (k == "--syn" || k == "-s") o.syn = val();
    else if (k == "--wer-sidecar") o.sidecar = val();
    else if (k == "--output-sbs") o.sbs = val();
    else if (k == "--output-nlp") o.nlp = val();
    else if (k == "--json-log") o.json = val();
    else if (k == "--log") o.log = val();
    else if (k == "--symbols") o.symbols = val();
    else if (k == "--composition-approach") o.approach = val();
    else if (k == "--numbests") o.numbests = atoi(val().c_str());
    else if (k == "--pr_threshold") o.thr = atoi(val().c_str());
    else if (k == "--speaker-switch-context") o.ctx = atoi(val().c_str());
    else if (k == "--levenstein-max-error-streak") val();
    else if (k == "--use-case") o.use_case = true;
    else if (k == "--use-punctuation") o.use_punct = true;
    else if (k == "--disable-cutoffs") o.no_cut = true;
    else if (k == "--disable-hyphen-ignore") o.no_hyp = true;
    else if (k == "--disable-approx-alignment") o.no_approx = true;
    else if (k == "--add-inserts-nlp") o.add_ins = true;
    else if (k == "--record-case-stats") o.case_stats = true;
  }
  return o;
}

// ------------------------------------------------------------------ text
string lower_utf8(const string &s) {
  string r;
  for (size_t i = 0; i < s.size();) {
    unsigned char c = s[i];
    if (c < 0x80) {
      r += (c >= 'A' && c <= 'Z') ? (char)(c + 32) : (char)c;
      i++;
      continue;
    }
    if (c >= 0xC2 && c < 0xE0 && i + 1 < s.size()) {
      unsigned u = (c & 31) << 6 | (s[i + 1] & 63);
      if (u >= 0xC0 && u <= 0xDE && u != 0xD7) u += 0x20;
      else if (((u >= 0x100 && u <= 0x137 && u != 0x130) || (u >= 0x14A && u <= 0x177)) && !(u & 1)) u += 1;
      else if (((u >= 0x139 && u <= 0x148) || (u >= 0x179 && u <= 0x17E)) && (u & 1)) u += 1;
      else if (u == 0x178) u = 0xFF;
      else if (u >= 0x391 && u <= 0x3A9) u += 0x20;
      else if (u >= 0x410 && u <= 0x42F) u += 0x20;
      else if (u >= 0x400 && u <= 0x40F) u += 0x50;
      r += (char)(0xC0 | u >> 6);
      r += (char)(0x80 | (u & 63));
      i += 2;
      continue;
    }
    r += (char)c;
    i++;
  }
  return r;
}
static string trim(const string &s, const char *set = " \t") {
  size_t a = s.find_first_not_of(set);
  if (a == string::npos) return "";
  return s.substr(a, s.find_last_not_of(set) - a + 1);
}
static vector<string> lines_of(const string &t) {
  vector<string> r;
  size_t a = 0;
  while (a < t.size()) {
    size_t b = t.find('\n', a);
    if (b == string::npos) b = t.size();
    string l = t.substr(a, b - a);
    if (!l.empty() && l.back() == '\r') l.pop_back();
    r.push_back(l);
    a = b + 1;
  }
  return r;
}
static vector<string> cells(const string &l, char d) {
  vector<string> r;
  size_t a = 0;
  for (;;) {
    size_t b = l.find(d, a);
    r.push_back(l.substr(a, b == string::npos ? b : b - a));
    if (b == string::npos) break;
    a = b + 1;
  }
  return r;
}
static Words tokens(const string &t) {
  Words r;
  string w;
  for (char c : t) {
    if (strchr(" \t\n\r\v\f", c) && c) {
      if (!w.empty()) r.push_back(w);
      w.clear();
    } else
      w += c;
  }
  if (!w.empty()) r.push_back(w);
  return r;
}
Kind kind_of(const string &p) {
  if (p.size() >= 4) {
    string e = lower_utf8(p.substr(p.size() - 4));
    if (e == ".nlp") return NLP;
    if (e == ".ctm") return CTM;
    if (e == ".fst") return FST;
  }
  return TXT;
}

// ------------------------------------------------------------------ readers
static string first_tag(const string &tags) {  // ['0:CARDINAL', ...]
  size_t a = tags.find('\'');
  if (a == string::npos) return "";
  size_t b = tags.find('\'', a + 1);
  if (b == string::npos) return "";
  return tags.substr(a + 1, b - a - 1);
}
static vector<NlpRow> read_nlp(const string &text, bool &ok) {
  vector<NlpRow> r;
  string t = text;
  if (t.compare(0, 3, "\xEF\xBB\xBF") == 0) t = t.substr(3);
  auto ls = lines_of(t);
  if (ls.empty()) {
    ok = false;
    return r;
  }
  map<string, int> col;
  auto h = cells(ls[0], '|');
  for (size_t i = 0; i < h.size(); i++) col[trim(h[i])] = (int)i;
  for (size_t k = 1; k < ls.size(); k++) {
    auto c = cells(ls[k], '|');
    if (c.size() != h.size()) {
      ok = false;
      return r;
    }
    auto get = [&](const char *n) {
      auto it = col.find(n);
      return it == col.end() ? string() : trim(c[it->second]);
    };
    NlpRow w;
    w.token = get("token");
    w.speaker = get("speaker");
    w.ts = get("ts");
    w.endTs = get("endTs");
    w.punct = get("punctuation");
    w.prepunct = get("prepunctuation");
    w.casing = get("case");
    w.labels = get("tags");
    w.conf = get("confidence");
    w.label = first_tag(w.labels);
    string wt = get("wer_tags");
    for (size_t a = wt.find('\''); a != string::npos;) {
      size_t b = wt.find('\'', a + 1);
      if (b == string::npos) break;
      w.wtags.push_back({wt.substr(a + 1, b - a - 1), ""});
      a = wt.find('\'', b + 1);
    }
    r.push_back(w);
  }
  return r;
}
static float f32(const string &s) { return strtof(s.c_str(), nullptr); }

vector<Rule> user_rules(const string &text) {
  vector<Rule> r;
  for (auto &l0 : lines_of(text)) {
    string l = trim(l0, " \t\r\v\f\n");
    if (l.empty() || l[0] == '#') continue;
    vector<string> p;
    for (auto &c : cells(l, '|'))
      if (!c.empty()) p.push_back(c);
    if (p.size() != 2) continue;
    Rule u;
    u.lhs = tokens(p[0]);
    for (auto &alt : cells(p[1], ';'))
      if (!alt.empty()) u.alts.push_back(tokens(alt));
    bool dup = false;
    for (auto &x : r) dup |= x.lhs == u.lhs;
    if (!dup) r.push_back(u);
  }
  return r;
}
void add_auto_rules(vector<Rule> &rules, const set<string> &symbols, bool cut, bool hyph) {
  auto has = [&](const Words &k) {
    for (auto &x : rules)
      if (x.lhs == k) return true;
    return false;
  };
  for (auto &s : symbols) {
    size_t h = s.find('-');
    if (h == string::npos) continue;
    if (h == s.size() - 1) {
      if (cut && !has({s})) rules.push_back({{s}, {{s.substr(0, h)}}});
    } else if (hyph) {
      Words w;
      for (auto &c : cells(s, '-'))
        if (!c.empty()) w.push_back(c);
      if (!has({s})) rules.push_back({{s}, {w}});
      if (!has(w)) rules.push_back({w, {{s}}});
    }
  }
}

Inputs read_inputs(const vector<string> &argv, const map<string, string> &files) {
  Inputs in;
  in.o = parse_argv(argv);
  const Opts &o = in.o;
  auto file = [&](const string &p) -> string {
    auto it = files.find(p);
    if (it == files.end()) {
      in.ok = false;
      in.why = "missing " + p;
      return "";
    }
    return it->second;
  };
  auto fold = [&](const string &s) { return o.use_case ? s : lower_utf8(s); };
  set<string> symbols;
  J norm = J::obj(), side = J::obj();
  if (!o.ref_json.empty()) in.ok &= jparse(file(o.ref_json), norm);
  if (!o.sidecar.empty()) in.ok &= jparse(file(o.sidecar), side);
  if (!o.symbols.empty())
    for (auto &l : lines_of(file(o.symbols))) {
      auto c = tokens(l);
      if (c.size() == 2) symbols.insert(c[0]);
    }
  // hypothesis
  string ht = file(o.hyp);
  switch (kind_of(o.hyp)) {
    case TXT:
      for (auto &w : tokens(ht)) in.hyp.push_back({fold(w), w, 0, 0});
      break;
    case CTM: {
      auto ls = lines_of(ht);
      for (auto &l : ls) {
        if (trim(l).empty()) continue;
        auto c = tokens(l);
        if (c.size() < 5) {
          in.ok = false;
          break;
        }
        HypTok t;
        t.tok = fold(c[4]);
        t.orig = c[4];
        t.st = f32(c[2]);
        t.en = t.st + f32(c[3]);
        in.hyp.push_back(t);
      }
      break;
    }
    case NLP:
      for (auto &r : read_nlp(ht, in.ok)) {
        HypTok t;
        t.tok = fold(r.token);
        t.orig = r.token;
        if (!r.ts.empty()) t.st = t.en = f32(r.ts);
        if (!r.endTs.empty()) {
          t.en = f32(r.endTs);
          if (r.ts.empty()) t.st = t.en;
        }
        in.hyp.push_back(t);
        if (o.use_punct && !r.punct.empty()) in.hyp.push_back({r.punct, "", 0, 0});
      }
      break;
    case FST: {
      in.hyp_fst = true;
      in.ok &= fst_parse(ht, in.lat);
      for (auto &l : lines_of(file(o.symbols))) {
        auto c = tokens(l);
        if (c.size() != 2) continue;
        in.lat.syms[atoi(c[1].c_str())] = c[0];
      }
    }
  }
  for (auto &h : in.hyp) symbols.insert(h.tok);
  // reference
  string rt = file(o.ref);
  switch (kind_of(o.ref)) {
    case TXT:
      for (auto &w : tokens(rt)) {
        Item i;
        i.word = fold(w);
        in.items.push_back(i);
        symbols.insert(i.word);
      }
      break;
    case CTM:
      for (auto &l : lines_of(rt)) {
        auto c = tokens(l);
        if (c.size() < 5) continue;
        Item i;
        i.word = fold(c[4]);
        in.items.push_back(i);
        symbols.insert(i.word);
      }
      break;
    case NLP: {
      in.ref_nlp = true;
      auto rows = read_nlp(rt, in.ok);
      for (auto &r : rows)
        if (r.label.empty()) {
          string w = fold(r.token);
          if (w[0] == '<' && w.find('>') + 1 == w.size() && w.find(':') != string::npos)
            symbols.insert(w.substr(0, w.find(':')) + ">");
          else
            symbols.insert(w);
        }
      for (size_t k = 0; k < rows.size(); k++) {
        NlpRow &r = rows[k];
        for (auto &t : r.wtags)
          if (const J *e = side.get(t.id)) t.type = e->at("entity_type").s;
        in.rows.push_back(r);
        bool cont = k > 0 && rows[k - 1].label == r.label && !r.label.empty();
        if (r.label.empty()) {
          Item i;
          i.word = fold(r.token);
          if (i.word.size() > 1 && i.word[0] == '<' && i.word.find('>') + 1 == i.word.size() && i.word.find(':') != string::npos &&
              !symbols.count(i.word))
            i.word = "<unk>";
          in.items.push_back(i);
        } else if (cont) {
          in.items.back().cands.back().push_back(fold(r.token));
        } else {
          Item i;
          i.entity = true;
          i.label = "___" + r.label + "___";
          std::replace(i.label.begin(), i.label.end(), ':', '_');
          string id = r.label.substr(0, r.label.find(':'));
          i.cands.push_back({fold(r.token)});
          in.items.push_back(i);
        }
        if (o.use_punct && !r.punct.empty()) {
          if (k + 1 < rows.size() && !r.label.empty() && rows[k + 1].label == r.label) {
            in.ok = false;
            in.why = "punctuation inside an entity";
          }
          Item i;
          i.word = r.punct;
          in.items.push_back(i);
          symbols.insert(i.word);
          NlpRow p;
          p.speaker = r.speaker;
          in.rows.push_back(p);
        }
      }
      // the wordings of an id hold wherever it is used, so do its parts
      map<string, vector<Words>> pool;
      auto id_of = [](const Item &i) { return i.label.substr(3, i.label.find('_', 3) - 3); };
      for (auto &i : in.items)
        if (i.entity) pool[id_of(i)].push_back(i.cands.back());
      for (auto &p : pool)
        for (auto &c : norm.at(p.first).at("candidates").a) {
          Words w;
          for (auto &x : c.at("verbalization").a) w.push_back(fold(x.s));
          p.second.push_back(w);
        }
      for (auto &i : in.items)
        if (i.entity) i.cands = pool[id_of(i)];
      for (auto &i : in.items)
        for (auto &c : i.cands)
          for (auto &w : c) symbols.insert(w);
      break;
    }
    default: in.ok = false;
  }
  if (!o.syn.empty()) in.rules = user_rules(file(o.syn));
  add_auto_rules(in.rules, symbols, !o.no_cut, !o.no_hyp);
  in.g = build_graph(in, in.items);
  return in;
}
int64_t ref_len(const Inputs &in) { return (int64_t)in.items.size(); }

// ------------------------------------------------------------------ permitted wordings
Graph build_graph(Inputs &in, const vector<Item> &items) {
  Graph g;
  g.start = g.add();
  int cur = g.start;
  for (auto &it : items) {
    if (!it.entity) {
      int n = g.add();
      g.out[cur].push_back({n, in.id(it.word)});
      cur = n;
      continue;
    }
    // separate entry and exit so that no rule reaches across the border
    int a = g.add(), b = g.add(), c = g.add();
    g.out[cur].push_back({a, -1});
    for (auto &cand : it.cands) {
      int s = a;
      for (auto &w : cand) {
        int n = g.add();
        g.out[s].push_back({n, in.id(w)});
        s = n;
      }
      g.out[s].push_back({b, -1});
    }
    g.out[b].push_back({c, -1});
    cur = c;
  }
  g.end = cur;
  int base = (int)g.out.size();
  map<int, vector<const Rule *>> by_first;
  for (auto &r : in.rules)
    if (!r.lhs.empty()) by_first[in.id(r.lhs[0])].push_back(&r);
  struct New { int from, to; const Words *w; };
  vector<New> add;
  for (int s = 0; s < base; s++) {
    set<int> firsts;
    for (auto &e : g.out[s])
      if (e.w >= 0) firsts.insert(e.w);
    for (int f : firsts) {
      auto it = by_first.find(f);
      if (it == by_first.end()) continue;
      for (auto *r : it->second) {
        set<int> at{s};
        for (auto &w : r->lhs) {
          set<int> nx;
          int id = in.id(w);
          for (int x : at)
            for (auto &e : g.out[x])
              if (e.w == id) nx.insert(e.to);
          at.swap(nx);
        }
        for (int t : at)
          for (auto &alt : r->alts) add.push_back({s, t, &alt});
      }
    }
  }
  for (auto &n : add) {
    int c = n.from;
    if (n.w->empty()) {
      g.out[c].push_back({n.to, -1});
      continue;
    }
    for (size_t k = 0; k < n.w->size(); k++) {
      int t = k + 1 == n.w->size() ? n.to : g.add();
      g.out[c].push_back({t, in.id((*n.w)[k])});
      c = t;
    }
  }
  return g;
}
static void closure(const Graph &g, vector<char> &on) {
  vector<int> st;
  for (size_t i = 0; i < on.size(); i++)
    if (on[i]) st.push_back((int)i);
  while (!st.empty()) {
    int s = st.back();
    st.pop_back();
    for (auto &e : g.out[s])
      if (e.w < 0 && !on[e.to]) {
        on[e.to] = 1;
        st.push_back(e.to);
      }
  }
}
bool accepts(const Graph &g, const vector<int> &words) {
  vector<char> on(g.out.size(), 0);
  on[g.start] = 1;
  closure(g, on);
  for (int w : words) {
    vector<char> nx(g.out.size(), 0);
    for (size_t s = 0; s < on.size(); s++)
      if (on[s])
        for (auto &e : g.out[s])
          if (e.w == w) nx[e.to] = 1;
    closure(g, nx);
    on.swap(nx);
  }
  return on[g.end];
}
int min_edits(const Graph &g, const vector<int> &h) {
  int n = (int)g.out.size(), m = (int)h.size();
  vector<int> indeg(n, 0), order;
  for (auto &v : g.out)
    for (auto &e : v) indeg[e.to]++;
  for (int i = 0; i < n; i++)
    if (!indeg[i]) order.push_back(i);
  for (size_t k = 0; k < order.size(); k++)
    for (auto &e : g.out[order[k]])
      if (--indeg[e.to] == 0) order.push_back(e.to);
  const int INF = INT_MAX / 4;
  vector<vector<int>> c(n);
  c[g.start].assign(m + 1, INF);
  c[g.start][0] = 0;
  for (int s : order) {
    auto &cs = c[s];
    if (cs.empty()) continue;
    for (int j = 0; j < m; j++) cs[j + 1] = std::min(cs[j + 1], cs[j] + 1);
    if (s == g.end) return cs[m];
    for (auto &e : g.out[s]) {
      auto &ct = c[e.to];
      if (ct.empty()) ct.assign(m + 1, INF);
      if (e.w < 0) {
        for (int j = 0; j <= m; j++) ct[j] = std::min(ct[j], cs[j]);
      } else {
        for (int j = 0; j <= m; j++) {
          ct[j] = std::min(ct[j], cs[j] + 1);
          if (j < m) ct[j + 1] = std::min(ct[j + 1], cs[j] + (h[j] == e.w ? 0 : 1));
        }
      }
    }
    vector<int>().swap(cs);
  }
  return INF;
}

// ------------------------------------------------------------------ outputs
static string rtrim_sp(const string &s) {
  size_t b = s.find_last_not_of(' ');
  return b == string::npos ? "" : s.substr(0, b + 1);
}
static string ltrim_sp(const string &s) {
  size_t b = s.find_first_not_of(' ');
  return b == string::npos ? "" : s.substr(b);
}
Sbs parse_sbs(const string &t) {
  Sbs s;
  if (t.empty() || t.back() != '\n') {
    s.why = "does not end with a newline";
    return s;
  }
  vector<string> ls = lines_of(t);
  size_t k = 1;
  auto h = cells(ls[0], '\t');
  if (h.size() != 5 || ltrim_sp(h[0]) != "ref_token" || rtrim_sp(h[1]) != "hyp_token" || h[2] != "IsErr") {
    s.why = "header line is wrong: " + ls[0];
    return s;
  }
  string dash(60, '-');
  for (; k < ls.size() && ls[k] != dash; k++) {
    auto c = cells(ls[k], '\t');
    if (c.size() != 5) {
      s.why = "row with " + std::to_string(c.size()) + " columns: " + ls[k];
      return s;
    }
    SRow r{ltrim_sp(c[0]), rtrim_sp(c[1]), c[2], c[3], c[4]};
    if (r.ref == "<ins>") s.ins++;
    else {
      s.n++;
      if (r.hyp == "<del>") s.del++;
      else if (r.ref != r.hyp) s.sub++;
    }
    s.rows.push_back(r);
  }
  if (k + 1 >= ls.size()) {
    s.why = "no group section";
    return s;
  }
  k++;
  auto gh = cells(ls[k], '\t');
  if (gh.size() != 2 || ltrim_sp(gh[0]) != "Line" || rtrim_sp(gh[1]) != "Group") {
    s.why = "group header is wrong: " + ls[k];
    return s;
  }
  for (k++; k < ls.size(); k++) {
    auto c = cells(ls[k], '\t');
    if (c.size() != 2) {
      s.why = "group line is wrong: " + ls[k];
      return s;
    }
    s.groups.emplace_back(atoll(c[0].c_str()), c[1]);
  }
  s.ok = true;
  return s;
}
string strip_ansi(const string &s) {
  string r;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] == '\x1b' && i + 1 < s.size() && s[i + 1] == '[') {
      size_t j = i + 2;
      while (j < s.size() && !isalpha((unsigned char)s[j])) j++;
      i = j;
      continue;
    }
    r += s[i];
  }
  return r;
}
vector<string> log_lines(const string &text) {
  vector<string> r;
  for (auto l : lines_of(text)) {
    // "[+++] [12:34:56] [name] message" or the first line "[date time] [console] [info] message"
    if (l.compare(0, 7, "[+++] [") == 0 && l.size() > 16 && l[15] == ']')
      l = l.substr(17);
    else if (l.size() > 26 && l[0] == '[' && l[5] == '-') {  // spdlog prints more than three digits before the epoch
      size_t e = l.find(']');
      if (e != string::npos && e >= 24 && e < 40) l = l.substr(std::min(l.size(), e + 2));
    }
    r.push_back(l);
  }
  return r;
}

// ------------------------------------------------------------------ C01
static string S(int64_t n) { return std::to_string(n); }
static string joinw(const Words &w, size_t from = 0, size_t cap = 12) {
  string r;
  for (size_t i = from; i < w.size(); i++) {
    if (i - from >= cap) {
      r += " ...";
      break;
    }
    if (!r.empty()) r += ' ';
    r += w[i];
  }
  return r;
}
void check_rows(Inputs &in, const Sbs &s, Viols &v) {
  if (!s.ok) {
    v.push_back({"sbs-unreadable", s.why});
    return;
  }
  // hypothesis side
  if (!in.hyp_fst) {
    size_t h = 0;
    for (size_t i = 0; i < s.rows.size(); i++) {
      auto &r = s.rows[i];
      if (r.hyp == "<del>") continue;
      if (h >= in.hyp.size()) {
        v.push_back({"hyp-extra", "row " + S(i) + " shows hypothesis word '" + r.hyp + "' beyond the end of the file"});
        return;
      }
      if (r.hyp != in.hyp[h].tok) {
        v.push_back({"hyp-mismatch", "hypothesis word " + S(h) + " is '" + in.hyp[h].tok + "' but row " + S(i) +
                                         " shows '" + r.hyp + "'"});
        return;
      }
      h++;
    }
    if (h != in.hyp.size()) {
      v.push_back({"hyp-missing", "only " + S(h) + " of " + S(in.hyp.size()) + " hypothesis words are aligned"});
      return;
    }
  }
  // reference side
  size_t it = 0, i = 0;
  while (i < s.rows.size()) {
    auto &r = s.rows[i];
    if (r.cls.empty()) {
      if (r.ref == "<ins>") {
        i++;
        continue;
      }
      if (it >= in.items.size()) {
        v.push_back({"ref-extra", "row " + S(i) + " shows reference word '" + r.ref + "' beyond the end of the reference"});
        return;
      }
      if (in.items[it].entity || in.items[it].word != r.ref) {
        v.push_back({"ref-mismatch", "reference item " + S(it) + " is '" +
                                         (in.items[it].entity ? in.items[it].label : in.items[it].word) + "' but row " +
                                         S(i) + " shows '" + r.ref + "'"});
        return;
      }
      it++;
      i++;
      continue;
    }
    size_t j = i;
    Words w;
    while (j < s.rows.size() && s.rows[j].cls == r.cls) {
      if (s.rows[j].ref != "<ins>") w.push_back(s.rows[j].ref);
      j++;
    }
    size_t sp = r.cls.find("_SYN_");
    if (sp != string::npos) {
      int k = 0, m = 0;
      sscanf(r.cls.c_str() + sp, "_SYN_%d-%d___", &k, &m);
      Words lhs;
      for (int x = 0; x < k; x++) {
        if (it + x >= in.items.size() || in.items[it + x].entity) {
          v.push_back({"syn-span", "synonym " + r.cls + " at row " + S(i) + " spans more than plain reference words"});
          return;
        }
        lhs.push_back(in.items[it + x].word);
      }
      bool found = false;
      for (auto &rule : in.rules)
        if (rule.lhs == lhs)
          for (auto &a : rule.alts) found |= a == w;
      if (!found || (int)w.size() != m) {
        v.push_back({"syn-not-permitted", "rows " + S(i) + ".. replace '" + joinw(lhs) + "' by '" + joinw(w) +
                                              "' which no rule permits"});
        return;
      }
      it += k;
    } else {
      if (it >= in.items.size() || !in.items[it].entity || in.items[it].label != r.cls) {
        v.push_back({"entity-mismatch", "row " + S(i) + " is in entity " + r.cls + " but reference item " + S(it) +
                                            " is '" +
                                            (it >= in.items.size() ? string("(end)")
                                             : in.items[it].entity ? in.items[it].label
                                                                   : in.items[it].word) +
                                            "'"});
        return;
      }
      Graph g = build_graph(in, {in.items[it]});
      vector<int> ids;
      for (auto &x : w) ids.push_back(in.id(x));
      if (!accepts(g, ids)) {
        v.push_back({"wording-not-permitted", "entity " + r.cls + " is shown as '" + joinw(w) +
                                                  "' which is none of its permitted wordings"});
        return;
      }
      it++;
    }
    i = j;
  }
  if (it != in.items.size()) {
    v.push_back({"ref-missing", "the alignment stops at reference item " + S(it) + " of " + S(in.items.size())});
    return;
  }
  for (size_t k = 0; k < s.rows.size(); k++) {
    auto &r = s.rows[k];
    bool differ = r.ref != r.hyp;
    if (differ != (r.err == "ERR") || (!differ && !r.err.empty())) {
      v.push_back({"err-flag", "row " + S(k) + " '" + r.ref + "'/'" + r.hyp + "' is flagged '" + r.err + "'"});
      return;
    }
    if (r.ref == "<ins>" && r.hyp == "<del>") {
      v.push_back({"empty-row", "row " + S(k) + " aligns nothing with nothing"});
      return;
    }
  }
}
void check_bound(Inputs &in, const Sbs &s, Viols &v) {
  vector<int> h;
  for (auto &t : in.hyp) h.push_back(in.id(t.tok));
  int errs = s.ins + s.del + s.sub;
  int mn = min_edits(in.g, h);
  if (errs < mn) v.push_back({"too-few-errors", S(errs) + " errors reported, but no permitted wording allows fewer than " + S(mn)});
  // identical transcripts
  bool same = in.items.size() == in.hyp.size();
  for (size_t i = 0; same && i < in.items.size(); i++) same = !in.items[i].entity && in.items[i].word == in.hyp[i].tok;
  if (same && errs) v.push_back({"identical-not-zero", S(errs) + " errors for identical transcripts"});
}

// ------------------------------------------------------------------ C02
static bool feq(const J &j, double want) {
  if (std::isnan(want)) return j.t == J::NUL;
  if (j.t != J::NUM) return false;
  if (std::isinf(want)) return std::isinf(j.n) && (j.n > 0) == (want > 0);
  return std::fabs(j.n - want) <= 1e-5 * std::max(1.0, std::fabs(want));
}
static bool valid_gram(const string &t) {
  return t.find("<ins>") == string::npos && t.find("<del>") == string::npos && t.find("<eps>") == string::npos &&
         t.find("___") == string::npos;
}
struct Cnt { int ins = 0, del = 0, sub = 0, n = 0; };
static double wer_of(const Cnt &c) { return c.n > 0 ? (double)((float)(c.ins + c.del + c.sub) / (float)c.n) : NAN; }
static void cmp_counts(const J &j, const Cnt &c, const string &where, Viols &v, double wer) {
  struct { const char *k; int x; } f[] = {{"insertions", c.ins}, {"deletions", c.del}, {"substitutions", c.sub},
                                          {"numWordsInReference", c.n}, {"numErrors", c.ins + c.del + c.sub}};
  for (auto &e : f) {
    const J *p = j.get(e.k);
    if (!p || p->t != J::NUM || p->n != e.x) {
      v.push_back({where.substr(0, where.find('[')) + "-" + e.k, "JSON " + where + "." + e.k + " is " + (p ? p->str(-1) : "absent") +
                                                 ", the rows give " + S(e.x)});
      return;
    }
  }
  if (!feq(j.at("wer"), wer))
    v.push_back({where.substr(0, where.find('[')) + "-wer", "JSON " + where + ".wer is " + j.at("wer").str(-1) + ", the rows give " + std::to_string(wer)});
}
static string fmt4(float x) {
  char b[64];
  if (std::isnan(x)) return "nan";
  if (std::isinf(x)) return x > 0 ? "inf" : "-inf";
  snprintf(b, sizeof b, "%.4f", (double)x);
  return b;
}
static string no_neg_nan(string l) {
  for (size_t p; (p = l.find("-nan")) != string::npos;) l.erase(p, 1);
  return l;
}
static bool has_line(const vector<string> &log, const string &l) {
  for (auto &x : log)
    if (no_neg_nan(x) == l) return true;
  return false;
}
static int count_prefix(const vector<string> &log, const string &p) {
  int n = 0;
  for (auto &x : log) n += x.compare(0, p.size(), p) == 0;
  return n;
}
typedef std::array<int, 5> G5;  // correct ins del fp fn
static void cmp_grams(const J &root, const char *name, const map<string, G5> &want0, int thr, Viols &v) {
  map<string, G5> want;
  for (auto &p : want0) {
    int t = 0;
    for (int x : p.second) t += x;
    if (t >= thr) want.insert(p);
  }
  const J &tab = root.at(name);
  map<string, const J *> got;
  for (auto &p : tab.o) got[p.first] = &p.second;
  for (auto &p : want)
    if (!got.count(p.first)) {
      v.push_back({string(name) + "-missing", string("JSON ") + name + " lacks '" + p.first + "'"});
      return;
    }
  for (auto &p : got) {
    auto it = want.find(p.first);
    if (it == want.end()) {
      v.push_back({string(name) + "-extra", string("JSON ") + name + " has '" + p.first + "' which the rows do not yield"});
      return;
    }
    const G5 &c = it->second;
    const char *k[5] = {"correct", "insertions", "deletions", "substitutions_fp", "substitutions_fn"};
    for (int i = 0; i < 5; i++) {
      const J *x = p.second->get(k[i]);
      if (!x || x->n != c[i]) {
        v.push_back({string(name) + "-" + k[i], string("JSON ") + name + "['" + p.first + "']." + k[i] + " is " +
                                                    (x ? x->str(-1) : "absent") + ", the rows give " + S(c[i])});
        return;
      }
    }
    double P = c[0] + c[1] + c[3] ? (double)c[0] / (c[0] + c[1] + c[3]) * 100 : 0;
    double R = c[0] + c[2] + c[4] ? (double)c[0] / (c[0] + c[2] + c[4]) * 100 : 0;
    if (!feq(p.second->at("precision"), P) || !feq(p.second->at("recall"), R)) {
      v.push_back({string(name) + "-pr", string("JSON ") + name + "['" + p.first + "'] precision/recall " +
                                             p.second->at("precision").str(-1) + "/" + p.second->at("recall").str(-1) +
                                             ", expected " + std::to_string(P) + "/" + std::to_string(R)});
      return;
    }
  }
}
void check_headline(Inputs &in, const Sbs &s, const string *json, const vector<string> &log, bool align, Viols &v) {
  Cnt c{s.ins, s.del, s.sub, s.n};
  int e = c.ins + c.del + c.sub, hypn = s.n - s.del + s.ins;
  float wer = c.n > 0 ? (float)e / (float)c.n : hypn > 0 ? INFINITY : 0.f;
  int cor = c.n - c.del - c.sub;
  float P = (float)cor / (float)(cor + c.ins + c.sub), R = (float)cor / (float)(cor + c.sub + c.del);
  if (cor + c.ins + c.sub == 0) P = NAN;
  if (cor + c.sub + c.del == 0) R = NAN;
  string l1 = "[wer] best WER: " + S(e) + "/" + S(c.n) + " = " + fmt4(wer) + " (Total words in reference: " + S(c.n) + ")";
  string l2 = "[wer] best WER: INS:" + S(c.ins) + " DEL:" + S(c.del) + " SUB:" + S(c.sub);
  char b[96];
  auto pr = [&](float x) {
    if (std::isnan(x)) return string("nan");
    snprintf(b, sizeof b, "%.6f", (double)x);
    return string(b);
  };
  string l3 = "[wer] best WER: Precision:" + pr(P) + " Recall:" + pr(R);
  for (auto &l : {l1, l2, l3})
    if (!has_line(log, l)) {
      string got;
      for (auto &x : log)
        if (x.compare(0, 15, "[wer] best WER:") == 0) got += " | " + x;
      v.push_back({"log-headline", "the log lacks '" + l + "'; it has" + got});
      break;
    }
  if (count_prefix(log, "[wer] best WER:") != 3)
    v.push_back({"log-headline-count", "the log reports the headline figures more or less than once"});
  // groups
  if (!align) {
    vector<std::pair<int64_t, string>> g;
    int64_t line = 0, at = 2;
    string rr, hh;
    auto flush = [&]() {
      if (!line) return;
      if (rr.empty()) rr = "*** ";
      if (hh.empty()) hh = " ***";
      g.emplace_back(line, rr + "<->" + hh);
      line = 0;
      rr = hh = "";
    };
    for (auto &r : s.rows) {
      if (r.ref != r.hyp) {
        if (!line) line = at;
        if (r.ref != "<ins>") rr += r.ref + " ";
        if (r.hyp != "<del>") hh += " " + r.hyp;
      } else
        flush();
      at++;
    }
    flush();
    if (g != s.groups) {
      size_t k = 0;
      while (k < g.size() && k < s.groups.size() && g[k] == s.groups[k]) k++;
      v.push_back({"sbs-groups", "error group " + S(k) + " is " +
                                     (k < s.groups.size() ? S(s.groups[k].first) + ":" + s.groups[k].second : "absent") +
                                     ", the rows give " +
                                     (k < g.size() ? S(g[k].first) + ":" + g[k].second : "none")});
    }
  }
  if (!json) return;
  J root;
  if (!jparse(*json, root)) {
    v.push_back({"json-unreadable", "the JSON report does not parse"});
    return;
  }
  const J &w = root.at("wer"), &bw = w.at("bestWER");
  cmp_counts(bw, c, "bestWER", v, wer);
  if (!feq(bw.at("precision"), P) || !feq(bw.at("recall"), R))
    v.push_back({"bestWER-pr", "JSON bestWER precision/recall " + bw.at("precision").str(-1) + "/" +
                                   bw.at("recall").str(-1) + ", the rows give " + pr(P) + "/" + pr(R)});
  // n-grams
  map<string, G5> uni, bi;
  for (auto &r : s.rows) {
    if (r.ref == r.hyp) {
      if (valid_gram(r.hyp)) uni[r.ref][0]++;
    } else if (r.ref == "<ins>")
      uni[r.hyp][1]++;
    else if (r.hyp == "<del>")
      uni[r.ref][2]++;
    else {
      uni[r.hyp][3]++;
      uni[r.ref][4]++;
    }
  }
  cmp_grams(w, "unigrams", uni, in.o.thr, v);
  set<string> known;
  map<string, G5> raw;
  for (size_t i = 0; i + 1 < s.rows.size(); i++) {
    string a = s.rows[i].ref + " " + s.rows[i + 1].ref, b2 = s.rows[i].hyp + " " + s.rows[i + 1].hyp;
    if (valid_gram(a)) known.insert(a);
    if (valid_gram(b2)) known.insert(b2);
    if (a == b2) raw[a][0]++;
    else if (valid_gram(a) && valid_gram(b2)) {
      raw[a][4]++;
      raw[b2][3]++;
    }
    if (b2.find("<del>") != string::npos) raw[a][2]++;
    if (a.find("<ins>") != string::npos) raw[b2][1]++;
  }
  for (auto &k : known) bi[k] = raw.count(k) ? raw[k] : G5{0, 0, 0, 0, 0};
  cmp_grams(w, "bigrams", bi, in.o.thr, v);
}

// ------------------------------------------------------------------ rows joined with the reference's data
struct St {
  const SRow *r;
  bool ins = false, del = false, sub = false;
  bool has_nlp = false;
  NlpRow nlp;
  string comment, orig;
  float st = 0, en = 0;
  bool timed = false;
};
static bool join(Inputs &in, const Sbs &s, vector<St> &out, string &why) {
  size_t h = 0;
  for (auto &r : s.rows) {
    St t;
    t.r = &r;
    t.ins = r.ref == "<ins>";
    t.del = r.hyp == "<del>";
    t.sub = !t.ins && !t.del && r.ref != r.hyp;
    t.comment = t.ins ? "ins" : t.del ? "del" : t.sub ? "sub(" + r.hyp + ")" : "";
    if (!t.del) {
      if (!in.hyp_fst) {
        if (h >= in.hyp.size()) {
          why = "more hypothesis words than the file has";
          return false;
        }
        t.orig = in.hyp[h].orig;
        t.st = in.hyp[h].st;
        t.en = in.hyp[h].en;
        t.timed = true;
      }
      h++;
    }
    out.push_back(t);
  }
  if (!in.ref_nlp) return true;
  size_t row = 0, i = 0;
  auto need = [&](size_t k) {
    if (row + k <= in.rows.size()) return true;
    why = "the rows need more reference rows than there are";
    return false;
  };
  while (i < out.size()) {
    if (out[i].ins) {  // an insertion before any word of its group belongs to no reference row
      i++;
      continue;
    }
    const string &cls = out[i].r->cls;
    if (cls.empty()) {
      if (!need(1)) return false;
      out[i].nlp = in.rows[row++];
      out[i].has_nlp = true;
      i++;
      continue;
    }
    size_t j = i;
    while (j < out.size() && out[j].r->cls == cls) j++;
    size_t R = 0, sp = cls.find("_SYN_");
    if (sp != string::npos)
      R = atoi(cls.c_str() + sp + 5);
    else
      while (row + R < in.rows.size()) {
        string l = "___" + in.rows[row + R].label + "___";
        std::replace(l.begin(), l.end(), ':', '_');
        if (l != cls) break;
        R++;
      }
    if (R == 0 || !need(R)) {
      why = "group " + cls + " matches no reference rows";
      return false;
    }
    vector<size_t> w;
    for (size_t k = i; k < j; k++)
      if (!out[k].ins) w.push_back(k);
    const NlpRow *f = &in.rows[row], *l = &in.rows[row + R - 1];
    for (size_t k : w) {
      out[k].has_nlp = true;
      out[k].nlp = NlpRow();
      out[k].nlp.speaker = f->speaker;
      out[k].nlp.labels = f->labels;
      out[k].nlp.wtags = f->wtags;
      out[k].nlp.casing = "LC";
    }
    if (R == w.size()) {
      for (size_t k = 0; k < R; k++) {
        out[w[k]].nlp = f[k];
        if (R > 1) out[w[k]].comment += ",direct";
      }
    } else if (R == 1) {
      for (size_t k = 0; k < w.size(); k++) {
        St &t = out[w[k]];
        t.nlp = *f;
        t.nlp.casing = k == 0 ? f->casing : "LC";
        if (k + 1 < w.size()) t.nlp.punct = t.nlp.prepunct = t.nlp.conf = "";
        t.comment += ",push_last";
      }
    } else {
      for (size_t k : w) out[k].comment += ",split_worst";
      out[w[0]].nlp = *f;
      if (w.size() == 1)
        out[w[0]].nlp.punct = l->punct;
      else
        out[w.back()].nlp = *l;
    }
    // an insertion inside the group belongs to the segment of the word before it
    for (size_t k = i + 1; k < j; k++)
      if (out[k].ins) {
        out[k].has_nlp = true;
        out[k].nlp.speaker = out[k - 1].nlp.speaker;
        out[k].nlp.labels = out[k - 1].nlp.labels;
        out[k].nlp.wtags = out[k - 1].nlp.wtags;
      }
    row += R;
    i = j;
  }
  if (row != in.rows.size()) {
    why = "the rows use " + S(row) + " of " + S(in.rows.size()) + " reference rows";
    return false;
  }
  return true;
}

// ------------------------------------------------------------------ C03
static void bump(Cnt &c, const St &t) {
  c.ins += t.ins;
  c.del += t.del;
  c.sub += t.sub;
  c.n += !t.ins;
}
static void cmp_map(const J &tab, const map<string, Cnt> &want, const string &name, Viols &v) {
  for (auto &p : want)
    if (!tab.has(p.first)) {
      v.push_back({name + "-missing", "JSON " + name + " lacks '" + p.first + "'"});
      return;
    }
  for (auto &p : tab.o) {
    auto it = want.find(p.first);
    if (it == want.end()) {
      v.push_back({name + "-extra", "JSON " + name + " has '" + p.first + "' which no reference row defines"});
      return;
    }
    size_t n = v.size();
    cmp_counts(p.second, it->second, name + "['" + p.first + "']", v, wer_of(it->second));
    if (v.size() != n) return;
  }
}
static bool caps(const string &s, int &n) {
  n = 0;
  for (unsigned char c : s) n += c >= 'A' && c <= 'Z';
  return n > 0;
}
void check_breakdowns(Inputs &in, const Sbs &s, const string &json, const vector<string> &log, Viols &v) {
  J root;
  if (!jparse(json, root)) {
    v.push_back({"json-unreadable", "the JSON report does not parse"});
    return;
  }
  const J &w = root.at("wer");
  vector<St> st;
  string why;
  if (!join(in, s, st, why)) {
    v.push_back({"rows-vs-reference", why});
    return;
  }
  // classes (for every kind of reference)
  map<string, Cnt> cls;
  for (auto &t : st)
    if (!t.r->cls.empty()) {
      string l = t.r->cls.substr(3, t.r->cls.size() - 6);
      l = l.substr(l.find('_') + 1);
      bump(cls[l], t);
    }
  cmp_map(w.at("classWER"), cls, "classWER", v);
  size_t width = 0;
  for (auto &p : cls) width = std::max(width, p.first.size());
  auto line = [&](const string &head, const Cnt &c) {
    return "[wer] " + head + " WER: " + S(c.ins + c.del + c.sub) + "/" + S(c.n) + " = " + fmt4((float)wer_of(c));
  };
  auto want_lines = [&](const map<string, Cnt> &m, const string &head, size_t pad) {
    for (auto &p : m) {
      string k = p.first;
      while (k.size() < pad) k += ' ';
      if (!has_line(log, line(head + k, p.second))) {
        v.push_back({"log-" + head, "the log lacks '" + line(head + k, p.second) + "'"});
        return;
      }
    }
    int n = count_prefix(log, "[wer] " + head);
    if (n != (int)m.size()) v.push_back({"log-" + head + "count", S(n) + " log lines for " + S(m.size()) + " entries"});
  };
  want_lines(cls, "class ", width);
  if (!in.ref_nlp) {
    for (auto *k : {"speakerWER", "speakerSwitchWER", "sentenceWer", "wer_tag", "caseWER"})
      if (w.has(k)) v.push_back({string(k) + "-unfounded", string(k) + " reported without an NLP reference"});
    return;
  }
  // tags shown beside the rows
  for (size_t k = 0; k < st.size(); k++) {
    string want;
    for (auto &t : st[k].nlp.wtags) want += "###" + t.id + "_" + t.type + "###|";
    if (want != st[k].r->tags) {
      v.push_back({"sbs-tags", "row " + S(k) + " shows tags '" + st[k].r->tags + "', its reference row has '" + want + "'"});
      break;
    }
  }
  // speakers
  map<string, Cnt> spk;
  string cur;
  bool any = false;
  vector<int> switches;
  {
    Cnt seg;
    int idx = 0;
    for (auto &t : st) {
      if (t.has_nlp && !t.nlp.speaker.empty() && t.nlp.speaker != cur) {
        if (!cur.empty()) {
          Cnt &c = spk[cur];
          c.ins += seg.ins;
          c.del += seg.del;
          c.sub += seg.sub;
          c.n += seg.n;
          seg = Cnt();
          switches.push_back(idx);
        }
        cur = t.nlp.speaker;
        any = true;
      }
      bump(seg, t);
      idx += !t.ins;
    }
    Cnt &c = spk[cur];
    c.ins += seg.ins;
    c.del += seg.del;
    c.sub += seg.sub;
    c.n += seg.n;
  }
  (void)any;
  cmp_map(w.at("speakerWER"), spk, "speakerWER", v);
  want_lines(spk, "speaker ", 0);
  // speaker switches
  if (in.o.ctx > 0) {
    Cnt c;
    int idx = 0, ctx = in.o.ctx;
    for (auto &t : st) {
      // a word belongs to the first window that is not over yet
      int k = -1;
      for (size_t x = 0; x < switches.size(); x++)
        if (idx < switches[x] + ctx) {
          k = switches[x];
          break;
        }
      if (k >= 0 && idx >= k - ctx && !(t.ins && idx == k - ctx)) bump(c, t);
      idx += !t.ins;
    }
    const J &j = w.at("speakerSwitchWER");
    cmp_counts(j, c, "speakerSwitchWER", v, wer_of(c));
    if (j.at("meta").at("windowSize").num(-1) != ctx)
      v.push_back({"speakerSwitch-window", "windowSize is not the requested one"});
    string l1 = "[wer] Speaker switch WER: " + S(c.ins + c.del + c.sub) + "/" + S(c.n) + " = " + fmt4((float)wer_of(c)) +
                " (Total reference words: " + S(c.n) + ")";
    string l2 = "[wer] Speaker switch WER: INS:" + S(c.ins) + " DEL:" + S(c.del) + " SUB:" + S(c.sub);
    if (!has_line(log, l1) || !has_line(log, l2)) v.push_back({"log-switch", "the log lacks '" + l1 + "' or '" + l2 + "'"});
  } else if (w.has("speakerSwitchWER"))
    v.push_back({"speakerSwitchWER-unasked", "speakerSwitchWER reported although switched off"});
  // sentences
  {
    vector<Cnt> sent;
    Cnt c, tot;
    for (auto &t : st) {
      bump(c, t);
      bump(tot, t);
      if (t.has_nlp && (t.nlp.punct == "." || t.nlp.punct == "?" || t.nlp.punct == "!")) {
        sent.push_back(c);
        c = Cnt();
      }
    }
    if (c.n > 0 || c.ins > 0) sent.push_back(c);
    const J &j = w.at("sentenceWer");
    if (j.a.size() != sent.size())
      v.push_back({"sentenceWer-count", "JSON lists " + S(j.a.size()) + " sentences, the rows give " + S(sent.size())});
    else
      for (size_t k = 0; k < sent.size(); k++) {
        size_t n = v.size();
        cmp_counts(j.a[k], sent[k], "sentenceWer[" + S(k) + "]", v, wer_of(sent[k]));
        if (v.size() != n) break;
      }
  }
  // tags
  map<string, Cnt> tags;
  for (auto &t : st)
    for (auto &x : t.nlp.wtags) bump(tags[x.id], t);
  cmp_map(w.at("wer_tag"), tags, "wer_tag", v);
  want_lines(tags, "Wer Entity ID ", 0);
  // case
  if (in.o.case_stats) {
    int tp = 0, fp = 0, fn = 0, stp = 0, sfp = 0, sfn = 0;
    for (auto &t : st) {
      if (t.ins || t.del) continue;
      int r, h;
      caps(t.nlp.token, r);
      caps(t.orig, h);
      int &T = t.sub ? stp : tp, &P = t.sub ? sfp : fp, &N = t.sub ? sfn : fn;
      if (t.nlp.casing == "LC") P += h > 0;
      else if (r == h) T++;
      else if (r > h) N++;
      else P++;
    }
    auto one = [&](const char *k, int a, int b, int c) {
      const J &j = w.at("caseWER").at(k);
      if (j.at("true_positive").num(-1) != a || j.at("false_positive").num(-1) != b || j.at("false_negative").num(-1) != c ||
          !feq(j.at("precision"), a + b ? (double)((float)a / (float)(a + b)) : NAN) ||
          !feq(j.at("recall"), a + c ? (double)((float)a / (float)(a + c)) : NAN))
        v.push_back({string("caseWER-") + k, string("caseWER ") + k + " is " + j.str(-1) + ", the rows give tp=" + S(a) +
                                                 " fp=" + S(b) + " fn=" + S(c)});
    };
    one("matching", tp, fp, fn);
    one("all", tp + stp, fp + sfp, fn + sfn);
  } else if (w.has("caseWER"))
    v.push_back({"caseWER-unasked", "caseWER reported although not requested"});
}

// ------------------------------------------------------------------ C04
static bool ieq(const string &a, const string &b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++) {
    unsigned char x = a[i], y = b[i];
    if (x >= 'a' && x <= 'z') x -= 32;
    if (y >= 'a' && y <= 'z') y -= 32;
    if (x != y) return false;
  }
  return true;
}
string predict_nlp(Inputs &in, const Sbs &s, bool add_ins, bool &ok) {
  vector<St> st;
  string why, r;
  ok = join(in, s, st, why);
  if (!ok) return why;
  r = "token|speaker|ts|endTs|punctuation|prepunctuation|case|tags|wer_tags|oldTs|oldEndTs|ali_comment|confidence\n";
  for (auto &t : st) {
    if (t.ins && !add_ins) continue;
    string tok = t.ins ? "" : t.r->ref, c = t.comment;
    const string &orig = t.nlp.token;
    if (t.ins) c = "ins(" + t.r->hyp + ")";
    else if (ieq(tok, orig)) tok = orig;
    else if (!orig.empty() && orig[0] == '<' && orig.find('>') + 1 == orig.size()) tok = orig;
    char b[96];
    r += tok + "|" + t.nlp.speaker + "|";
    if (t.del)
      r += "||";
    else {
      snprintf(b, sizeof b, "%.4f|%.4f|", (double)t.st, (double)t.en);
      r += b;
    }
    r += t.nlp.punct + "|" + t.nlp.prepunct + "|" + t.nlp.casing + "|" + t.nlp.labels + "|[";
    for (size_t k = 0; k < t.nlp.wtags.size(); k++) r += string(k ? ", " : "") + "'" + t.nlp.wtags[k].id + "'";
    r += "]|" + t.nlp.ts + "|" + t.nlp.endTs + "|" + c + "|" + t.nlp.conf + "\n";
  }
  return r;
}

// ------------------------------------------------------------------ lattices
static void put(string &s, const void *p, size_t n) { s.append((const char *)p, n); }
template <class T>
static void putv(string &s, T v) { put(s, &v, sizeof v); }
string fst_binary(const Lattice &l, const vector<float> *weights) {
  string s;
  putv<int32_t>(s, 2125659606);
  putv<int32_t>(s, 6);
  s += "vector";
  putv<int32_t>(s, 8);
  s += "standard";
  putv<int32_t>(s, 2);           // version
  putv<int32_t>(s, 0);           // flags
  putv<uint64_t>(s, 0x3ull);     // properties: expanded, mutable
  putv<int64_t>(s, l.start);
  putv<int64_t>(s, l.nstates);
  putv<int64_t>(s, (int64_t)l.arcs.size());
  for (int st = 0; st < l.nstates; st++) {
    putv<float>(s, l.finals.count(st) ? 0.0f : INFINITY);
    int64_t n = 0;
    for (auto &a : l.arcs) n += a.from == st;
    putv<int64_t>(s, n);
    for (size_t k = 0; k < l.arcs.size(); k++) {
      auto &a = l.arcs[k];
      if (a.from != st) continue;
      putv<int32_t>(s, a.label);
      putv<int32_t>(s, a.label);
      putv<float>(s, weights ? (*weights)[k] : 0.0f);
      putv<int32_t>(s, a.to);
    }
  }
  return s;
}
bool fst_parse(const string &b, Lattice &l) {
  size_t p = 0;
  bool ok = true;
  auto rd = [&](void *d, size_t n) {
    if (p + n > b.size()) {
      ok = false;
      memset(d, 0, n);
      return;
    }
    memcpy(d, b.data() + p, n);
    p += n;
  };
  auto i32 = [&]() { int32_t v; rd(&v, 4); return v; };
  auto i64 = [&]() { int64_t v; rd(&v, 8); return v; };
  auto str = [&]() {
    int32_t n = i32();
    if (n < 0 || p + n > b.size()) {
      ok = false;
      return string();
    }
    string s = b.substr(p, n);
    p += n;
    return s;
  };
  if (i32() != 2125659606) return false;
  if (str() != "vector" || str() != "standard") return false;
  i32();
  i32();
  i64();
  l.start = (int)i64();
  l.nstates = (int)i64();
  i64();
  l.arcs.clear();
  l.finals.clear();
  for (int s = 0; ok && s < l.nstates; s++) {
    float f;
    rd(&f, 4);
    if (!std::isinf(f)) l.finals.insert(s);
    int64_t n = i64();
    for (int64_t k = 0; ok && k < n; k++) {
      Lattice::A a;
      a.from = s;
      a.label = i32();
      i32();
      float w;
      rd(&w, 4);
      l.weighted |= w != 0;
      a.to = i32();
      l.arcs.push_back(a);
    }
  }
  return ok;
}
void check_lattice(Inputs &in, const Sbs &s, Viols &v) {
  set<int> at{in.lat.start};
  auto close = [&]() {
    for (bool more = true; more;) {
      more = false;
      for (auto &a : in.lat.arcs)
        if (a.label == 0 && at.count(a.from) && at.insert(a.to).second) more = true;
    }
  };
  close();
  size_t k = 0;
  for (auto &r : s.rows) {
    if (r.hyp == "<del>") continue;
    set<int> nx;
    for (auto &a : in.lat.arcs)
      if (a.label != 0 && at.count(a.from)) {
        auto it = in.lat.syms.find(a.label);
        if (it != in.lat.syms.end() && it->second == r.hyp) nx.insert(a.to);
      }
    at.swap(nx);
    close();
    if (at.empty()) {
      v.push_back({"lattice-path", "hypothesis word " + S(k) + " '" + r.hyp + "' continues no path of the lattice"});
      return;
    }
    k++;
  }
  bool fin = false;
  for (int x : at) fin |= in.lat.finals.count(x) > 0;
  if (!fin) v.push_back({"lattice-incomplete", "the hypothesis words stop before a final state of the lattice"});
}
// smallest number of edits between any lattice path and any permitted wording
int lattice_min_edits(Inputs &in) {
  // Dijkstra-like relaxation over (graph state, lattice state); both acyclic in our cases
  int n = (int)in.g.out.size(), m = in.lat.nstates;
  const int INF = INT_MAX / 4;
  vector<int> d(n * m, INF);
  vector<vector<Lattice::A>> la(m);
  for (auto &a : in.lat.arcs)
    if (a.from >= 0 && a.from < m && a.to >= 0 && a.to < m) la[a.from].push_back(a);
  vector<vector<int>> bucket(n + m + 2);
  auto push = [&](int g, int l, int c) {
    if (c < d[g * m + l]) {
      d[g * m + l] = c;
      if (c < (int)bucket.size()) bucket[c].push_back(g * m + l);
    }
  };
  push(in.g.start, in.lat.start, 0);
  for (size_t c = 0; c < bucket.size(); c++)
    for (size_t k = 0; k < bucket[c].size(); k++) {
      int x = bucket[c][k];
      if (d[x] != (int)c) continue;
      int g = x / m, l = x % m;
      if (g == in.g.end && in.lat.finals.count(l)) return (int)c;
      for (auto &e : in.g.out[g]) {
        push(e.to, l, (int)c + (e.w >= 0));
        if (e.w >= 0)
          for (auto &a : la[l])
            if (a.label) {
              auto it = in.lat.syms.find(a.label);
              int w = it == in.lat.syms.end() ? -2 : in.id(it->second);
              push(e.to, a.to, (int)c + (w != e.w));
            }
      }
      for (auto &a : la[l]) push(g, a.to, (int)c + (a.label != 0));
    }
  return INF;
}
