#include "gen.h"

#include <algorithm>

using std::map;
using std::set;
using std::string;
using std::vector;

template <class T>
static const T &pick(Rng &r, const vector<T> &v) { return v[r.below((int64_t)v.size())]; }
static string num(double x, int d) {
  char b[64];
  snprintf(b, sizeof b, "%.*f", d, x);
  return b;
}
static bool is_safe(const string &w) {  // usable as a word of a rule
  return w.find_first_of("|;") == string::npos && w[0] != '-' && w[0] != '#';
}

// ------------------------------------------------------------------ words
static string letters(Rng &r, int n) {
  string s;
  for (int i = 0; i < n; i++) s += (char)('a' + r.below(26));
  return s;
}
static string mkword(Rng &r, int spice) {
  static const vector<string> uni = {"caf\xc3\xa9", "na\xc3\xafve", "\xc3\x89" "COLE", "stra\xc3\x9f" "e", "\xc3\xbc" "ber",
                                     "\xd0\xbf\xd1\x80\xd0\xb8\xd0\xb2\xd0\xb5\xd1\x82", "\xd0\x9c\xd0\x9e\xd0\xa1\xd0\x9a\xd0\x92\xd0\x90",
                                     "\xe6\x97\xa5\xe6\x9c\xac", "\xf0\x9f\x98\x80", "\xc4\x8d" "aj", "\xc5\xa0" "koda", "\xce\xb4\xce\xb5\xce\xbd"};
  static const vector<string> odd = {"don't", "i'm", "o'clock", "$10", "10%", "50$", "3.5", "{}", "{0}", "%s", "%n", "\"quoted\"",
                                     "a&b", "c++", "x/y", "(uh)", "e@mail.com", "\\back", "1,000", "<laugh>", "<crosstalk>", "u.s.",
                                     "mr.", "*", "&", "''", "_x_", "==", "a=b", "#tag", "~", "`", "^", "[x]", "null", "true", "0", "-0x",
                                     "c#", "a#b", "<unk>", "<laugh>s", "<a>b>", "<>", "<v:x>y", "no.#5", "<x", "y>", ">",
                                     "ins", "del", "sub", "eps", "inside", "delta", "subway", "<begins>", "<model-del>", "begins>", "del>"};
  if (r.p(spice * 0.06)) {
    switch (r.below(6)) {
      case 0: return pick(r, uni);
      case 1: {
        string w = pick(r, odd);
        return w[0] == '-' ? string("dash") : w;
      }
      case 2: return letters(r, (int)r.range(1, 4)) + "-" + letters(r, (int)r.range(1, 4)) + (r.p(.3) ? "-" + letters(r, 2) : "");
      case 3: return letters(r, (int)r.range(1, 4)) + "-";
      case 4: return letters(r, (int)r.range(21, 60));
      default: {
        string w = letters(r, (int)r.range(1, 6));
        if (r.p(.5)) w[0] -= 32;
        else for (auto &c : w) c -= 32;
        return w;
      }
    }
  }
  return letters(r, (int)r.range(1, r.p(.5) ? 2 : 7));
}
static vector<string> mkvocab(Rng &r, int n, int spice) {
  vector<string> v;
  while ((int)v.size() < n) v.push_back(mkword(r, spice));
  // families that interact: compounds with their halves, cutoffs with their stems
  if (spice && r.p(.5)) {
    string a = letters(r, 2), b = letters(r, 3);
    v.push_back(a + "-" + b);
    v.push_back(a);
    v.push_back(b);
    v.push_back(a + "-");
  }
  return v;
}
static string recase(Rng &r, const string &w) {
  string s = w;
  switch (r.below(4)) {
    case 0: if (!s.empty() && s[0] >= 'a' && s[0] <= 'z') s[0] -= 32; break;
    case 1: for (auto &c : s) if (c >= 'a' && c <= 'z') c -= 32; break;
    default: break;
  }
  return s;
}

// ------------------------------------------------------------------ rendering
static string render_txt(Rng &r, const Words &w) {
  string t;
  bool crlf = r.p(.1);
  int style = (int)r.below(3);
  if (r.p(.05)) t += "  ";
  for (size_t i = 0; i < w.size(); i++) {
    if (i) {
      if (style == 0) t += " ";
      else if (style == 1) t += crlf ? "\r\n" : "\n";
      else t += r.p(.1) ? (crlf ? "\r\n" : "\n") : r.p(.1) ? "  " : r.p(.05) ? "\t" : r.p(.02) ? (r.p(.5) ? "\f" : "\v") : " ";
    }
    t += w[i];
  }
  if (!r.p(.3)) t += crlf ? "\r\n" : "\n";
  return t;
}
// a decimal number in any of the forms the tools emit
static string anynum(Rng &r, double x, int d) {
  if (!r.p(.04)) return num(x, d);
  string s = num(x, d);
  switch (r.below(4)) {
    case 0: return num(x, 0);
    case 1: return s[0] == '0' && s.size() > 2 ? s.substr(1) : "0" + s;
    case 2: return num(x * 10, d) + "e-1";
    default: return s + "0";
  }
}
static string render_ctm(Rng &r, const Words &w) {
  string t;
  bool conf = r.p(.5), crlf = r.p(.05);
  string rec = "rec";
  if (r.p(.15)) rec = pick(r, vector<string>{";rec", "#rec", "//rec", "'rec'", "\"rec", "a|b", "rec.wav", "%1", "\xc3\xa9t\xc3\xa9"});
  double at = r.p(.2) ? 3600 : r.p(.1) ? 86400.5 : 0;
  for (size_t i = 0; i < w.size(); i++) {
    double d = r.range(1, 90) / 100.0;
    t += rec + string(r.p(.1) ? "_2" : "") + " " + (r.p(.8) ? "1" : "A") + " " + anynum(r, at, (int)r.range(1, 3)) + " " + anynum(r, d, (int)r.range(2, 3)) + " " + w[i];
    if (conf) t += " " + num(r.range(0, 100) / 100.0, 2);
    t += crlf ? "\r\n" : "\n";
    if (r.p(.01)) t += "\n";
    at += d + r.range(0, 30) / 100.0;
  }
  if (!crlf && !t.empty() && t.back() == '\n' && r.p(.15)) t.pop_back();
  return t;
}
struct RRow { string token, speaker, ts, endTs, punct, prepunct, casing, tags = "[]", wtags = "[]", conf; };
static string render_nlp(Rng &r, const vector<RRow> &rows, bool tail_nl = true) {
  vector<string> cols = {"token", "speaker", "ts", "endTs", "punctuation", "case", "tags", "wer_tags"};
  if (r.p(.3)) cols.insert(cols.begin() + 5, "prepunctuation");
  if (r.p(.3)) { cols.push_back("ali_comment"); cols.push_back("oldTs"); cols.push_back("oldEndTs"); }
  if (r.p(.3)) cols.push_back("confidence");
  if (r.p(.15)) cols.push_back("extra");
  if (r.p(.15))
    for (size_t i = cols.size(); i > 1; i--) std::swap(cols[i - 1], cols[r.below((int64_t)i)]);
  bool crlf = r.p(.05);
  string t = r.p(.03) ? "\xEF\xBB\xBF" : "", nl = crlf ? "\r\n" : "\n";
  for (size_t i = 0; i < cols.size(); i++) t += (i ? "|" : "") + cols[i];
  t += nl;
  for (auto &w : rows) {
    for (size_t i = 0; i < cols.size(); i++) {
      const string &c = cols[i];
      if (i) t += "|";
      if (c == "token") t += w.token;
      else if (c == "speaker") t += w.speaker;
      else if (c == "ts") t += w.ts;
      else if (c == "endTs") t += w.endTs;
      else if (c == "punctuation") t += w.punct;
      else if (c == "prepunctuation") t += w.prepunct;
      else if (c == "case") t += w.casing;
      else if (c == "tags") t += w.tags;
      else if (c == "wer_tags") t += w.wtags;
      else if (c == "confidence") t += w.conf;
      else if (c == "oldTs") t += w.ts.empty() ? "" : "1.0";
      else if (c == "extra") t += "x";
    }
    t += nl;
  }
  if (!tail_nl && !t.empty()) t.erase(t.size() - nl.size());
  return t;
}

// ------------------------------------------------------------------ hypotheses
static vector<string> walk(Rng &r, Inputs &in, double follow) {
  vector<string> name(in.ids.size());
  for (auto &p : in.ids) name[p.second] = p.first;
  vector<string> w;
  int s = in.g.start;
  while (s != in.g.end) {
    auto &o = in.g.out[s];
    if (o.empty()) break;
    const Graph::E &e = r.p(follow) ? o[0] : o[r.below((int64_t)o.size())];
    if (e.w >= 0) w.push_back(name[e.w]);
    s = e.to;
  }
  return w;
}
static Words edit(Rng &r, const Words &w, double rate, const vector<string> &voc) {
  Words o;
  auto word = [&]() { return r.p(.7) && !voc.empty() ? pick(r, voc) : mkword(r, 1); };
  for (size_t i = 0; i < w.size(); i++) {
    if (r.p(rate)) {
      switch (r.below(5)) {
        case 0: break;
        case 1: o.push_back(word()); break;
        case 2: o.push_back(w[i]); for (int k = (int)r.range(1, 3); k > 0; k--) o.push_back(word()); break;
        case 3: o.push_back(w[i]); o.push_back(w[i]); break;
        default: if (i + 1 < w.size()) { o.push_back(w[i + 1]); o.push_back(w[i]); i++; } else o.push_back(word());
      }
    } else
      o.push_back(w[i]);
  }
  if (r.p(rate / 2)) o.insert(o.begin(), word());
  if (r.p(rate / 2)) o.push_back(word());
  if (r.p(rate / 3) && o.size() > 3) {  // drop or repeat a stretch
    size_t a = r.below((int64_t)o.size()), n = std::min<size_t>(o.size() - a, (size_t)r.range(2, 15));
    if (r.p(.5)) o.erase(o.begin() + a, o.begin() + a + n);
    else { Words seg(o.begin() + a, o.begin() + a + n); o.insert(o.begin() + a, seg.begin(), seg.end()); }
  }
  return o;
}

static void gen_lattice(Rng &r, Inputs &in, const vector<string> &voc, Test &t, const string &sym, const string &fst) {
  vector<string> name(in.ids.size());
  for (auto &p : in.ids) name[p.second] = p.first;
  Lattice l;
  set<string> all;
  vector<Words> slots;
  int n = (int)r.range(0, 12);
  Words base = walk(r, in, .9);
  bool follow = r.p(.7);
  if (follow) n = (int)std::min<size_t>(base.size(), r.p(.8) ? 14 : 32);
  int inner_final = 0;
  if (follow && n > 0 && (size_t)n == base.size() && r.p(.25)) {  // the reference ends before the lattice does
    inner_final = n;
    n += (int)r.range(1, 2);
  }
  for (int i = 0; i < n; i++) {
    Words s;
    for (int k = (int)r.range(1, 3); k > 0; k--) s.push_back(pick(r, voc));
    if (follow && (size_t)i < base.size()) s[0] = base[i];
    slots.push_back(s);
  }
  // a chain of slots with parallel arcs, skips and an occasional second branch
  l.nstates = n + 1;
  l.start = 0;
  for (int i = 0; i < n; i++) {
    set<string> u(slots[i].begin(), slots[i].end());
    for (auto &w : u) all.insert(w);
  }
  vector<string> extra;
  for (int i = 0; i < 3; i++) extra.push_back(mkword(r, 1));
  for (auto &w : extra) all.insert(w);
  map<string, int> id;
  // symbol file: <eps> first, then the words; the program adds its own
  string st = "<eps>\t0\n";
  int k = 1;
  for (auto &w : all) {
    id[w] = k;
    st += w + (r.p(.5) ? "\t" : " ") + std::to_string(k) + "\n";
    k++;
  }
  for (int i = 0; i < n; i++) {
    set<string> u(slots[i].begin(), slots[i].end());
    for (auto &w : u) l.arcs.push_back({i, i + 1, id[w]});
    if (i + 2 <= n && r.p(.15)) l.arcs.push_back({i, i + 2, id[pick(r, extra)]});
    if (r.p(.1)) {  // detour of two words
      int m = l.nstates++;
      l.arcs.push_back({i, m, id[pick(r, extra)]});
      l.arcs.push_back({m, i + 1, id[pick(r, extra)]});
    }
    if (r.p(.04)) l.nstates++, l.arcs.push_back({i, l.nstates - 1, id[pick(r, extra)]});  // dead end
  }
  l.finals.insert(n);
  if (n > 2 && r.p(.15)) l.finals.insert(n - 1);
  if (inner_final) l.finals.insert(inner_final);
  if (r.p(.2))  // silent transitions
    for (int i = 0; i < n; i++)
      if (r.p(.2)) l.arcs.push_back({i, i + 1, 0});
  if (r.p(.3)) {  // states in any order
    vector<int> to(l.nstates);
    for (int i = 0; i < l.nstates; i++) to[i] = i;
    for (int i = l.nstates; i > 1; i--) std::swap(to[i - 1], to[r.below(i)]);
    for (auto &a : l.arcs) a.from = to[a.from], a.to = to[a.to];
    l.start = to[l.start];
    set<int> f;
    for (int x : l.finals) f.insert(to[x]);
    l.finals = f;
  }
  vector<float> wt;
  bool weighted = r.p(.15);
  for (size_t i = 0; i < l.arcs.size(); i++) wt.push_back(weighted ? r.below(40) / 8.0f : 0);
  t.files[sym] = st;
  t.files[fst] = fst_binary(l, &wt);
}

// ------------------------------------------------------------------ cases
void gen_case(Rng &r, const GenOpt &g, Test &t) {
  int spice = (int)r.below(4);
  if (g.permitted) spice = std::max(spice, 1);
  vector<string> voc = mkvocab(r, (int)pick(r, vector<int>{2, 4, 10, 40, 150}), spice);
  int n;
  switch (r.below(10)) {
    case 0: n = (int)r.range(0, 2); break;
    case 1: case 2: case 3: n = (int)r.range(2, 10); break;
    case 4: case 5: case 6: n = (int)r.range(11, 30); break;
    case 7: case 8: n = (int)r.range(20, 80); break;
    default: n = (int)r.range(60, g.maxwords); break;
  }
  n = std::min(n, g.maxwords);
  if (g.big == 1) {
    voc.clear();
    int k = (int)r.range(30, 120);
    while (k-- > 0) voc.push_back(letters(r, (int)r.range(60, 400)));
    n = (int)r.range(200, 600);
  } else if (g.big == 2) {
    voc = mkvocab(r, 300, 1);
    n = (int)r.range(300, 1200);
  } else if (g.big == 3) {  // an hour of speech
    voc = mkvocab(r, 900, 1);
    if (r.p(.2)) voc = mkvocab(r, (int)r.range(2, 5), 1);  // the same few words over and over
    else if (r.p(.4))  // some words much more often than others
      for (int k = (int)pick(r, vector<int>{60, 300, 2000}); k > 0; k--) voc.push_back(voc[r.below(4)]);
    n = (int)r.range(1300, 3500);
  }
  bool use_case = !g.align && r.p(.12), use_punct = !g.align && r.p(.2);
  int rk = g.ref >= 0 ? g.ref : (int)pick(r, vector<int>{TXT, CTM, NLP, NLP, NLP});
  int hk = g.hyp >= 0 ? g.hyp : (int)pick(r, vector<int>{TXT, CTM, CTM, NLP});
  string refp = string("/sim/ref.") + (rk == TXT ? (r.p(.1) ? "words" : "txt") : rk == CTM ? (r.p(.1) ? "Ctm" : "ctm") : r.p(.1) ? "NLP" : "nlp");
  string hypp = g.lattice ? "/sim/hyp.fst" : string("/sim/hyp.") + (hk == TXT ? "txt" : hk == CTM ? (r.p(.1) ? "CTM" : "ctm") : r.p(.1) ? "Nlp" : "nlp");
  bool fresh = g.permitted;  // every reference word different, so that no wording is permitted by accident
  int counter = 0;
  auto newword = [&]() {
    string w = letters(r, 2) + "q" + std::to_string(counter++);
    if (r.p(.03)) w += r.p(.5) ? "#" : "'s";
    return w;
  };
  auto refword = [&]() {
    if (!fresh) return pick(r, voc);
    if (r.p(.1)) return newword() + "-";
    if (r.p(.12)) return newword() + "-" + newword() + (r.p(.3) ? "-" + newword() : "");
    return newword();
  };
  Words plain;  // words that rules may start from
  vector<Words> inner;  // wordings of entities that rules may start from
  J norm = J::obj(), side = J::obj();
  bool have_norm = false;
  vector<std::pair<string, Words>> ents;
  if (rk == NLP) {
    vector<RRow> rows;
    static const vector<string> labels = {"CARDINAL", "ORDINAL", "MONEY", "DATE", "ORG", "DATE_RANGE", "FALSE_START"};
    double pent = g.big ? .03 : pick(r, vector<double>{0, .05, .2, .5}), ppun = pick(r, vector<double>{0, .1, .3}),
           pwt = pick(r, vector<double>{0, .1, .4}), pswitch = pick(r, vector<double>{0, .03, .15, .5});
    double reuse = pick(r, vector<double>{0, 0, 0, .1, .4});
    int eid = (int)r.below(3), spk = 1, nspk = (int)r.range(1, 4), wtn = (int)r.range(1, 4);
    bool times = r.p(.3);
    double at = 0;
    string speaker = "1";
    vector<string> names = {"1", "2", "spk3", "Jane_Doe", "\xc3\x89ric"};
    if (r.p(.25)) names = {"1", "10", "11", "1a", "2"};  // names that begin alike
    while ((int)rows.size() < n) {
      if (r.p(pswitch)) {
        spk = (int)r.below(nspk + 1);
        speaker = names[spk];
      }
      int len = 1;
      string label, tags = "[]";
      if (r.p(pent)) {
        len = (int)pick(r, vector<int>{1, 1, 2, 3});
        string id = std::to_string(eid);
        eid += (int)r.range(1, 3);
        label = id + ":" + pick(r, labels);
        if (!ents.empty() && r.p(reuse)) {  // an entity in several parts, or an id used again
          label = pick(r, ents).first;
          if (r.p(.15)) label = label.substr(0, label.find(':') + 1) + pick(r, labels);
          if (rows.back().tags.compare(0, label.size() + 3, "['" + label + "'") == 0) label = id + ":" + pick(r, labels);
        }
        tags = "['" + label + "'";
        if (r.p(.15)) tags += (r.p(.5) ? ", '" : ",'") + std::to_string(eid + 500) + ":" + pick(r, labels) + "'";
        tags += "]";
      }
      string wt = "[]";
      if (r.p(pwt)) {
        string a = std::to_string(r.range(1, wtn));
        wt = "['" + a + "'";
        if (r.p(.3)) wt += ", '" + std::to_string(r.range(wtn + 1, wtn + 3)) + "'";
        wt += "]";
      }
      Words ew;
      for (int k = 0; k < len; k++) {
        RRow w;
        w.token = refword();
        if (!use_case && r.p(.2)) w.token = recase(r, w.token);
        if (label.empty() && !fresh && r.p(.01 * spice)) w.token = r.p(.5) ? "<foreign:fr>" : "<laugh>";
        if (label.empty()) plain.push_back(w.token);
        ew.push_back(w.token);
        if (k && r.p(pswitch / 4)) speaker = names[spk = (int)r.below(nspk + 1)];
        w.speaker = speaker;
        if (times) {
          w.ts = num(at, 2);
          w.endTs = num(at + .2, 2);
          at += .3;
          if (r.p(.05)) w.ts = "";
          if (r.p(.05)) w.endTs = "";
        }
        bool inner = len > 1 && k + 1 < len;
        if (r.p(ppun) && !(inner && use_punct)) {
          static const vector<string> any = {",", ".", "?", "!", ";", ":", "..."}, mid = {",", ";", ":"};
          w.punct = inner ? pick(r, mid) : pick(r, any);
        }
        if (r.p(.05)) w.prepunct = "\"";
        w.casing = r.p(.7) ? "LC" : r.p(.5) ? "UC" : r.p(.5) ? "CA" : "";
        w.tags = tags;
        w.wtags = r.p(.9) ? wt : string("['") + std::to_string(r.range(1, wtn)) + "']";
        if (r.p(.5)) w.conf = num(r.range(0, 100) / 100.0, 2);
        rows.push_back(w);
      }
      if (!label.empty()) ents.push_back({label, ew});
    }
    t.files[refp] = render_nlp(r, rows);
    if (!ents.empty() && (r.p(.75) || fresh)) {
      have_norm = true;
      for (auto &e : ents) {
        if (r.p(.2)) continue;
        J c = J::arr();
        int nc = r.p(.05) ? (int)r.range(4, 12) : (int)r.range(0, 3);
        for (int k = 0; k < nc; k++) {
          J v = J::arr();
          int m = r.p(.05) ? (int)r.range(5, 8) : (int)r.range(1, 4);
          if (k && r.p(.25)) {  // begins like an earlier one
            const J &e0 = c.a[r.below(k)].at("verbalization");
            for (size_t x = 0; x < e0.a.size() && (x == 0 || r.p(.5)); x++) v.push(J(e0.a[x].s));
          }
          for (int x = 0; x < m; x++) {
            string w = fresh ? newword() : r.p(.3) ? pick(r, e.second) : pick(r, voc);
            if (fresh && r.p(.1)) w += "-" + newword();
            v.push(J(r.p(.1) && !use_case ? recase(r, w) : w));
          }
          J cc = J::obj();
          Words cw;
          for (auto &x : v.a) cw.push_back(x.s);
          if (r.p(.3)) inner.push_back(cw);
          cc.set("probability", J(0.5));
          cc.set("verbalization", v);
          c.push(cc);
        }
        J o = J::obj();
        o.set("candidates", c);
        o.set("class", J(e.first.substr(e.first.find(':') + 1)));
        norm.set(e.first.substr(0, e.first.find(':')), o);
      }
      if (r.p(.2)) norm.set("99999", J::obj().set("candidates", J::arr()));
    }
    double known = pick(r, vector<double>{.8, .8, .8, .15});
    for (int k = 1; k <= wtn + 3; k++)
      if (r.p(known)) side.set(std::to_string(k), J::obj().set("entity_type", J(r.p(.2) ? string("GEOPOLITICAL_OR_OTHER_NAME") : pick(r, labels))));
  } else {
    Words w;
    for (int k = 0; k < n; k++) w.push_back(refword());
    plain = w;
    Words shown = w;
    if (!use_case)
      for (auto &x : shown)
        if (r.p(.15)) x = recase(r, x);
    t.files[refp] = rk == TXT ? render_txt(r, shown) : render_ctm(r, shown);
  }
  // synonym rules
  string rules;
  if (r.p(g.permitted ? .7 : .35)) {
    int k = r.p(.03) ? (int)r.range(20, 80) : (int)r.range(1, g.permitted ? 10 : 6);
    for (int i = 0; i < k; i++) {
      if (r.p(.1)) rules += "# comment | nothing\n";
      if (r.p(.05)) rules += "\n";
      if (r.p(.03)) rules += "a malformed line\n";
      Words lhs;
      if (!inner.empty() && r.p(.25)) {
        const Words &c = pick(r, inner);
        size_t a = r.p(.6) ? 0 : r.below((int64_t)c.size());
        for (int x = (int)pick(r, vector<int>{1, 1, 2, 3}); x > 0 && a < c.size(); x--, a++) lhs.push_back(use_case ? c[a] : lower_utf8(c[a]));
      } else if (!plain.empty() && r.p(.85)) {
        size_t a = r.below((int64_t)plain.size());
        for (int x = r.p(.05) ? (int)r.range(4, 5) : (int)pick(r, vector<int>{1, 1, 2, 3}); x > 0 && a < plain.size(); x--, a++)
          lhs.push_back(use_case ? plain[a] : lower_utf8(plain[a]));
      } else
        lhs.push_back(use_case ? pick(r, voc) : lower_utf8(pick(r, voc)));
      bool ok = true;
      for (auto &w : lhs) ok &= is_safe(w);
      if (!ok) continue;
      string l, rhs;
      for (auto &w : lhs) l += (l.empty() ? "" : r.p(.05) ? "  " : " ") + w;
      int alts = r.p(.05) ? (int)r.range(4, 12) : (int)pick(r, vector<int>{1, 1, 2, 3});
      string sep = "";
      for (int x = 0; x < alts; x++) {
        string a;
        for (int y = r.p(.05) ? (int)r.range(4, 6) : (int)r.range(1, 3); y > 0; y--) {
          string w = fresh ? newword() : lower_utf8(pick(r, voc));
          if (fresh && r.p(.03)) w += "#" + std::to_string(r.below(3));
          if (!is_safe(w)) w = "zz";
          if (r.p(.02)) w = "#" + w;
          a += (a.empty() ? "" : " ") + w;
        }
        rhs += sep + a;
        sep = r.p(.5) ? " ; " : ";";
      }
      rules += l + (r.p(.5) ? " | " : r.p(.5) ? "|" : "   |  ") + rhs + "\n";
    }
    if (r.p(.05)) {  // a file from another platform
      string x;
      for (char c : rules) x += c == '\n' ? string("\r\n") : string(1, c);
      rules = x;
    }
    if (r.p(.2) && !rules.empty() && rules.back() == '\n') rules.pop_back();
  }
  // options that shape the permitted wordings
  t.argv = {"fstalign", g.align ? "align" : "wer", "--ref", refp, "--hyp", hypp};
  auto opt = [&](const string &o) { t.argv.push_back(o); };
  auto optv = [&](const string &o, const string &v) { t.argv.push_back(o); t.argv.push_back(v); };
  if (use_case) opt("--use-case");
  if (use_punct) opt("--use-punctuation");
  if (r.p(.15)) opt("--disable-cutoffs");
  if (r.p(.15)) opt("--disable-hyphen-ignore");
  if (!rules.empty()) {
    optv("--syn", "/sim/syn.txt");
    t.files["/sim/syn.txt"] = rules;
  }
  if (have_norm) {
    optv("--ref-json", "/sim/norm.json");
    t.files["/sim/norm.json"] = norm.str(r.p(.5) ? 1 : -1) + (r.p(.5) ? "\n" : "");
  }
  if (rk == NLP && !g.align && !side.o.empty() && r.p(.5)) {
    optv("--wer-sidecar", "/sim/side.json");
    t.files["/sim/side.json"] = side.str(r.p(.5) ? 1 : -1) + "\n";
  }
  if (!g.lattice && r.p(.07)) {  // a symbols file as the common starting point
    set<string> sy;
    for (int k = (int)r.below(12); k > 0; k--) {
      string w = r.p(.8) && !plain.empty() ? pick(r, plain) : pick(r, voc);
      if (r.p(.7)) w = lower_utf8(w);
      if (w[0] != '<' && w.find_first_of(" \t") == string::npos && !w.empty() && w.find("___") == string::npos) sy.insert(w);
    }
    for (auto &w : {"<unk>", "<ins>", "<sub>", "<oov>", "extra", "Extra", "never-said"})
      if (r.p(.2)) sy.insert(w);
    vector<string> v(sy.begin(), sy.end());
    for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below((int64_t)i)]);
    int64_t id = 1;
    string st = r.p(.8) ? "<eps> 0\n" : r.p(.5) ? "<epsilon>\t0\n" : "";
    bool sparse = r.p(.5);
    for (auto &w : v) {
      st += w + (r.p(.5) ? "\t" : " ") + std::to_string(id) + "\n";
      id += sparse ? r.p(.1) ? r.range(1000, 90000) : r.range(1, 9) : 1;
    }
    if (!st.empty()) {
      optv("--symbols", "/sim/symbols.txt");
      t.files["/sim/symbols.txt"] = st;
    }
  }
  // the hypothesis
  vector<string> av = t.argv;
  for (auto &a : av)
    if (a == hypp) a = "/sim/empty.txt";
  map<string, string> fv = t.files;
  fv["/sim/empty.txt"] = "";
  Inputs in = read_inputs(av, fv);
  double rate = g.errs >= 0 ? g.errs : pick(r, vector<double>{0, .02, .1, .1, .3, .6, 1});
  if (g.big) rate = g.big == 3 ? pick(r, vector<double>{.002, .01}) : pick(r, vector<double>{0, .01, .03});
  if (g.lattice) {
    gen_lattice(r, in, voc, t, "/sim/symbols.txt", hypp);
    optv("--symbols", "/sim/symbols.txt");
    optv("--composition-approach", "standard");
    opt("--disable-approx-alignment");
  } else {
    Words h = walk(r, in, g.permitted ? .3 : pick(r, vector<double>{1, .9, .5}));
    if (g.permitted) {
      if (g.nearmiss && !h.empty()) {
        size_t k = r.below((int64_t)h.size());
        switch (r.below(4)) {
          case 0: h[k] = newword(); break;
          case 1: h.erase(h.begin() + k); break;
          case 2: h.insert(h.begin() + k, h[r.below((int64_t)h.size())]); break;
          default: if (h[k].size() > 3) h[k] = h[k].substr(0, 2) + "-" + h[k].substr(2); else h[k] += "-";
        }
      }
    } else if (r.p(.03))
      h.clear();
    else if (rate == 1 && r.p(.5)) {
      size_t m = r.below((int64_t)h.size() + 4);
      h.clear();
      for (size_t k = 0; k < m; k++) h.push_back(r.p(.5) ? pick(r, voc) : mkword(r, 1));
    } else
      h = edit(r, h, rate, voc);
    for (auto &w : h)
      if (!use_case && r.p(.1)) w = recase(r, w);
    if (hk == TXT)
      t.files[hypp] = render_txt(r, h);
    else if (hk == CTM) {
      t.files[hypp] = render_ctm(r, h);
    } else {
      vector<RRow> rows;
      bool times = r.p(.6);
      double at = 0;
      for (size_t k = 0; k < h.size(); k++) {
        static const set<string> marks = {",", ".", "?", "!", ";", ":", "..."};
        if (use_punct && marks.count(h[k]) && !rows.empty() && rows.back().punct.empty()) {
          rows.back().punct = h[k];
          continue;
        }
        RRow w;
        w.token = h[k];
        w.speaker = "1";
        if (times) {
          w.ts = r.p(.05) ? "" : anynum(r, at, 2);
          w.endTs = r.p(.05) ? "" : anynum(r, at + .3, 3);
          at += .4;
        }
        if (!use_punct && r.p(.1)) w.punct = r.p(.5) ? "," : ".";
        w.casing = "LC";
        if (r.p(.02)) w.tags = "['7:ORG']";
        rows.push_back(w);
      }
      t.files[hypp] = render_nlp(r, rows);
    }
    if (r.p(.3)) optv("--composition-approach", r.p(.6) || g.big == 3 ? "adapted" : "standard");
    if (g.big != 3 && r.p(.3)) opt("--disable-approx-alignment");
    if (g.big != 3 && r.p(.1)) optv("--levenstein-max-error-streak", pick(r, vector<string>{"1", "3", "10"}));
  }
  if (r.p(.1) && !g.permitted && !g.lattice) optv("--numbests", pick(r, vector<string>{"1", "3", "20"}));
  if (r.p(.2)) optv("--pr_threshold", pick(r, vector<string>{"1", "2", "3"}));
  if (!g.align) {
    if (r.p(.3)) optv("--speaker-switch-context", pick(r, vector<string>{"0", "1", "2", "3", "10", "-3"}));
    if (r.p(.25)) opt("--record-case-stats");
    if (r.p(.3)) opt("--add-inserts-nlp");
    if (g.wantjson) optv("--json-log", "/sim/report.json");
    if (g.wantsbs) optv("--output-sbs", "/sim/sbs.txt");
  } else if (g.wantsbs && r.p(.6))
    optv("--output-sbs", "/sim/sbs.txt");
  if ((g.wantnlp && rk == NLP) || g.align) optv("--output-nlp", "/sim/aligned.nlp");
  if (g.wantlog) optv("--log", "/sim/run.log");
}

bool csv_small_block_ok(const Test &t) {
  for (size_t i = 1; i + 1 < t.argv.size(); i++)
    if (t.argv[i] == "--ref" || t.argv[i] == "--hyp") {
      Kind k = kind_of(t.argv[i + 1]);
      if (k != CTM && k != NLP) continue;
      auto it = t.files.find(t.argv[i + 1]);
      if (it == t.files.end() || it->second.empty()) continue;
      size_t line = 0;
      for (char c : it->second) {
        line = c == '\n' ? 0 : line + 1;
        if (line > 200) return false;
      }
    }
  return true;
}
Env gen_env(Rng &r, bool rough) {
  Env e;
  e.seed = r.next() >> 1;
  if (!rough && r.p(.5)) return e;
  if (r.p(.7)) e.chunk = (int)r.range(1, 4);
  if (r.p(.4)) e.eintr = (int)pick(r, vector<int>{20, 200, 500});
  if (r.p(.4)) e.wshort = (int)pick(r, vector<int>{1, 7, 100, 4096});
  if (r.p(.5)) e.csv_block = (int)pick(r, vector<int>{256, 300, 512, 1024, 4096});
  e.heap_fill = (int)r.below(5);
  e.heap_shuffle = (int)r.below(2);
  e.stack_fill = (int)r.below(5);
  if (r.p(.5)) e.clock0 = pick(r, vector<int64_t>{0, 1, 86399, 951782400, 1700000000, 2147483647, 4102444800});
  if (r.p(.3)) e.clock_jump = (int)pick(r, vector<int>{10, 300});
  if (r.p(.4)) e.tz = pick(r, vector<string>{"UTC0", "EST5EDT", "XXX-14", "NST3:30"});
  if (r.p(.4)) e.lang = pick(r, vector<string>{"C", "C.UTF-8", "en_US.UTF-8", "tr_TR.UTF-8", "az_AZ.UTF-8", "lt_LT.UTF-8", "de_DE.UTF-8", "POSIX"});
  e.locale_ok = (int)r.below(2);
  e.tty = r.p(.3);
  e.sched = (int)r.below(2);
  if (r.p(.4)) e.spurious = (int)pick(r, vector<int>{50, 300});
  e.pid = (int)r.range(2, 30000);
  return e;
}
