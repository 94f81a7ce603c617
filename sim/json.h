// Minimal JSON: parser that accepts what jsoncpp writes (1e+9999, null, \u) and
// a writer for replay and evidence files.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <utility>
#include <vector>

struct J {
  enum T { NUL, BOOL, NUM, STR, ARR, OBJ } t = NUL;
  double n = 0;
  bool isint = false;
  int64_t i = 0;
  std::string s;
  std::vector<J> a;
  std::vector<std::pair<std::string, J>> o;
  J() {}
  J(double v) : t(NUM), n(v) {}
  J(int64_t v) : t(NUM), n((double)v), isint(true), i(v) {}
  J(int v) : J((int64_t)v) {}
  J(uint64_t v) : J((int64_t)v) {}
  J(bool v) : t(BOOL), n(v) {}
  J(const std::string &v) : t(STR), s(v) {}
  J(const char *v) : t(STR), s(v) {}
  static J arr() { J j; j.t = ARR; return j; }
  static J obj() { J j; j.t = OBJ; return j; }
  const J *get(const std::string &k) const {
    for (auto &p : o)
      if (p.first == k) return &p.second;
    return nullptr;
  }
  const J &at(const std::string &k) const {
    static J none;
    const J *p = get(k);
    return p ? *p : none;
  }
  J &set(const std::string &k, J v) {
    t = OBJ;
    for (auto &p : o)
      if (p.first == k) { p.second = std::move(v); return *this; }
    o.emplace_back(k, std::move(v));
    return *this;
  }
  J &push(J v) { t = ARR; a.push_back(std::move(v)); return *this; }
  bool has(const std::string &k) const { return get(k) != nullptr; }
  int64_t num(int64_t d = 0) const { return t == NUM ? (isint ? i : (int64_t)n) : t == BOOL ? (int64_t)n : d; }

  static void esc(std::string &out, const std::string &s) {
    out += '"';
    for (unsigned char c : s) {
      if (c == '"' || c == '\\') { out += '\\'; out += c; }
      else if (c == '\n') out += "\\n";
      else if (c == '\t') out += "\\t";
      else if (c == '\r') out += "\\r";
      else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); out += b; }  // bytes as latin-1
      else out += c;
    }
    out += '"';
  }
  void w(std::string &out, int ind, int depth) const {
    std::string nl = ind >= 0 ? "\n" + std::string((depth + 1) * ind, ' ') : "";
    std::string nle = ind >= 0 ? "\n" + std::string(depth * ind, ' ') : "";
    switch (t) {
      case NUL: out += "null"; break;
      case BOOL: out += n != 0 ? "true" : "false"; break;
      case NUM: {
        char b[40];
        if (isint) snprintf(b, sizeof b, "%lld", (long long)i);
        else snprintf(b, sizeof b, "%.10g", n);
        out += b;
        break;
      }
      case STR: esc(out, s); break;
      case ARR:
        out += '[';
        for (size_t k = 0; k < a.size(); k++) { if (k) out += ','; out += nl; a[k].w(out, ind, depth + 1); }
        if (!a.empty()) out += nle;
        out += ']';
        break;
      case OBJ:
        out += '{';
        for (size_t k = 0; k < o.size(); k++) {
          if (k) out += ',';
          out += nl;
          esc(out, o[k].first);
          out += ": ";
          o[k].second.w(out, ind, depth + 1);
        }
        if (!o.empty()) out += nle;
        out += '}';
        break;
    }
  }
  std::string str(int ind = 1) const { std::string s; w(s, ind, 0); return s; }
};

// bytes_mode: \u00XX means the byte XX (our own files); else UTF-8
struct JParser {
  const char *p, *e;
  bool bytes_mode, ok = true;
  JParser(const std::string &s, bool b) : p(s.data()), e(s.data() + s.size()), bytes_mode(b) {}
  void ws() { while (p < e && strchr(" \t\r\n", *p)) p++; }
  std::string str() {
    std::string r;
    p++;
    while (p < e && *p != '"') {
      if (*p != '\\') { r += *p++; continue; }
      if (++p >= e) break;
      char c = *p++;
      switch (c) {
        case 'n': r += '\n'; break;
        case 't': r += '\t'; break;
        case 'r': r += '\r'; break;
        case 'b': r += '\b'; break;
        case 'f': r += '\f'; break;
        case 'u': {
          if (e - p < 4) { ok = false; return r; }
          unsigned u = strtoul(std::string(p, 4).c_str(), nullptr, 16);
          p += 4;
          if (bytes_mode) { r += (char)u; break; }
          if (u >= 0xD800 && u < 0xDC00 && e - p >= 6 && p[0] == '\\' && p[1] == 'u') {
            unsigned v = strtoul(std::string(p + 2, 4).c_str(), nullptr, 16);
            p += 6;
            u = 0x10000 + ((u - 0xD800) << 10) + (v - 0xDC00);
          }
          if (u < 0x80) r += (char)u;
          else if (u < 0x800) { r += (char)(0xC0 | u >> 6); r += (char)(0x80 | (u & 63)); }
          else if (u < 0x10000) { r += (char)(0xE0 | u >> 12); r += (char)(0x80 | (u >> 6 & 63)); r += (char)(0x80 | (u & 63)); }
          else { r += (char)(0xF0 | u >> 18); r += (char)(0x80 | (u >> 12 & 63)); r += (char)(0x80 | (u >> 6 & 63)); r += (char)(0x80 | (u & 63)); }
          break;
        }
        default: r += c;
      }
    }
    if (p >= e) { ok = false; return r; }
    p++;
    return r;
  }
  J val(int d = 0) {
    J j;
    ws();
    if (p >= e || d > 200) { ok = false; return j; }
    if (*p == '{') {
      j.t = J::OBJ;
      p++;
      ws();
      if (p < e && *p == '}') { p++; return j; }
      while (ok) {
        ws();
        if (p >= e || *p != '"') { ok = false; break; }
        std::string k = str();
        ws();
        if (p >= e || *p != ':') { ok = false; break; }
        p++;
        J v = val(d + 1);
        j.o.emplace_back(k, std::move(v));
        ws();
        if (p < e && *p == ',') { p++; continue; }
        if (p < e && *p == '}') { p++; break; }
        ok = false;
      }
    } else if (*p == '[') {
      j.t = J::ARR;
      p++;
      ws();
      if (p < e && *p == ']') { p++; return j; }
      while (ok) {
        j.a.push_back(val(d + 1));
        ws();
        if (p < e && *p == ',') { p++; continue; }
        if (p < e && *p == ']') { p++; break; }
        ok = false;
      }
    } else if (*p == '"') {
      j.t = J::STR;
      j.s = str();
    } else if (e - p >= 4 && !strncmp(p, "null", 4)) {
      p += 4;
    } else if (e - p >= 4 && !strncmp(p, "true", 4)) {
      j = J(true);
      p += 4;
    } else if (e - p >= 5 && !strncmp(p, "false", 5)) {
      j = J(false);
      p += 5;
    } else {
      const char *q = p;
      while (p < e && strchr("+-0123456789.eE", *p)) p++;
      if (p == q) { ok = false; return j; }
      std::string n(q, p);
      j.t = J::NUM;
      j.n = strtod(n.c_str(), nullptr);
      if (n.find_first_of(".eE") == std::string::npos) { j.isint = true; j.i = strtoll(n.c_str(), nullptr, 10); }
    }
    return j;
  }
  bool parse(J &out) {
    out = val();
    ws();
    return ok && p == e;
  }
};
inline bool jparse(const std::string &s, J &out, bool bytes_mode = false) { JParser p(s, bytes_mode); return p.parse(out); }
