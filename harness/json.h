// Independent JSON (RFC 8259) parser and the meaning of JSON text for a template.  No code of mFAST is used here.
#pragma once
#include "model.h"
#include <string>
#include <vector>

namespace js {
using namespace mdl;

struct JV {
  enum K { NUL, TRUE_, FALSE_, NUM, STR, ARR, OBJ } k = NUL;
  std::string s;                                 // NUM: as written; STR: bytes
  bool odd = false;                              // STR: a lone surrogate or invalid UTF-8
  std::vector<JV> items;                         // ARR
  std::vector<std::pair<JV, JV>> members;        // OBJ
  size_t from = 0, to = 0;                       // where it stands in the text
};

// ok: complete text; more: a proper prefix of some JSON text; bad: neither
enum Verdict { OK, MORE, BAD };

struct Parser {
  const std::string &t;
  size_t p = 0;
  bool allow_odd_utf8 = true;
  explicit Parser(const std::string &x) : t(x) {}
  bool more = false;
  bool end() const { return p >= t.size(); }
  bool fail() { if (end()) more = true; return false; }
  void ws() {
    while (!end() && (t[p] == ' ' || t[p] == '\t' || t[p] == '\n' || t[p] == '\r')) ++p;
  }
  bool word(const char *w) {
    for (; *w; ++w, ++p)
      if (end() || t[p] != *w) return fail();
    return true;
  }
  static void utf8(uint32_t c, std::string &o) {
    if (c < 0x80) o += (char)c;
    else if (c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); }
    else if (c < 0x10000) { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
    else { o += (char)(0xF0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
  }
  static bool valid_utf8(const std::string &s) {
    for (size_t k = 0; k < s.size();) {
      unsigned char c = s[k];
      size_t n = c < 0x80 ? 1 : c >= 0xC2 && c < 0xE0 ? 2 : c >= 0xE0 && c < 0xF0 ? 3 : c >= 0xF0 && c < 0xF5 ? 4 : 0;
      if (!n || k + n > s.size()) return false;
      uint32_t v = n == 1 ? c : c & (0xFF >> (n + 1));
      for (size_t j = 1; j < n; ++j) {
        unsigned char d = s[k + j];
        if ((d & 0xC0) != 0x80) return false;
        v = v << 6 | (d & 63);
      }
      if ((n == 3 && (v < 0x800 || (v >= 0xD800 && v < 0xE000))) || (n == 4 && (v < 0x10000 || v > 0x10FFFF))) return false;
      k += n;
    }
    return true;
  }
  bool hex4(uint32_t &v) {
    v = 0;
    for (int k = 0; k < 4; ++k, ++p) {
      if (end()) return fail();
      char c = t[p];
      int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
      if (d < 0) return false;
      v = v * 16 + d;
    }
    return true;
  }
  bool str(JV &v) {
    v.k = JV::STR;
    v.from = p;
    if (end() || t[p] != '"') return fail();
    ++p;
    uint32_t hi = 0;  // pending high surrogate
    auto flush = [&] { if (hi) { utf8(hi, v.s); v.odd = true; hi = 0; } };
    for (;;) {
      if (end()) return fail();
      unsigned char c = t[p++];
      if (c == '"') break;
      if (c < 0x20) return false;
      if (c != '\\') { flush(); v.s += (char)c; continue; }
      if (end()) return fail();
      c = t[p++];
      const char *a = "\"\\/bfnrt", *b = "\"\\/\b\f\n\r\t";
      if (c == 'u') {
        uint32_t x;
        if (!hex4(x)) return false;
        if (hi && x >= 0xDC00 && x < 0xE000) { utf8(0x10000 + ((hi - 0xD800) << 10) + (x - 0xDC00), v.s); hi = 0; continue; }
        flush();
        if (x >= 0xD800 && x < 0xDC00) hi = x;
        else { if (x >= 0xDC00 && x < 0xE000) v.odd = true; utf8(x, v.s); }
        continue;
      }
      const char *q = c ? strchr(a, c) : nullptr;
      if (!q) return false;
      flush();
      v.s += b[q - a];
    }
    flush();
    if (!valid_utf8(v.s)) v.odd = true;
    v.to = p;
    return true;
  }
  bool digits() {
    if (end() || !isdigit((unsigned char)t[p])) return fail();
    while (!end() && isdigit((unsigned char)t[p])) ++p;
    return true;
  }
  bool num(JV &v) {
    v.k = JV::NUM;
    size_t b = p;
    if (t[p] == '-') ++p;
    if (end()) return fail();
    if (t[p] == '0') ++p;
    else if (!digits()) return false;
    if (!end() && t[p] == '.') { ++p; if (!digits()) return false; }
    if (!end() && (t[p] == 'e' || t[p] == 'E')) {
      ++p;
      if (!end() && (t[p] == '+' || t[p] == '-')) ++p;
      if (!digits()) return false;
    }
    v.s = t.substr(b, p - b);
    return true;
  }
  bool value(JV &v, int depth = 0) {
    if (depth > 200) return false;
    ws();
    if (end()) return fail();
    v.from = p;
    bool r = value_(v, depth);
    v.to = p;
    return r;
  }
  bool value_(JV &v, int depth) {
    switch (t[p]) {
    case '{':
      v.k = JV::OBJ;
      ++p;
      ws();
      if (!end() && t[p] == '}') { ++p; return true; }
      for (;;) {
        JV n, x;
        ws();
        if (!str(n)) return false;
        ws();
        if (end() || t[p] != ':') return fail();
        ++p;
        if (!value(x, depth + 1)) return false;
        v.members.push_back({n, x});
        ws();
        if (end()) return fail();
        if (t[p] == ',') { ++p; continue; }
        if (t[p] == '}') { ++p; return true; }
        return false;
      }
    case '[':
      v.k = JV::ARR;
      ++p;
      ws();
      if (!end() && t[p] == ']') { ++p; return true; }
      for (;;) {
        JV x;
        if (!value(x, depth + 1)) return false;
        v.items.push_back(x);
        ws();
        if (end()) return fail();
        if (t[p] == ',') { ++p; continue; }
        if (t[p] == ']') { ++p; return true; }
        return false;
      }
    case '"': return str(v);
    case 'n': v.k = JV::NUL; return word("null");
    case 't': v.k = JV::TRUE_; return word("true");
    case 'f': v.k = JV::FALSE_; return word("false");
    default:
      if (t[p] == '-' || isdigit((unsigned char)t[p])) return num(v);
      return false;
    }
  }
};
// a text whose first value is an object or array, with nothing but white space behind it
inline Verdict parse(const std::string &t, JV &v) {
  Parser p(t);
  if (!p.value(v)) return p.more ? MORE : BAD;
  p.ws();
  return p.end() ? OK : BAD;
}

// ------------------------------------------------ numbers
// exact value of a JSON number: mantissa without trailing zeros, exponent; false if the mantissa needs more than 63 bits
inline bool number(const std::string &s, int64_t &m, int &e) {
  bool neg = s[0] == '-';
  std::string d;
  long ex = 0;
  size_t k = neg;
  for (; k < s.size() && isdigit((unsigned char)s[k]); ++k) d += s[k];
  if (k < s.size() && s[k] == '.')
    for (++k; k < s.size() && isdigit((unsigned char)s[k]); ++k) { d += s[k]; --ex; }
  if (k < s.size()) {
    std::string x = s.substr(k + 1);
    if (x.size() > 7) return false;
    ex += atol(x.c_str());
  }
  while (d.size() > 1 && d[0] == '0') d.erase(0, 1);
  while (d.size() > 1 && d.back() == '0') { d.pop_back(); ++ex; }
  if (d == "0") { m = 0; e = 0; return true; }
  if (d.size() > 19) return false;
  unsigned __int128 v = 0;
  for (char c : d) v = v * 10 + (c - '0');
  if (v > (unsigned __int128)INT64_MAX + (neg ? 1 : 0)) return false;
  m = neg ? (int64_t)(0 - (uint64_t)v) : (int64_t)v;
  e = (int)ex;
  return ex > -30000 && ex < 30000;
}
inline void norm(int64_t &m, int &e) {
  if (!m) { e = 0; return; }
  while (m % 10 == 0) { m /= 10; ++e; }
}
// decimals compare as numbers
inline void norm(Val &v, const Field &f) {
  if (!v.present) return;
  if (f.ty == DEC) norm(v.i, v.e);
  if (f.ty == GRP)
    for (size_t k = 0; k < f.sub.size() && k < v.sub.size(); ++k) norm(v.sub[k], f.sub[k]);
  if (f.ty == SEQ)
    for (auto &x : v.sub)
      for (size_t k = 0; k < f.sub.size() && k < x.sub.size(); ++k) norm(x.sub[k], f.sub[k]);
}
inline bool unnamed(const Field &f) { return f.ty == SEQ && f.sub.size() == 1 && f.sub[0].name.empty(); }

// ------------------------------------------------ canonical rendering
inline std::string quoted(const std::string &s) {
  std::string r = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c < 0x20) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else { if (c == '"' || c == '\\') r += '\\'; r += (char)c; }
  }
  return r + "\"";
}
typedef std::vector<std::string> Toks;
struct Render {
  uint64_t raw_mask = 0, ignore_mask = 0;
  Toks t;
  void list(const std::vector<Field> &fs, const std::vector<Val> &vs, const std::vector<size_t> *order = nullptr) {
    t.push_back("{");
    bool first = true;
    for (size_t j = 0; j < fs.size(); ++j) {
      size_t k = order ? (*order)[j] : j;
      if (!vs[k].present || (fs[k].tag & ignore_mask)) continue;
      if (!first) t.push_back(",");
      first = false;
      t.push_back(quoted(fs[k].name));
      t.push_back(":");
      val(fs[k], vs[k]);
    }
    t.push_back("}");
  }
  void val(const Field &f, const Val &v) {
    char b[8];
    switch (f.ty) {
    case U32: case U64: case ENUM: case SET: t.push_back(std::to_string((unsigned long long)v.i)); return;
    case I32: case I64: t.push_back(std::to_string((long long)v.i)); return;
    case BOOL: t.push_back(v.i ? "true" : "false"); return;
    case DEC: t.push_back(std::to_string((long long)v.i) + (v.e ? "e" + std::to_string(v.e) : "")); return;
    case ASC: case UNI: t.push_back(quoted(v.s)); return;
    case BV: {
      if (f.tag & raw_mask) { t.push_back(v.s); return; }
      std::string h = "\"";
      for (unsigned char c : v.s) { snprintf(b, sizeof b, "%02x", c); h += b; }
      t.push_back(h + "\"");
      return;
    }
    case I32V: case I64V: case U32V: case U64V:
      t.push_back("[");
      for (size_t k = 0; k < v.v.size(); ++k) {
        if (k) t.push_back(",");
        t.push_back(f.ty == U64V || f.ty == U32V ? std::to_string((unsigned long long)v.v[k]) : std::to_string((long long)v.v[k]));
      }
      t.push_back("]");
      return;
    case GRP: list(f.sub, v.sub); return;
    case SEQ:
      t.push_back("[");
      for (size_t k = 0; k < v.sub.size(); ++k) {
        if (k) t.push_back(",");
        if (unnamed(f)) { if (v.sub[k].sub[0].present) val(f.sub[0], v.sub[k].sub[0]); else t.push_back("null"); }
        else list(f.sub, v.sub[k].sub);
      }
      t.push_back("]");
      return;
    case TREF: t.push_back("null"); return;
    }
  }
  std::string text(const char *sep = "") const {
    std::string r;
    for (size_t k = 0; k < t.size(); ++k) { if (k) r += sep; r += t[k]; }
    return r;
  }
};

// ------------------------------------------------ meaning of a text
// RENDERS: the text is a rendering of *out*; RANGE: a field's number is out of its range (must be reported); NO: neither is claimed
enum Meaning { RENDERS, RANGE, NO };
struct Reader {
  // a decimal whose mantissa is constant
  static bool fits(int64_t m, int, const Field &f) {
    int64_t c = f.mop.ival;
    int e = 0;
    norm(c, e);
    return m == c;
  }
  uint64_t raw_mask = 0;
  const std::string *text = nullptr;
  Meaning list(const std::vector<Field> &fs, const JV &j, std::vector<Val> &out) {
    out.assign(fs.size(), Val());
    if (j.k != JV::OBJ) return NO;
    std::vector<char> seen(fs.size(), 0);
    Meaning m = RENDERS;
    for (auto &x : j.members) {
      for (size_t k = 0; k < fs.size(); ++k) {
        if (fs[k].name != x.first.s) continue;
        if (seen[k]) return NO;
        seen[k] = 1;
        Meaning r = x.second.k == JV::NUL ? (fs[k].opt ? RENDERS : NO) : val(fs[k], x.second, out[k]);
        if (r == NO) return NO;
        if (r == RANGE) m = RANGE;
      }
      if (x.first.odd) return NO;
    }
    for (size_t k = 0; k < fs.size(); ++k) {
      if (seen[k] || fs[k].opt) continue;
      if (fs[k].op.op == CONST && !fs[k].split) { out[k].present = true; out[k].i = fs[k].op.ival; if (is_str(fs[k].ty)) out[k].s = fs[k].op.sval; continue; }
      return NO;
    }
    return m;
  }
  static Meaning integer(Ty ty, const std::string &s, int64_t &o) {
    for (size_t k = s[0] == '-'; k < s.size(); ++k)
      if (!isdigit((unsigned char)s[k])) return NO;
    __int128 v = 0;
    for (size_t k = s[0] == '-'; k < s.size(); ++k) { v = v * 10 + (s[k] - '0'); if (v > ((__int128)1 << 100)) v = (__int128)1 << 100; }
    if (s[0] == '-') v = -v;
    __int128 lo = 0, hi = UINT64_MAX;
    if (ty == I32 || ty == I32V) lo = INT32_MIN, hi = INT32_MAX;
    if (ty == I64 || ty == I64V) lo = INT64_MIN, hi = INT64_MAX;
    if (ty == U32 || ty == U32V) hi = UINT32_MAX;
    if (v < lo || v > hi) return RANGE;
    o = (int64_t)(uint64_t)v;
    return RENDERS;
  }
  Meaning val(const Field &f, const JV &j, Val &v) {
    v.present = true;
    if (f.op.op == CONST && !f.split) {  // only its own value
      Field g = f;
      g.op = OpSpec();
      Meaning m = val(g, j, v);
      if (m != RENDERS) return NO;
      Val c;
      c.present = true;
      c.i = f.op.ival;
      if (is_str(f.ty)) { c.i = 0; c.s = f.op.sval; }
      norm(c, f);
      return c == v ? RENDERS : NO;
    }
    switch (f.ty) {
    case ENUM: case SET: {
      if (j.k != JV::NUM) return NO;
      Meaning m = integer(f.ty, j.s, v.i);
      if (m != RENDERS) return m;
      if (f.ty == SET) return (uint64_t)v.i < (1ull << f.elems.size()) ? RENDERS : NO;
      for (auto x : f.evals)
        if (x == v.i) return RENDERS;
      return NO;
    }
    case I32: case U32: case I64: case U64: return j.k == JV::NUM ? integer(f.ty, j.s, v.i) : NO;
    case BOOL: v.i = j.k == JV::TRUE_; return j.k == JV::TRUE_ || j.k == JV::FALSE_ ? RENDERS : NO;
    case DEC:
      if (j.k != JV::NUM) return NO;
      if (!number(j.s, v.i, v.e)) return NO;
      if (f.split && v.i && ((f.eop.op == CONST && v.e < f.eop.ival) || (f.mop.op == CONST && !fits(v.i, v.e, f)))) return NO;
      if (f.split && v.i && f.eop.op == CONST) {  // must be expressible with that exponent
        __int128 m = v.i;
        for (int e = v.e; e > f.eop.ival; --e) {
          m *= 10;
          if (m > INT64_MAX || m < INT64_MIN) return RANGE;
        }
      }
      return v.e >= -63 && v.e <= 63 ? RENDERS : NO;
    case ASC: case UNI: v.s = j.s; return j.k == JV::STR && !j.odd ? RENDERS : NO;
    case BV: {
      if (f.tag & raw_mask) {
        if (j.k != JV::OBJ) return NO;
        v.s = text->substr(j.from, j.to - j.from);
        return RENDERS;
      }
      if (j.k != JV::STR || j.odd) return NO;
      std::string h = j.s;
      if (h.size() == 36 && h[8] == '-' && h[13] == '-' && h[18] == '-' && h[23] == '-')
        for (int k : {23, 18, 13, 8}) h.erase(k, 1);
      if (h.size() % 2) return NO;
      for (size_t k = 0; k < h.size(); k += 2) {
        if (!isxdigit((unsigned char)h[k]) || !isxdigit((unsigned char)h[k + 1])) return NO;
        v.s += (char)strtol(h.substr(k, 2).c_str(), nullptr, 16);
      }
      return RENDERS;
    }
    case I32V: case U32V: case I64V: case U64V: {
      if (j.k != JV::ARR) return NO;
      Meaning m = RENDERS;
      for (auto &x : j.items) {
        int64_t y = 0;
        if (x.k != JV::NUM) return NO;
        Meaning r = integer(f.ty, x.s, y);
        if (r == NO) return NO;
        if (r == RANGE) m = RANGE;
        v.v.push_back(y);
      }
      return m;
    }
    case GRP: return list(f.sub, j, v.sub);
    case SEQ: {
      if (j.k != JV::ARR) return NO;
      Meaning m = RENDERS;
      for (auto &x : j.items) {
        Val e;
        e.present = true;
        Meaning r;
        if (unnamed(f)) {
          e.sub.resize(1);
          r = x.k == JV::NUL ? (f.sub[0].opt ? RENDERS : NO) : val(f.sub[0], x, e.sub[0]);
        } else r = list(f.sub, x, e.sub);
        if (r == NO) return NO;
        if (r == RANGE) m = RANGE;
        v.sub.push_back(e);
      }
      return m;
    }
    case TREF: return NO;
    }
    return NO;
  }
};
}  // namespace js
