// Independent reference model of FAST 1.1 messages, templates and decoding.
// Deliberately boring: no code of mFAST is used here.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>

namespace mdl {

enum Ty { I32, U32, I64, U64, DEC, ASC, UNI, BV, I32V, U32V, I64V, U64V, ENUM, BOOL, SET, GRP, SEQ, TREF };
enum Op { NONE, CONST, DEFAULT, COPY, INCR, DELTA, TAIL };

inline const char *ty_name(Ty t) {
  static const char *n[] = {"int32", "uInt32", "int64", "uInt64", "decimal", "string", "unicode", "byteVector",
                            "int32Vector", "uInt32Vector", "int64Vector", "uInt64Vector", "enum", "boolean", "set", "group", "sequence", "templateRef"};
  return n[t];
}
inline const char *op_name(Op o) {
  static const char *n[] = {"none", "constant", "default", "copy", "increment", "delta", "tail"};
  return n[o];
}
inline bool is_int(Ty t) { return t <= U64 || t == ENUM || t == BOOL || t == SET; }
inline bool is_str(Ty t) { return t == ASC || t == UNI || t == BV; }
inline bool is_ivec(Ty t) { return t >= I32V && t <= U64V; }

// ------------------------------------------------------------------ values
struct Val {
  bool present = false;
  int64_t i = 0;  // integers (bit pattern), decimal mantissa
  int e = 0;      // decimal exponent
  std::string s;  // strings / byte vectors
  std::vector<int64_t> v;
  std::vector<Val> sub;  // group/template fields, sequence elements (each a Val whose sub are the fields)
  uint32_t tmpl = 0;     // TREF: template id
};
inline bool operator==(const Val &a, const Val &b);
inline bool eq_list(const std::vector<Val> &a, const std::vector<Val> &b) {
  if (a.size() != b.size()) return false;
  for (size_t k = 0; k < a.size(); ++k)
    if (!(a[k] == b[k])) return false;
  return true;
}
inline bool operator==(const Val &a, const Val &b) {
  if (a.present != b.present) return false;
  if (!a.present) return true;
  return a.i == b.i && a.e == b.e && a.s == b.s && a.v == b.v && a.tmpl == b.tmpl && eq_list(a.sub, b.sub);
}
inline bool operator!=(const Val &a, const Val &b) { return !(a == b); }

inline Val absent() { return Val(); }
inline Val vint(int64_t x) { Val v; v.present = true; v.i = x; return v; }
inline Val vdec(int64_t m, int e) { Val v; v.present = true; v.i = m; v.e = e; return v; }
inline Val vstr(std::string s) { Val v; v.present = true; v.s = std::move(s); return v; }
inline Val vvec(std::vector<int64_t> x) { Val v; v.present = true; v.v = std::move(x); return v; }
inline Val vsub(std::vector<Val> x) { Val v; v.present = true; v.sub = std::move(x); return v; }

inline std::string hex(const std::string &s) {
  std::string r;
  char b[4];
  for (unsigned char c : s) {
    snprintf(b, sizeof b, "%02X", c);
    if (!r.empty()) r += ' ';
    r += b;
  }
  return r;
}
inline std::string show(const Val &v);
inline std::string show_list(const std::vector<Val> &l) {
  std::string r = "{";
  for (size_t k = 0; k < l.size(); ++k) {
    if (k) r += ", ";
    r += show(l[k]);
  }
  return r + "}";
}
inline std::string quote(const std::string &s) {
  std::string r = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c < 32 || c > 126 || c == '"' || c == '\\') { snprintf(b, sizeof b, "\\x%02X", c); r += b; }
    else r += (char)c;
  }
  return r + "\"";
}
inline std::string show(const Val &v) {
  if (!v.present) return "-";
  if (v.tmpl) return "T" + std::to_string(v.tmpl) + show_list(v.sub);
  if (!v.sub.empty()) return show_list(v.sub);
  if (!v.s.empty()) return quote(v.s);
  if (!v.v.empty()) {
    std::string r = "[";
    for (auto x : v.v) r += std::to_string((long long)x) + " ";
    return r + "]";
  }
  std::string r = std::to_string((long long)v.i);
  if (v.e) r += "e" + std::to_string(v.e);
  return r;
}

// --------------------------------------------------------------- templates
struct OpSpec {
  Op op = NONE;
  bool init = false;
  int64_t ival = 0;
  std::string sval;
  std::string key, dict, ns;  // attributes as written ("" = not written)
};
struct Field {
  std::string name;
  uint32_t id = 0;
  Ty ty = U32;
  bool opt = false;
  OpSpec op;
  bool split = false;  // decimal with individual exponent/mantissa operators
  OpSpec eop, mop;
  std::vector<Field> sub;
  bool has_len = false;  // <length> element of a sequence
  OpSpec lop;
  std::string lname;
  std::vector<std::string> elems;  // enum/set
  std::vector<int64_t> evals;
  std::string ns;    // ns attribute
  std::string dict;  // dictionary attribute (group/sequence/template)
  std::string type_name, type_ns;  // typeRef
  std::string more;  // further attributes, verbatim
  uint64_t tag = 0;  // what they mean (mfast:tag)
  // resolved (set by resolve()):
  std::string key_full, ekey_full, mkey_full, lkey_full;
};
struct Tmpl {
  std::string name;
  uint32_t id = 0;
  std::string ns, template_ns, dict, type_name, type_ns;
  bool reset = false;
  std::vector<Field> fields;
};
struct Spec {
  std::string ns, template_ns, dict;
  std::string prologue;  // <define>s, kept verbatim
  std::vector<Tmpl> tmpls;
  std::vector<Spec> extra;  // further descriptions given to the same codec
  const Tmpl *by_id(uint32_t id) const {
    for (auto &t : tmpls)
      if (t.id == id) return &t;
    for (auto &x : extra)
      if (auto *t = x.by_id(id)) return t;
    return nullptr;
  }
  int64_t only_id() const {  // the template id that needs no transmission: the codec has one template
    return extra.empty() && tmpls.size() == 1 ? (int64_t)tmpls[0].id : -1;
  }
};

// ------------------------------------------------------------- XML printing
inline std::string xesc(const std::string &s) {
  std::string r;
  for (char c : s) {
    if (c == '<') r += "&lt;";
    else if (c == '>') r += "&gt;";
    else if (c == '&') r += "&amp;";
    else if (c == '"') r += "&quot;";
    else r += c;
  }
  return r;
}
inline std::string attr(const char *n, const std::string &v) { return v.empty() ? "" : std::string(" ") + n + "=\"" + xesc(v) + "\""; }
inline std::string op_xml(const OpSpec &o, Ty ty, const Field *f = nullptr) {
  if (o.op == NONE) return "";
  std::string r = std::string("<") + op_name(o.op);
  if (o.init) {
    std::string v;
    if (ty == U32 || ty == U64) v = std::to_string((unsigned long long)o.ival);
    else if (ty == ENUM || ty == BOOL || ty == SET) {
      v = o.sval;
    } else if (is_int(ty) || ty == DEC) v = std::to_string((long long)o.ival);
    else if (ty == BV) {
      char b[4];
      for (unsigned char c : o.sval) { snprintf(b, sizeof b, "%02X", c); v += b; }
    } else v = o.sval;
    r += " value=\"" + xesc(v) + "\"";
  }
  r += attr("key", o.key) + attr("dictionary", o.dict) + attr("ns", o.ns);
  return r + "/>";
}
inline std::string field_xml(const Field &f) {
  std::string r = "<";
  const char *el = f.ty == UNI ? "string" : ty_name(f.ty);
  r += el;
  if (f.ty != TREF && !f.name.empty()) r += " name=\"" + xesc(f.name) + "\"";
  if (f.id) r += " id=\"" + std::to_string(f.id) + "\"";
  if (f.ty == UNI) r += " charset=\"unicode\"";
  if (f.opt) r += " presence=\"optional\"";
  r += attr("ns", f.ns) + attr("dictionary", f.dict) + f.more;
  r += ">";
  if (!f.type_name.empty()) r += "<typeRef name=\"" + f.type_name + "\"" + attr("ns", f.type_ns) + "/>";
  for (size_t k = 0; k < f.elems.size(); ++k) {
    r += "<element name=\"" + f.elems[k] + "\"";
    if (k < f.evals.size()) r += " value=\"" + std::to_string((long long)f.evals[k]) + "\"";
    r += "/>";
  }
  if (f.ty == DEC && f.split) {
    r += "<exponent>" + op_xml(f.eop, I32) + "</exponent>";
    r += "<mantissa>" + op_xml(f.mop, I64) + "</mantissa>";
  } else if (f.ty == SEQ) {
    if (f.has_len) r += "<length name=\"" + f.lname + "\">" + op_xml(f.lop, U32) + "</length>";
    for (auto &s : f.sub) r += field_xml(s);
  } else if (f.ty == GRP) {
    for (auto &s : f.sub) r += field_xml(s);
  } else
    r += op_xml(f.op, f.ty, &f);
  return r + "</" + el + ">\n";
}
inline std::string tmpl_xml(const Tmpl &t) {
  std::string r = "<template name=\"" + t.name + "\" id=\"" + std::to_string(t.id) + "\"" + attr("ns", t.ns) + attr("templateNs", t.template_ns) +
                  attr("dictionary", t.dict) + (t.reset ? " scp:reset=\"yes\"" : "") + ">\n";
  if (!t.type_name.empty()) r += "<typeRef name=\"" + t.type_name + "\"" + attr("ns", t.type_ns) + "/>";
  for (auto &f : t.fields) r += field_xml(f);
  return r + "</template>\n";
}
inline std::string spec_xml(const Spec &s) {
  std::string r = "<?xml version=\"1.0\" ?>\n<templates xmlns:scp=\"http://www.fixprotocol.org/ns/fast/scp/1.1\"" + attr("ns", s.ns) + attr("templateNs", s.template_ns) + attr("dictionary", s.dict) + ">\n";
  r += s.prologue;
  for (auto &t : s.tmpls) r += tmpl_xml(t);
  return r + "</templates>\n";
}

// ------------------------------------------------- dictionary key resolution
struct Scope {
  std::string dict, ns;            // inherited dictionary / ns attribute
  std::string tname, tns;          // template
  std::string type_name, type_ns;  // application type
};
inline std::string full_key(const OpSpec &o, const std::string &fname, const std::string &fns, const Scope &sc) {
  std::string d = o.dict.empty() ? sc.dict : o.dict;
  if (d.empty()) d = "global";
  std::string scope;
  if (d == "global") scope = "G";
  else if (d == "template") scope = "T|" + sc.tns + "|" + sc.tname;
  else if (d == "type") scope = "Y|" + sc.type_ns + "|" + sc.type_name;
  else scope = "U|" + d;
  // a "key" attribute names (ns, key); without it the field's own (ns, name) is the key
  std::string ns, k;
  if (o.key.empty()) { ns = fns; k = fname; }
  else { ns = o.ns.empty() ? sc.ns : o.ns; k = o.key; }
  return scope + "#" + ns + "::" + k;
}
inline void resolve_fields(std::vector<Field> &fs, Scope sc) {
  for (auto &f : fs) {
    Scope in = sc;
    if (!f.ns.empty()) in.ns = f.ns;
    f.key_full = full_key(f.op, f.name, in.ns, in);
    f.ekey_full = full_key(f.eop, f.name + "#exponent", in.ns, in);
    f.mkey_full = full_key(f.mop, f.name + "#mantissa", in.ns, in);
    if (!f.dict.empty()) in.dict = f.dict;
    if (!f.type_name.empty()) { in.type_name = f.type_name; in.type_ns = f.type_ns.empty() ? in.ns : f.type_ns; }
    f.lkey_full = full_key(f.lop, f.has_len ? f.lname : f.name + "#length", in.ns, in);
    if (f.ty == GRP || f.ty == SEQ) resolve_fields(f.sub, in);
  }
}
inline void resolve(Spec &s) {
  for (auto &t : s.tmpls) {
    Scope sc;
    sc.dict = t.dict.empty() ? s.dict : t.dict;
    sc.ns = t.ns.empty() ? s.ns : t.ns;
    sc.tns = t.template_ns.empty() ? s.template_ns : t.template_ns;
    sc.tname = t.name;
    sc.type_name = t.type_name;
    sc.type_ns = t.type_ns.empty() && !t.type_name.empty() ? sc.ns : t.type_ns;
    resolve_fields(t.fields, sc);
  }
  for (auto &x : s.extra) resolve(x);
}

// ------------------------------------------------------------------ decoder
struct Prev {
  enum St { UNDEF, EMPTY, ASSIGNED } st = UNDEF;
  int64_t i = 0;
  int e = 0;
  std::string s;
  bool operator==(const Prev &o) const { return st == o.st && (st != ASSIGNED || (i == o.i && e == o.e && s == o.s)); }
};

struct RefErr : std::runtime_error {
  explicit RefErr(const std::string &m) : std::runtime_error(m) {}
};
struct Truncated : RefErr {
  Truncated() : RefErr("truncated") {}
};

typedef __int128 i128;

class RefDecoder {
public:
  explicit RefDecoder(const Spec &s) : spec_(&s) { reset_all(); }
  struct State {
    std::map<std::string, Prev> dict;
    int64_t active = -1;
  };
  State st;
  size_t overlong_maps = 0;  // presence maps whose last byte (not being the first) carries only zero bits
  bool reportable = false;  // the stream has something FAST only calls a *reportable* error: decoders may differ
  std::string why_reportable;
  const char *p = nullptr, *end = nullptr;

  void reset_all() {
    st.dict.clear();
    st.active = spec_->only_id();
  }
  // decodes one message from [b, e); throws RefErr
  Val decode(const char *&b, const char *e, bool force_reset) {
    p = b;
    end = e;
    overlong_maps = 0;
    reportable = false;
    why_reportable.clear();
    if (force_reset) reset_all();
    Val r = segment(true);
    b = p;
    return r;
  }

public:
  const Spec *spec_;
  struct Pmap {
    std::vector<bool> bits;
    size_t pos = 0;
    bool next() { return pos < bits.size() ? (bool)bits[pos++] : false; }
  };
  void report(const char *w) {
    reportable = true;
    why_reportable = w;
  }
  unsigned char byte() {
    if (p >= end) throw Truncated();
    return (unsigned char)*p++;
  }
  Pmap read_pmap() {
    Pmap m;
    size_t nb = 0;
    unsigned char c, last = 0;
    do {
      c = byte();
      for (int k = 6; k >= 0; --k) m.bits.push_back((c >> k) & 1);
      last = c;
      ++nb;
    } while (!(c & 0x80));
    if (nb > 1 && last == 0x80) ++overlong_maps;  // overlong maps (R7) have a well defined meaning: trailing zero bits
    return m;
  }
  // stop-bit integer as an exact big number; returns false for NULL
  bool read_int(bool sgn, bool nullable, i128 lo, i128 hi, i128 &out) {
    i128 x = 0;
    unsigned char c = byte();
    bool first = true, over = false;
    unsigned char c0 = c;
    if (sgn && (c & 0x40)) x = -1;
    int n = 0;
    for (;;) {
      if (n > 0 && n == 1) {
        // overlong? first byte only sign extension of the second one
        if (!sgn ? (c0 & 0x7f) == 0 : (((c0 & 0x7f) == 0 && !(c & 0x40)) || ((c0 & 0x7f) == 0x7f && (c & 0x40)))) report("overlong integer");
      }
      if (x > ((i128)1 << 100) || x < -((i128)1 << 100)) over = true;
      else x = x * 128 + (c & 0x7f) ;
      ++n;
      if (c & 0x80) break;
      c = byte();
    }
    (void)first;
    if (over) throw RefErr("D2 integer out of range");
    if (nullable) {
      if (x == 0) return false;
      if (x > 0) x -= 1;
    }
    if (x < lo || x > hi) throw RefErr("D2 integer out of range");
    out = x;
    return true;
  }
  static void range(Ty t, i128 &lo, i128 &hi) {
    switch (t) {
    case I32: lo = INT32_MIN; hi = INT32_MAX; break;
    case U32: lo = 0; hi = UINT32_MAX; break;
    case I64: lo = INT64_MIN; hi = INT64_MAX; break;
    default: lo = 0; hi = (i128)UINT64_MAX; break;
    }
  }
  static bool is_signed(Ty t) { return t == I32 || t == I64; }
  bool int_value(Ty t, bool nullable, int64_t &out) {
    i128 lo, hi, x;
    range(t, lo, hi);
    if (!read_int(is_signed(t), nullable, lo, hi, x)) return false;
    out = (int64_t)(uint64_t)x;
    return true;
  }
  bool ascii(bool nullable, std::string &out) {
    out.clear();
    std::string raw;
    for (;;) {
      unsigned char c = byte();
      raw += (char)(c & 0x7f);
      if (c & 0x80) break;
    }
    if (raw[0] == 0) {  // zero preamble
      size_t n = raw.size();
      if (n == 1) { return !nullable; }
      if (nullable) {
        if (n == 2 && raw[1] == 0) { return true; }
        if (n == 3 && raw[1] == 0 && raw[2] == 0) { out = std::string(1, '\0'); return true; }
      } else {
        if (n == 2 && raw[1] == 0) { out = std::string(1, '\0'); return true; }
      }
      // overlong string (R9): reportable only, but there is no useful value; a decoder may refuse
      report("overlong string");
      out = raw.substr(1);
      return true;
    }
    out = raw;
    return true;
  }
  bool bytes(bool nullable, std::string &out) {
    int64_t n;
    if (!int_value(U32, nullable, n)) return false;
    if (n > end - p) throw Truncated();
    out.assign(p, (size_t)n);
    p += n;
    return true;
  }
  // plain value of a field's type; false = NULL
  bool plain(const Field &f, Ty ty, bool nullable, Prev &out) {
    out = Prev();
    out.st = Prev::ASSIGNED;
    switch (ty) {
    case ASC: return ascii(nullable, out.s);
    case UNI:
    case BV: return bytes(nullable, out.s);
    case DEC: {
      int64_t ex, m;
      i128 x;
      if (!read_int(true, nullable, INT32_MIN, INT32_MAX, x)) return false;
      ex = (int64_t)x;
      if (ex > 63 || ex < -63) report("exponent out of range");
      int_value(I64, false, m);
      out.i = m;
      out.e = (int)ex;
      return true;
    }
    default: return int_value(ty, nullable, out.i);
    }
  }
  static Prev init_of(const OpSpec &o, Ty ty) {
    Prev p;
    p.st = Prev::ASSIGNED;
    p.i = o.ival;
    p.s = o.sval;
    if (ty == ENUM || ty == BOOL || ty == SET) p.s.clear();
    return p;
  }
  static Prev zero() {
    Prev p;
    p.st = Prev::ASSIGNED;
    return p;
  }
  static Val to_val(const Prev &p, Ty ty) {
    Val v;
    v.present = true;
    if (is_str(ty)) v.s = p.s;
    else if (ty == DEC) { v.i = p.i; v.e = p.e; }
    else v.i = p.i;
    return v;
  }
  static int64_t wrap(Ty t, i128 x) {
    switch (t) {
    case I32: return (int32_t)(uint32_t)x;
    case U32: return (int64_t)(uint32_t)x;
    default: return (int64_t)(uint64_t)x;
    }
  }
  static i128 widen(Ty t, int64_t v) { return is_signed(t) || t == U32 ? (i128)v : (i128)(uint64_t)v; }

  // One simple field with an operator.  Result: absent or value.
  Val simple(const Field &f, Ty ty, bool opt, const OpSpec &o, const std::string &key, Pmap &pm) {
    Prev v;
    Prev init = init_of(o, ty);
    switch (o.op) {
    case NONE:
      if (!plain(f, ty, opt, v)) return absent();
      return to_val(v, ty);
    case CONST:
      if (opt && !pm.next()) return absent();
      return to_val(init, ty);
    case DEFAULT:
      if (!pm.next()) {
        if (o.init) return to_val(init, ty);
        if (opt) return absent();
        throw RefErr("S5/D5 no default value");
      }
      if (!plain(f, ty, opt, v)) return absent();
      return to_val(v, ty);
    case COPY:
    case INCR: {
      Prev &pv = st.dict[key];
      if (pm.next()) {
        if (!plain(f, ty, opt, v)) { pv = Prev(); pv.st = Prev::EMPTY; return absent(); }
        pv = v;
        return to_val(v, ty);
      }
      if (pv.st == Prev::UNDEF) {
        if (o.init) { pv = init; return to_val(pv, ty); }
        if (opt) { pv = Prev(); pv.st = Prev::EMPTY; return absent(); }
        throw RefErr("D5 mandatory field without previous and initial value");
      }
      if (pv.st == Prev::EMPTY) {
        if (opt) return absent();
        throw RefErr("D6 mandatory field with empty previous value");
      }
      if (o.op == INCR) pv.i = wrap(ty, widen(ty, pv.i) + 1);
      return to_val(pv, ty);
    }
    case TAIL: {
      Prev &pv = st.dict[key];
      if (pm.next()) {
        std::string t;
        bool has = ty == ASC ? ascii(opt, t) : bytes(opt, t);
        if (!has) { pv = Prev(); pv.st = Prev::EMPTY; return absent(); }
        std::string base = pv.st == Prev::ASSIGNED ? pv.s : (o.init ? o.sval : std::string());
        if (t.size() >= base.size()) base = t;
        else base = base.substr(0, base.size() - t.size()) + t;
        pv = zero();
        pv.s = base;
        return to_val(pv, ty);
      }
      if (pv.st == Prev::UNDEF) {
        if (o.init) { pv = init; return to_val(pv, ty); }
        if (opt) { pv = Prev(); pv.st = Prev::EMPTY; return absent(); }
        throw RefErr("D6 mandatory tail without previous and initial value");
      }
      if (pv.st == Prev::EMPTY) {
        if (opt) return absent();
        throw RefErr("D7 mandatory tail with empty previous value");
      }
      return to_val(pv, ty);
    }
    case DELTA: {
      Prev &pv = st.dict[key];
      Prev base;
      bool base_empty = false;
      if (pv.st == Prev::ASSIGNED) base = pv;
      else if (pv.st == Prev::UNDEF) base = o.init ? init : zero();
      else base_empty = true;
      if (is_str(ty)) {
        i128 sub;
        if (!read_int(true, opt, INT32_MIN, INT32_MAX, sub)) return absent();
        std::string d;
        if (ty == ASC) ascii(false, d);
        else bytes(false, d);
        if (base_empty) throw RefErr("D6 delta on empty previous value");
        if (sub >= 0) {
          if (sub > (i128)base.s.size()) throw RefErr("D7 subtraction length too long");
          base.s = base.s.substr(0, base.s.size() - (size_t)sub) + d;
        } else {
          i128 n = -sub - 1;
          if (n > (i128)base.s.size()) throw RefErr("D7 subtraction length too long");
          base.s = d + base.s.substr((size_t)n);
        }
        base.st = Prev::ASSIGNED;
        pv = base;
        return to_val(pv, ty);
      }
      if (ty == DEC) {
        i128 de, dm;
        if (!read_int(true, opt, INT32_MIN, INT32_MAX, de)) return absent();
        read_int(true, false, -((i128)1 << 64), ((i128)1 << 64), dm);
        if (base_empty) throw RefErr("D6 delta on empty previous value");
        i128 ne = base.e + de, nm = base.i + dm;
        if (ne > 63 || ne < -63) report("exponent out of range");
        if (dm < INT64_MIN || dm > INT64_MAX || nm < INT64_MIN || nm > INT64_MAX) report("mantissa out of range");
        base.e = (int)ne;
        base.i = (int64_t)nm;
        base.st = Prev::ASSIGNED;
        pv = base;
        return to_val(pv, ty);
      }
      i128 d;
      i128 big = (i128)1 << 65;
      if (!read_int(true, opt, -big, big, d)) return absent();
      if (base_empty) throw RefErr("D6 delta on empty previous value");
      i128 lo, hi, nv = widen(ty, base.i) + d;
      range(ty, lo, hi);
      if (nv < lo || nv > hi) report("delta result out of range");
      if (d > INT64_MAX || d < INT64_MIN) report("delta out of int64 range");
      base.i = wrap(ty, nv);
      base.st = Prev::ASSIGNED;
      pv = base;
      return to_val(pv, ty);
    }
    }
    throw std::logic_error("op");
  }

public:
  static bool op_has_bit(Op op, bool opt) { return op == DEFAULT || op == COPY || op == INCR || op == TAIL || (op == CONST && opt); }
  static bool needs_pmap(const std::vector<Field> &fs) {
    for (auto &f : fs) {
      switch (f.ty) {
      case GRP:
        if (f.opt) return true;
        break;
      case SEQ:
        if (f.has_len && op_has_bit(f.lop.op, f.opt)) return true;
        break;
      case TREF: break;
      case DEC:
        if (f.split) {
          if (op_has_bit(f.eop.op, f.opt) || op_has_bit(f.mop.op, false)) return true;
          break;
        }
      default:
        if (is_ivec(f.ty)) break;
        if (op_has_bit(f.op.op, f.opt)) return true;
      }
    }
    return false;
  }

public:
  std::vector<Val> fields(const std::vector<Field> &fs, Pmap &pm) {
    std::vector<Val> r;
    for (auto &f : fs) r.push_back(field(f, pm));
    return r;
  }
  Val field(const Field &f, Pmap &pm) {
    switch (f.ty) {
    case GRP: {
      if (f.opt && !pm.next()) return absent();
      if (needs_pmap(f.sub)) {
        Pmap m = read_pmap();
        return vsub(fields(f.sub, m));
      }
      Pmap none;
      return vsub(fields(f.sub, none));
    }
    case SEQ: {
      Val n = simple(f, U32, f.opt, f.has_len ? f.lop : OpSpec(), f.lkey_full, pm);
      if (!n.present) return absent();
      Val r;
      r.present = true;
      bool pmn = needs_pmap(f.sub);
      for (uint64_t k = 0; k < (uint64_t)n.i; ++k) {
        if (k > (uint64_t)max_elems) throw RefErr("too many elements for the model");
        Pmap m;
        if (pmn) m = read_pmap();
        r.sub.push_back(vsub(fields(f.sub, m)));
      }
      return r;
    }
    case TREF: {
      int64_t saved = st.active;
      Val r = segment(false);
      st.active = saved;
      return r;
    }
    case DEC:
      if (f.split) {
        Val e = simple(f, I32, f.opt, f.eop, f.ekey_full, pm);
        if (!e.present) return absent();
        if (e.i > 63 || e.i < -63) report("exponent out of range");
        Val m = simple(f, I64, false, f.mop, f.mkey_full, pm);
        return vdec(m.i, (int)e.i);
      }
      return simple(f, DEC, f.opt, f.op, f.key_full, pm);
    default:
      if (is_ivec(f.ty)) {
        int64_t n;
        if (!int_value(U32, f.opt, n)) return absent();
        static const Ty et[] = {I32, U32, I64, U64};
        Val r;
        r.present = true;
        for (int64_t k = 0; k < n; ++k) {
          int64_t x;
          int_value(et[f.ty - I32V], false, x);
          r.v.push_back(x);
        }
        return r;
      }
      return simple(f, f.ty, f.opt, f.op, f.key_full, pm);
    }
  }

public:
  int max_elems = 100000;

public:
  Val segment(bool top) {
    Pmap pm = read_pmap();
    if (pm.next()) {
      int64_t id;
      int_value(U32, false, id);
      st.active = id;
    }
    const Tmpl *t = st.active < 0 ? nullptr : spec_->by_id((uint32_t)st.active);
    if (!t) { st.active = -1; throw RefErr("D9 unknown template"); }
    if (t->reset) {
      int64_t a = st.active;
      reset_all();
      st.active = a;
    }
    Val r;
    r.present = true;
    r.tmpl = t->id;
    r.sub = fields(t->fields, pm);
    return r;
  }
};


// Reference encoder.  Every place where FAST leaves the producer a choice asks the chooser; choice 0 is the
// canonical one (operator used whenever possible, shortest form).  It keeps its own dictionary, so it is also the
// oracle for "this message cannot be encoded in this state" (Unencodable).
struct Unencodable : std::runtime_error {
  using std::runtime_error::runtime_error;
};
class RefEncoder {
public:
  typedef std::function<size_t(size_t)> Chooser;
  RefDecoder::State st;
  size_t extra_map_bytes = 0;  // zero bytes appended to every presence map
  bool wide = false;  // an integer delta does not fit 64 bits: a conforming receiver may refuse it
  bool may_refuse = false;  // mFAST's encoders document refusing this (D6), although FAST has an encoding
  Chooser choose;

  explicit RefEncoder(const Spec &s) : spec_(&s) { reset_all(); }
  void reset_all() {
    st.dict.clear();
    st.active = spec_->only_id();
  }
  // strong guarantee: the state is unchanged when it throws
  std::string encode(const Val &m, bool reset) {
    RefDecoder::State saved = st;
    wide = may_refuse = false;
    try {
      if (reset) reset_all();
      return segment(m);
    } catch (...) {
      st = saved;
      throw;
    }
  }
  typedef RefDecoder D;
  typedef std::vector<bool> Bits;
  static std::string put_int(i128 x, bool sgn, bool nullable) {
    if (nullable && x >= 0) x += 1;
    std::string r;
    for (;;) {
      unsigned char c = (unsigned char)(x & 0x7f);
      r.insert(r.begin(), (char)c);
      x >>= 7;
      if (sgn ? ((x == 0 && !(c & 0x40)) || (x == -1 && (c & 0x40))) : x == 0) break;
    }
    r.back() = (char)(r.back() | 0x80);
    return r;
  }
  static std::string put_ascii(const std::string &s, bool nullable) {
    for (unsigned char c : s)
      if (c & 0x80) throw Unencodable("not an ASCII string");
    if (s.empty()) return nullable ? std::string("\x00\x80", 2) : std::string("\x80", 1);
    if (s[0] == 0) {
      if (s.size() > 1) throw Unencodable("string starting with NUL");
      return nullable ? std::string("\x00\x00\x80", 3) : std::string("\x00\x80", 2);
    }
    std::string r = s;
    r.back() = (char)(r.back() | 0x80);
    return r;
  }
  static std::string put_bytes(const std::string &s, bool nullable) { return put_int((i128)s.size(), false, nullable) + s; }
  static std::string plain(Ty ty, bool nullable, const Val &v) {
    if (!v.present) {
      if (!nullable) throw Unencodable("mandatory field is absent");
      return "\x80";
    }
    switch (ty) {
    case ASC: return put_ascii(v.s, nullable);
    case UNI:
    case BV: return put_bytes(v.s, nullable);
    case DEC: return put_int(v.e, true, nullable) + put_int(v.i, true, false);
    default: return put_int(D::widen(ty, v.i), D::is_signed(ty), nullable);
    }
  }

private:
  const Spec *spec_;
  size_t pick(size_t n) { return n > 1 && choose ? choose(n) : 0; }
  static bool same(const Prev &p, const Val &v, Ty ty) {
    if (!v.present) return false;
    if (is_str(ty)) return p.s == v.s;
    return p.i == v.i && (ty != DEC || p.e == v.e);
  }
  static Prev to_prev(const Val &v) {
    Prev p;
    p.st = v.present ? Prev::ASSIGNED : Prev::EMPTY;
    if (v.present) { p.i = v.i; p.e = v.e; p.s = v.s; }
    return p;
  }
  void simple(Ty ty, bool opt, const OpSpec &o, const std::string &key, const Val &v, Bits &pm, std::string &out) {
    Prev init = D::init_of(o, ty);
    if (!v.present && !opt) throw Unencodable("mandatory field is absent");
    switch (o.op) {
    case NONE: out += plain(ty, opt, v); return;
    case CONST:
      if (v.present && !same(init, v, ty)) throw Unencodable("constant field has another value");
      if (opt) pm.push_back(v.present);
      return;
    case DEFAULT: {
      bool implied = o.init ? same(init, v, ty) : !v.present;
      if (implied && pick(2) == 0) { pm.push_back(false); return; }
      pm.push_back(true);
      out += plain(ty, opt, v);
      return;
    }
    case COPY:
    case INCR: {
      Prev &pv = st.dict[key];
      bool implied;
      Prev next = pv;
      if (pv.st == Prev::UNDEF) {
        implied = o.init ? same(init, v, ty) : !v.present;
        next = o.init ? init : Prev();
        if (!o.init) next.st = Prev::EMPTY;
      } else if (pv.st == Prev::EMPTY) {
        implied = !v.present;
        if (!opt) may_refuse = true;
      } else {
        if (o.op == INCR) next.i = D::wrap(ty, D::widen(ty, pv.i) + 1);
        implied = same(next, v, ty);
      }
      if (implied && pick(2) == 0) { pm.push_back(false); pv = next; return; }
      pm.push_back(true);
      out += plain(ty, opt, v);
      pv = to_prev(v);
      return;
    }
    case TAIL: {
      Prev &pv = st.dict[key];
      bool implied;
      Prev next = pv;
      if (pv.st == Prev::UNDEF) {
        implied = o.init ? same(init, v, ty) : !v.present;
        next = o.init ? init : Prev();
        if (!o.init) next.st = Prev::EMPTY;
      } else if (pv.st == Prev::EMPTY) implied = !v.present;
      else implied = same(pv, v, ty);
      std::vector<std::string> opts;
      if (v.present) {
        std::string base = pv.st == Prev::ASSIGNED ? pv.s : (o.init ? o.sval : std::string());
        if (v.s.size() == base.size()) {
          size_t k = 0;
          while (k < base.size() && base[k] == v.s[k]) ++k;
          for (size_t n = k + 1; n-- > 0;) opts.push_back(v.s.substr(n));
        } else if (v.s.size() > base.size()) opts.push_back(v.s);
        if (opts.empty() && !implied) throw Unencodable("value shorter than the base value of the tail operator");
      }
      if (implied && (opts.empty() ? pick(v.present ? 1 : 2) == 0 : pick(2) == 0)) { pm.push_back(false); pv = next; return; }
      Val t = v;
      if (v.present) t.s = opts[pick(opts.size())];
      pm.push_back(true);
      out += plain(ty, opt, t);
      pv = to_prev(v);
      return;
    }
    case DELTA: {
      Prev &pv = st.dict[key];
      if (!v.present) { out += "\x80"; return; }
      if (pv.st == Prev::EMPTY) throw Unencodable("delta on an empty previous value");
      Prev base = pv.st == Prev::ASSIGNED ? pv : (o.init ? init : D::zero());
      if (is_str(ty)) {
        std::vector<std::pair<std::string, size_t>> opts;
        for (size_t n = 0; n <= base.s.size(); ++n) {
          size_t keep = base.s.size() - n;
          if (keep > v.s.size()) continue;
          if (v.s.compare(0, keep, base.s, 0, keep) == 0) opts.push_back({enc_delta(ty, opt, (i128)n, v.s.substr(keep)), 0});
          if (v.s.compare(v.s.size() - keep, keep, base.s, n, keep) == 0) opts.push_back({enc_delta(ty, opt, -(i128)n - 1, v.s.substr(0, v.s.size() - keep)), 0});
        }
        size_t best = 0;
        for (size_t k = 1; k < opts.size(); ++k)
          if (opts[k].first.size() < opts[best].first.size()) best = k;
        std::swap(opts[0], opts[best]);
        out += opts[pick(opts.size())].first;
      } else if (ty == DEC) {
        i128 dm = (i128)v.i - base.i;
        if (dm > INT64_MAX || dm < INT64_MIN) wide = true;
        out += put_int((i128)v.e - base.e, true, opt) + put_int(dm, true, false);
      } else {
        i128 d = D::widen(ty, v.i) - D::widen(ty, base.i);
        if (d > INT64_MAX || d < INT64_MIN) wide = true;
        out += put_int(d, true, opt);
      }
      pv = to_prev(v);
      return;
    }
    }
  }
  static std::string enc_delta(Ty ty, bool opt, i128 sub, const std::string &d) { return put_int(sub, true, opt) + (ty == ASC ? put_ascii(d, false) : put_bytes(d, false)); }
  std::string put_pmap(Bits b) {
    std::string r;
    size_t n = b.size();
    while (n > 0 && !b[n - 1]) --n;
    size_t bytes = n ? (n + 6) / 7 : 1;
    bytes += extra_map_bytes ? extra_map_bytes : pick(2);
    for (size_t k = 0; k < bytes; ++k) {
      unsigned char c = 0;
      for (size_t j = 0; j < 7; ++j) {
        size_t x = k * 7 + j;
        if (x < b.size() && b[x]) c |= (unsigned char)(1 << (6 - j));
      }
      r += (char)c;
    }
    r.back() = (char)(r.back() | 0x80);
    return r;
  }
  void fields(const std::vector<Field> &fs, const std::vector<Val> &vs, Bits &pm, std::string &out) {
    for (size_t k = 0; k < fs.size(); ++k) field(fs[k], vs.at(k), pm, out);
  }
  void group(const std::vector<Field> &fs, const std::vector<Val> &vs, std::string &out) {
    Bits m;
    std::string body;
    fields(fs, vs, m, body);
    if (D::needs_pmap(fs)) out += put_pmap(m);
    out += body;
  }
  void field(const Field &f, const Val &v, Bits &pm, std::string &out) {
    switch (f.ty) {
    case GRP:
      if (f.opt) pm.push_back(v.present);
      else if (!v.present) throw Unencodable("mandatory group is absent");
      if (v.present) group(f.sub, v.sub, out);
      return;
    case SEQ: {
      Val n;
      n.present = v.present;
      n.i = (int64_t)v.sub.size();
      simple(U32, f.opt, f.has_len ? f.lop : OpSpec(), f.lkey_full, n, pm, out);
      for (auto &e : v.sub) group(f.sub, e.sub, out);
      return;
    }
    case TREF: {
      if (!v.present || !v.tmpl) throw Unencodable("unbound templateRef");
      int64_t saved = st.active;
      out += segment(v);
      st.active = saved;
      return;
    }
    case DEC:
      if (f.split) {
        Val e, m;
        e.present = v.present;
        e.i = v.e;
        simple(I32, f.opt, f.eop, f.ekey_full, e, pm, out);
        if (!v.present) return;
        m.present = true;
        m.i = v.i;
        simple(I64, false, f.mop, f.mkey_full, m, pm, out);
        return;
      }
      simple(DEC, f.opt, f.op, f.key_full, v, pm, out);
      return;
    default:
      if (is_ivec(f.ty)) {
        static const Ty et[] = {I32, U32, I64, U64};
        Ty ty = et[f.ty - I32V];
        if (!v.present) {
          if (!f.opt) throw Unencodable("mandatory vector is absent");
          out += "\x80";
          return;
        }
        out += put_int((i128)v.v.size(), false, f.opt);
        for (auto x : v.v) out += put_int(D::widen(ty, x), D::is_signed(ty), false);
        return;
      }
      simple(f.ty, f.opt, f.op, f.key_full, v, pm, out);
    }
  }
  std::string segment(const Val &m) {
    const Tmpl *t = spec_->by_id(m.tmpl);
    if (!t) throw Unencodable("unknown template");
    Bits pm;
    std::string id;
    bool explicit_id = st.active != (int64_t)t->id || pick(2) == 1;
    pm.push_back(explicit_id);
    if (explicit_id) id = put_int(t->id, false, false);
    if (t->reset) reset_all();
    st.active = t->id;
    std::string body;
    fields(t->fields, m.sub, pm, body);
    return put_pmap(pm) + id + body;
  }
};

// ------------------------------------------------------ what must arrive
// mFAST's encoders transmit the initial value for an absent optional field that has the default operator and an
// initial value (established behaviour, pinned by the repository's tests); everything else must arrive unchanged.
inline bool conveys(const Spec &sp, const std::vector<Field> &fs, const std::vector<Val> &want, const std::vector<Val> &got);
inline bool conveys(const Spec &sp, const Field &f, const Val &want, const Val &got) {
  if (!want.present) {
    if (!got.present) return true;
    return f.opt && !f.split && f.op.op == DEFAULT && f.op.init && (is_int(f.ty) || is_str(f.ty) || f.ty == DEC) &&
           got == RefDecoder::to_val(RefDecoder::init_of(f.op, f.ty), f.ty);
  }
  if (!got.present) return false;
  if (f.ty == GRP) return conveys(sp, f.sub, want.sub, got.sub);
  if (f.ty == SEQ) {
    if (want.sub.size() != got.sub.size()) return false;
    for (size_t k = 0; k < want.sub.size(); ++k)
      if (!conveys(sp, f.sub, want.sub[k].sub, got.sub[k].sub)) return false;
    return true;
  }
  if (f.ty == TREF) {
    if (want.tmpl != got.tmpl) return false;
    const Tmpl *t = sp.by_id(want.tmpl);
    return t ? conveys(sp, t->fields, want.sub, got.sub) : want == got;
  }
  return want == got;
}
inline bool conveys(const Spec &sp, const std::vector<Field> &fs, const std::vector<Val> &want, const std::vector<Val> &got) {
  if (want.size() != got.size() || fs.size() != want.size()) return want == got;
  for (size_t k = 0; k < fs.size(); ++k)
    if (!conveys(sp, fs[k], want[k], got[k])) return false;
  return true;
}
inline bool conveys(const Spec &sp, const Val &want, const Val &got) {
  if (want.present != got.present || want.tmpl != got.tmpl) return false;
  const Tmpl *t = sp.by_id(want.tmpl);
  return t ? conveys(sp, t->fields, want.sub, got.sub) : want == got;
}

}  // namespace mdl
