// The enumerated template space and message alphabets.
#pragma once
#include "model.h"
#include <algorithm>
#include <set>

namespace sp {
using namespace mdl;

struct Entry {
  std::string name;                     // stable identity
  Spec spec;                            // resolved; the template(s) of interest
  std::vector<std::vector<Val>> msgs;   // message alphabet: msgs[k] = fields (template tmplof[k])
  std::vector<uint32_t> tmplof;         // template id of each message
  std::string kind;                     // "" codec family; "wide" the same templates, more values; "pmap" C08; "dict" C12
  int same_as = -1;                     // wide: the entry whose templates (and generated code) it shares
  size_t nbase = 0;                     // dict: messages of the deep histories
  bool v2ok = true;                     // may be put through the code generator
  int depth_quick = 3, depth_thorough = 4;
};

inline OpSpec op(Op o) { OpSpec s; s.op = o; return s; }
inline OpSpec opi(Op o, int64_t v) { OpSpec s; s.op = o; s.init = true; s.ival = v; return s; }
inline OpSpec ops(Op o, const std::string &v) { OpSpec s; s.op = o; s.init = true; s.sval = v; return s; }
inline Field fld(const std::string &name, Ty ty, bool opt, OpSpec o = OpSpec()) {
  Field f;
  f.name = name;
  f.ty = ty;
  f.opt = opt;
  f.op = o;
  if (ty == ENUM) {
    f.elems = {"Zero", "One", "Two", "Big"};
    f.evals = {0, 1, 2, 300};
  }
  if (ty == SET) f.elems = {"Sa", "Sb", "Sc", "Sd"};
  return f;
}
inline Field fdec2(const std::string &name, bool opt, OpSpec e, OpSpec m) {
  Field f = fld(name, DEC, opt);
  f.split = true;
  f.eop = e;
  f.mop = m;
  return f;
}
inline Field fgrp(const std::string &name, bool opt, std::vector<Field> sub) {
  Field f = fld(name, GRP, opt);
  f.sub = std::move(sub);
  return f;
}
inline Field fseq(const std::string &name, bool opt, std::vector<Field> sub) {
  Field f = fld(name, SEQ, opt);
  f.sub = std::move(sub);
  return f;
}
inline Field fseql(const std::string &name, bool opt, OpSpec l, std::vector<Field> sub) {
  Field f = fseq(name, opt, std::move(sub));
  f.has_len = true;
  f.lname = name + "_len";
  f.lop = l;
  return f;
}
inline Tmpl tmpl(const std::string &name, uint32_t id, std::vector<Field> fs) {
  Tmpl t;
  t.name = name;
  t.id = id;
  t.fields = std::move(fs);
  return t;
}
inline std::string int_init(const OpSpec &o) { return o.init ? (o.sval.empty() ? ".i" + std::to_string((long long)o.ival) : ".i" + o.sval) : ""; }
inline std::string opt_s(bool o) { return o ? "opt" : "man"; }

// values for one field, simplest first; absent first for optional fields
inline void vals_of(const Field &f, std::vector<Val> &r, int n) {
  size_t start = r.size();
  auto lim = [&] { while ((int)(r.size() - start) > n) r.pop_back(); };
  if (f.opt) r.push_back(absent());
  if (f.ty == DEC && f.split) {
    std::vector<int64_t> es, ms;
    if (f.eop.op == CONST) es = {f.eop.ival};
    else es = {f.eop.init ? f.eop.ival : -2, 0, f.eop.init ? f.eop.ival + 1 : -1};
    if (f.mop.op == CONST) ms = {f.mop.ival};
    else ms = {f.mop.init ? f.mop.ival : 0, 5, 6};
    if (es.size() == 3 && ms.size() == 3) {
      r.push_back(vdec(ms[0], (int)es[0]));
      r.push_back(vdec(ms[1], (int)es[0]));
      r.push_back(vdec(ms[2], (int)es[2]));
      r.push_back(vdec(ms[1], (int)es[1]));
      r.push_back(vdec(-7, (int)es[2]));
    } else
      for (auto e : es)
        for (auto m : ms) r.push_back(vdec(m, (int)e));
    lim();
    return;
  }
  if (f.op.op == CONST) {
    Val v;
    v.present = true;
    if (is_str(f.ty)) v.s = f.op.sval;
    else v.i = f.op.ival;
    r.push_back(v);
    return;
  }
  std::vector<int64_t> xs;
  switch (f.ty) {
  case I32: xs = {f.op.init ? f.op.ival : 5, f.op.init ? f.op.ival + 1 : 6, 0, -1, INT32_MAX, INT32_MIN, 64}; break;
  case U32: xs = {f.op.init ? f.op.ival : 5, f.op.init ? f.op.ival + 1 : 6, 0, (int64_t)UINT32_MAX, 127, 128}; break;
  case I64: xs = {f.op.init ? f.op.ival : 5, f.op.init ? f.op.ival + 1 : 6, 0, -1, INT64_MAX, INT64_MIN, 64}; break;
  case U64: xs = {f.op.init ? f.op.ival : 5, f.op.init ? f.op.ival + 1 : 6, 0, -1 /*max*/, 127, 128}; break;
  case ENUM: xs = {1, 2, 0, 300}; break;
  case BOOL: xs = {0, 1}; break;
  case SET: xs = {1, 2, 0, 15}; break;
  default: break;
  }
  if (!xs.empty()) {
    std::vector<int64_t> u;
    for (auto x : xs) {
      if (f.ty == I32) x = (int32_t)(uint32_t)x;
      if (f.ty == U32) x = (int64_t)(uint32_t)x;
      bool dup = false;
      for (auto y : u) dup |= x == y;
      if (!dup) u.push_back(x);
    }
    for (auto x : u) r.push_back(vint(x));
    lim();
    return;
  }
  if (f.ty == DEC) {
    if (f.op.init) r.push_back(vdec(f.op.ival, 0));
    r.push_back(vdec(5, -2));
    r.push_back(vdec(6, -2));
    r.push_back(vdec(0, 0));
    r.push_back(vdec(-5, 3));
    r.push_back(vdec(INT64_MAX, 63));
    r.push_back(vdec(INT64_MIN, -63));
    lim();
    return;
  }
  if (is_str(f.ty)) {
    std::vector<std::string> ss;
    if (f.op.init) ss.push_back(f.op.sval);
    ss.insert(ss.end(), {"", "AB", "AC", "B", "CAB", "ABAB"});
    if (f.ty != ASC) ss.push_back(std::string("\0\x80\xff", 3));
    if (f.ty == BV && f.op.init == false) std::swap(ss[3], ss.back());
    std::vector<std::string> u;
    for (auto &x : ss) {
      bool dup = false;
      for (auto &y : u) dup |= x == y;
      if (!dup) u.push_back(x);
    }
    for (auto &x : u) r.push_back(vstr(x));
    lim();
    return;
  }
  if (is_ivec(f.ty)) {
    int64_t lo = f.ty == I32V ? INT32_MIN : f.ty == I64V ? INT64_MIN : 0;
    int64_t hi = f.ty == I32V ? INT32_MAX : f.ty == U32V ? (int64_t)UINT32_MAX : f.ty == I64V ? INT64_MAX : -1;
    r.push_back(vvec({}));
    r.push_back(vvec({7}));
    r.push_back(vvec({0, hi, lo, 64, 63}));
    if (f.ty == I32V || f.ty == I64V) r.push_back(vvec({-1, -64, -65}));
    lim();
    return;
  }
  if (f.ty == GRP) {
    std::vector<std::vector<Val>> per;
    for (auto &s : f.sub) {
      std::vector<Val> x;
      vals_of(s, x, n);
      per.push_back(x);
    }
    // diagonal walk: the k-th value of each subfield, then the first subfield's values with the others' first value
    size_t mx = 0;
    for (auto &x : per) mx = std::max(mx, x.size());
    for (size_t k = 0; k < mx; ++k) {
      std::vector<Val> s;
      for (auto &x : per) s.push_back(x[k % x.size()]);
      r.push_back(vsub(s));
    }
    if (per.empty()) r.push_back(vsub({}));
    lim();
    return;
  }
  if (f.ty == SEQ) {
    std::vector<Val> el;
    Field g = fgrp("", false, f.sub);
    vals_of(g, el, 4);
    bool lc = f.has_len && f.lop.op == CONST;
    if (lc) {
      for (size_t a = 0; a < el.size(); ++a) {
        std::vector<Val> s;
        for (int64_t k = 0; k < f.lop.ival; ++k) s.push_back(el[(a + k) % el.size()]);
        r.push_back(vsub(s));
      }
      lim();
      return;
    }
    r.push_back(vsub({}));
    r.push_back(vsub({el[0]}));
    if (el.size() > 1) r.push_back(vsub({el[1], el[0]}));
    if (el.size() > 2) r.push_back(vsub({el[2], el[2], el[1]}));
    if (el.size() > 3) r.push_back(vsub({el[3]}));
    if (el.size() < 3) r.push_back(vsub({el[0], el[0], el[0]}));
    lim();
    return;
  }
}

// a larger alphabet for histories of two messages
inline void wide_vals_of(const Field &f, std::vector<Val> &r) {
  if (f.op.op == CONST && !f.split) return vals_of(f, r, 100);
  if (f.opt) r.push_back(absent());
  auto add = [&](const Val &v) {
    if (std::find(r.begin(), r.end(), v) == r.end()) r.push_back(v);
  };
  if (f.ty == DEC && f.split) {
    std::vector<int64_t> es = {-2, 0, -1, 5, -3, 63, -63}, ms = {0, 5, 6, 7, -7, 64, INT64_MAX, INT64_MIN};
    if (f.eop.op == CONST) es = {f.eop.ival};
    if (f.mop.op == CONST) ms = {f.mop.ival};
    for (auto e : es)
      for (auto m : ms) add(vdec(m, (int)e));
    return;
  }
  auto ints = [&](int64_t lo, int64_t hi, bool is_signed) {
    for (int64_t x : {5, 6, 4, 7, 0, 1, 63, 64, 127, 128, 8191, 8192, 16383, 16384}) add(vint(x));
    if (is_signed)
      for (int64_t x : {-1, -2, -5, -63, -64, -65, -128, -8192, -8193}) add(vint(x));
    for (uint64_t d : {0, 1, 5}) {
      add(vint((int64_t)((uint64_t)hi - d)));
      add(vint((int64_t)((uint64_t)lo + d)));
    }
  };
  switch (f.ty) {
  case I32: return ints(INT32_MIN, INT32_MAX, true);
  case U32: return ints(0, UINT32_MAX, false);
  case I64: return ints(INT64_MIN, INT64_MAX, true);
  case U64: ints(0, -1, false); add(vint(INT64_MAX)); add(vint(INT64_MIN)); return;
  case DEC:
    for (auto p : std::vector<std::pair<int64_t, int>>{{5, 0}, {7, 0}, {5, -2}, {6, -2}, {0, 0}, {0, 5}, {0, -2}, {5, 3}, {-5, 3}, {50, -3}, {-5, -2}, {1, 63}, {1, -63}, {64, 0}, {63, 1}, {INT64_MAX, 63}, {INT64_MIN, -63}, {INT64_MAX, -2}, {INT64_MIN, 0}}) add(vdec(p.first, p.second));
    return;
  case ASC: case UNI: case BV:
    for (std::string x : {"AB", "", "A", "B", "AC", "CB", "BA", "ABC", "CAB", "AAB", "ABB", "ABAB", "AAAA", "CABC"}) add(vstr(x));
    add(vstr(std::string("A\0", 2)));
    add(vstr(std::string("A\0B", 3)));
    add(vstr(std::string(64, 'k')));
    add(vstr(std::string(63, 'k') + "l"));
    add(vstr("l" + std::string(200, 'k')));
    if (f.ty != ASC) {
      add(vstr(std::string("\0", 1)));
      add(vstr(std::string("\0AB", 3)));
      add(vstr("\x80"));
      add(vstr("\xff" "AB"));
      add(vstr("AB\xff"));
    }
    return;
  default: vals_of(f, r, 1000);
  }
}

// single-template entry whose message alphabet varies field 0 (and keeps the other fields at their first value)
inline Entry single(const std::string &name, std::vector<Field> fs, int nvals = 6) {
  Entry e;
  e.name = name;
  std::vector<Field> all = fs;
  all.push_back(fld("sentinel", U32, false));
  e.spec.tmpls.push_back(tmpl("T", 1, all));
  resolve(e.spec);
  std::vector<Val> v0;
  vals_of(fs[0], v0, nvals);
  for (size_t k = 0; k < v0.size(); ++k) {
    std::vector<Val> m = {v0[k]};
    for (size_t j = 1; j < fs.size(); ++j) {
      std::vector<Val> x;
      vals_of(fs[j], x, nvals);
      m.push_back(x[(k * (j + 1)) % x.size()]);
    }
    m.push_back(vint(0x2a));
    e.msgs.push_back(m);
    e.tmplof.push_back(1);
  }
  return e;
}

// all single-field configurations
inline std::vector<std::pair<std::string, Field>> field_configs(bool with_set = false) {
  std::vector<std::pair<std::string, Field>> r;
  auto add = [&](Field f, const std::string &extra = "") {
    std::string n = std::string(ty_name(f.ty)) + "." + opt_s(f.opt);
    if (f.split) n += ".E-" + std::string(op_name(f.eop.op)) + int_init(f.eop) + ".M-" + op_name(f.mop.op) + int_init(f.mop);
    else n += std::string(".") + op_name(f.op.op) + (f.op.init ? (is_str(f.ty) ? ".i" + quote(f.op.sval) : int_init(f.op)) : "");
    r.push_back({n + extra, f});
  };
  for (int o = 0; o < 2; ++o) {
    bool opt = o;
    for (Ty t : {I32, U32, I64, U64}) {
      add(fld("f", t, opt));
      add(fld("f", t, opt, opi(CONST, 7)));
      add(fld("f", t, opt, opi(DEFAULT, 5)));
      if (opt) add(fld("f", t, opt, op(DEFAULT)));
      for (Op p : {COPY, INCR, DELTA}) {
        add(fld("f", t, opt, op(p)));
        add(fld("f", t, opt, opi(p, 5)));
        add(fld("f", t, opt, opi(p, 0)));
      }
      if (t == U32) add(fld("f", t, opt, opi(INCR, UINT32_MAX)));
    }
    for (Ty t : {ASC, UNI, BV}) {
      add(fld("f", t, opt));
      add(fld("f", t, opt, ops(CONST, "AB")));
      add(fld("f", t, opt, ops(DEFAULT, "AB")));
      if (opt) add(fld("f", t, opt, op(DEFAULT)));
      for (Op p : {COPY, DELTA, TAIL}) {
        add(fld("f", t, opt, op(p)));
        add(fld("f", t, opt, ops(p, "AB")));
      }
    }
    add(fld("f", DEC, opt));
    add(fld("f", DEC, opt, opi(CONST, 7)));
    add(fld("f", DEC, opt, opi(DEFAULT, 5)));
    if (opt) add(fld("f", DEC, opt, op(DEFAULT)));
    for (Op p : {COPY, DELTA}) {
      add(fld("f", DEC, opt, op(p)));
      add(fld("f", DEC, opt, opi(p, 5)));
    }
    std::vector<OpSpec> eops = {op(NONE), opi(CONST, -2), opi(DEFAULT, -2), op(COPY), opi(COPY, -2), op(INCR), opi(INCR, -2), op(DELTA), opi(DELTA, -2)};
    std::vector<OpSpec> mops = {op(NONE), opi(CONST, 7), opi(DEFAULT, 5), op(COPY), opi(COPY, 5), op(INCR), opi(INCR, 5), op(DELTA), opi(DELTA, 5)};
    if (opt) eops.push_back(op(DEFAULT));
    for (auto &e : eops)
      for (auto &m : mops) {
        if (e.op == NONE && m.op == NONE) {
          add(fdec2("f", opt, e, m));
          continue;
        }
        add(fdec2("f", opt, e, m));
      }
    for (Ty t : {ENUM, BOOL}) {
      auto es = [&](Op p) {
        OpSpec s = op(p);
        s.init = true;
        s.ival = 1;
        s.sval = t == ENUM ? "One" : "true";
        return s;
      };
      add(fld("f", t, opt));
      add(fld("f", t, opt, es(CONST)));
      add(fld("f", t, opt, es(DEFAULT)));
      if (opt) add(fld("f", t, opt, op(DEFAULT)));
      add(fld("f", t, opt, op(COPY)));
      add(fld("f", t, opt, es(COPY)));
    }
    for (Ty t : {I32V, U32V, I64V, U64V}) add(fld("f", t, opt));
    (void)with_set;
  }
  return r;
}

// structural templates: groups, sequences, nesting
inline std::vector<Entry> structural() {
  std::vector<Entry> r;
  auto u = [](const char *n, bool opt, OpSpec o) { return fld(n, U32, opt, o); };
  std::vector<std::pair<std::string, std::vector<Field>>> contents = {
      {"plain", {u("a", false, op(NONE))}},
      {"optplain", {u("a", true, op(NONE))}},
      {"copy", {u("a", false, op(COPY))}},
      {"optcopy", {u("a", true, op(COPY))}},
      {"optincr", {u("a", true, op(INCR)), fld("b", ASC, true, op(COPY))}},
      {"optdelta", {u("a", true, op(DELTA))}},
      {"optdefault", {u("a", true, opi(DEFAULT, 5))}},
      {"optconst", {u("a", true, opi(CONST, 7))}},
      {"strtail", {fld("a", ASC, true, op(TAIL)), u("b", false, op(NONE))}},
      {"dec2", {fdec2("a", true, op(COPY), op(DELTA)), u("b", true, op(COPY))}},
      {"enumcopy", {fld("a", ENUM, true, op(COPY))}},
      {"vec", {fld("a", I32V, true), u("b", true, op(COPY))}},
  };
  for (auto &c : contents) {
    for (int o = 0; o < 2; ++o) {
      r.push_back(single("group." + opt_s(o) + "." + c.first, {fgrp("g", o, c.second)}));
      r.push_back(single("seq." + opt_s(o) + "." + c.first, {fseq("s", o, c.second)}));
    }
  }
  std::vector<OpSpec> lops = {op(NONE), opi(CONST, 2), opi(DEFAULT, 2), op(DEFAULT), op(COPY), opi(COPY, 2), op(INCR), opi(INCR, 1), op(DELTA), opi(DELTA, 2)};
  for (int o = 0; o < 2; ++o)
    for (auto &l : lops) {
      if (l.op == DEFAULT && !l.init && !o) continue;
      r.push_back(single("seqlen." + opt_s(o) + "." + op_name(l.op) + int_init(l), {fseql("s", o, l, {u("a", true, op(COPY))})}));
      r.push_back(single("seqlenplain." + opt_s(o) + "." + op_name(l.op) + int_init(l), {fseql("s", o, l, {u("a", false, op(NONE))}), u("c", true, op(COPY))}));
    }
  for (int o = 0; o < 2; ++o)
    for (int o2 = 0; o2 < 2; ++o2) {
      r.push_back(single("group." + opt_s(o) + ".in.group." + opt_s(o2), {fgrp("g", o2, {fgrp("h", o, {u("a", true, op(COPY))}), u("b", true, op(INCR))})}));
      r.push_back(single("seq." + opt_s(o) + ".in.group." + opt_s(o2), {fgrp("g", o2, {fseq("h", o, {u("a", true, op(COPY))}), u("b", true, op(DELTA))})}));
      r.push_back(single("group." + opt_s(o) + ".in.seq." + opt_s(o2), {fseq("g", o2, {fgrp("h", o, {u("a", true, op(COPY))}), u("b", true, op(COPY))})}));
      r.push_back(single("seq." + opt_s(o) + ".in.seq." + opt_s(o2), {fseq("g", o2, {fseq("h", o, {fld("a", ASC, true, op(COPY))}), fld("b", ASC, true, op(DELTA))})}));
      r.push_back(single("seqlencopy." + opt_s(o) + ".in.seq." + opt_s(o2), {fseq("g", o2, {fseql("h", o, op(COPY), {fld("a", ASC, true, op(COPY))})})}));
      r.push_back(single("seqlencopy." + opt_s(o) + ".in.group." + opt_s(o2), {fgrp("g", o2, {fseql("h", o, op(COPY), {fld("a", U32, false, op(NONE))}), u("b", false, op(NONE))})}));
    }
  r.push_back(single("group.empty-opt", {fgrp("g", true, {u("a", false, op(NONE))}), fgrp("h", true, {u("b", false, op(NONE))}), fgrp("k", true, {u("c", true, op(COPY))})}));
  return r;
}

// several fields in one template: ordering of presence-map bits and streams
inline std::vector<Entry> multi_field() {
  std::vector<Entry> r;
  std::vector<Field> a = {fld("a", U32, true, op(COPY)), fld("b", ASC, true, op(TAIL)), fdec2("c", true, op(COPY), op(DELTA)), fld("d", I64, true, opi(DEFAULT, 5)), fld("e", BV, true, op(DELTA)), fld("g", ENUM, true, op(COPY)), fld("h", U64, true, op(INCR)), fld("k", UNI, false, op(COPY)), fld("l", I32V, true)};
  // every field in turn is the varied one
  for (size_t k = 0; k < a.size(); ++k) {
    std::vector<Field> f = a;
    std::rotate(f.begin(), f.begin() + k, f.end());
    Entry e = single("multi." + std::to_string(k), f, 5);
    r.push_back(e);
  }
  return r;
}

// several templates on one stream, incl. nested dynamic templateRef and templates with reset
inline std::vector<Entry> multi_template() {
  std::vector<Entry> r;
  {
    Entry e;
    e.name = "two-templates";
    e.spec.tmpls = {tmpl("A", 1, {fld("a", U32, true, op(COPY)), fld("x", ASC, true, op(COPY))}), tmpl("B", 200, {fld("a", U32, true, op(INCR)), fld("y", U32, false)})};
    resolve(e.spec);
    // "a" of A and "a" of B share their global dictionary entry (same name, same type)
    for (int k = 0; k < 3; ++k) {
      e.msgs.push_back({k ? vint(k + 4) : absent(), k ? vstr("A") : absent()});
      e.tmplof.push_back(1);
      e.msgs.push_back({k ? vint(k + 4) : absent(), vint(1)});
      e.tmplof.push_back(200);
    }
    r.push_back(e);
  }
  {
    Entry e;
    e.name = "reset-template";
    e.spec.tmpls = {tmpl("A", 1, {fld("a", U32, true, op(COPY))}), tmpl("R", 2, {fld("b", U32, true, opi(INCR, 3))}), tmpl("Z", 3, {fld("c", U32, false, op(DELTA))})};
    e.spec.tmpls[2].reset = true;
    resolve(e.spec);
    e.msgs = {{absent()}, {vint(5)}, {vint(3)}, {vint(4)}, {vint(9)}};
    e.tmplof = {1, 1, 2, 2, 3};
    r.push_back(e);
  }
  {
    Entry e;
    e.name = "nested";
    Field tr = fld("n", TREF, false);
    e.spec.tmpls = {tmpl("In1", 11, {fld("a", U32, true, op(COPY))}), tmpl("In2", 12, {fld("b", ASC, true, op(TAIL)), fld("c", U32, false)}), tmpl("Out", 13, {fld("d", U32, true, op(COPY)), tr, fld("e", U32, false)})};
    resolve(e.spec);
    auto nest = [](uint32_t t, std::vector<Val> x) { Val v = vsub(x); v.tmpl = t; return v; };
    e.msgs = {{vint(1), nest(11, {vint(5)}), vint(3)}, {absent(), nest(11, {absent()}), vint(4)}, {vint(1), nest(12, {vstr("AB"), vint(9)}), vint(4)}, {absent(), nest(12, {absent(), vint(9)}), vint(4)}};
    e.tmplof = {13, 13, 13, 13};
    e.msgs.push_back({vint(5)});
    e.tmplof.push_back(11);
    r.push_back(e);
  }
  {
    Entry e;
    e.name = "nested-seq-group";
    Field tr = fld("n", TREF, false);
    e.spec.tmpls = {tmpl("In1", 11, {fld("a", U32, true, op(COPY)), fld("z", ASC, true)}), tmpl("In2", 12, {fld("b", ASC, true, op(DELTA)), fseq("q", true, {fld("k", U32, true, op(COPY))})}), tmpl("Out", 13, {fseq("s", true, {fld("d", U32, true, op(COPY)), tr}), fgrp("g", false, {fld("p", U32, true, op(COPY)), tr})})};
    resolve(e.spec);
    auto nest = [](uint32_t t, std::vector<Val> x) { Val v = vsub(x); v.tmpl = t; return v; };
    Val n1 = nest(11, {vint(5), vstr("Q")}), n1a = nest(11, {absent(), absent()}), n2 = nest(12, {vstr("AB"), vsub({vsub({vint(1)}), vsub({vint(1)})})}), n2a = nest(12, {absent(), absent()});
    e.msgs = {{absent(), vsub({vint(1), n1})}, {vsub({vsub({vint(2), n2}), vsub({vint(2), n1a})}), vsub({vint(1), n2})}, {vsub({vsub({absent(), n2a})}), vsub({absent(), n1})}, {vsub({}), vsub({vint(1), n2a})}};
    e.tmplof = {13, 13, 13, 13};
    r.push_back(e);
  }
  return r;
}

inline bool has_ivec(const std::vector<Field> &fs) {
  for (auto &f : fs)
    if (is_ivec(f.ty) || has_ivec(f.sub)) return true;
  return false;
}
inline std::vector<Entry> v1_space() {
  std::vector<Entry> r;
  for (auto &c : field_configs()) {
    // keep the split-decimal grid at the top level only
    r.push_back(single(c.first, {c.second}));
  }
  for (auto &e : structural()) r.push_back(e);
  for (auto &e : multi_field()) r.push_back(e);
  for (auto &e : multi_template()) r.push_back(e);
  for (size_t k = 0, n = r.size(); k < n; ++k) {
    for (auto &t : r[k].spec.tmpls)
      if (has_ivec(t.fields)) r[k].v2ok = false;  // integer vectors exist only in the run-time codec
    if (!r[k].v2ok && r[k].name.substr(0, 6) == "multi.") {
      std::vector<Field> f = r[k].spec.tmpls[0].fields;
      f.pop_back();
      if (is_ivec(f[0].ty)) continue;
      f.erase(std::remove_if(f.begin(), f.end(), [](const Field &x) { return is_ivec(x.ty); }), f.end());
      r.push_back(single("multinv" + r[k].name.substr(5), f, 5));
    }
  }
  return r;
}
// the same templates with one varied field, and many values
inline std::vector<Entry> wide_space(const std::vector<Entry> &base) {
  std::vector<Entry> r;
  for (size_t k = 0; k < base.size(); ++k) {
    const Entry &b = base[k];
    if (!b.kind.empty() || b.spec.tmpls.size() != 1 || b.spec.tmpls[0].fields.size() != 2) continue;
    const Field &f = b.spec.tmpls[0].fields[0];
    if (f.ty == GRP || f.ty == SEQ) continue;
    Entry e = b;
    e.name = "wide." + b.name;
    e.kind = "wide";
    e.same_as = (int)k;
    e.msgs.clear();
    e.tmplof.clear();
    std::vector<Val> v;
    wide_vals_of(f, v);
    for (auto &x : v) {
      e.msgs.push_back({x, vint(0x2a)});
      e.tmplof.push_back(1);
    }
    e.depth_quick = 2;
    e.depth_thorough = e.msgs.size() < 30 ? 3 : 2;
    r.push_back(e);
  }
  return r;
}

}  // namespace sp
#include "space2.h"
