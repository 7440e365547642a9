// Further parts of the template space: presence maps of every length (C08), dictionary keys (C12).
#pragma once
namespace sp {

// ------------------------------------------------------------------ presence maps
// n optional constants (one bit each, no bytes) before a copy field, in the message, a group, or sequence elements
inline Entry pmap_entry(const std::string &ctx, int n, bool two) {
  Entry e;
  e.kind = "pmap";
  e.name = "pmap." + ctx + (two ? ".tid" : "") + ".n" + std::to_string(n);
  std::vector<Field> fs;
  for (int k = 0; k < n; ++k) fs.push_back(fld("f" + std::to_string(k), U32, true, opi(CONST, 7)));
  fs.push_back(fld("z", U32, false, op(COPY)));
  std::vector<Field> top;
  if (ctx == "msg") top = fs;
  if (ctx == "group") top = {fgrp("g", false, fs)};
  if (ctx == "optgroup") top = {fgrp("g", true, fs)};
  if (ctx == "seq") top = {fseq("s", false, fs)};
  top.push_back(fld("sentinel", U32, false));
  e.spec.tmpls.push_back(tmpl("T", 1, top));
  if (two) e.spec.tmpls.push_back(tmpl("U", 2, {fld("other", U32, false)}));
  resolve(e.spec);
  e.v2ok = false;
  return e;
}
inline std::vector<Entry> pmap_space() {
  std::vector<Entry> r;
  std::set<int> v2 = {1, 5, 6, 7, 12, 13, 14, 20, 47, 48, 49, 55, 56, 57, 62, 63, 64, 70, 90};
  for (int n = 1; n <= 90; ++n) {
    if (n > 72 && n != 90) continue;
    for (const char *ctx : {"msg", "group", "optgroup", "seq"}) {
      r.push_back(pmap_entry(ctx, n, false));
      r.back().v2ok = v2.count(n) > 0;
    }
    r.push_back(pmap_entry("msg", n, true));
    r.back().v2ok = v2.count(n) > 0 && n < 64;
  }
  return r;
}
// the message of a bit pattern: bits of the constants, then the value of z
inline std::vector<Val> pmap_msg(const Entry &e, const std::vector<bool> &bits, int64_t z) {
  std::vector<Val> fs;
  for (bool b : bits) fs.push_back(b ? vint(7) : absent());
  fs.push_back(vint(z));
  const Field &f0 = e.spec.tmpls[0].fields[0];
  if (f0.ty == GRP) fs = {vsub(fs)};
  else if (f0.ty == SEQ) {
    std::vector<Val> inv;
    for (bool b : bits) inv.push_back(b ? absent() : vint(7));
    inv.push_back(vint(z));
    fs = {vsub({vsub(fs), vsub(inv)})};
  }
  fs.push_back(vint(0x2a));
  return fs;
}

// ------------------------------------------------------------------ dictionary keys
inline OpSpec keyed(Op o, const std::string &key, const std::string &dict = "", const std::string &ns = "") {
  OpSpec s = op(o);
  s.key = key;
  s.dict = dict;
  s.ns = ns;
  return s;
}
inline std::vector<Field> dict_fields(Ty ty, Op o, bool deep) {
  std::vector<Field> r;
  auto add = [&](std::vector<Field> &to, const std::string &n, OpSpec s, const std::string &ns = "") {
    to.push_back(fld(n, ty, true, s));
    to.back().ns = ns;
  };
  add(r, "p", op(o));
  add(r, "q", keyed(o, "p"));
  add(r, "r", keyed(o, "k1"));
  add(r, "r2", keyed(o, "k2"));
  add(r, "s", keyed(o, "k1", "template"));
  add(r, "t", keyed(o, "k1", "type"));
  add(r, "u", keyed(o, "k1", "u1"));
  add(r, "v", keyed(o, "k1", "u2"));
  add(r, "w", keyed(o, "k1", "global"));
  add(r, "x", keyed(o, "k1", "", "n1"));
  add(r, "y", keyed(o, "k1", "u1", "n1"));
  add(r, "aa", keyed(o, "k1"), "n1");
  add(r, "ab", keyed(o, "k1", "", "n2"), "n1");
  add(r, "ac", keyed(o, "", "u1"), "n1");
  add(r, "ad", keyed(o, "", "template"));
  add(r, "ae", keyed(o, "", "type"));
  add(r, "af", op(o), "n1");
  add(r, "ag", keyed(o, "af"), "n1");
  add(r, "ah", keyed(o, "ac", "u1"));
  if (!deep) return r;
  auto grp = [&](const std::string &n, const std::string &dict, const std::string &ns, const std::string &type, const std::string &tns, bool seq) {
    std::vector<Field> in;
    add(in, n + "k", keyed(o, "k1"));
    add(in, n + "t", keyed(o, "k1", "type"));
    add(in, n + "m", keyed(o, "k1", "template"));
    Field g = seq ? fseql(n, true, keyed(COPY, n + "len"), in) : fgrp(n, false, in);
    g.dict = dict;
    g.ns = ns;
    g.type_name = type;
    g.type_ns = tns;
    r.push_back(g);
  };
  grp("g1", "u1", "", "", "", false);
  grp("g2", "", "n1", "", "", false);
  grp("g3", "", "", "TT", "", false);
  grp("g4", "", "", "TT", "n3", false);
  grp("g5", "type", "", "TT", "", false);
  grp("g6", "", "n3", "TT", "", false);
  grp("s1", "template", "", "", "", true);
  grp("s2", "", "", "TT", "", true);
  // nesting: the inner group inherits what the outer one sets
  {
    std::vector<Field> in, mid;
    add(in, "ik", keyed(o, "k1"));
    add(in, "it", keyed(o, "k1", "type"));
    Field g = fgrp("gi", false, in);
    add(mid, "ok", keyed(o, "k1", "global"));
    mid.push_back(g);
    add(mid, "ol", keyed(o, "k1"));
    Field h = fgrp("go", false, mid);
    h.dict = "u1";
    h.ns = "n1";
    h.type_name = "TT";
    r.push_back(h);
    add(r, "last", keyed(o, "k1"));
  }
  return r;
}
// value of leaf number i under pattern p: 0 all alike, 1 all different, 2+2j/3+2j bit j of i / its complement
inline void dict_val(const Field &f, int p, int base, int &leaf, Val &v) {
  if (f.ty == GRP || f.ty == SEQ) {
    std::vector<Val> x;
    for (auto &s : f.sub) {
      Val y;
      dict_val(s, p, base, leaf, y);
      x.push_back(y);
    }
    v = f.ty == GRP ? vsub(x) : vsub({vsub(x)});
    return;
  }
  int i = leaf++;
  int64_t n = p == 0 ? 7 : p == 1 ? base + i : 7 + (((i >> ((p - 2) / 2)) & 1) ^ (p & 1));
  if (is_str(f.ty)) v = vstr(std::string(1, (char)('A' + n % 26)) + (char)('a' + (n / 26) % 26));
  else if (f.ty == DEC) v = vdec(n, -2);
  else v = vint(n);
}
inline void dict_msgs(Entry &e, int patterns) {
  auto each = [&](int p) {
    int base = 100;
    auto tmpls = e.spec.tmpls;
    for (auto &x : e.spec.extra) tmpls.insert(tmpls.end(), x.tmpls.begin(), x.tmpls.end());
    for (auto &t : tmpls) {
      int leaf = 0;
      std::vector<Val> m;
      for (auto &f : t.fields) {
        Val v;
        dict_val(f, p, base, leaf, v);
        m.push_back(v);
      }
      base += 100;
      e.msgs.push_back(m);
      e.tmplof.push_back(t.id);
    }
  };
  each(0);
  each(1);
  e.nbase = e.msgs.size();
  for (int p = 2; p < 2 + 2 * patterns; ++p) each(p);
}
inline std::vector<Entry> dict_space() {
  std::vector<Entry> r;
  auto base = [&](const std::string &name, Ty ty, Op o, bool deep) {
    Entry e;
    e.kind = "dict";
    e.name = "dict." + name;
    auto fs = dict_fields(ty, o, deep);
    e.spec.tmpls = {tmpl("A", 1, fs), tmpl("B", 2, fs), tmpl("C", 3, fs), tmpl("D", 4, fs), tmpl("E", 5, fs), tmpl("F", 6, fs)};
    e.spec.tmpls[2].dict = "template";
    e.spec.tmpls[3].dict = "u1";
    e.spec.tmpls[4].ns = "n1";
    e.spec.tmpls[5].type_name = "TT";
    return e;
  };
  auto push = [&](Entry e) {
    resolve(e.spec);
    dict_msgs(e, 6);
    r.push_back(e);
  };
  push(base("plain", U32, COPY, true));
  for (const char *d : {"template", "u1", "type", "global"}) {
    Entry e = base(std::string("desc-dict-") + d, U32, COPY, true);
    e.spec.dict = d;
    e.v2ok = d[0] == 'u' || d[1] == 'e';
    push(e);
  }
  {
    Entry e = base("desc-ns", U32, COPY, true);
    e.spec.ns = "n1";
    push(e);
  }
  {
    Entry e = base("desc-templateNs", U32, COPY, true);
    e.spec.template_ns = "n1";
    push(e);
  }
  {
    Entry e = base("same-name", U32, COPY, false);
    e.spec.tmpls[1].name = "A";
    e.spec.tmpls[1].template_ns = "tn";
    e.v2ok = false;
    push(e);
  }
  {  // two descriptions on one codec
    Entry e = base("two-descriptions", U32, COPY, false);
    Spec x;
    x.tmpls.assign(e.spec.tmpls.begin() + 3, e.spec.tmpls.end());
    x.tmpls.push_back(x.tmpls[0]);
    x.tmpls.back().name = "G";
    x.tmpls.back().id = 7;
    x.tmpls.back().dict = "";
    x.ns = "n2";
    e.spec.tmpls.resize(3);
    e.spec.extra.push_back(x);
    push(e);
  }
  {
    Entry e = base("two-descriptions-dict", U32, COPY, false);
    Spec x;
    x.tmpls.assign(e.spec.tmpls.begin() + 3, e.spec.tmpls.end());
    x.dict = "template";
    x.template_ns = "tt";
    e.spec.tmpls.resize(3);
    e.spec.extra.push_back(x);
    push(e);
  }
  // the other operators and types, one dictionary rule set
  for (Ty t : {ASC, UNI, BV})
    for (Op o : {COPY, DELTA, TAIL}) {
      Entry e = base(std::string(ty_name(t)) + "." + op_name(o), t, o, false);
      e.v2ok = o == TAIL || t == BV;
      push(e);
    }
  for (Ty t : {I32, I64, U64, DEC})
    for (Op o : {COPY, INCR, DELTA}) {
      if (t == DEC && o == INCR) continue;
      Entry e = base(std::string(ty_name(t)) + "." + op_name(o), t, o, false);
      e.v2ok = t == I64 || t == DEC;
      push(e);
    }
  // different operators on one key
  auto mixed = [&](const std::string &n, std::vector<Field> fs, bool v2) {
    Entry e;
    e.kind = "dict";
    e.name = "dict.mixed." + n;
    e.v2ok = v2;
    std::vector<Field> g = fs;
    std::rotate(g.begin(), g.begin() + 1, g.end());
    e.spec.tmpls = {tmpl("A", 1, fs), tmpl("B", 2, g)};
    resolve(e.spec);
    dict_msgs(e, 3);
    // absent values too
    for (size_t k = 0; k < fs.size(); ++k) {
      std::vector<Val> m = e.msgs[0];
      m[k] = absent();
      e.msgs.push_back(m);
      e.tmplof.push_back(1);
    }
    e.nbase = e.msgs.size();
    r.push_back(e);
  };
  for (Ty t : {I32, U32, I64, U64}) mixed(std::string(ty_name(t)), {fld("a", t, true, keyed(COPY, "k")), fld("b", t, true, keyed(INCR, "k")), fld("c", t, true, keyed(DELTA, "k"))}, true);
  for (Ty t : {ASC, UNI, BV}) mixed(std::string(ty_name(t)), {fld("a", t, true, keyed(COPY, "k")), fld("b", t, true, keyed(TAIL, "k")), fld("c", t, true, keyed(DELTA, "k"))}, true);
  mixed("decimal", {fld("a", DEC, true, keyed(COPY, "k")), fld("b", DEC, true, keyed(DELTA, "k"))}, true);
  mixed("dec2", {fdec2("a", true, keyed(COPY, "ke"), keyed(COPY, "km")), fdec2("b", true, keyed(INCR, "ke"), keyed(DELTA, "km")), fdec2("c", true, keyed(DELTA, "ke"), keyed(INCR, "km"))}, true);
  mixed("mantissa-int64", {fdec2("a", true, op(COPY), keyed(COPY, "km")), fld("b", I64, true, keyed(COPY, "km")), fld("c", I64, true, keyed(DELTA, "km"))}, true);
  mixed("length-uint32", {fseql("a", true, keyed(COPY, "k"), {fld("x", U32, false)}), fld("b", U32, true, keyed(INCR, "k"))}, false);
  return r;
}
// two fields of different types on one key: nothing may be built from this
inline std::vector<Entry> dict_clash_space() {
  std::vector<Entry> r;
  std::vector<Ty> ts = {I32, U32, I64, U64, DEC, ASC, UNI, BV};
  for (Ty a : ts)
    for (Ty b : ts)
      for (int w = 0; w < 3; ++w) {
        Entry e;
        e.kind = "clash";
        static const char *wn[] = {"same-template", "two-templates", "two-descriptions"};
        e.name = std::string("clash.") + wn[w] + "." + ty_name(a) + "." + ty_name(b);
        Field x = fld("a", a, true, keyed(COPY, "k")), y = fld("b", b, true, keyed(w ? DELTA : COPY, "k"));
        if (w == 0) e.spec.tmpls = {tmpl("A", 1, {x, y})};
        if (w == 1) e.spec.tmpls = {tmpl("A", 1, {x}), tmpl("B", 2, {y})};
        if (w == 2) {
          e.spec.tmpls = {tmpl("A", 1, {x})};
          Spec s;
          s.tmpls = {tmpl("B", 2, {y})};
          e.spec.extra.push_back(s);
        }
        e.v2ok = w == 2 && ((a == U32 && (b == U64 || b == ASC || b == U32)) || (a == ASC && b == UNI));  // fast_type_gen rejects a clash within one file
        resolve(e.spec);
        e.nbase = a == b;  // 1: must be accepted
        r.push_back(e);
      }
  return r;
}
// template ids around every stop-bit length
inline Entry tid_space() {
  Entry e;
  e.kind = "tid";
  e.name = "template-ids";
  int n = 0;
  for (uint64_t id : {1ull, 63ull, 64ull, 127ull, 128ull, 129ull, 8191ull, 8192ull, 16383ull, 16384ull, 2097151ull, 2097152ull, 268435455ull, 268435456ull, 2147483647ull, 2147483648ull, 4294967295ull}) {
    e.spec.tmpls.push_back(tmpl("T" + std::to_string(n), (uint32_t)id, {fld("a", U32, true, op(COPY)), fld("b" + std::to_string(n++), U32, false)}));
    e.msgs.push_back({vint(5), vint(n)});
    e.tmplof.push_back((uint32_t)id);
  }
  resolve(e.spec);
  return e;
}
inline std::vector<Entry> full_space() {
  auto r = v1_space();
  for (auto &e : pmap_space()) r.push_back(e);
  for (auto &e : dict_space()) r.push_back(e);
  for (auto &e : dict_clash_space()) r.push_back(e);
  r.push_back(tid_space());
  for (auto &e : wide_space(r)) r.push_back(e);
  return r;
}
}  // namespace sp
