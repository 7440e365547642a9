// C13/C14: JSON text of messages, written and read by the real library, judged by an independent JSON parser.
#include "codec.h"
#include "json.h"
#include "mfast/json/json.h"
#include <algorithm>
#include <sstream>
using namespace cx;
using namespace mfast;

static std::vector<sp::Entry> space_;
enum { RAW = 4, IGNORE = 8 };

static bool has_tref(const std::vector<Field> &fs) {
  for (auto &f : fs)
    if (f.ty == TREF || has_tref(f.sub)) return true;
  return false;
}
static Field tagged(Field f, uint64_t t) {
  f.more = t == RAW ? " mfast:tag=\"RAW\"" : t == IGNORE ? " mfast:tag=\"IGNORE\"" : "";
  f.tag = t;
  return f;
}
static std::string utf(uint32_t c) { std::string s; js::Parser::utf8(c, s); return s; }

static std::vector<sp::Entry> make_space(bool thorough) {
  std::vector<sp::Entry> r;
  auto own = [&](const std::string &name, std::vector<Field> fs, std::vector<std::vector<Val>> msgs) {
    sp::Entry e;
    e.name = name;
    e.kind = "own";
    e.spec.tmpls.push_back(sp::tmpl("T", 1, fs));
    e.spec.prologue = "<define name=\"mfast:tag\"><enum><element name=\"RAW\" value=\"4\"/><element name=\"IGNORE\" value=\"8\"/></enum></define>\n";
    resolve(e.spec);
    e.msgs = msgs;
    e.tmplof.assign(msgs.size(), 1);
    r.push_back(e);
  };
  for (auto &e : sp::v1_space()) {
    bool skip = false;
    for (auto &t : e.spec.tmpls) skip |= has_tref(t.fields);
    if (!skip) r.push_back(e);
  }
  for (auto &e : sp::wide_space(sp::v1_space())) r.push_back(e);
  for (int o = 0; o < 2; ++o) r.push_back(sp::single("set." + sp::opt_s(o), {sp::fld("f", SET, o)}, 10));
  using sp::fld;
  // strings: every byte, every pair of characters, triples of the characters that matter
  for (Ty t : {ASC, UNI}) {
    std::vector<std::vector<Val>> m;
    std::vector<std::string> al;
    for (int c = 0; c < 256; ++c) m.push_back({vstr(std::string(1, (char)c))});
    for (int c = 0; c < 128; ++c) al.push_back(std::string(1, (char)c));
    if (t == UNI) {
      for (uint32_t c : {0x80u, 0x9fu, 0xa0u, 0xe9u, 0x7ffu, 0x800u, 0x2028u, 0x2029u, 0xd7ffu, 0xe000u, 0xfeffu, 0xfffeu, 0xffffu, 0x10000u, 0x1f600u, 0x10ffffu}) al.push_back(utf(c));
    }
    std::vector<std::string> few = {"\"", "\\", "/", "u", "n", std::string(1, '\0'), "\n", "\x1f", "\x7f", "0", t == UNI ? utf(0xe9) : "e"};
    for (auto &a : al)
      for (auto &b : al) m.push_back({vstr(a + b)});
    for (auto &a : few)
      for (auto &b : few)
        for (auto &c : few) m.push_back({vstr(a + b + c)});
    if (thorough)
      for (auto &a : few)
        for (auto &b : few)
          for (auto &c : few)
            for (auto &d : few) m.push_back({vstr(a + b + c + d)});
    m.push_back({vstr(std::string(5000, '"'))});
    m.push_back({vstr(std::string(5000, '\1'))});
    own(std::string("strings.") + ty_name(t), {fld("f", t, false)}, m);
    m.resize(thorough ? m.size() : 300);
    m.push_back({absent()});
    own(std::string("strings.opt.") + ty_name(t), {fld("f", t, true)}, m);
  }
  {
    std::vector<std::vector<Val>> m;
    for (int c = 0; c < 256; ++c)
      for (int d : {0, 0x5a, 0xff}) {
        m.push_back({vstr(std::string(1, (char)c) + (char)d)});
        m.push_back({vstr(std::string(1, (char)c))});
      }
    for (size_t n : {0, 1, 2, 3, 4, 5, 7, 8, 10, 12, 14, 15, 16, 17, 18, 31, 32, 33, 64, 100})
      for (int x : {0, 1, 0x80, 0xff}) {
        std::string s;
        for (size_t k = 0; k < n; ++k) s += (char)(x + k * 17);
        m.push_back({vstr(s)});
        m.push_back({vstr(std::string(n, (char)x))});
      }
    own("bytes", {fld("f", BV, false)}, m);
    m.push_back({absent()});
    own("bytes.opt", {fld("f", BV, true)}, m);
  }
  // member names
  {
    std::vector<std::string> names = {"q\"x", "b\\s", "\xc3\xa9", "a.b", "x y", "n:1", "a/b", "null", "{", "}", ",", "F", "f", "fa", "0"};
    std::vector<Field> fs;
    std::vector<Val> a, b, d;
    for (size_t k = 0; k < names.size(); ++k) {
      fs.push_back(fld(names[k], U32, k % 2));
      a.push_back(vint((int64_t)k));
      b.push_back(k % 2 ? absent() : vint((int64_t)k + 100));
      d.push_back(k % 4 == 1 ? absent() : vint((int64_t)k + 200));
    }
    own("names", fs, {a, b, d});
  }
  // sequences of unnamed elements
  for (int o = 0; o < 2; ++o)
    for (auto &el : std::vector<std::pair<std::string, Field>>{{"uint", fld("", U32, false)}, {"string", fld("", UNI, false)}, {"dec", fld("", DEC, false)}, {"bytes", fld("", BV, false)}, {"bool", fld("", BOOL, false)}, {"optuint", fld("", U32, true)}, {"optstring", fld("", UNI, true)}, {"vec", fld("", U64V, false)}, {"optvec", fld("", I32V, true)}}) {
      std::vector<Val> v;
      sp::vals_of(el.second, v, 4);
      std::vector<std::vector<Val>> m;
      if (o) m.push_back({absent(), vint(1)});
      m.push_back({vsub({}), vint(1)});
      for (auto &x : v) m.push_back({vsub({vsub({x})}), vint(2)});
      for (auto &x : v)
        for (auto &y : v) m.push_back({vsub({vsub({x}), vsub({y})}), vint(2)});
      m.push_back({vsub({vsub({v[0]}), vsub({v[1]}), vsub({v[0]})}), vint(2)});
      own("unnamed." + sp::opt_s(o) + "." + el.first, {sp::fseq("q", o, {el.second}), fld("z", U32, false)}, m);
    }
  // raw JSON members and ignored members
  {
    std::vector<std::vector<Val>> m;
    std::vector<std::string> raw = {"{}", "{\"a\":1}", "{ \"a\" : [ {} , \"}\" , \"\\\"\" ] }", "{\"a\":{\"b\":{}},\"c\":\"{\"}", "{\"s\":\"\\u00e9\\\\\"}"};
    for (auto &x : raw)
      for (int k = 0; k < 6; ++k) m.push_back({k & 1 ? vint(k) : absent(), vstr(x), k & 2 ? vstr(raw[k % 5]) : absent(), vint(k), k >= 3 ? vstr("i") : absent()});
    own("raw", {fld("a", U32, true), tagged(fld("x", BV, false), RAW), tagged(fld("y", BV, true), RAW), fld("z", U32, false), tagged(fld("i", UNI, true), IGNORE)}, m);
    own("rawfirst", {tagged(fld("x", BV, false), RAW), sp::fgrp("g", true, {tagged(fld("x", BV, true), RAW), fld("k", U32, true)})},
        {{vstr("{}"), absent()}, {vstr("{\"q\":[]}"), vsub({vstr("{}"), vint(1)})}, {vstr("{}"), vsub({absent(), absent()})}, {vstr("{}"), vsub({absent(), vint(2)})}, {vstr("{}"), vsub({vstr("{}"), absent()})}});
  }
  // optional things that are present but empty, next to absent ones
  {
    std::vector<Field> fs = {fld("s", UNI, true), fld("b", BV, true), fld("v", U32V, true), sp::fseq("q", true, {fld("x", U32, true)}), sp::fgrp("g", true, {fld("x", U32, true)}), sp::fgrp("h", true, {sp::fgrp("k", true, {fld("x", UNI, true)})})};
    std::vector<std::vector<Val>> m;
    for (int k = 0; k < 64; ++k) {
      auto on = [&](int b, Val v) { return k >> b & 1 ? v : absent(); };
      m.push_back({on(0, vstr("")), on(1, vstr("")), on(2, vvec({})), on(3, vsub({})), on(4, vsub({absent()})), on(5, vsub({k & 1 ? vsub({absent()}) : absent()}))});
      m.push_back({on(0, vstr("x")), on(1, vstr("x")), on(2, vvec({1})), on(3, vsub({vsub({absent()}), vsub({vint(1)})})), on(4, vsub({vint(1)})), on(5, vsub({k & 1 ? vsub({vstr("y")}) : absent()}))});
    }
    own("empties", fs, m);
  }
  // a bit of everything, deeply
  {
    std::vector<Field> leaf = {fld("a", U32, true), fld("s", UNI, true), fld("d", DEC, true)};
    std::vector<Field> mid = {sp::fgrp("g", true, leaf), sp::fseq("q", true, leaf), fld("e", ENUM, true), fld("t", BOOL, true)};
    std::vector<Field> top = {sp::fseq("p", true, mid), sp::fgrp("o", false, mid), fld("v", I64V, true), fld("x", BV, false), fld("c", U32, true, sp::opi(CONST, 7)), fld("n", ASC, false, sp::ops(CONST, "AB"))};
    std::vector<std::vector<Val>> m;
    Val l0 = vsub({absent(), absent(), absent()}), l1 = vsub({vint(1), absent(), vdec(-5, -2)}), l2 = vsub({absent(), vstr("}\""), vdec(1, 5)}), l3 = vsub({vint(0), vstr(""), absent()});
    std::vector<Val> mids = {vsub({absent(), absent(), absent(), absent()}), vsub({l0, vsub({}), vint(1), vint(0)}), vsub({l1, vsub({l2}), absent(), vint(1)}), vsub({l2, vsub({l0, l1, l3}), vint(300), absent()}), vsub({l3, absent(), vint(0), vint(1)})};
    for (size_t a = 0; a < mids.size(); ++a)
      for (size_t b = 0; b < mids.size(); ++b)
        m.push_back({a == 0 ? absent() : a == 1 ? vsub({}) : vsub({mids[a], mids[b]}), mids[b], b % 2 ? vvec({-1, 0, 7}) : absent(), vstr(a % 2 ? "\xff" : ""), a % 2 ? vint(7) : absent(), vstr("AB")});
    own("deep", top, m);
  }
  return r;
}

static uint64_t raw_of(const sp::Entry &e) { return e.kind == "own" ? RAW : 0; }

struct Set {
  const sp::Entry *e;
  Loaded d;
  Bench b;
  explicit Set(const sp::Entry &en) : e(&en), d(load(en.spec)) {
    b.e = e;
    b.c.descs = d.descs;
    b.tf = [this](uint32_t id) {
      const template_instruction *i = nullptr;
      for (auto *x : d.descs)
        if (!i) i = x->instruction_with_id(id);
      return i;
    };
  }
  const std::vector<Field> &fields(uint32_t id) const { return e->spec.by_id(id)->fields; }
  std::unique_ptr<message_type> msg(size_t k) const { return std::unique_ptr<message_type>(b.make(k, malloc_allocator::instance())); }
  std::unique_ptr<message_type> fresh(uint32_t id) const { return std::unique_ptr<message_type>(new message_type(malloc_allocator::instance(), b.tf(id))); }
  Val read(const message_type &m, uint32_t id) const { return norm_of(vsub(ad::read_fields(m.cref(), fields(id), &e->spec)), id); }
  Val norm_of(Val v, uint32_t id) const {
    for (size_t k = 0; k < fields(id).size() && k < v.sub.size(); ++k) js::norm(v.sub[k], fields(id)[k]);
    return v;
  }
};
static std::unique_ptr<Set> open(hx::Ctx &c, const std::string &prop, const sp::Entry &e) {
  c.begin(prop + " " + e.name + " load");
  try {
    return std::unique_ptr<Set>(new Set(e));
  } catch (std::exception &x) {
    c.violation(e.name + ":load", what(x));
    return nullptr;
  }
}

// reads a text; "" if it was read, what was reported otherwise
static std::string read_text(std::istream &is, const aggregate_mref &m, uint64_t raw) {
  try {
    json::decode(is, m, (unsigned)raw);
  } catch (std::exception &x) {
    std::string w = what(x);
    return w.empty() ? "exception" : w;
  }
  return is.fail() ? "stream failed" : "";
}
static std::string read_text(const std::string &t, const aggregate_mref &m, uint64_t raw) {
  std::istringstream is(t);
  return read_text(is, m, raw);
}

// ------------------------------------------------------------------ C13
static bool ascii_only(const Field &f, const Val &v) {
  if (!v.present) return true;
  if ((f.ty == ASC || f.ty == UNI) && !js::Parser::valid_utf8(v.s)) return false;
  for (size_t k = 0; k < v.sub.size(); ++k) {
    if (f.ty == GRP && !ascii_only(f.sub[k], v.sub[k])) return false;
    if (f.ty == SEQ)
      for (size_t j = 0; j < v.sub[k].sub.size(); ++j)
        if (!ascii_only(f.sub[j], v.sub[k].sub[j])) return false;
  }
  return true;
}
static Val without(const std::vector<Field> &fs, Val v, uint64_t mask) {
  for (size_t k = 0; k < fs.size(); ++k) {
    if (fs[k].tag & mask) v.sub[k] = absent();
    else if (fs[k].ty == GRP && v.sub[k].present) v.sub[k] = without(fs[k].sub, v.sub[k], mask);
  }
  return v;
}
static void judge_text(hx::Ctx &c, Set &s, const std::string &key, const std::string &text, const std::vector<Field> &fs, const Val &want, bool utf8) {
  js::JV j;
  js::Reader rd;
  rd.raw_mask = raw_of(*s.e);
  rd.text = &text;
  if (js::parse(text, j) != js::OK) return c.violation(key + ":syntax", "not a JSON text: " + text.substr(0, 600));
  if (!utf8) return;
  for (auto &m : j.members)
    if (m.first.odd) return c.violation(key + ":utf8", text.substr(0, 600));
  std::vector<Val> got;
  js::Meaning m = rd.list(fs, j, got);
  Val g = vsub(got);
  for (size_t k = 0; k < fs.size() && k < g.sub.size(); ++k) js::norm(g.sub[k], fs[k]);
  if (m == js::RENDERS && g != want) return c.violation(key + ":text", "text " + text.substr(0, 600) + " for " + show(want).substr(0, 600));
  if (m != js::RENDERS) return c.violation(key + ":text", "text " + text.substr(0, 600) + " is no rendering of " + show(want).substr(0, 600));
}
static void rt(hx::Ctx &c, Set &s, size_t k) {
  const sp::Entry &e = *s.e;
  c.begin("C13 " + e.name + " " + std::to_string(k));
  c.traces();
  uint32_t id = e.tmplof[k];
  auto &fs = s.fields(id);
  uint64_t raw = raw_of(e);
  Val want = s.norm_of(vsub(e.msgs[k]), id);
  std::string key = e.name;
  try {
    std::unique_ptr<message_type> m = s.msg(k);
    std::ostringstream os;
    if (!json::encode(os, m->cref(), (unsigned)raw)) c.violation(key + ":encode", "encode reports failure");
    std::string text = os.str();
    c.transition();
    c.state(hx::hash_str(text, hx::hash_str(e.name)));
    bool utf8 = true;
    for (size_t j = 0; j < fs.size(); ++j) utf8 = utf8 && ascii_only(fs[j], e.msgs[k][j]);
    judge_text(c, s, key, text, fs, want, utf8);
    {
      std::ostringstream os2;
      os2 << text;
      json::encode(os2, m->cref(), (unsigned)raw);
      if (os2.str() != text + text) c.violation(key + ":again", "writing a message twice to one stream differs: " + os2.str().substr(0, 400));
    }
    // into a fresh message, and into one with other contents
    for (int v = 0; v < 3; ++v) {
      std::unique_ptr<message_type> o = s.fresh(id);
      if (v) {
        size_t other = v == 1 ? (k + 1) % e.msgs.size() : (k + e.msgs.size() - 1) % e.msgs.size();
        if (e.tmplof[other] != id) continue;
        ad::fill_fields(o->ref(), fs, e.msgs[other], s.b.tf, &e.spec);
      }
      std::string err = read_text(text, o->ref(), raw);
      c.transition();
      if (!err.empty()) { c.violation(key + ":read", "own text not read: " + err + ": " + text.substr(0, 400)); continue; }
      Val got = s.read(*o, id);
      if (got != want) c.violation(key + (v ? ":reused" : ":value"), "got " + show(got).substr(0, 500) + " for " + show(want).substr(0, 500) + " text " + text.substr(0, 500));
      std::ostringstream os3;
      json::encode(os3, o->cref(), (unsigned)raw);
      js::JV j;
      if (js::parse(os3.str(), j) != js::OK) c.violation(key + ":resyntax", os3.str().substr(0, 500));
    }
    // messages one behind the other in one stream
    {
      size_t other = (k + 1) % e.msgs.size();
      if (e.tmplof[other] == id) {
        std::stringstream ss;
        json::encode(ss, m->cref(), (unsigned)raw);
        std::unique_ptr<message_type> m2 = s.msg(other);
        if (k & 1) ss << "\n";
        json::encode(ss, m2->cref(), (unsigned)raw);
        std::unique_ptr<message_type> o = s.fresh(id), o2 = s.fresh(id);
        std::string err = read_text(ss, o->ref(), raw);
        if (err.empty()) err = read_text(ss, o2->ref(), raw);
        c.transition();
        if (!err.empty()) c.violation(key + ":stream", "two messages in one stream: " + err);
        else if (s.read(*o, id) != want || s.read(*o2, id) != s.norm_of(vsub(e.msgs[other]), id)) c.violation(key + ":stream", "two messages in one stream: " + show(s.read(*o, id)) + show(s.read(*o2, id)));
      }
    }
    // leaving out the members with a tag
    if (e.kind == "own") {
      std::ostringstream os4;
      if (!json::encode(os4, m->cref(), (unsigned)raw, IGNORE)) c.violation(key + ":encode", "encode reports failure");
      judge_text(c, s, key + ":ignore", os4.str(), fs, without(fs, want, IGNORE), utf8);
    }
    // groups and sequences on their own
    message_mref mm = m->ref();
    for (size_t j = 0; j < fs.size(); ++j) {
      if (!e.msgs[k][j].present) continue;
      std::unique_ptr<message_type> o = s.fresh(id);
      message_mref om = o->ref();
      if (fs[j].ty == SEQ) {
        std::stringstream ss;
        sequence_cref q(mm[j]);
        sequence_mref oq(om[j]);
        if (!json::encode(ss, q, (unsigned)raw)) c.violation(key + ":encode", "encode reports failure");
        try {
          json::decode(ss, oq, (unsigned)raw);
        } catch (std::exception &x) {
          c.violation(key + ":sequence", what(x));
          continue;
        }
      } else if (fs[j].ty == GRP) {
        std::stringstream ss;
        group_cref q(mm[j]);
        group_mref oq(om[j]);
        json::encode(ss, q, (unsigned)raw);
        try {
          json::decode(ss, oq, (unsigned)raw);
        } catch (std::exception &x) {
          c.violation(key + ":group", what(x));
          continue;
        }
      } else
        continue;
      c.transition();
      Val got = ad::read_field(om[j], fs[j], &e.spec);
      js::norm(got, fs[j]);
      if (got != want.sub[j]) c.violation(key + ":part", "got " + show(got) + " for " + show(want.sub[j]));
    }
  } catch (std::exception &x) {
    c.violation(key + ":throws", what(x));
  }
}

// ------------------------------------------------------------------ C14
static std::string to_hex(const std::string &s) {
  std::string r;
  char b[4];
  for (unsigned char c : s) { snprintf(b, sizeof b, "%02x", c); r += b; }
  return r;
}
static std::string from_hex(const std::string &s) {
  std::string r;
  for (size_t k = 0; k + 1 < s.size(); k += 2) r += (char)strtol(s.substr(k, 2).c_str(), nullptr, 16);
  return r;
}
// what: stable name of the kind of text
static void judge(hx::Ctx &c, Set &s, size_t k, const std::string &text, const std::string &what_) {
  const sp::Entry &e = *s.e;
  static std::string cs;
  cs = "C14 " + e.name + " " + std::to_string(k) + " " + what_ + " text=" + to_hex(text);
  c.begin(cs);
  uint32_t id = e.tmplof[k];
  auto &fs = s.fields(id);
  uint64_t raw = raw_of(e);
  js::Parser p(text);
  js::JV j;
  js::Verdict v = p.value(j) ? js::OK : p.more ? js::MORE : js::BAD;
  std::vector<Val> wl;
  js::Reader rd;
  rd.raw_mask = raw;
  rd.text = &text;
  js::Meaning m = v == js::OK ? rd.list(fs, j, wl) : js::NO;
  Val want = m == js::RENDERS ? s.norm_of(vsub(wl), id) : Val();
  std::string key = e.name + ":" + what_;
  for (int x = 0; x < 2; ++x) {
    std::unique_ptr<message_type> o = x ? s.msg(k) : s.fresh(id);
    std::string err = read_text(text, o->ref(), raw);
    c.transition();
    c.outcome((v == js::MORE ? 8 : v == js::BAD ? 16 : m == js::RENDERS ? 0 : m == js::RANGE ? 24 : 32) + (err.empty() ? 0 : 1));
    Val got = s.read(*o, id);  // whatever happened, the message can be read
    if (v == js::MORE && err.empty()) c.violation(key + ":truncated", "truncated text taken as complete: " + text.substr(0, 500));
    if (m == js::RANGE && err.empty()) c.violation(key + ":range", "number out of the field's range not reported: " + text.substr(0, 500) + " gives " + show(got).substr(0, 300));
    if (m == js::RENDERS) {
      c.traces();
      if (!err.empty()) c.violation(key + ":refused", "valid rendering not read: " + err + ": " + text.substr(0, 500));
      else if (got != want) c.violation(key + ":value", "got " + show(got).substr(0, 500) + " for " + show(want).substr(0, 500) + " text " + text.substr(0, 500));
    }
    if (x || err.empty()) continue;
    // and be used for the next text
    js::Render r;
    r.raw_mask = raw;
    r.list(fs, e.msgs[k]);
    std::string err2 = read_text(r.text(), o->ref(), raw);
    if (!err2.empty() || s.read(*o, id) != s.norm_of(vsub(e.msgs[k]), id)) {
      js::JV cj;
      std::string t = r.text();
      js::Reader cr;
      cr.raw_mask = raw;
      cr.text = &t;
      std::vector<Val> cv;
      if (js::parse(t, cj) == js::OK && cr.list(fs, cj, cv) == js::RENDERS) c.violation(key + ":after-failure", "the message cannot be read into after a failure: " + err2 + " " + show(s.read(*o, id)).substr(0, 400));
    }
  }
}

static const char *unknown_values[] = {"1", "-1.5e+10", "1e400", "-1e-400", "-0", "12345678901234567890123", "0.5", "true", "false", "null", "\"x\"", "\"\"", "\"a\\\"b\"", "\"\\\\\"", "\"\\u0022\"", "\"}\"", "\"]\"", "\"{\"",
                                       "{}", "[]", "{\"a\":\"}\"}", "[\"]\",\"[\",\"\\\\\\\"\"]", "[[1,2],{\"b\":[{}]}]", "\"\\ud83d\\ude00\"", "\"\xc3\xa9\"", "{\"a\":{\"a\":{\"a\":[1,{\"z\":null}]}}}", "[ 1 , 2 ]", "{ }", "[ ]", "{\"}\":1,\"\\\"\":2}", "[{\"a\":1},[\"\\\\\"]]", "\"\\/\\b\\f\\n\\r\\t\""};
static const char *unknown_names[] = {"\"zz\"", "\"\"", "\"f2\"", "\"\\u0000\"", "\"\\\"\"", "\"\\\\\"", "\"sentinel \"", "\"\\u0066\\u0066\""};

static void texts(hx::Ctx &c, Set &s, size_t k, bool thorough) {
  const sp::Entry &e = *s.e;
  auto &fs = s.fields(e.tmplof[k]);
  uint64_t raw = raw_of(e);
  js::Render r;
  r.raw_mask = raw;
  r.list(fs, e.msgs[k]);
  std::string canon = r.text();
  js::Toks &t = r.t;
  if (canon.size() > 400) return;
  judge(c, s, k, canon, "canonical");
  judge(c, s, k, canon + "x", "followed");
  // white space
  for (const char *w : {" ", "\t", "\n", "\r", "\r\n \t"}) {
    judge(c, s, k, w + r.text(w) + w, "space-everywhere");
    for (size_t p = 0; p <= t.size(); ++p) {
      std::string x;
      for (size_t j = 0; j < t.size(); ++j) { if (j == p) x += w; x += t[j]; }
      judge(c, s, k, x, "space");
    }
  }
  // member orders
  {
    std::vector<size_t> o(fs.size());
    for (size_t j = 0; j < o.size(); ++j) o[j] = j;
    auto go = [&] {
      js::Render q;
      q.raw_mask = raw;
      q.list(fs, e.msgs[k], &o);
      judge(c, s, k, q.text(), "order");
    };
    if (o.size() <= (thorough ? 6u : 5u))
      while (std::next_permutation(o.begin(), o.end())) go();
    else
      for (size_t j = 1; j < fs.size(); ++j) {
        std::rotate(o.begin(), o.begin() + 1, o.end());
        go();
        std::reverse(o.begin(), o.end());
        go();
        std::reverse(o.begin(), o.end());
      }
  }
  // unknown members, null members: at the beginning and end of every object and between the members
  for (size_t p = 0; p < t.size(); ++p) {
    bool open_ = t[p] == "{", comma = t[p] == "," && p + 2 < t.size() && t[p + 2] == ":";
    bool close = t[p] == "}";
    if (!open_ && !comma && !close) continue;
    bool empty = (open_ && t[p + 1] == "}") || (close && t[p - 1] == "{");
    if (close && empty) continue;
    auto put = [&](const std::string &member, const char *what_) {
      std::string x;
      for (size_t j = 0; j < t.size(); ++j) {
        if (close && j == p) x += "," + member;
        x += t[j];
        if (!close && j == p) x += member + (empty ? "" : ",");
      }
      judge(c, s, k, x, what_);
    };
    for (auto *v : unknown_values) {
      put(std::string("\"zz\":") + v, "unknown");
      if (thorough)
        for (auto *n : unknown_names) put(std::string(n) + ":" + v, "unknown");
    }
    for (auto *n : unknown_names) put(std::string(n) + ":{\"a\":[\"}\"]}", "unknown");
    put("\"zz\" :\t[ { } , \"a\" ] ", "unknown");
    for (auto &f : fs) put(js::quoted(f.name) + ":null", "null-member");
  }
  // string forms
  for (int form = 0; form < 4; ++form) {
    std::string x;
    bool any = false;
    for (size_t j = 0; j < t.size(); ++j) {
      bool name = j + 1 < t.size() && t[j + 1] == ":";
      if (t[j][0] != '"' || (form >= 2 && name)) { x += t[j]; continue; }
      js::Parser p(t[j]);
      js::JV v;
      if (!p.str(v) || v.odd) { x += t[j]; continue; }
      any = true;
      x += '"';
      for (size_t q = 0; q < v.s.size();) {
        unsigned char ch = v.s[q];
        size_t n = ch < 0x80 ? 1 : ch < 0xe0 ? 2 : ch < 0xf0 ? 3 : 4;
        uint32_t u = n == 1 ? ch : ch & (0xff >> (n + 1));
        for (size_t y = 1; y < n; ++y) u = u << 6 | (v.s[q + y] & 63);
        q += n;
        char b[16];
        const char *esc = "\"\\/\b\f\n\r\t", *ltr = "\"\\/bfnrt";
        const char *at = u && u < 128 ? strchr(esc, (int)u) : nullptr;
        bool shorty = form == 2 || form == 3;
        if (shorty && at) { x += '\\'; x += ltr[at - esc]; continue; }
        if (form == 3 && u >= 0x20 && u != '"' && u != '\\') { js::Parser::utf8(u, x); continue; }
        if (u < 0x10000) snprintf(b, sizeof b, form % 2 ? "\\u%04X" : "\\u%04x", u);
        else snprintf(b, sizeof b, form % 2 ? "\\u%04X\\u%04X" : "\\u%04x\\u%04x", 0xd800 + ((u - 0x10000) >> 10), 0xdc00 + ((u - 0x10000) & 1023));
        x += b;
      }
      x += '"';
    }
    if (any) judge(c, s, k, x, "escapes");
  }
  // number forms and ranges
  static const char *nums[] = {"0", "-0", "1", "-1", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "-18446744073709551615", "99999999999999999999999999", "0.5", "5e-1", "5E+2", "50e-02", "-0.05", "1.50", "1e400", "0e3", "0.000", "123456789.987654321", "1e63", "1e-63", "12e62", "null", "true", "false", "\"\"", "\"1\"", "[]", "{}", "[1]", "[1,-1]", "[4294967296]", "[-2147483649,0]", "[null]", "[\"1\"]", "[18446744073709551616]", "[ 1 ,\t2\n]", "{\"x\":1}", "[{}]", "[{},null]"};
  for (size_t j = 0; j + 2 < t.size(); ++j) {
    if (t[j + 1] != ":") continue;
    // the value's tokens
    size_t b = j + 2, z = b + 1;
    if (t[b] == "{" || t[b] == "[") {
      int depth = 1;
      for (; depth; ++z) depth += t[z] == "{" || t[z] == "[" ? 1 : t[z] == "}" || t[z] == "]" ? -1 : 0;
    }
    for (auto *n : nums) {
      std::string x;
      for (size_t q = 0; q < b; ++q) x += t[q];
      x += n;
      for (size_t q = z; q < t.size(); ++q) x += t[q];
      judge(c, s, k, x, "values");
    }
    if (t[b] != "[") continue;
    for (size_t y = b; y < z; ++y) {  // elements
      if (isdigit((unsigned char)t[y][0]) || t[y][0] == '-')
        for (auto *n : nums) {
          std::string x;
          for (size_t q = 0; q < t.size(); ++q) x += q == y ? n : t[q];
          judge(c, s, k, x, "values");
        }
    }
  }
  // truncations
  for (size_t n = 0; n < canon.size(); ++n) {
    judge(c, s, k, canon.substr(0, n), "cut");
    judge(c, s, k, canon.substr(0, n) + " ", "cut");
    if (thorough) judge(c, s, k, canon.substr(n), "tail");
  }
  // damage
  std::vector<unsigned char> al = {'"', '\\', '{', '}', '[', ']', ',', ':', ' ', 'u', 'n', '0', '9', '-', '+', '.', 'e', 0, 0xff, 0x80, '\n', '/', 't', 'f'};
  if (thorough) {
    for (int b : std::vector<int>{'1', '5', 'E', 'b', 'f', 'r', 's', 'l', 'a', 39, 9, 13, 1, 0x1f, 0x7f, 0xc3, 0xbf}) al.push_back((unsigned char)b);
  }
  for (size_t n = 0; n < canon.size(); ++n) {
    judge(c, s, k, canon.substr(0, n) + canon.substr(n + 1), "removed");
    for (unsigned char b : al) {
      std::string x = canon;
      x[n] = (char)b;
      judge(c, s, k, x, "changed");
      judge(c, s, k, canon.substr(0, n) + (char)b + canon.substr(n), "inserted");
    }
  }
}

// all token strings that stay a prefix of a JSON text, and those one token longer
struct Grammar {
  const char *name;
  std::vector<Field> fs;
  std::vector<std::string> toks;
  std::vector<std::vector<Val>> msgs;
};
static std::vector<std::pair<size_t, std::vector<std::string>>> grammars_;  // entry, tokens
static void add_grammars() {
  using sp::fld;
  auto g = [&](const std::string &n, std::vector<Field> fs, std::vector<Val> m, std::vector<std::string> toks) {
    sp::Entry e;
    e.name = n;
    e.kind = "grammar";
    e.spec.tmpls.push_back(sp::tmpl("T", 1, fs));
    resolve(e.spec);
    e.msgs = {m};
    e.tmplof = {1};
    std::vector<std::string> base = {"{", "}", "[", "]", ",", ":"};
    base.insert(base.end(), toks.begin(), toks.end());
    grammars_.push_back({space_.size(), base});
    space_.push_back(e);
  };
  g("grammar.ints", {fld("a", U32, true), fld("b", I32, true)}, {vint(1), vint(2)}, {"\"a\"", "\"b\"", "\"x\"", "1", "-1", "null"});
  g("grammar.string", {fld("a", UNI, true), fld("b", BV, true)}, {vstr("1"), absent()}, {"\"a\"", "\"b\"", "\"\\u0061\"", "null", "\"", "\\"});
  g("grammar.group", {sp::fgrp("a", true, {fld("b", BOOL, true)})}, {vsub({vint(1)})}, {"\"a\"", "\"b\"", "true", "null", "1e400"});
  g("grammar.sequence", {sp::fseq("a", true, {fld("b", DEC, true)})}, {vsub({})}, {"\"a\"", "\"b\"", "0.5", "null", " "});
  g("grammar.vector", {fld("a", I64V, true), sp::fseq("b", true, {fld("", U32, true)})}, {vvec({1}), absent()}, {"\"a\"", "\"b\"", "7", "-1", "null"});
  g("grammar.numbers", {fld("a", DEC, true), fld("b", I32, true)}, {vdec(1, 0), absent()}, {"{\"a\":", "{\"b\":", "{\"x\":", "0", "1", "-", ".", "e", "+"});
}
static void explore(hx::Ctx &c, Set &s, const std::vector<std::string> &toks, const std::string &start, int depth, int left) {
  js::Parser p(start);
  js::JV v;
  bool ok = p.value(v), more = !ok && p.more;
  judge(c, s, 0, start, "tokens");
  c.state(hx::hash_str(start, hx::hash_str(s.e->name)));
  if (ok && v.k == js::JV::OBJ) return;  // complete: what follows is not read
  if (!more && !ok) {
    if (--left < 0) return;
  }
  if (depth == 0) return;
  for (auto &t : toks) explore(c, s, toks, start + t, depth - 1, left);
}

static std::string prop_;
static std::vector<std::pair<size_t, int>> items_;  // entry, first token or -1

static void run_item(hx::Ctx &c, size_t i) {
  std::unique_ptr<Set> s = open(c, prop_, space_[items_[i].first]);
  if (!s) return;
  const sp::Entry &e = *s->e;
  if (prop_ == "C13") {
    for (size_t k = 0; k < e.msgs.size(); ++k) rt(c, *s, k);
    return;
  }
  if (items_[i].second >= 0) {
    for (auto &g : grammars_)
      if (g.first == items_[i].first) {
        size_t n = g.second.size(), x = items_[i].second;
        bool num = e.name == "grammar.numbers";
        std::string a = num ? g.second[6 + x % 3] : "{" + g.second[x % n];
        explore(c, *s, g.second, a, (num ? 5 : 5) + (c.quick() ? 0 : 2), 1);
      }
    return;
  }
  size_t n = e.kind == "wide" || e.msgs.size() > 100 ? 1 : c.quick() ? 2 : e.msgs.size();
  if (e.kind == "own" && e.msgs.size() <= 100) n = c.quick() ? 4 : e.msgs.size();
  for (size_t j = 0; j < n && j < e.msgs.size(); ++j) {
    size_t k = n >= e.msgs.size() ? j : e.msgs.size() - 1 - j * (e.msgs.size() / n);
    texts(c, *s, k, !c.quick());
  }
}
static void run_case(hx::Ctx &c, const std::string &cs) {
  auto w = split(cs, ' ');
  if (w.size() < 3) return;
  for (auto &e : space_)
    if (e.name == w[1]) {
      auto s = open(c, prop_, e);
      if (!s || w[2] == "load") return;
      size_t k = atoi(w[2].c_str());
      if (k >= e.msgs.size()) return;
      if (w[0] == "C13") rt(c, *s, k);
      else if (w.size() == 5) judge(c, *s, k, from_hex(w[4].substr(5)), w[3]);
    }
}

int main(int argc, char **argv) {
  return hx::drive(argc, argv, [](const std::string &check, const std::string &tier) {
    prop_ = check;
    space_ = make_space(tier == "thorough");
    for (size_t k = 0; k < space_.size(); ++k) items_.push_back({k, -1});
    if (check == "C14") {
      add_grammars();
      for (auto &g : grammars_)
        for (size_t x = 0; x < (space_[g.first].name == "grammar.numbers" ? 3 : g.second.size()); ++x) items_.insert(items_.begin(), {g.first, (int)x});
    }
    hx::Harness h;
    h.name = "json";
    h.items = items_.size();
    h.run = run_item;
    h.run_case = run_case;
    h.crash_key = [](const std::string &s) {
      auto w = split(s, ' ');
      return w.size() > 3 ? w[1] + ":" + w[3] : w.size() > 1 ? w[1] : s;
    };
    return h;
  });
}
