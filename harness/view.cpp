// C22: views. Every view over a fixed set of references up to a number of entries, over every message of a small space.
#include "codec.h"
#include "mfast/view_iterator.h"
#include "vw.h"
#include "view_gen.h"
using namespace cx;
using namespace mfast;

// the templates of VIEW_TEMPLATES, for the model
static Spec model_spec() {
  using namespace sp;
  Field h = fgrp("h", true, {fld("z", I64, false)});
  Field g = fgrp("g", true, {fld("x", U32, true), fld("y", ASC, false), h});
  Field k = g;
  k.name = "k";
  Field n = fseq("n", true, {fld("q", U32, false)});
  Field s = fseq("s", true, {fld("f", U32, true), n, fgrp("e", true, {fld("r", ASC, false)})});
  Field u = fseq("u", false, {fld("", ASC, false)});
  Spec sp_;
  sp_.tmpls.push_back(tmpl("W", 7, {fld("a", U32, false), fld("o", U32, true), g, s, u, fgrp("l", true, {fld("p", U32, true)}), k}));
  return sp_;
}
static Spec spec_ = model_spec();
static const char *REFS[] = {"a", "o", "g", "g.x", "g.y", "g.h", "g.h.z", "s", "s[0].f", "s[1].f", "s[0].n", "s[0].n[0].q", "s[1].n[0].q", "s[0].n[1].q", "s[0].e.r", "s[1].e.r", "u", "u[0]", "u[1]", "l.p"};
static const size_t NREF = sizeof REFS / sizeof *REFS;
static const char *GREFS[] = {"x", "y", "h", "h.z"};
static const size_t NGREF = 4;

// ---------------------------------------------------------------- messages
static Val grp_val(int kind, int base) {
  if (!kind) return absent();
  Val x = kind & 1 ? vint(base) : absent();
  Val h = kind > 2 ? vsub({vint(base + 1)}) : absent();
  return vsub({x, vstr("y" + std::to_string(base)), h});
}
static Val elem(int f, int n, int e, int base) {
  Val nv = absent();
  if (n >= 0) {
    nv = vsub({});
    for (int k = 0; k < n; ++k) nv.sub.push_back(vsub({vint(base + 2 + k)}));
  }
  return vsub({f ? vint(base) : absent(), nv, e ? vsub({vstr("r" + std::to_string(base))}) : absent()});
}
static std::vector<Val> messages(bool small) {
  std::vector<Val> ss = {absent(), vsub({}), vsub({elem(1, -1, 0, 10)}), vsub({elem(0, 1, 1, 10)}), vsub({elem(1, 2, 0, 10), elem(1, 1, 1, 20)}), vsub({elem(0, -1, 1, 10), elem(0, 0, 0, 20)}),
                         vsub({elem(0, 0, 0, 10), elem(1, 2, 1, 20), elem(1, 1, 1, 30)})};
  std::vector<Val> us = {vsub({}), vsub({vsub({vstr("u0")})}), vsub({vsub({vstr("u0")}), vsub({vstr("u1")})})};
  std::vector<Val> ls = {absent(), vsub({absent()}), vsub({vint(40)})};
  std::vector<Val> r;
  for (int o = 0; o < 2; ++o)
    for (int g = 0; g < 5; ++g)
      for (size_t s = 0; s < ss.size(); ++s)
        for (size_t u = 0; u < us.size(); ++u)
          for (size_t l = 0; l < ls.size(); ++l) {
            if (small && ((u != s % 3) || (l != (s + g) % 3) || o != (int)((g + s) % 2))) continue;
            Val m = vsub({vint(1), o ? vint(2) : absent(), grp_val(g, 50), ss[s], us[u], ls[l], grp_val((g + s) % 5, 60)});
            m.tmpl = 7;
            r.push_back(m);
          }
  return r;
}

// ---------------------------------------------------------------- views
typedef std::vector<std::vector<std::string>> View;  // fields of alternatives
static std::string text(const View &v) {
  std::string r;
  for (size_t k = 0; k < v.size(); ++k) {
    if (k) r += ";";
    for (size_t j = 0; j < v[k].size(); ++j) r += (j ? "|" : "") + v[k][j];
  }
  return r;
}
static View parse(const std::string &s) {
  View v;
  for (auto &f : split(s, ';')) v.push_back(split(f, '|'));
  return v;
}
static std::string view_xml(const std::string &name, const char *on, const View &v) {
  std::string r = "<view name=\"" + name + "\" reference=\"" + on + "\">";
  for (auto &f : v) {
    r += "<field>";
    for (auto &a : f) r += "<reference name=\"" + a + "\"/>";
    r += "</field>";
  }
  return r + "</view>\n";
}
static std::string document(const char *on, const std::vector<View> &vs) {
  std::string r = "<?xml version=\"1.0\" ?>\n<templates xmlns=\"http://www.fixprotocol.org/ns/template-definition\">\n" VIEW_TEMPLATES;
  for (size_t k = 0; k < vs.size(); ++k) r += view_xml("V" + std::to_string(k), on, vs[k]);
  return r + "</templates>\n";
}

// what a reference designates in a message: the instruction of the field and, when present, its value
struct Target {
  bool present = false;
  const field_instruction *inst = nullptr;
  const Field *f = nullptr;
  const Val *v = nullptr;
};
static Target follow(const std::string &ref, const aggregate_cref &agg, const std::vector<Field> &fs, const std::vector<Val> &vs) {
  size_t e = ref.find_first_of(".[");
  std::string name = ref.substr(0, e);
  Target t;
  for (size_t k = 0; k < fs.size(); ++k) {
    if (fs[k].name != name) continue;
    field_cref c = agg[k];
    t.inst = c.instruction();
    t.f = &fs[k];
    t.v = &vs[k];
    t.present = vs[k].present;
    if (e == std::string::npos || !t.present) return e == std::string::npos ? t : Target();
    if (ref[e] == '.') {
      group_cref g(c);
      return follow(ref.substr(e + 1), aggregate_cref(g), fs[k].sub, vs[k].sub);
    }
    size_t close = ref.find(']', e), n = atoi(ref.c_str() + e + 1);
    if (n >= vs[k].sub.size()) return Target();
    sequence_cref s(c);
    std::string rest = close + 1 < ref.size() ? ref.substr(close + 2) : "";
    return follow(rest, s[n], fs[k].sub, vs[k].sub[n].sub);
  }
  return t;
}
// identity and contents of one item
static std::string show_item(const field_cref &c) {
  if (c.absent()) return "absent";
  return std::string("field ") + c.name();
}
static bool same(const field_cref &c, const Target &t) {
  if (!t.present) return c.absent();
  if (c.absent() || c.instruction() != t.inst) return false;
  return ad::read_field(c, *t.f, &spec_) == *t.v;
}

struct Msg {
  std::unique_ptr<message_type> m;
  const Val *v = nullptr;
  std::map<std::string, Target> at;  // cache per reference
};

template <typename It> static bool expect(hx::Ctx &c, It it, It end, const std::vector<Target> &want, const std::string &key, const char *how) {
  size_t n = 0;
  for (; !(it == end); ++it, ++n) {
    if (n >= want.size()) {
      c.violation(key + ":items", std::string(how) + ": more items than the view has fields (" + std::to_string(want.size()) + ")");
      return false;
    }
    c.transition();
    field_cref f = *it;
    if (!same(f, want[n])) {
      c.violation(key + ":item", std::string(how) + ": item " + std::to_string(n) + " is " + show_item(f) + ", expected " + (want[n].present ? std::string("field ") + want[n].inst->name() + " = " + show(*want[n].v) : "absent"));
      return false;
    }
  }
  if (n != want.size()) {
    c.violation(key + ":items", std::string(how) + ": " + std::to_string(n) + " items, the view has " + std::to_string(want.size()) + " fields");
    return false;
  }
  return true;
}
// forward iterators: copies are independent, the old position stays where it was
template <typename It> static void multipass(hx::Ctx &c, It b, It end, const std::vector<Target> &want, const std::string &key) {
  std::vector<It> at;
  for (It it = b; !(it == end) && at.size() < want.size();) at.push_back(it++);
  for (size_t k = at.size(); k-- > 0;) expect(c, at[k], end, std::vector<Target>(want.begin() + k, want.end()), key, "from a copied iterator");
  It x = b, y = b;
  if (!(x == y)) c.violation(key + ":equality", "two iterators to the first field differ");
  if (!want.empty() && x == end) c.violation(key + ":equality", "the first position equals the end");
}
// collects what accept_accessor passes
struct Collect {
  std::vector<std::string> got;
  template <typename R> void visit(const R &r) { got.push_back(r.name()); }
  template <typename R> void visit(const R &r, int) { got.push_back(r.name()); }
};

static std::vector<Target> targets(const View &v, const std::function<Target(const std::string &)> &at) {
  std::vector<Target> r;
  for (auto &f : v) {
    Target t;
    for (auto &a : f) {
      t = at(a);
      if (t.present) break;
    }
    r.push_back(t);
  }
  return r;
}
static std::string shape_of(const View &v) { return text(v); }

static void run_view(hx::Ctx &c, const aggregate_view_info &info, const View &v, const std::function<Target(const std::string &)> &at, const aggregate_cref &agg, bool copies) {
  std::vector<Target> want = targets(v, at);
  std::string key = "view:" + shape_of(v);
  try {
    view_iterator b(agg, info.data_.begin(), info.max_depth_), e(info.data_.end() - 1);
    if (expect(c, b, e, want, key, "begin() to end()") && copies) multipass(c, b, e, want, key);
  } catch (std::exception &x) {
    c.violation(key + ":throws", std::string("iterating throws: ") + what(x));
  }
}

struct World {
  std::unique_ptr<dynamic_templates_description> d;
  std::vector<Msg> msgs;
  const template_instruction *w = nullptr;
};
static std::vector<Val> vals_[2];
static std::unique_ptr<World> open(hx::Ctx &c, const std::string &doc, bool small, const std::string &key) {
  std::unique_ptr<World> r(new World);
  try {
    r->d.reset(new dynamic_templates_description(doc.c_str()));
  } catch (std::exception &x) {
    c.violation(key + ":xml", std::string("a valid view is refused: ") + what(x));
    return nullptr;
  } catch (boost::exception &x) {
    c.violation(key + ":xml", "a valid view is refused: " + boost::diagnostic_information(x));
    return nullptr;
  }
  r->w = r->d->instruction_with_id(7);
  ad::TmplFn tf = [&](uint32_t) { return r->w; };
  for (auto &v : vals_[small]) {
    Msg m;
    m.m.reset(new message_type(malloc_allocator::instance(), r->w));
    ad::fill_fields(m.m->ref(), spec_.tmpls[0].fields, v.sub, tf, &spec_);
    m.v = &v;
    for (auto *ref : REFS) m.at[ref] = follow(ref, m.m->cref(), spec_.tmpls[0].fields, v.sub);
    r->msgs.push_back(std::move(m));
  }
  return r;
}
static void one_case(hx::Ctx &c, World &w, size_t view, const View &v, size_t k, bool on_group, bool copies, bool small) {
  Msg &m = w.msgs[k];
  const aggregate_view_info &info = w.d->view_infos()[view];
  c.begin(std::string("C22 ") + (on_group ? "G " : small ? "w " : "W ") + text(v) + " " + std::to_string(k));
  c.traces();
  if (on_group) {
    for (size_t g : {2u, 6u}) {
      const Val &gv = m.v->sub[g];
      if (!gv.present) continue;
      group_cref gc(m.m->cref()[g]);
      aggregate_cref ac(gc);
      run_view(c, info, v, [&](const std::string &r) { return follow(r, ac, spec_.tmpls[0].fields[g].sub, gv.sub); }, ac, copies);
    }
  } else
    run_view(c, info, v, [&](const std::string &r) { return m.at.at(r); }, m.m->cref(), copies);
}
static void run_views(hx::Ctx &c, const std::vector<View> &vs, bool small, bool on_group, size_t only_msg = ~size_t(0)) {
  if (vs.empty()) return;
  auto w = open(c, document(on_group ? "G" : "W", vs), small, "view:" + text(vs[0]));
  if (!w) return;
  if (w->d->view_infos().size() != vs.size()) return c.violation("views:count", "the description has " + std::to_string(w->d->view_infos().size()) + " views for " + std::to_string(vs.size()) + " view elements");
  for (size_t k = 0; k < vs.size(); ++k) {
    size_t n = 0;
    for (auto &f : vs[k]) n += f.size();
    c.state(hx::hash_str(text(vs[k])));
    for (size_t m = 0; m < w->msgs.size(); ++m)
      if (only_msg == ~size_t(0) || only_msg == m) one_case(c, *w, k, vs[k], m, on_group, n <= 2 || only_msg != ~size_t(0), small);
  }
}
// all views with the given entries: every way of grouping them into fields
static void groupings(const std::vector<std::string> &refs, std::vector<View> &out) {
  for (unsigned cut = 0; cut < (1u << (refs.size() - 1)); ++cut) {
    View v(1);
    for (size_t k = 0; k < refs.size(); ++k) {
      v.back().push_back(refs[k]);
      if (k + 1 < refs.size() && (cut >> k & 1)) v.emplace_back();
    }
    out.push_back(v);
  }
}

// ---------------------------------------------------------------- generated classes
template <typename V, typename C> static void generated(hx::Ctx &c, const View &v, const C &cref, const std::function<Target(const std::string &)> &at, const std::string &name) {
  std::vector<Target> want = targets(v, at);
  std::string key = "generated:" + text(v);
  V view(cref);
  if (expect(c, view.begin(), view.end(), want, key, "begin() to end()")) multipass(c, view.begin(), view.end(), want, key);
  Collect col;
  view.accept_accessor(col);
  std::vector<std::string> names;
  for (auto &t : want)
    if (t.present) names.push_back(t.inst->name());
  if (col.got != names) c.violation(key + ":accessor", name + ": accept_accessor visits " + std::to_string(col.got.size()) + " fields, " + std::to_string(names.size()) + " are present");
}
static void run_generated(hx::Ctx &c, const std::string &only) {
  size_t k = 0;
  for (auto &v : vals_[0]) {
    vw::W m(malloc_allocator::instance());
    ad::TmplFn tf = [&](uint32_t) { return vw::W::instruction(); };
    ad::fill_fields(m.ref(), spec_.tmpls[0].fields, v.sub, tf, &spec_);
    std::map<std::string, Target> at;
    for (auto *ref : REFS) at[ref] = follow(ref, m.cref(), spec_.tmpls[0].fields, v.sub);
    auto get = [&](const std::string &r) { return at.at(r); };
#define V(N, S)                                                          \
  {                                                                      \
    std::string cs = std::string("C22 generated ") + #N + " " + std::to_string(k); \
    if (only.empty() || only == cs) {                                    \
      c.begin(cs);                                                       \
      c.traces();                                                        \
      c.state(hx::hash_str(#N));                                         \
      generated<vw::N>(c, parse(S), m.cref(), get, #N);                  \
    }                                                                    \
  }
    GENERATED_VIEWS(V)
#undef V
#define V(N, S)                                                          \
  for (size_t g : {2u, 6u}) {                                            \
    std::string cs = std::string("C22 generated ") + #N + " " + std::to_string(k); \
    if (v.sub[g].present && (only.empty() || only == cs)) {              \
      c.begin(cs);                                                       \
      c.traces();                                                        \
      vw::G_cref gc(m.cref()[g]);                                        \
      generated<vw::N>(c, parse(S), gc, [&](const std::string &r) { return follow(r, gc, spec_.tmpls[0].fields[g].sub, v.sub[g].sub); }, #N); \
    }                                                                    \
  }
    GENERATED_GROUP_VIEWS(V)
#undef V
    ++k;
  }
}

// ---------------------------------------------------------------- references that designate nothing
static const char *BAD[] = {"z", "a.x", "g.z", "g.", ".a", "s.f", "s[].f", "s[x].f", "s[-1].f", "s[-2].f", "s[4294967295].f", "s[4294967294].f", "s[99999999999999999999].f", "s[0", "s[0].z", "s[0]f", "s0].f", "a[0]", "g[0].x", "s[0][0].f", "s[0].n.q", "s[0].n[-1].q", "u[0].x", "o|z", "a;z", "l.z", "L.p", "W.a"};
static void run_bad(hx::Ctx &c, const std::string &b, const char *on) {
  c.begin("C22 bad " + b + " " + on);
  c.traces();
  View v = parse(b);
  try {
    dynamic_templates_description d(document(on, {v}).c_str());
    c.violation("bad:" + b, "a view with a reference to a field that does not exist is accepted");
  } catch (std::exception &) {
    c.outcome(1);
  } catch (boost::exception &) {
    c.outcome(1);
  }
}
static const char *BADVIEW[] = {"<view name=\"V\" reference=\"W\"><field/></view>", "<view name=\"V\" reference=\"W\"><field name=\"x\"></field><field><reference name=\"a\"/></field></view>",
                                "<view name=\"V\" reference=\"W\"><field><reference name=\"a\"/></field><field/></view>", "<view reference=\"W\"><field><reference name=\"a\"/></field></view>",
                                "<view name=\"V\" reference=\"Nope\"><field><reference name=\"a\"/></field></view>", "<view name=\"V\"><field><reference name=\"a\"/></field></view>"};
static void run_badview(hx::Ctx &c, size_t k) {
  c.begin("C22 badview " + std::to_string(k));
  c.traces();
  try {
    std::string x = document("W", {});
    x.insert(x.find("</templates>"), BADVIEW[k]);
    dynamic_templates_description d(x.c_str());
    c.violation("badview:" + std::to_string(k), std::string("accepted: ") + BADVIEW[k]);
  } catch (std::exception &) {
    c.outcome(2);
  } catch (boost::exception &) {
    c.outcome(2);
  }
}

static void run_item(hx::Ctx &c, size_t i) {
  if (i == 0) {
    run_generated(c, "");
    for (auto *b : BAD) run_bad(c, b, "W");
    for (size_t k = 0; k < sizeof BADVIEW / sizeof *BADVIEW; ++k) run_badview(c, k);
    std::vector<View> none{View()};
    run_views(c, none, false, false);
    std::vector<View> vs;
    for (size_t a = 0; a < NGREF; ++a) {
      groupings({GREFS[a]}, vs);
      for (size_t b = 0; b < NGREF; ++b) {
        groupings({GREFS[a], GREFS[b]}, vs);
        for (size_t d = 0; d < NGREF; ++d) groupings({GREFS[a], GREFS[b], GREFS[d]}, vs);
      }
    }
    run_views(c, vs, true, true);
    return;
  }
  --i;
  std::string a = REFS[i / NREF], b = REFS[i % NREF];
  std::vector<View> vs;
  if (i % NREF == 0) groupings({a}, vs);
  groupings({a, b}, vs);
  for (auto *d : REFS) groupings({a, b, d}, vs);
  run_views(c, vs, false, false);
  if (!c.quick())
    for (auto *d : REFS) {
      vs.clear();
      for (auto *e : REFS) groupings({a, b, d, e}, vs);
      run_views(c, vs, true, false);
    }
}
static void run_case(hx::Ctx &c, const std::string &cs) {
  auto w = split(cs, ' ');
  if (w.size() == 4 && (w[1] == "W" || w[1] == "w" || w[1] == "G")) {
    run_views(c, {w[2].empty() ? View() : parse(w[2])}, w[1] != "W", w[1] == "G", atoi(w[3].c_str()));
  } else if (w.size() > 1 && w[1] == "generated") run_generated(c, cs);
  else if (w.size() == 4 && w[1] == "bad") run_bad(c, w[2], w[3].c_str());
  else if (w.size() == 3 && w[1] == "badview") run_badview(c, atoi(w[2].c_str()));
}

int main(int argc, char **argv) {
  return hx::drive(argc, argv, [](const std::string &, const std::string &) {
    vals_[0] = messages(false);
    vals_[1] = messages(true);
    hx::Harness h;
    h.name = "view";
    h.items = NREF * NREF + 1;
    h.run = run_item;
    h.run_case = run_case;
    h.crash_key = [](const std::string &s) {
      auto w = split(s, ' ');
      return w.size() > 2 ? w[1] + ":" + w[2] : s;
    };
    return h;
  });
}
