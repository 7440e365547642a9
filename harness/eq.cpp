// C19: equality of messages, groups, sequences and fields over all pairs of messages of the template space.
#include "codec.h"
#include "mfast/field_comparator.h"
#include "eq.h"
using namespace cx;
using namespace mfast;

static std::vector<sp::Entry> space_;

static std::vector<sp::Entry> make_space() {
  std::vector<sp::Entry> r = sp::v1_space();
  for (auto &e : sp::wide_space(r)) r.push_back(e);
  for (int o = 0; o < 2; ++o) r.push_back(sp::single("set." + sp::opt_s(o), {sp::fld("f", SET, o)}, 10));
  return r;
}

// a message object and the value it must have; the same value is reached in several ways
struct Node {
  std::unique_ptr<message_type> m;
  Val v;
};
enum { VARIANTS = 4 };

static std::unique_ptr<message_type> build(const Bench &b, size_t k, int variant) {
  const sp::Entry &e = *b.e;
  auto fill = [&](message_type &m, size_t j) { ad::fill_fields(m.ref(), e.spec.by_id(e.tmplof[k])->fields, e.msgs[j], b.tf, &e.spec); };
  allocator *a = malloc_allocator::instance();
  std::unique_ptr<message_type> m(new message_type(a, b.tf(e.tmplof[k])));
  if (variant == 1 || variant == 2) {  // left over from other contents
    size_t n = e.msgs.size(), seen = 0;
    for (size_t j = 1; j < n; ++j) {
      size_t o = variant == 1 ? (k + j) % n : (k + n - j) % n;
      if (e.tmplof[o] != e.tmplof[k]) continue;
      fill(*m, o);
      if (++seen == 2) break;
    }
  }
  fill(*m, k);
  if (variant == 3) {  // a copy of a copy
    message_type c(m->cref(), a);
    return std::unique_ptr<message_type>(new message_type(c.cref(), a));
  }
  return m;
}

struct Cmp {
  hx::Ctx &c;
  const std::string &name;
  void judge(const std::string &what, bool want, bool eq, bool rev, bool ne) {
    c.transition();
    if (eq != want) c.violation(name + ":" + what + (want ? ":equal-contents-differ" : ":different-contents-equal"), what + ": == gives " + (eq ? "true" : "false"));
    if (rev != eq) c.violation(name + ":" + what + ":asymmetric", what + ": a == b and b == a differ");
    if (ne == eq) c.violation(name + ":" + what + ":inequality", what + ": != is not the negation of ==");
  }
  template <typename T> void typed(const std::string &p, const field_cref &a, const field_cref &b, bool want) {
    T x(a), y(b);
    judge(p + ".typed", want, x == y, y == x, x != y);
  }
  void field(const std::string &p, const Field &f, const field_cref &a, const field_cref &b, const Val &va, const Val &vb) {
    bool want = va == vb;
    if (f.ty == TREF && va.present && vb.present && va.tmpl != vb.tmpl) {
      // which template is selected: only different contents are judged
      if (!same_shape_value(va, vb)) judge(p, false, eqt::eq(a, b), eqt::eq(b, a), eqt::ne(a, b));
      return;
    }
    judge(p, want, eqt::eq(a, b), eqt::eq(b, a), eqt::ne(a, b));
    switch (f.ty) {
    case I32: return typed<int32_cref>(p, a, b, want);
    case U32: return typed<uint32_cref>(p, a, b, want);
    case I64: return typed<int64_cref>(p, a, b, want);
    case U64: return typed<uint64_cref>(p, a, b, want);
    case ENUM: case BOOL: return typed<enum_cref>(p, a, b, want);
    case SET: return typed<set_cref>(p, a, b, want);
    case DEC: return typed<decimal_cref>(p, a, b, want);
    case ASC: return typed<ascii_string_cref>(p, a, b, want);
    case UNI: return typed<unicode_string_cref>(p, a, b, want);
    case BV: return typed<byte_vector_cref>(p, a, b, want);
    case I32V: return typed<int32_vector_cref>(p, a, b, want);
    case U32V: return typed<uint32_vector_cref>(p, a, b, want);
    case I64V: return typed<int64_vector_cref>(p, a, b, want);
    case U64V: return typed<uint64_vector_cref>(p, a, b, want);
    case GRP: {
      group_cref x(a), y(b);
      judge(p + ".group", want, eqt::eq(x, y), eqt::eq(y, x), eqt::ne(x, y));
      if (va.present && vb.present) fields(p, f.sub, aggregate_cref(x), aggregate_cref(y), va.sub, vb.sub);
      return;
    }
    case SEQ: {
      sequence_cref x(a), y(b);
      judge(p + ".sequence", want, eqt::eq(x, y), eqt::eq(y, x), eqt::ne(x, y));
      if (!va.present || !vb.present) return;
      for (size_t k = 0; k < va.sub.size() && k < x.size(); ++k)
        for (size_t j = 0; j < vb.sub.size() && j < y.size(); ++j) {
          judge(p + ".element", va.sub[k] == vb.sub[j], eqt::eq(x[k], y[j]), eqt::eq(y[j], x[k]), eqt::ne(x[k], y[j]));
          fields(p + ".element", f.sub, x[k], y[j], va.sub[k].sub, vb.sub[j].sub);
        }
      return;
    }
    case TREF: {
      nested_message_cref x(a), y(b);
      if (!va.present || !vb.present) return;
      judge(p + ".target", want, eqt::eq(x.target(), y.target()), eqt::eq(y.target(), x.target()), eqt::ne(x.target(), y.target()));
      return;
    }
    }
  }
  static bool same_shape_value(const Val &a, const Val &b) {
    Val x = a;
    x.tmpl = b.tmpl;
    return x == b;
  }
  void fields(const std::string &p, const std::vector<Field> &fs, const aggregate_cref &a, const aggregate_cref &b, const std::vector<Val> &va, const std::vector<Val> &vb) {
    for (size_t k = 0; k < fs.size() && k < va.size() && k < vb.size(); ++k) field(p + "." + fs[k].name, fs[k], a[k], b[k], va[k], vb[k]);
  }
};

// template refs of different templates inside make the outcome of the enclosing comparison unspecified unless other contents differ
static bool retarget(const Val &a, const Val &b) {
  if (a.tmpl != b.tmpl) return true;
  for (size_t k = 0; k < a.sub.size() && k < b.sub.size(); ++k)
    if (a.sub[k].present && b.sub[k].present && retarget(a.sub[k], b.sub[k])) return true;
  return false;
}

static void pair(hx::Ctx &c, const sp::Entry &e, const Node &a, const Node &b) {
  Cmp cmp{c, e.name};
  message_cref x = a.m->cref(), y = b.m->cref();
  bool want = a.v == b.v;
  if (want || !retarget(a.v, b.v) || a.v.tmpl != b.v.tmpl) {
    if (a.v.tmpl == b.v.tmpl) cmp.judge("message", want, eqt::eq(x, y), eqt::eq(y, x), eqt::ne(x, y));
  }
  if (a.v.tmpl == b.v.tmpl) cmp.fields("", e.spec.by_id(a.v.tmpl)->fields, x, y, a.v.sub, b.v.sub);
}

// contents of messages of possibly different templates: definitely different?
static bool differ(const Field &f, const Val &a, const Field &g, const Val &b, const Spec &sa, const Spec &sb);
static bool differ(const std::vector<Field> &f, const std::vector<Val> &a, const std::vector<Field> &g, const std::vector<Val> &b, const Spec &sa, const Spec &sb) {
  if (f.size() != g.size()) return true;
  for (size_t k = 0; k < f.size(); ++k)
    if (differ(f[k], a[k], g[k], b[k], sa, sb)) return true;
  return false;
}
static bool differ(const Field &f, const Val &a, const Field &g, const Val &b, const Spec &sa, const Spec &sb) {
  Ty t = f.ty == BOOL ? ENUM : f.ty, u = g.ty == BOOL ? ENUM : g.ty;
  if (t != u || a.present != b.present) return true;
  if (!a.present) return false;
  if (a.i != b.i || a.e != b.e || a.s != b.s || a.v != b.v) return true;
  if (f.ty == GRP) return differ(f.sub, a.sub, g.sub, b.sub, sa, sb);
  if (f.ty == SEQ) {
    if (a.sub.size() != b.sub.size()) return true;
    for (size_t k = 0; k < a.sub.size(); ++k)
      if (differ(f.sub, a.sub[k].sub, g.sub, b.sub[k].sub, sa, sb)) return true;
    return false;
  }
  if (f.ty == TREF) return differ(sa.by_id(a.tmpl)->fields, a.sub, sb.by_id(b.tmpl)->fields, b.sub, sa, sb);
  return false;
}

struct Set {
  const sp::Entry *e;
  Loaded d;
  Bench b;
  std::vector<Node> nodes;
  explicit Set(const sp::Entry &en, int variants, size_t limit) : e(&en), d(load(en.spec)) {
    Codecs c;
    c.descs = d.descs;
    b.init(en, c);
    for (size_t k = 0; k < en.msgs.size() && k < limit; ++k)
      for (int v = 0; v < variants; ++v) {
        Node n;
        n.m = build(b, k, v);
        n.v = b.want[k];
        nodes.push_back(std::move(n));
      }
  }
};

static std::unique_ptr<Set> open(hx::Ctx &c, const sp::Entry &e, int variants, size_t limit = 1000) {
  c.begin("C19 " + e.name + " load");
  try {
    return std::unique_ptr<Set>(new Set(e, variants, limit));
  } catch (std::exception &x) {
    c.violation(e.name + ":load", what(x));
    return nullptr;
  }
}
static void one(hx::Ctx &c, Set &s, size_t i, size_t j) {
  char t[32];
  snprintf(t, sizeof t, " %zu %zu", i, j);
  c.begin("C19 " + s.e->name + t);
  c.traces();
  try {
    pair(c, *s.e, s.nodes[i], s.nodes[j]);
  } catch (std::exception &x) {
    c.violation(s.e->name + ":throws", std::string("comparison throws: ") + what(x));
  }
}
static void cross(hx::Ctx &c, Set &s, Set &t, size_t i, size_t j) {
  c.begin("C19 x " + s.e->name + " " + std::to_string(i) + " " + t.e->name + " " + std::to_string(j));
  c.traces();
  auto &f = s.e->spec.by_id(s.nodes[i].v.tmpl)->fields, &g = t.e->spec.by_id(t.nodes[j].v.tmpl)->fields;
  bool d = differ(f, s.nodes[i].v.sub, g, t.nodes[j].v.sub, s.e->spec, t.e->spec);
  try {
    message_cref x = s.nodes[i].m->cref(), y = t.nodes[j].m->cref();
    bool eq = eqt::eq(x, y), rev = eqt::eq(y, x), ne = eqt::ne(x, y);
    c.transition();
    if (d && eq) c.violation("cross:" + s.e->name + ":equal", "messages of different templates and different contents compare equal (" + t.e->name + ")");
    if (eq != rev) c.violation("cross:" + s.e->name + ":asymmetric", "(" + t.e->name + ")");
    if (eq == ne) c.violation("cross:" + s.e->name + ":inequality", "(" + t.e->name + ")");
    for (size_t k = 0; k < f.size() && k < g.size(); ++k) {
      bool fd = differ(f[k], s.nodes[i].v.sub[k], g[k], t.nodes[j].v.sub[k], s.e->spec, t.e->spec);
      bool a = eqt::eq(x[k], y[k]), b = eqt::eq(y[k], x[k]), n = eqt::ne(x[k], y[k]);
      if (fd && a) c.violation("cross:" + s.e->name + ":field-equal", "fields of different types or contents compare equal (" + t.e->name + ")");
      if (a != b || a == n) c.violation("cross:" + s.e->name + ":field-asymmetric", "(" + t.e->name + ")");
    }
  } catch (std::exception &x) {
    c.violation("cross:" + s.e->name + ":throws", std::string("comparison throws: ") + what(x) + " (" + t.e->name + ")");
  }
}

static std::vector<size_t> cross_with_;
static std::map<std::string, std::unique_ptr<Set>> others_;
static Set *other(hx::Ctx &c, size_t k) {
  auto &p = others_[space_[k].name];
  if (!p) p = open(c, space_[k], 1, 3);
  return p.get();
}

static void run_item(hx::Ctx &c, size_t i) {
  if (i == space_.size()) return eqt::typed_classes(c, "");
  if (i > space_.size()) {
    i -= space_.size() + 1;
    std::unique_ptr<Set> s = open(c, space_[cross_with_[i]], 1, 3);
    if (!s) return;
    for (size_t j : cross_with_) {
      if (space_[j].name == s->e->name) continue;
      Set *t = other(c, j);
      if (!t) continue;
      for (size_t a = 0; a < s->nodes.size(); ++a)
        for (size_t b = 0; b < t->nodes.size(); ++b) cross(c, *s, *t, a, b);
    }
    return;
  }
  std::unique_ptr<Set> s = open(c, space_[i], c.quick() ? 3 : VARIANTS);
  if (!s) return;
  for (size_t a = 0; a < s->nodes.size(); ++a) {
    c.state(hx::hash_str(space_[i].name + show(s->nodes[a].v) + std::to_string(a)));
    for (size_t b = 0; b < s->nodes.size(); ++b) one(c, *s, a, b);
  }
}
static void run_case(hx::Ctx &c, const std::string &cs) {
  auto w = split(cs, ' ');
  if (w.size() > 1 && w[1] == "typed") return eqt::typed_classes(c, cs);
  auto find = [&](const std::string &n) -> const sp::Entry * {
    for (auto &e : space_)
      if (e.name == n) return &e;
    return nullptr;
  };
  if (w.size() == 6 && w[1] == "x") {
    auto *e = find(w[2]), *f = find(w[4]);
    if (!e || !f) return;
    auto s = open(c, *e, 1, 3), t = open(c, *f, 1, 3);
    if (s && t) cross(c, *s, *t, atoi(w[3].c_str()), atoi(w[5].c_str()));
    return;
  }
  auto *e = w.size() > 1 ? find(w[1]) : nullptr;
  if (!e) return;
  auto s = open(c, *e, c.quick() ? 3 : VARIANTS);
  if (s && w.size() == 4) one(c, *s, atoi(w[2].c_str()), atoi(w[3].c_str()));
}

int main(int argc, char **argv) {
  return hx::drive(argc, argv, [](const std::string &, const std::string &tier) {
    space_ = make_space();
    for (size_t k = 0; k < space_.size(); ++k)
      if (space_[k].kind.empty() && (tier == "thorough" || space_[k].name.find(".E-") == std::string::npos)) cross_with_.push_back(k);
    hx::Harness h;
    h.name = "eq";
    h.items = space_.size() + 1 + cross_with_.size();
    h.run = run_item;
    h.run_case = run_case;
    h.crash_key = [](const std::string &s) {
      auto w = split(s, ' ');
      return w.size() > 2 && w[1] == "x" ? "cross:" + w[2] : w.size() > 1 ? w[1] : s;
    };
    return h;
  });
}
