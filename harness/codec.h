// Uniform access to the four codecs and the message objects of one template-space entry.
#pragma once
#include "adapt.h"
#include "space.h"
#include "hx.h"
#include <functional>
#include <memory>
#include "mfast/coder/fast_encoder.h"
#include "mfast/coder/fast_decoder.h"

namespace cx {
using namespace mdl;

struct IEnc {
  virtual ~IEnc() {}
  virtual size_t encode(const mfast::message_cref &m, char *b, size_t n, bool reset) = 0;
  virtual void encode(const mfast::message_cref &m, std::vector<char> &v, bool reset) = 0;
  virtual void overlong(bool v) = 0;
};
struct IDec {
  virtual ~IDec() {}
  // token is ignored by the decoders without tokens
  virtual mfast::message_cref decode(const char *&b, const char *e, bool reset, unsigned token = 0) = 0;
  virtual unsigned tokens() const { return 1; }
};
template <typename E> struct EncW : IEnc {
  E e;
  template <typename... A> EncW(A... a) : e(a...) {}
  size_t encode(const mfast::message_cref &m, char *b, size_t n, bool reset) override { return e.encode(m, b, n, reset); }
  void encode(const mfast::message_cref &m, std::vector<char> &v, bool reset) override { e.encode(m, v, reset); }
  void overlong(bool v) override { e.allow_overlong_pmap(v); }
};
typedef std::vector<const mfast::templates_description *> Descs;
struct V1Enc : EncW<mfast::fast_encoder> {
  V1Enc(mfast::allocator *a, const Descs &d) : EncW<mfast::fast_encoder>(a) { e.include(d.data(), d.size()); }
};
struct V1Dec : IDec {
  mfast::fast_decoder d;
  V1Dec(mfast::allocator *a, const Descs &t) : d(a) { d.include(t.data(), t.size()); }
  mfast::message_cref decode(const char *&b, const char *e, bool reset, unsigned) override { return d.decode(b, e, reset); }
};

typedef std::function<std::unique_ptr<IEnc>(mfast::allocator *)> MkEnc;
typedef std::function<std::unique_ptr<IDec>(mfast::allocator *)> MkDec;

// codec factories available for an entry
struct Codecs {
  Descs descs;
  MkEnc enc;
  std::vector<std::pair<std::string, MkDec>> decs;  // name, factory
};

// One entry of the template space, ready to run
struct Bench {
  const sp::Entry *e = nullptr;
  Codecs c;
  std::vector<std::unique_ptr<mfast::message_type>> msgs;
  std::vector<Val> want;
  ad::TmplFn tf;

  mfast::message_type *make(size_t k, mfast::allocator *a) const {
    std::unique_ptr<mfast::message_type> m(new mfast::message_type(a, tf(e->tmplof[k])));
    ad::fill_fields(m->ref(), e->spec.by_id(e->tmplof[k])->fields, e->msgs[k], tf, &e->spec);
    return m.release();
  }
  std::unique_ptr<mfast::message_type> make_msg(uint32_t id, const std::vector<Val> &v) const {
    std::unique_ptr<mfast::message_type> m(new mfast::message_type(mfast::malloc_allocator::instance(), tf(id)));
    ad::fill_fields(m->ref(), e->spec.by_id(id)->fields, v, tf, &e->spec);
    return m;
  }
  void init(const sp::Entry &en, Codecs cc) {
    e = &en;
    c = cc;
    tf = [this](uint32_t id) {
      const mfast::template_instruction *i = nullptr;
      for (auto *d : c.descs)
        if (!i) i = d->instruction_with_id(id);
      return i;
    };
    msgs.clear();
    want.clear();
    for (size_t k = 0; k < en.msgs.size(); ++k) {
      msgs.emplace_back(make(k, mfast::malloc_allocator::instance()));
      Val w = vsub(en.msgs[k]);
      w.tmpl = en.tmplof[k];
      want.push_back(w);
    }
  }
};

struct Loaded {
  std::vector<std::unique_ptr<mfast::dynamic_templates_description>> own;
  Descs descs;
};
inline Loaded load(const Spec &s) {
  Loaded l;
  l.own.emplace_back(new mfast::dynamic_templates_description(spec_xml(s).c_str()));
  for (auto &x : s.extra) l.own.emplace_back(new mfast::dynamic_templates_description(spec_xml(x).c_str()));
  for (auto &x : l.own) l.descs.push_back(x.get());
  return l;
}

inline Codecs v1_codecs(const Descs &d) {
  Codecs c;
  c.descs = d;
  c.enc = [d](mfast::allocator *a) { return std::unique_ptr<IEnc>(new V1Enc(a, d)); };
  c.decs.push_back({"v1", [d](mfast::allocator *a) { return std::unique_ptr<IDec>(new V1Dec(a, d)); }});
  return c;
}

// ---------------------------------------------------------------- histories
typedef std::vector<std::pair<int, bool>> Hist;  // message index, reset before it
inline std::string hist_text(const Hist &h) {
  std::string s;
  for (auto &x : h) {
    if (!s.empty()) s += ',';
    if (x.second) s += 'r';
    s += std::to_string(x.first);
  }
  return s;
}
inline Hist hist_parse(const std::string &t) {
  Hist h;
  size_t k = 0;
  while (k < t.size()) {
    bool r = false;
    if (t[k] == 'r') { r = true; ++k; }
    int n = 0;
    while (k < t.size() && isdigit((unsigned char)t[k])) n = n * 10 + (t[k++] - '0');
    h.push_back({n, r});
    while (k < t.size() && t[k] == ',') ++k;
  }
  return h;
}
// every history of exactly `depth` messages over the alphabet, and every placement of resets after the first message
template <typename F> void all_hists(size_t alphabet, int depth, F f) {
  Hist h(depth);
  std::function<bool(int)> rec = [&](int k) -> bool {
    if (k == depth) return f(h);
    for (size_t m = 0; m < alphabet; ++m)
      for (int r = 0; r < (k ? 2 : 1); ++r) {
        h[k] = {(int)m, r != 0};
        if (!rec(k + 1)) return false;
      }
    return true;
  };
  rec(0);
}

inline std::string what(const std::exception &e) {
  std::string s = e.what();
  if (auto *b = dynamic_cast<const boost::exception *>(&e)) {
    std::string d = boost::diagnostic_information(*b, false);
    for (auto &c : d)
      if (c == '\n') c = ';';
    s += " " + d.substr(0, 300);
  }
  return s;
}
inline std::vector<std::string> split(const std::string &s, char c) {
  std::vector<std::string> r;
  std::string cur;
  for (char x : s)
    if (x == c) { r.push_back(cur); cur.clear(); }
    else cur += x;
  r.push_back(cur);
  return r;
}

// index of the first top-level field in which two message values differ
inline std::string diff_field(const sp::Entry &e, const Val &a, const Val &b) {
  if (a.tmpl != b.tmpl) return "template";
  auto *t = e.spec.by_id(a.tmpl);
  if (!t) return "template";
  for (size_t k = 0; k < t->fields.size() && k < a.sub.size() && k < b.sub.size(); ++k)
    if (a.sub[k] != b.sub[k]) return t->fields[k].ty == TREF ? "templateRef" : t->fields[k].name;
  return "shape";
}

}  // namespace cx
