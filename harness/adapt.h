// Bridges the reference model's values and mFAST's reflective message API.
#pragma once
#include "model.h"
#include <memory>
#include "mfast.h"
#include "mfast/set_ref.h"
#include "mfast/enum_ref.h"
#include "mfast/nested_message_ref.h"
#include "mfast/composite_type.h"
#include "mfast/sequence_ref.h"
#include "mfast/int_ref.h"
#include "mfast/decimal_ref.h"
#include "mfast/string_ref.h"
#include "mfast/vector_ref.h"
#include "mfast/xml_parser/dynamic_templates_description.h"

namespace ad {
using namespace mdl;

// allocator that refuses unreasonable requests and keeps account of live blocks
class counting_allocator : public mfast::allocator {
public:
  std::map<void *, size_t> live;
  size_t limit = 1u << 20;      // per request
  long fail_at = -1;            // the fail_at-th request (0-based) from now on fails
  bool fail_forever = false;
  long requests = 0;
  bool mismatch = false;
  bool should_fail(size_t n) {
    long k = requests++;
    if (n > limit) return true;
    if (fail_at >= 0 && (fail_forever ? k >= fail_at : k == fail_at)) return true;
    return false;
  }
  void *allocate(std::size_t s) override {
    if (should_fail(s)) throw std::bad_alloc();
    void *p = ::malloc(s ? s : 1);
    if (!p) throw std::bad_alloc();
    memset(p, 0xCD, s);  // fresh storage is never conveniently zero
    live[p] = s;
    return p;
  }
  std::size_t reallocate(void *&pointer, std::size_t old_size, std::size_t new_size) override {
    if (should_fail(new_size)) throw std::bad_alloc();
    void *q = ::malloc(new_size ? new_size : 1);
    if (!q) throw std::bad_alloc();
    memset(q, 0xCD, new_size);
    if (pointer) {
      auto it = live.find(pointer);
      if (it == live.end()) { mismatch = true; ::free(q); throw std::runtime_error("reallocate of a foreign block"); }
      memcpy(q, pointer, std::min(old_size, new_size));  // ASan checks old_size against the real block
      live.erase(it);
      ::free(pointer);
    }
    live[q] = new_size;
    pointer = q;
    return new_size;
  }
  void deallocate(void *pointer, std::size_t) override {
    if (!pointer) return;
    auto it = live.find(pointer);
    if (it == live.end()) { mismatch = true; return; }
    live.erase(it);
    ::free(pointer);
  }
  ~counting_allocator() {
    for (auto &p : live) ::free(p.first);
  }
};

// looks up the instruction of a nested template
typedef std::function<const mfast::template_instruction *(uint32_t)> TmplFn;

inline void fill_fields(const mfast::aggregate_mref &m, const std::vector<Field> &fs, const std::vector<Val> &vs, const TmplFn &tf, const Spec *spec);

template <typename M, typename T> void fill_ivec(const mfast::field_mref &f, const Val &v) {
  M m(f);
  if (!v.present) { m.omit(); return; }
  std::vector<T> x(v.v.begin(), v.v.end());
  m.assign(x.begin(), x.end());
}

inline void fill_field(const mfast::field_mref &m, const Field &f, const Val &v, const TmplFn &tf, const Spec *spec) {
  using namespace mfast;
  bool constant = f.op.op == CONST && !f.split;
  switch (f.ty) {
  case I32: { int32_mref r(m); if (!v.present) r.omit(); else if (constant) { if (f.opt) r.to_initial_value(); } else r.as((int32_t)v.i); break; }
  case U32: { uint32_mref r(m); if (!v.present) r.omit(); else if (constant) { if (f.opt) r.to_initial_value(); } else r.as((uint32_t)v.i); break; }
  case I64: { int64_mref r(m); if (!v.present) r.omit(); else if (constant) { if (f.opt) r.to_initial_value(); } else r.as((int64_t)v.i); break; }
  case U64: { uint64_mref r(m); if (!v.present) r.omit(); else if (constant) { if (f.opt) r.to_initial_value(); } else r.as((uint64_t)v.i); break; }
  case ENUM:
  case BOOL: { enum_mref r(m); if (!v.present) r.omit(); else if (constant) { if (f.opt) r.to_initial_value(); } else r.as((uint64_t)v.i); break; }
  case SET: { set_mref r(m); if (!v.present) r.omit(); else if (constant) { if (f.opt) r.to_initial_value(); } else r.as((uint64_t)v.i); break; }
  case DEC: {
    decimal_mref r(m);
    if (!v.present) r.omit();
    else if (constant) { if (f.opt) r.to_initial_value(); }
    else r.as(v.i, (int16_t)v.e);
    break;
  }
  case ASC: { ascii_string_mref r(m); if (!v.present) r.omit(); else if (constant) { if (f.opt) r.to_initial_value(); } else r.assign(v.s.begin(), v.s.end()); break; }
  case UNI: { unicode_string_mref r(m); if (!v.present) r.omit(); else if (constant) { if (f.opt) r.to_initial_value(); } else r.assign(v.s.begin(), v.s.end()); break; }
  case BV: { byte_vector_mref r(m); if (!v.present) r.omit(); else if (constant) { if (f.opt) r.to_initial_value(); } else r.assign(v.s.begin(), v.s.end()); break; }
  case I32V: fill_ivec<int32_vector_mref, int32_t>(m, v); break;
  case U32V: fill_ivec<uint32_vector_mref, uint32_t>(m, v); break;
  case I64V: fill_ivec<int64_vector_mref, int64_t>(m, v); break;
  case U64V: fill_ivec<uint64_vector_mref, uint64_t>(m, v); break;
  case GRP: {
    group_mref g(m);
    if (!v.present) { g.omit(); break; }
    fill_fields(aggregate_mref(g), f.sub, v.sub, tf, spec);
    break;
  }
  case SEQ: {
    sequence_mref s(m);
    if (!v.present) { s.omit(); break; }
    s.resize(v.sub.size());
    for (size_t k = 0; k < v.sub.size(); ++k) fill_fields(s[k], f.sub, v.sub[k].sub, tf, spec);
    break;
  }
  case TREF: {
    nested_message_mref n(m);
    message_mref t = n.rebind(tf(v.tmpl));
    fill_fields(t, spec->by_id(v.tmpl)->fields, v.sub, tf, spec);
    break;
  }
  }
}
inline void fill_fields(const mfast::aggregate_mref &m, const std::vector<Field> &fs, const std::vector<Val> &vs, const TmplFn &tf, const Spec *spec) {
  for (size_t k = 0; k < fs.size(); ++k) fill_field(m[k], fs[k], vs[k], tf, spec);
}

inline std::vector<Val> read_fields(const mfast::aggregate_cref &m, const std::vector<Field> &fs, const Spec *spec);
template <typename C> Val read_ivec(const mfast::field_cref &f) {
  C c(f);
  Val v;
  v.present = true;
  for (size_t k = 0; k < c.size(); ++k) v.v.push_back((int64_t)c[k]);
  return v;
}
inline Val read_field(const mfast::field_cref &c, const Field &f, const Spec *spec) {
  using namespace mfast;
  if (f.ty != TREF && c.absent()) return absent();
  switch (f.ty) {
  case I32: return vint(int32_cref(c).value());
  case U32: return vint((int64_t)(uint64_t)uint32_cref(c).value());
  case I64: return vint(int64_cref(c).value());
  case U64: return vint((int64_t)uint64_cref(c).value());
  case ENUM:
  case BOOL: return vint((int64_t)enum_cref(c).value());
  case SET: return vint((int64_t)set_cref(c).value());
  case DEC: return vdec(decimal_cref(c).mantissa(), decimal_cref(c).exponent());
  case ASC: { ascii_string_cref s(c); return vstr(std::string(s.begin(), s.end())); }
  case UNI: { unicode_string_cref s(c); return vstr(std::string(s.begin(), s.end())); }
  case BV: { byte_vector_cref s(c); return vstr(std::string((const char *)s.data(), s.size())); }
  case I32V: return read_ivec<int32_vector_cref>(c);
  case U32V: return read_ivec<uint32_vector_cref>(c);
  case I64V: return read_ivec<int64_vector_cref>(c);
  case U64V: return read_ivec<uint64_vector_cref>(c);
  case GRP: return vsub(read_fields(aggregate_cref(group_cref(c)), f.sub, spec));
  case SEQ: {
    sequence_cref s(c);
    Val v;
    v.present = true;
    for (size_t k = 0; k < s.size(); ++k) v.sub.push_back(vsub(read_fields(s[k], f.sub, spec)));
    return v;
  }
  case TREF: {
    nested_message_cref n(c);
    Val v;
    if (!n.target_instruction()) return absent();
    message_cref t = n.target();
    v.present = true;
    v.tmpl = t.id();
    const Tmpl *tt = spec->by_id(v.tmpl);
    if (!tt) { v.s = "unknown template"; return v; }
    v.sub = read_fields(t, tt->fields, spec);
    return v;
  }
  }
  return absent();
}
inline std::vector<Val> read_fields(const mfast::aggregate_cref &m, const std::vector<Field> &fs, const Spec *spec) {
  std::vector<Val> r;
  if (m.num_fields() != fs.size()) {
    Val v;
    v.present = true;
    v.s = "field count mismatch";
    r.push_back(v);
    return r;
  }
  for (size_t k = 0; k < fs.size(); ++k) r.push_back(read_field(m[k], fs[k], spec));
  return r;
}
inline Val read_msg(const mfast::message_cref &m, const Spec *spec) {
  Val v;
  v.present = true;
  v.tmpl = m.id();
  const Tmpl *t = spec->by_id(v.tmpl);
  if (!t) { v.s = "unknown template"; return v; }
  v.sub = read_fields(m, t->fields, spec);
  return v;
}

}  // namespace ad
