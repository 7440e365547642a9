// Comparisons as a user of the library writes them, and the generated classes of harness/xml/eqt.xml.
#pragma once
#include "eqt.h"
namespace eqt {
// == and != as found from code that uses the namespace
template <typename A, typename B> bool eq(const A &a, const B &b) {
  using namespace mfast;
  return a == b;
}
template <typename A, typename B> bool ne(const A &a, const B &b) {
  using namespace mfast;
  return a != b;
}
inline void typed_classes(hx::Ctx &c, const std::string &only) {
  using namespace mfast;
  // every field of T has three contents (absent, and two values); messages differ from a base message in up to two fields
  enum { N = 11 };
  auto build = [](const int *v) {
    std::unique_ptr<T> m(new T(malloc_allocator::instance()));
    T_mref r = m->mref();
    if (v[0]) r.set_e().as(v[0] == 1 ? T_cref::e_cref::element_type(0) : T_cref::e_cref::element_type(1));
    if (v[1]) r.set_m().as(v[1] == 1 ? T_cref::m_cref::element_type(0) : T_cref::m_cref::element_type(1));
    if (v[2]) r.set_b().as(v[2] == 2);
    if (v[3]) r.set_u().as(v[3] - 1);
    if (v[4]) r.set_s().as(v[4] == 1 ? "" : "s");
    if (v[5]) r.set_d().as(v[5] - 1, 0);
    if (v[6]) { unsigned char x = 'v'; r.set_v().assign(&x, &x + (v[6] - 1)); }
    if (v[7]) { uint32_t x = 7; r.set_w().assign(&x, &x + (v[7] - 1)); }
    if (v[8]) { auto g = r.set_g(); if (v[8] == 2) g.set_x().as(0); else g.omit_x(); }
    if (v[9]) { auto q = r.set_q(); q.resize(v[9] - 1); }
    if (v[10]) set_mref(r[10]).as(v[10] - 1);
    return m;
  };
  std::vector<std::vector<int>> msgs;
  for (int base = 0; base < 3; ++base)
    for (int k = 0; k < N; ++k)
      for (int x = 0; x < 3; ++x) {
        std::vector<int> m(N, base);
        if (k == 1 && !x) continue;
        m[k] = x;
        if (!m[1]) m[1] = 1;
        msgs.push_back(m);
      }
  std::vector<std::unique_ptr<T>> obj;
  for (auto &m : msgs) obj.push_back(build(m.data()));
  auto judge = [&](const char *what, bool want, bool eq, bool ne) {
    c.transition();
    if (eq != want) c.violation(std::string("typed.") + what + (want ? ":equal-contents-differ" : ":different-contents-equal"), what);
    if (eq == ne) c.violation(std::string("typed.") + what + ":inequality", what);
  };
  for (size_t a = 0; a < msgs.size(); ++a)
    for (size_t b = 0; b < msgs.size(); ++b) {
      std::string cs = "C19 typed " + std::to_string(a) + " " + std::to_string(b);
      if (!only.empty() && cs != only) continue;
      c.begin(cs);
      c.traces();
      auto &x = msgs[a], &y = msgs[b];
      T_cref p = obj[a]->cref(), q = obj[b]->cref();
      judge("message", x == y, eq(p, q), ne(p, q));
      T_cref::e_cref e1(p[0]), e2(q[0]);
      judge("enum", x[0] == y[0], e1 == e2, e1 != e2);
      judge("mandatory-enum", x[1] == y[1], p.get_m() == q.get_m(), p.get_m() != q.get_m());
      T_cref::b_cref b1(p[2]), b2(q[2]);
      judge("boolean", x[2] == y[2], eq(b1, b2), ne(b1, b2));
      if (x[8] && y[8]) judge("group", x[8] == y[8], eq(p.get_g(), q.get_g()), ne(p.get_g(), q.get_g()));
      if (x[9] && y[9]) judge("sequence", x[9] == y[9], eq(p.get_q(), q.get_q()), ne(p.get_q(), q.get_q()));
      if (x[9] > 1 && y[9] > 1) judge("element", true, eq(p.get_q()[0], q.get_q()[0]), ne(p.get_q()[0], q.get_q()[0]));
      T_cref::t_cref t1(p[10]), t2(q[10]);
      judge("set", x[10] == y[10], t1 == t2, t1 != t2);
    }
}
}  // namespace eqt
