// The typed API of generated classes (harness/xml/w.xml) as operations of the message world. Included by world.cpp.
#pragma once
static Spec gen_spec() {
  Spec s;
  auto L = [](std::initializer_list<Field> l) { return std::vector<Field>(l); };
  s.tmpls.push_back(tmpl("W", 1, L({fld("a", U32, true), fgrp("g", true, L({fld("s", ASC, true)})), fseq("q", false, L({fld("qs", ASC, false), fld("qi", U32, true)})),
                                    fseq("u", true, L({fld("", ASC, false)})), fseq("r", false, L({fld("ns", ASC, false)})),
                                    fgrp("d", true, L({fld("gs", ASC, true), fld("gu", U32, false, opi(COPY, 4))})), fld("", TREF, false)})));
  s.tmpls.push_back(tmpl("N2", 2, L({fld("ns", ASC, false)})));
  return s;
}
namespace gen {
static w::W_mref mref(World &w, int k) { return w::W_mref(w.o[k]->mref()); }
static w::W_cref cref(World &w, int k) { return w::W_cref(w.o[k]->cref()); }
static N str_n(const std::string &s) {
  N n;
  n.present = true;
  n.s = s;
  return n;
}
static N int_n(int64_t i) {
  N n;
  n.present = true;
  n.i = i;
  return n;
}
enum { A = 0, G, Q, U, R, D, T };
static void seq_from(N &n, const std::vector<std::string> &v, const Field &f) {
  resize_model(n, f, v.size());
  for (size_t k = 0; k < v.size(); ++k) {
    n.sub[k].sub[0] = str_n(v[k]);
    n.sub[k].stale = false;
  }
}
static std::string str(const ascii_string_cref &c) { return std::string(c.begin(), c.end()); }
} // namespace gen
static void gen_ops(std::vector<Act> &r) {
  using namespace gen;
  for (int k = 0; k < 2; ++k) {
    std::string pre = hx::fmt("%c.typed.", 'A' + k);
    auto add = [&](const std::string &n, std::function<bool(World &, std::vector<N> &, const std::vector<Field> &, w::W_mref)> f) {
      r.push_back({pre + n, k, [k, f](World &w) { return f(w, w.m[k], *w.fs, mref(w, k)); }});
    };
    typedef std::vector<N> M;
    typedef std::vector<Field> F;
    add("set_a", [](World &, M &m, const F &, w::W_mref x) { x.set_a().as(7); m[A] = int_n(7); return true; });
    add("set_q.resize2", [](World &, M &m, const F &f, w::W_mref x) {
      x.set_q().resize(2);
      resize_model(m[Q], f[Q], 2);
      adopt_elements(aggregate_mref(x)[Q], m[Q], f[Q]);
      return true;
    });
    add("set_q.back.set_qs", [](World &, M &m, const F &, w::W_mref x) {
      if (m[Q].sub.empty()) return false;
      x.set_q().back().set_qs().as("typed");
      m[Q].sub.back().sub[0] = str_n("typed");
      return true;
    });
    add("set_g.set_s", [](World &, M &m, const F &f, w::W_mref x) {
      w::W_mref::g_mref g = x.set_g();
      adopt_group(aggregate_mref(x)[G], m[G], f[G]);
      g.set_s().as("gs");
      m[G].sub[0] = str_n("gs");
      return true;
    });
    add("set_nested.as<N2>.set_ns", [](World &, M &m, const F &f, w::W_mref x) {
      w::N2_mref n = x.set_nested_message6().as<w::N2>();
      if (m[T].tmpl != 2) {
        m[T] = N();
        m[T].present = true;
        m[T].tmpl = 2;
        m[T].sub = fresh(spec_->by_id(2)->fields);
      }
      n.set_ns().as("nested");
      m[T].sub[0] = str_n("nested");
      return true;
    });
    if (k) continue;
    add("omit_a", [](World &, M &m, const F &, w::W_mref x) { x.omit_a(); m[A] = N(); return true; });
    add("omit_g", [](World &, M &m, const F &, w::W_mref x) { x.omit_g(); m[G].present = false; m[G].stale = true; return true; });
    add("set_q.iterate", [](World &, M &m, const F &, w::W_mref x) {
      size_t n = 0;
      for (auto e : x.set_q()) {
        e.set_qi().as(40 + n);
        m[Q].sub[n].sub[1] = int_n(40 + n);
        ++n;
      }
      return n > 0;
    });
    add("set_q.as(B.q)", [](World &w, M &m, const F &f, w::W_mref x) { x.set_q().as(cref(w, 1).get_q()); m[Q] = copy_of(w.m[1][Q], f[Q]); return true; });
    add("set_q.assign(B.q reversed)", [](World &w, M &m, const F &f, w::W_mref x) {
      const N &s = w.m[1][Q];
      resize_model(m[Q], f[Q], s.sub.size());
      for (size_t e = 0; e < s.sub.size(); ++e) {
        m[Q].sub[e].sub = copy_of(s.sub[s.sub.size() - 1 - e].sub, f[Q].sub);
        m[Q].sub[e].stale = false;
      }
      auto src = cref(w, 1).get_q();
      x.set_q().assign(src.rbegin(), src.rend());
      return true;
    });
    for (size_t n : {0, 2, 3}) add(hx::fmt("set_u.resize%zu", n), [n](World &, M &m, const F &f, w::W_mref x) {
      x.set_u().resize(n);
      resize_model(m[U], f[U], n);
      adopt_elements(aggregate_mref(x)[U], m[U], f[U]);
      return true;
    });
    add("set_u.back", [](World &, M &m, const F &, w::W_mref x) {
      if (m[U].sub.empty()) return false;
      x.set_u().back().as("sole");
      m[U].sub.back().sub[0] = str_n("sole");
      return true;
    });
    add("set_u.as(vector)", [](World &, M &m, const F &f, w::W_mref x) {
      std::vector<std::string> v{"one", "a much longer second string of more than sixty-four characters, to be sure", ""};
      x.set_u().as(v);
      seq_from(m[U], v, f[U]);
      return true;
    });
    add("set_u.as(B.u)", [](World &w, M &m, const F &f, w::W_mref x) { x.set_u().as(cref(w, 1).get_u()); m[U] = copy_of(w.m[1][U], f[U]); return true; });
    add("set_u.iterate", [](World &, M &m, const F &, w::W_mref x) {
      auto u = x.set_u();
      size_t n = 0;
      if (!m[U].present) {  // the accessor of an absent sequence must not have made elements up
        m[U].present = aggregate_cref(aggregate_mref(x))[U].present();
        return u.size() == 0;
      }
      auto it = u.begin();
      for (; it != u.end(); ++it, ++n) {
        it->as("it" + std::to_string(n));
        m[U].sub[n].sub[0] = str_n("it" + std::to_string(n));
      }
      return n > 0;
    });
    add("set_r.resize2", [](World &, M &m, const F &f, w::W_mref x) {
      x.set_r().resize(2);
      resize_model(m[R], f[R], 2);
      adopt_elements(aggregate_mref(x)[R], m[R], f[R]);
      return true;
    });
    add("set_r.front.set_ns", [](World &, M &m, const F &, w::W_mref x) {
      if (m[R].sub.empty()) return false;
      x.set_r().front().set_ns().as("front");
      m[R].sub[0].sub[0] = str_n("front");
      return true;
    });
    add("set_r.back.as(N2)", [](World &w, M &m, const F &, w::W_mref x) {
      if (m[R].sub.empty()) return false;
      w::N2 n(w.al[1]);
      n.mref().set_ns().as("message of another allocator");
      x.set_r().back().as(n.cref());
      m[R].sub.back().sub[0] = str_n("message of another allocator");
      return true;
    });
    add("set_d.set_gu", [](World &, M &m, const F &f, w::W_mref x) {
      w::G_mref d = x.set_d();
      adopt_group(aggregate_mref(x)[D], m[D], f[D]);
      d.set_gu().as(9);
      m[D].sub[1] = int_n(9);
      return true;
    });
    add("omit_d", [](World &, M &m, const F &, w::W_mref x) { x.omit_d(); m[D].present = false; m[D].stale = true; return true; });
    add("set_d.as(G)", [](World &w, M &m, const F &f, w::W_mref x) {
      w::G g(w.al[1]);
      g.mref().set_gs().as("object");
      w::G h(g), i(std::move(g));
      h = i;
      h.mref().set_gu().as(11);  // must not change i
      g = std::move(h);
      if (i.cref().get_gu().value() != 4 || str(i.cref().get_gs()) != "object") throw std::logic_error("a change of a copy of a group object changed the original");
      if (g.cref().get_gu().value() != 11 || str(g.cref().get_gs()) != "object") throw std::logic_error("a group object that was moved to has another value");
      x.set_d().as(g.cref());
      m[D] = N();
      m[D].present = true;
      m[D].sub = {str_n("object"), int_n(11)};
      return true;
    });
    add("link,copy,unlink", [](World &w, M &m, const F &, w::W_mref x) {
      w::G g(w.al[0]);
      g.mref().set_gs().as("linked");
      x.link_d(g.mref());
      g.mref().set_gu().as(21);  // a link shows the group it refers to
      if (cref(w, 0).get_d().get_gu().value() != 21 || str(cref(w, 0).get_d().get_gs()) != "linked") throw std::logic_error("a linked group does not show the group it is linked to");
      x.set_d().set_gu().as(22);
      if (g.cref().get_gu().value() != 22) throw std::logic_error("a change through a link does not reach the group");
      {
        w::W c(w::W_cref(cref(w, 0)), w.al[1]);  // a copy is of its own
        c.mref().set_d().set_gu().as(23);
        c.mref().set_d().set_gs().as("other");
        if (g.cref().get_gu().value() != 22 || str(g.cref().get_gs()) != "linked") throw std::logic_error("a change of a copy of a message with a linked group changed the group");
      }
      x.unlink_d();
      if (cref(w, 0).get_d().present()) throw std::logic_error("an unlinked optional group is present");
      m[D] = fresh((*w.fs)[D]);
      return true;
    });
    r.back().may_fail = false;
    add("link,link,assign,unlink", [](World &w, M &m, const F &f, w::W_mref x) {
      w::G g(w.al[0]), h(w.al[0]);
      x.link_d(g.mref());
      x.link_d(h.mref());
      h.mref().set_gs().as("second");
      if (str(cref(w, 0).get_d().get_gs()) != "second" || g.cref().get_gs().present()) throw std::logic_error("the second link does not replace the first");
      aggregate_mref(w.o[1]->mref()).as(aggregate_cref(w.o[0]->cref()));  // B gets a copy
      for (int i = 0; i <= T; ++i) w.m[1][i] = copy_of(m[i], f[i]);
      w.m[1][D] = N();
      w.m[1][D].present = true;
      w.m[1][D].sub = {str_n("second"), int_n(4)};
      x.unlink_d();
      m[D] = fresh(f[D]);
      return true;
    });
    r.back().target = 2;
    r.back().may_fail = false;
  }
}
// the typed accessors show what the reflective ones do
template <class Fn> static bool refuses(const Fn &f) {
  try {
    f();
  } catch (const bad_optional_access &) {
    return true;
  }
  return false;
}
static std::string gen_typed_check(World &w, int k) {
  using namespace gen;
  w::W_cref x = cref(w, k);
  const std::vector<N> &m = w.m[k];
#define TRY(field, F)                                                                                       \
  if (refuses([&] { x.try_get_##field(); }) == m[F].present) return "try_get_" #field " throws although the field is present, or does not although it is absent"; \
  if (x.get_##field().present() != m[F].present) return "get_" #field " shows another presence";
  TRY(a, A)
  TRY(g, G)
  TRY(u, U)
  TRY(d, D)
#undef TRY
  if (refuses([&] { x.try_get_q(); }) || refuses([&] { x.try_get_r(); })) return "try_get of a mandatory field throws";
  if (m[A].present && (x.get_a().value() != m[A].i || x.try_get_a().value() != m[A].i)) return "get_a shows another value";
  if (m[G].present && (x.get_g().get_s().present() != m[G].sub[0].present || (m[G].sub[0].present && str(x.try_get_g().try_get_s()) != m[G].sub[0].s))) return "get_g().get_s() shows another value";
  auto q = x.get_q();
  if (q.size() != m[Q].sub.size()) return "get_q has another size";
  size_t i = 0;
  for (auto e : q) {
    const std::vector<N> &el = m[Q].sub[i++].sub;
    if (str(e.get_qs()) != el[0].s || e.get_qi().present() != el[1].present || (el[1].present && e.try_get_qi().value() != el[1].i)) return "an element of get_q shows another value";
  }
  if (i != m[Q].sub.size()) return "iteration over get_q yields another number of elements";
  if (m[U].present) {
    auto u = x.get_u();
    if (u.size() != m[U].sub.size()) return "get_u has another size";
    i = 0;
    for (auto it = u.begin(); it != u.end(); ++it, ++i) {
      if (str(*it) != m[U].sub[i].sub[0].s || str(u[i]) != m[U].sub[i].sub[0].s) return "an element of get_u shows another value";
      auto jt = u.end();
      jt = it;
      if (str(*jt) != m[U].sub[i].sub[0].s || jt != it) return "an assigned iterator over get_u shows another element";
    }
    if (i != m[U].sub.size()) return "iteration over get_u yields another number of elements";
    for (auto it = u.rbegin(); it != u.rend(); ++it)
      if (str(*it) != m[U].sub[--i].sub[0].s) return "reverse iteration over get_u shows another value";
  }
  auto rr = x.get_r();
  if (rr.size() != m[R].sub.size()) return "get_r has another size";
  i = 0;
  for (auto e : rr)
    if (str(e.get_ns()) != m[R].sub[i++].sub[0].s) return "an element of get_r shows another value";
  if (m[D].present && (x.get_d().get_gs().present() != m[D].sub[0].present || (m[D].sub[0].present && str(x.get_d().get_gs()) != m[D].sub[0].s) || x.get_d().get_gu().value() != m[D].sub[1].i)) return "get_d shows another value";
  if (m[T].tmpl == 2) {
    w::N2_cref n(x.get_nested_message6().target());
    if (str(n.get_ns()) != m[T].sub[0].s) return "the typed reference to the nested message shows another value";
  }
  return "";
}
