// C16, C17, C23: operation sequences on message objects, against a model of independent records.
// Explicit-state breadth-first exploration: a state is the model of the two objects plus the shape of their storage;
// every operation is applied in every state reached within the depth, on the real objects, and both objects are then
// read completely and compared with the model.
#include "hx.h"
#include "adapt.h"
#include "alloc.h"
#include "space.h"
#include "mfast/malloc_allocator.h"
#include "mfast/arena_allocator.h"
#include "mfast/sequence_type.h"
#include <deque>
#include "w.h"
using namespace mdl;
using namespace sp;
using namespace mfast;

// ------------------------------------------------------------------ model
struct N {
  bool present = false;
  bool stale = false;  // group: content unspecified until it is made present again
  int64_t i = 0;
  int e = 0;
  std::string s;
  std::vector<int64_t> v;
  std::vector<N> sub;
  uint32_t tmpl = 0;
  size_t hw = 0;  // sequence: elements below this index have been part of the sequence
};
static const size_t UNKNOWN = (size_t)-1;
static const Spec *spec_;
static Val to_val(const N &n, const Field &f);
static std::vector<Val> to_vals(const std::vector<N> &n, const std::vector<Field> &fs) {
  std::vector<Val> r;
  for (size_t k = 0; k < fs.size(); ++k) r.push_back(to_val(n[k], fs[k]));
  return r;
}
static Val to_val(const N &n, const Field &f) {
  if (!n.present) return absent();
  Val v;
  v.present = true;
  v.i = n.i;
  v.e = n.e;
  v.s = n.s;
  v.v = n.v;
  v.tmpl = n.tmpl;
  if (f.ty == GRP) v.sub = to_vals(n.sub, f.sub);
  if (f.ty == SEQ)
    for (auto &x : n.sub) v.sub.push_back(vsub(to_vals(x.sub, f.sub)));
  if (f.ty == TREF) v.sub = to_vals(n.sub, spec_->by_id(n.tmpl)->fields);
  return v;
}
static N from_val(const Val &v, const Field &f);
static std::vector<N> from_vals(const std::vector<Val> &v, const std::vector<Field> &fs) {
  std::vector<N> r;
  for (size_t k = 0; k < fs.size(); ++k) r.push_back(from_val(v[k], fs[k]));
  return r;
}
static N from_val(const Val &v, const Field &f) {
  N n;
  n.present = v.present;
  n.i = v.i;
  n.e = v.e;
  n.s = v.s;
  n.v = v.v;
  n.tmpl = v.tmpl;
  if (f.ty == GRP) {
    n.stale = !v.present;
    if (v.present) n.sub = from_vals(v.sub, f.sub);
  }
  if (f.ty == SEQ) {
    n.hw = UNKNOWN;
    for (auto &x : v.sub) {
      N el;
      el.present = true;
      el.sub = from_vals(x.sub, f.sub);
      n.sub.push_back(el);
    }
  }
  if (f.ty == TREF && v.present) n.sub = from_vals(v.sub, spec_->by_id(v.tmpl)->fields);
  return n;
}
// the value a field has in a freshly created message or element
static std::vector<N> fresh(const std::vector<Field> &fs);
static N fresh(const Field &f) {
  N n;
  if (f.ty == TREF) return n;
  n.present = !f.opt;
  if (is_int(f.ty)) n.i = f.op.init ? f.op.ival : 0;
  if (f.ty == DEC && f.op.init) { n.i = f.op.ival; n.e = 0; }
  if (is_str(f.ty) && !f.opt) n.s = f.op.sval;
  if (f.ty == GRP) n.sub = fresh(f.sub);
  if (f.ty == SEQ && !f.opt && f.has_len && f.lop.init)
    for (int64_t k = 0; k < f.lop.ival; ++k) {
      N el;
      el.present = true;
      el.sub = fresh(f.sub);
      n.sub.push_back(el);
    }
  n.hw = n.sub.size();
  return n;
}
static std::vector<N> fresh(const std::vector<Field> &fs) {
  std::vector<N> r;
  for (auto &f : fs) r.push_back(fresh(f));
  return r;
}
// what a copy of a record holds
static void copied(std::vector<N> &ns, const std::vector<Field> &fs);
static void copied(N &n, const Field &f) {
  if (f.ty == GRP) copied(n.sub, f.sub);
  if (f.ty == SEQ) {
    if (!n.present) n.sub.clear();
    for (auto &x : n.sub) copied(x.sub, f.sub);
    n.hw = n.sub.size();
  }
  if (f.ty == TREF && n.present) copied(n.sub, spec_->by_id(n.tmpl)->fields);
}
static void copied(std::vector<N> &ns, const std::vector<Field> &fs) {
  for (size_t k = 0; k < fs.size() && k < ns.size(); ++k) copied(ns[k], fs[k]);
}
static N copy_of(N n, const Field &f) { copied(n, f); return n; }
static std::vector<N> copy_of(std::vector<N> n, const std::vector<Field> &f) { copied(n, f); return n; }

static std::string show_n(const std::vector<N> &ns);
static std::string show_n(const N &n) {  // includes what cannot be seen but distinguishes states
  std::string r = n.present ? "" : "-";
  r += std::to_string((long long)n.i) + "," + std::to_string(n.e) + "," + n.s + "," + std::to_string(n.tmpl) + "," + (n.stale ? "?" : "") + (n.hw == UNKNOWN ? "*" : std::to_string(n.hw));
  for (auto x : n.v) r += "|" + std::to_string((long long)x);
  return r + show_n(n.sub);
}
static std::string show_n(const std::vector<N> &ns) {
  std::string r;
  if (ns.empty()) return r;
  r = "(";
  for (auto &n : ns) r += show_n(n) + ";";
  return r + ")";
}

// ---------------------------------------------------------------- objects
struct Owner {
  virtual ~Owner() {}
  virtual message_mref mref() = 0;
  virtual message_cref cref() const = 0;
  virtual mfast::allocator *alloc() const = 0;
};
struct RtOwner : Owner {
  message_type m;
  RtOwner(mfast::allocator *a, const template_instruction *i) : m(a, i) {}
  RtOwner(const message_cref &c, mfast::allocator *a) : m(c, a) {}
  message_mref mref() override { return m.mref(); }
  message_cref cref() const override { return m.cref(); }
  mfast::allocator *alloc() const override { return m.allocator(); }
};
struct GenOwner : Owner {
  w::W m;
  explicit GenOwner(mfast::allocator *a) : m(a) {}
  GenOwner(const w::W_cref &c, mfast::allocator *a) : m(c, a) {}
  message_mref mref() override { return message_mref(m.mref()); }
  message_cref cref() const override { return message_cref(m.cref()); }
  mfast::allocator *alloc() const override { return m.allocator(); }
};
struct World {
  const templates_description *d;
  const Spec *spec;
  const std::vector<Field> *fs;
  std::vector<mfast::allocator *> al;  // for object 0, object 1
  std::unique_ptr<Owner> o[2];
  std::vector<N> m[2];
  bool gen = false;
  std::string why;
  const template_instruction *inst(uint32_t id) const { return d->instruction_with_id(id); }
  std::unique_ptr<Owner> make(int k) {
    if (gen) return std::unique_ptr<Owner>(new GenOwner(al[k]));
    return std::unique_ptr<Owner>(new RtOwner(al[k], inst(1)));
  }
  std::unique_ptr<Owner> make_copy(const message_cref &c, int k) {
    if (gen) return std::unique_ptr<Owner>(new GenOwner(w::W_cref(c), al[k]));
    return std::unique_ptr<Owner>(new RtOwner(c, al[k]));
  }
};
struct Act {
  std::string name;
  int target;  // object it changes (2 = both)
  std::function<bool(World &)> f;
  bool may_fail = true;  // false: an operation that is several calls, in the middle of which it cannot be left
};

// a container on the way to a field: field index and which element / template
struct Step {
  int field;
  int sel;  // SEQ: 0 first, -1 last; TREF: template id
};
typedef std::vector<Step> Path;
typedef std::function<bool(const aggregate_mref &, std::vector<N> &, const std::vector<Field> &)> AggFn;
static void adopt_group(const field_mref &f, N &n, const Field &fd) {
  n.present = true;
  if (n.stale) n.sub = from_vals(ad::read_fields(aggregate_cref(group_cref(f)), fd.sub, spec_), fd.sub);
  n.stale = false;
}
static bool walk(const aggregate_mref &m, std::vector<N> &ns, const std::vector<Field> &fs, const Path &p, size_t at, const AggFn &fn) {
  if (at == p.size()) return fn(m, ns, fs);
  const Step &s = p[at];
  const Field &f = fs[s.field];
  N &n = ns[s.field];
  field_mref fm = m[s.field];
  if (f.ty == GRP) {
    group_mref g(fm);  // makes the group present
    adopt_group(fm, n, f);
    return walk(aggregate_mref(g), n.sub, f.sub, p, at + 1, fn);
  }
  if (f.ty == SEQ) {
    if (!n.present || n.sub.empty()) return false;
    sequence_mref q(fm);
    size_t k = s.sel < 0 ? n.sub.size() - 1 : 0;
    return walk(s.sel < 0 ? q.back() : q.front(), n.sub[k].sub, f.sub, p, at + 1, fn);
  }
  if (!n.present || n.tmpl != (uint32_t)s.sel) return false;
  nested_message_mref t(fm);
  return walk(t.target(), n.sub, spec_->by_id(n.tmpl)->fields, p, at + 1, fn);
}
static std::string path_name(const Path &p, const std::vector<Field> &top) {
  std::string r;
  const std::vector<Field> *fs = &top;
  for (auto &s : p) {
    const Field &f = (*fs)[s.field];
    r += f.ty == TREF ? "tref" + std::to_string(s.sel) : f.name;
    if (f.ty == SEQ) r += s.sel < 0 ? "[back]" : "[front]";
    r += ".";
    fs = f.ty == TREF ? &spec_->by_id(s.sel)->fields : &f.sub;
  }
  return r;
}
static void resize_model(N &n, const Field &f, size_t k) {
  n.present = true;
  while (n.sub.size() > k) n.sub.pop_back();
  while (n.sub.size() < k) {
    N el;
    el.present = true;
    el.sub = fresh(f.sub);
    el.stale = n.hw == UNKNOWN || n.sub.size() < n.hw;  // unspecified: adopted afterwards
    n.sub.push_back(el);
  }
  if (n.hw != UNKNOWN && n.hw < k) n.hw = k;
}
// elements whose contents are unspecified take the contents the object shows
static void adopt_elements(const field_mref &fm, N &n, const Field &f) {
  sequence_cref q(fm);
  for (size_t k = 0; k < n.sub.size() && k < q.size(); ++k)
    if (n.sub[k].stale) {
      n.sub[k].sub = from_vals(ad::read_fields(q[k], f.sub, spec_), f.sub);
      n.sub[k].stale = false;
    }
}
static std::vector<Val> leaf_vals(const Field &f) {
  switch (f.ty) {
  case DEC: return {vdec(5, 1), vdec(-3, -2)};
  case ASC: return {vstr("x"), vstr(std::string(70, 'y'))};  // the second does not fit a minimal malloc block
  case UNI: return {vstr("\xC3\xA9"), vstr("")};
  case BV: return {vstr(std::string("\0\xFF", 2)), vstr("")};
  case I32V:
  case U32V:
  case I64V:
  case U64V: return {vvec({1, 2, 3}), vvec({})};
  case ENUM: return {vint(2), vint(300)};
  case BOOL: return {vint(1), vint(0)};
  case SET: return {vint(5), vint(0)};
  default: return {vint(1), vint(0)};
  }
}
struct Space {
  std::string name;
  Spec spec;
  bool gen = false;
  bool wide = false;  // operations on many fields: explored less deep
};
// the operations of a record (message, group, element, nested message) of object k
static void record_ops(std::vector<Act> &r, const Spec &spec, const std::vector<Field> &top, const std::vector<Field> &fs, int k, Path p, int depth) {
  auto on = [k, p](const AggFn &fn) { return [k, p, fn](World &w) { return walk(aggregate_mref(w.o[k]->mref()), w.m[k], *w.fs, p, 0, fn); }; };
  std::string pre = hx::fmt("%c.", 'A' + k) + path_name(p, top);
  auto add = [&](const std::string &n, const AggFn &fn) { r.push_back({pre + n, k, on(fn)}); };
  // the corresponding record of the other object, without touching it
  auto other = [k, p](World &w, const std::function<void(const aggregate_cref &, const std::vector<N> &)> &fn) {
    aggregate_cref c(w.o[1 - k]->cref());
    const std::vector<N> *ns = &w.m[1 - k];
    const std::vector<Field> *fs2 = w.fs;
    std::function<bool(const aggregate_cref &, const std::vector<N> *, const std::vector<Field> *, size_t)> go = [&](const aggregate_cref &c, const std::vector<N> *ns, const std::vector<Field> *fs2, size_t at) -> bool {
      if (at == p.size()) {
        fn(c, *ns);
        return true;
      }
      const N &n = (*ns)[p[at].field];
      const Field &f = (*fs2)[p[at].field];
      if (!n.present) return false;
      if (f.ty == GRP) return go(aggregate_cref(group_cref(c[p[at].field])), &n.sub, &f.sub, at + 1);
      if (f.ty == SEQ) {
        if (n.sub.empty()) return false;
        sequence_cref q(c[p[at].field]);
        size_t i = p[at].sel < 0 ? n.sub.size() - 1 : 0;
        return go(q[i], &n.sub[i].sub, &f.sub, at + 1);
      }
      if (n.tmpl != (uint32_t)p[at].sel) return false;
      return go(aggregate_cref(nested_message_cref(c[p[at].field]).target()), &n.sub, &spec_->by_id(n.tmpl)->fields, at + 1);
    };
    return go(c, ns, fs2, 0);
  };
  for (size_t i = 0; i < fs.size(); ++i) {
    const Field &f = fs[i];
    if (f.ty != GRP && f.ty != SEQ && f.ty != TREF) {
      if (f.op.op == CONST) continue;
      auto vs = leaf_vals(f);
      for (size_t x = 0; x < vs.size(); ++x) {
        if (x && (p.size() > 1 || k)) break;
        Val v = vs[x];
        add(f.name + "=" + (v.s.size() > 20 ? "long" : show(v)), [i, v](const aggregate_mref &m, std::vector<N> &ns, const std::vector<Field> &fs) {
          ns[i] = from_val(v, fs[i]);
          ad::fill_field(m[i], fs[i], v, nullptr, spec_);
          return true;
        });
      }
      if (f.opt && !k) add(f.name + ".omit", [i](const aggregate_mref &m, std::vector<N> &ns, const std::vector<Field> &) { m[i].omit(); ns[i] = N(); return true; });
      continue;
    }
    if (f.ty == GRP) {
      if (f.opt) add(f.name + ".omit", [i](const aggregate_mref &m, std::vector<N> &ns, const std::vector<Field> &) { m[i].omit(); ns[i].present = false; ns[i].stale = true; return true; });
      Path q = p;
      q.push_back({(int)i, 0});
      record_ops(r, spec, top, f.sub, k, q, depth + 1);
      if (!k) r.push_back({pre + f.name + ".as", k, [=](World &w) {
        bool ok = false;
        other(w, [&](const aggregate_cref &src, const std::vector<N> &sn) {
          if (!sn[i].present) return;
          ok = walk(aggregate_mref(w.o[k]->mref()), w.m[k], *w.fs, p, 0, [&](const aggregate_mref &m, std::vector<N> &ns, const std::vector<Field> &fs) {
            N s = copy_of(sn[i], fs[i]);
            group_mref g(m[i]);
            aggregate_mref(g).as(aggregate_cref(group_cref(src[i])));
            ns[i] = s;
            return true;
          });
        });
        return ok;
      }});
      continue;
    }
    if (f.ty == SEQ) {
      for (size_t n : {0, 1, 2, 3}) {
        if (k && n != 2) continue;
        if (p.size() && n > 2) continue;
        add(f.name + hx::fmt(".resize%zu", n), [i, n](const aggregate_mref &m, std::vector<N> &ns, const std::vector<Field> &fs) {
          sequence_mref q(m[i]);
          q.resize(n);
          resize_model(ns[i], fs[i], n);
          adopt_elements(m[i], ns[i], fs[i]);
          return true;
        });
      }
      if (f.opt && !k) add(f.name + ".omit", [i](const aggregate_mref &m, std::vector<N> &ns, const std::vector<Field> &) { m[i].omit(); ns[i].present = false; ns[i].sub.clear(); return true; });
      if (!k) {
        if (p.empty()) {
          add(f.name + ".clear", [i](const aggregate_mref &m, std::vector<N> &ns, const std::vector<Field> &fs) { m[i].clear(); ns[i].present = !fs[i].opt; ns[i].sub.clear(); return true; });
          for (size_t n : {1, 2}) add(f.name + hx::fmt(".grow%zu", n), [i, n](const aggregate_mref &m, std::vector<N> &ns, const std::vector<Field> &fs) {
            if (ns[i].sub.size() + n > 4) return false;
            sequence_mref q(m[i]);
            size_t old = ns[i].sub.size();
            auto it = q.grow_by(n);
            resize_model(ns[i], fs[i], old + n);
            adopt_elements(m[i], ns[i], fs[i]);
            if (q.end() - it != (std::ptrdiff_t)n) throw std::logic_error("grow_by does not return the first new element");
            return true;
          });
          for (size_t n : {1, 3, 6}) add(f.name + hx::fmt(".reserve%zu", n), [i, n](const aggregate_mref &m, std::vector<N> &, const std::vector<Field> &) { sequence_mref(m[i]).reserve(n); return true; });
        }
        add(f.name + ".as-self", [i](const aggregate_mref &m, std::vector<N> &ns, const std::vector<Field> &fs) {
          sequence_mref q(m[i]);
          q.as(sequence_cref(m[i]));
          copied(ns[i], fs[i]);
          return true;
        });
      }
      auto with_other = [=, &r](const std::string &nm, const std::function<bool(const sequence_mref &, const sequence_cref &, N &, const N &, const Field &)> &fn) {
        r.push_back({pre + f.name + nm, k, [=](World &w) {
          bool ok = false;
          other(w, [&](const aggregate_cref &src, const std::vector<N> &sn) {
            ok = walk(aggregate_mref(w.o[k]->mref()), w.m[k], *w.fs, p, 0, [&](const aggregate_mref &m, std::vector<N> &ns, const std::vector<Field> &fs) {
              return fn(sequence_mref(m[i]), sequence_cref(src[i]), ns[i], sn[i], fs[i]);
            });
          });
          return ok;
        }});
      };
      with_other(".as", [](const sequence_mref &q, const sequence_cref &s, N &n, const N &sn, const Field &fd) {
        q.as(s);
        n = copy_of(sn, fd);
        return true;
      });
      if (!k) {
        with_other(".assign", [](const sequence_mref &q, const sequence_cref &s, N &n, const N &sn, const Field &fd) {
          if (!sn.present) return false;
          resize_model(n, fd, sn.sub.size());
          for (size_t e = 0; e < sn.sub.size(); ++e) {
            n.sub[e].sub = copy_of(sn.sub[e].sub, fd.sub);
            n.sub[e].stale = false;
          }
          q.assign(s.begin(), s.end());
          return true;
        });
        with_other(".copy-object-as", [](const sequence_mref &q, const sequence_cref &s, N &n, const N &sn, const Field &fd) {
          sequence_type t(s, q.allocator());
          sequence_type u(std::move(t));
          t = std::move(u);
          q.as(sequence_cref(static_cast<const sequence_type &>(t).cref()));
          n = copy_of(sn, fd);
          return true;
        });
        r.push_back({pre + f.name + ".swap", 2, [=](World &w) {
          if (w.al[0] != w.al[1]) return false;
          bool ok = false;
          walk(aggregate_mref(w.o[0]->mref()), w.m[0], *w.fs, p, 0, [&](const aggregate_mref &m, std::vector<N> &ns, const std::vector<Field> &) {
            return walk(aggregate_mref(w.o[1]->mref()), w.m[1], *w.fs, p, 0, [&](const aggregate_mref &m2, std::vector<N> &ns2, const std::vector<Field> &) {
              sequence_mref(m[i]).swap(sequence_mref(m2[i]));
              std::swap(ns[i], ns2[i]);
              return ok = true;
            });
          });
          return ok;
        }});
      }
      // elements
      for (int sel : {0, -1}) {
        if (sel && (p.size() || k)) continue;
        Path q = p;
        q.push_back({(int)i, sel});
        if (depth < 2) record_ops(r, spec, top, f.sub, k, q, depth + 1);
        if (!k) with_other(sel ? ".back=other.front" : ".front=other.back", [sel](const sequence_mref &q, const sequence_cref &s, N &n, const N &sn, const Field &fd) {
          if (!n.present || !sn.present || n.sub.empty() || sn.sub.empty()) return false;
          if (sel) {
            n.sub.back().sub = copy_of(sn.sub[0].sub, fd.sub);
            q.back().as(s.front());
          } else {
            n.sub[0].sub = copy_of(sn.sub.back().sub, fd.sub);
            q.front().as(s.back());
          }
          return true;
        });
      }
      if (!k && p.empty()) add(f.name + ".back=own.front", [i](const aggregate_mref &m, std::vector<N> &ns, const std::vector<Field> &fs) {
        if (!ns[i].present || ns[i].sub.empty()) return false;
        sequence_mref q(m[i]);
        q.back().as(sequence_cref(m[i]).front());
        ns[i].sub.back().sub = copy_of(ns[i].sub[0].sub, fs[i].sub);
        return true;
      });
      continue;
    }
    // TREF
    for (auto &t : spec.tmpls) {
      if (t.id == 1) continue;
      uint32_t id = t.id;
      r.push_back({pre + "rebind" + std::to_string(id), k, [=](World &w) {
        return walk(aggregate_mref(w.o[k]->mref()), w.m[k], *w.fs, p, 0, [&](const aggregate_mref &m, std::vector<N> &ns, const std::vector<Field> &) {
          nested_message_mref(m[i]).rebind(w.inst(id));
          if (ns[i].tmpl != id) {
            ns[i] = N();
            ns[i].present = true;
            ns[i].tmpl = id;
            ns[i].sub = fresh(spec_->by_id(id)->fields);
          }
          return true;
        });
      }});
      Path q = p;
      q.push_back({(int)i, (int)id});
      if (depth < 2) record_ops(r, spec, top, t.fields, k, q, depth + 1);
      if (!k) r.push_back({pre + "target" + std::to_string(id) + ".as", k, [=](World &w) {
        bool ok = false;
        other(w, [&](const aggregate_cref &src, const std::vector<N> &sn) {
          if (sn[i].tmpl != id) return;
          walk(aggregate_mref(w.o[k]->mref()), w.m[k], *w.fs, p, 0, [&](const aggregate_mref &m, std::vector<N> &ns, const std::vector<Field> &fs) {
            if (ns[i].tmpl != id) return false;
            nested_message_mref(m[i]).target().as(nested_message_cref(src[i]).target());
            ns[i] = copy_of(sn[i], fs[i]);
            return ok = true;
          });
        });
        return ok;
      }});
    }
  }
}
static void object_ops(std::vector<Act> &r, const Space &s) {
  auto add = [&](const std::string &n, int t, std::function<bool(World &)> f) { r.push_back({n, t, f}); };
  bool gen = s.gen;
  add("A.as(B)", 0, [](World &w) { aggregate_mref(w.o[0]->mref()).as(aggregate_cref(w.o[1]->cref())); w.m[0] = copy_of(w.m[1], *w.fs); return true; });
  add("A.as(A)", 0, [](World &w) { aggregate_mref(w.o[0]->mref()).as(aggregate_cref(w.o[0]->cref())); copied(w.m[0], *w.fs); return true; });
  add("A=new", 0, [](World &w) { w.o[0].reset(); w.o[0] = w.make(0); w.m[0] = fresh(*w.fs); return true; });
  add("A=copy-constructed(B)", 0, [](World &w) { auto c = w.make_copy(w.o[1]->cref(), 0); w.o[0] = std::move(c); w.m[0] = copy_of(w.m[1], *w.fs); return true; });
  add("B=copy-constructed(A)", 1, [](World &w) { auto c = w.make_copy(w.o[0]->cref(), 1); w.o[1] = std::move(c); w.m[1] = copy_of(w.m[0], *w.fs); return true; });
  if (gen) return;
  auto R = [](World &w, int k) -> message_type & { return static_cast<RtOwner &>(*w.o[k]).m; };
  add("A=B", 0, [R](World &w) { R(w, 0) = R(w, 1); w.al[0] = w.al[1]; w.m[0] = copy_of(w.m[1], *w.fs); return true; });
  add("A=A", 0, [R](World &w) { message_type &x = R(w, 0), &y = x; x = y; copied(w.m[0], *w.fs); return true; });
  add("A=move(B),B=new", 2, [R](World &w) {
    R(w, 0) = std::move(R(w, 1));
    w.m[0] = w.m[1];
    w.al[0] = w.al[1];
    R(w, 1) = message_type(w.al[1], w.inst(1));
    w.m[1] = fresh(*w.fs);
    return true;
  });
  add("swap(A,B)", 2, [R](World &w) { std::swap(R(w, 0), R(w, 1)); std::swap(w.m[0], w.m[1]); std::swap(w.al[0], w.al[1]); return true; });
  add("A=through-empty", 0, [R](World &w) {  // a message object without a template is a value, too
    message_type e, f(e), g(std::move(R(w, 0)));
    f = e;
    R(w, 0) = f;
    e = R(w, 0);
    R(w, 0) = g;
    g = e;
    copied(w.m[0], *w.fs);
    return true;
  });
  add("A=through-vector", 2, [R](World &w) {
    std::vector<message_type> v;
    for (int k = 0; k < 3; ++k) v.push_back(R(w, k & 1));  // copies, then moves when the vector grows
    v.erase(v.begin());
    R(w, 0) = v[1];  // a copy of A, made of A's allocator
    copied(w.m[0], *w.fs);
    R(w, 1) = std::move(v[0]);
    copied(w.m[1], *w.fs);
    return true;
  });
}
#include "world_gen.h"

static std::vector<Field> FS(std::initializer_list<Field> l) { return l; }
static std::vector<Space> spaces() {
  std::vector<Space> r;
  auto add = [&](const std::string &n, std::vector<Tmpl> ts, bool wide = false) {
    Space s;
    s.name = n;
    s.spec.tmpls = ts;
    s.wide = wide;
    resolve(s.spec);
    r.push_back(s);
  };
  add("seq", {tmpl("T", 1, FS({fseq("q", false, FS({fld("u", U32, true), fld("s", ASC, false, ops(COPY, "ab"))})), fld("z", U32, true)}))});
  add("optseq", {tmpl("T", 1, FS({fseq("q", true, FS({fld("s", ASC, true), fseq("r", true, FS({fld("t", ASC, false)}))}))}))});
  add("seqlen", {tmpl("T", 1, FS({fseql("q", false, opi(COPY, 2), FS({fld("s", ASC, true), fld("i", I64, false, opi(COPY, 7))}))}))});
  add("seqgrp", {tmpl("T", 1, FS({fseq("q", false, FS({fgrp("g", true, FS({fld("s", ASC, true)})), fld("d", DEC, true)}))}))});
  add("groups", {tmpl("T", 1, FS({fgrp("g", false, FS({fld("s", ASC, true)})), fgrp("h", true, FS({fld("t", UNI, false, ops(COPY, "ab")), fgrp("k", true, FS({fld("u", U32, true)}))}))}))});
  add("tref", {tmpl("T", 1, FS({fld("s", ASC, true), fld("", TREF, false)})), tmpl("T2", 2, FS({fld("a", ASC, true), fld("b", U32, true)})), tmpl("T3", 3, FS({fseq("q", false, FS({fld("c", ASC, true)}))}))});
  add("seqtref", {tmpl("T", 1, FS({fseq("q", false, FS({fld("", TREF, false)}))})), tmpl("T2", 2, FS({fld("a", ASC, true)}))});
  add("flat", {tmpl("T", 1, FS({fld("u", U32, true), fld("i", I64, false, opi(COPY, 7)), fld("s", ASC, true), fld("t", ASC, false, ops(COPY, "abc")), fld("d", DEC, true), fld("b", BV, true), fld("v", I32V, true), fld("w", U64V, false), fld("e", ENUM, true), fld("n", UNI, true)}))}, true);
  {
    Space s;
    s.name = "gen";
    s.gen = true;
    s.wide = true;
    s.spec = gen_spec();
    resolve(s.spec);
    r.push_back(s);
  }
  return r;
}

// ---------------------------------------------------------------- runner
static std::string iterate_check(const aggregate_cref &a, const std::vector<Field> &fs);
static std::string iterate_check(const sequence_cref &q, const Field &f) {
  size_t n = 0;
  std::vector<const value_storage *> at;
  for (auto it = q.begin(); it != q.end(); ++it, ++n) {
    if (n >= q.size()) return "iteration runs past the end";
    if (aggregate_cref_core_access::storage_of(*it) != aggregate_cref_core_access::storage_of(q[n])) return "iteration yields another element than indexing";
    std::string e = iterate_check(q[n], f.sub);
    if (!e.empty()) return e;
  }
  if (n != q.size() || (size_t)(q.end() - q.begin()) != n || q.length() != n) return "iteration yields another number of elements than size()";
  if (n && (aggregate_cref_core_access::storage_of(q.front()) != aggregate_cref_core_access::storage_of(q[0]) || aggregate_cref_core_access::storage_of(q.back()) != aggregate_cref_core_access::storage_of(q[n - 1]))) return "front() or back() is not the first or last element";
  size_t k = 0;
  for (auto it = q.rbegin(); it != q.rend(); ++it, ++k)
    if (k >= n || aggregate_cref_core_access::storage_of(*it) != aggregate_cref_core_access::storage_of(q[n - 1 - k])) return "reverse iteration yields other elements than indexing";
  if (k != n) return "reverse iteration yields another number of elements";
  if ((size_t)(q.cend() - q.cbegin()) != n || (size_t)(q.crend() - q.crbegin()) != n) return "cbegin/cend or crbegin/crend do not span the sequence";
  if (n) {  // iterators can be reassigned
    auto it = q.begin();
    it = q.end();
    --it;
    if (aggregate_cref_core_access::storage_of(*it) != aggregate_cref_core_access::storage_of(q[n - 1])) return "an assigned iterator designates another element";
  }
  return "";
}
static std::string iterate_check(const aggregate_cref &a, const std::vector<Field> &fs) {
  for (size_t k = 0; k < fs.size(); ++k) {
    std::string e;
    if (fs[k].ty == SEQ && a[k].present()) e = iterate_check(sequence_cref(a[k]), fs[k]);
    if (fs[k].ty == GRP && a[k].present()) e = iterate_check(aggregate_cref(group_cref(a[k])), fs[k].sub);
    if (!e.empty()) return e;
  }
  return "";
}
static const char *alloc_names[] = {"exact", "malloc", "arena", "two"};
struct Runner {
  std::string name;  // <space>.<alloc>
  const Space *s;
  std::shared_ptr<templates_description> own;
  const templates_description *d;
  int alloc_kind;
  std::string check;
  std::vector<Act> ops;

  std::string compare(World &w) {
    for (int k = 0; k < 2; ++k) {
      std::vector<Val> got = ad::read_fields(aggregate_cref(w.o[k]->cref()), *w.fs, spec_), want = to_vals(w.m[k], *w.fs);
      if (!eq_list(got, want)) return hx::fmt("object %c is ", 'A' + k) + show_list(got) + " instead of " + show_list(want);
      std::string e = iterate_check(aggregate_cref(w.o[k]->cref()), *w.fs);
      if (e.empty() && s->gen) e = typed_check(w, k);
      if (!e.empty()) return hx::fmt("object %c: ", 'A' + k) + e;
    }
    return "";
  }
  std::string typed_check(World &w, int k) {
    return gen_typed_check(w, k);
  }
  // runs a path. fail_op >= 0: the fail_at-th allocation (and all later, if forever) of that operation fails
  std::string path(const std::vector<int> &h, bool *inapplicable, std::string *key, int fail_op = -1, uint64_t fail_at = 0, bool forever = false, bool *failed = nullptr) {
    *inapplicable = false;
    if (failed) *failed = false;
    spec_ = &s->spec;
    std::string fail;
    cc::CountingAlloc ca, ca2;
    mfast::arena_allocator arena;
    mfast::allocator *al = alloc_kind == 1 ? (mfast::allocator *)malloc_allocator::instance() : alloc_kind == 2 ? (mfast::allocator *)&arena : (mfast::allocator *)&ca;
    {
      World w;
      w.d = d;
      w.spec = &s->spec;
      w.fs = &s->spec.tmpls[0].fields;
      w.gen = s->gen;
      w.al = {al, alloc_kind == 3 ? (mfast::allocator *)&ca2 : al};
      for (int k = 0; k < 2; ++k) {
        w.o[k] = w.make(k);
        w.m[k] = fresh(*w.fs);
      }
      fail = compare(w);
      if (!fail.empty()) fail = "initially " + fail;
      for (size_t k = 0; k < h.size() && fail.empty(); ++k) {
        const Act &op = ops[h[k]];
        if ((int)k == fail_op) {
          std::vector<N> before[2] = {w.m[0], w.m[1]};
          bool threw = false;
          ca.calls = ca2.calls = 0;
          ca.fail_at = ca2.fail_at = fail_at;
          ca.fail_after = ca2.fail_after = forever;
          try {
            if (!op.f(w)) *inapplicable = true;
          } catch (const std::logic_error &e) {
            fail = e.what();
          } catch (const std::bad_alloc &) {
            threw = true;
          } catch (const std::exception &) {
            threw = true;
          }
          ca.fail_at = ca2.fail_at = 0;
          for (int o = 0; o < 2; ++o) {  // objects that the failed operation has left without a value are given one
            if (!w.o[o]) w.o[o] = w.make(o);
            if (!w.gen && !static_cast<RtOwner &>(*w.o[o]).m.instruction()) static_cast<RtOwner &>(*w.o[o]).m = message_type(w.al[o], w.inst(1));
          }
          if (*inapplicable || !fail.empty()) break;
          bool hit = ca.calls >= fail_at || ca2.calls >= fail_at;
          if (failed) *failed = hit;
          if (!hit) break;
          if (!threw) { fail = compare(w); continue; }  // succeeded in spite of the failure
          // the object operated on may have any value, but must have one; the other is as before
          for (int o = 0; o < 2; ++o) {
            std::vector<Val> got = ad::read_fields(aggregate_cref(w.o[o]->cref()), *w.fs, spec_);
            if (op.target != 2 && op.target != o) {
              if (!eq_list(got, to_vals(before[o], *w.fs))) fail = hx::fmt("the failed operation changed object %c, which it does not modify, to ", 'A' + o) + show_list(got);
              w.m[o] = before[o];
            } else
              w.m[o] = from_vals(got, *w.fs);
          }
          if (fail.empty()) fail = compare(w);
          continue;
        }
        try {
          if (!op.f(w)) { *inapplicable = true; break; }
        } catch (const std::exception &e) {
          fail = op.name + " throws: " + e.what();
          break;
        }
        fail = compare(w);
      }
      if (key) {
        *key = show_n(w.m[0]) + "#" + show_n(w.m[1]);
        if (alloc_kind == 0 || alloc_kind == 3) {  // sizes of the blocks in use: capacities
          std::vector<size_t> b;
          for (auto &x : ca.live) b.push_back(x.second);
          for (auto &x : ca2.live) b.push_back(x.second + 100000);
          std::sort(b.begin(), b.end());
          for (auto x : b) *key += std::to_string(x) + " ";
        }
      }
    }
    if (fail.empty() && (ca.bad_free || ca2.bad_free)) fail = ca.bad + ca2.bad;
    if (fail.empty() && fail_op < 0 && (ca.outstanding() || ca2.outstanding())) fail = hx::fmt("%zu memory blocks are never released", ca.outstanding() + ca2.outstanding());
    return fail;
  }
  std::string path_text(const std::vector<int> &h) {
    std::string t;
    for (size_t k = 0; k < h.size(); ++k) t += (k ? ";" : "") + ops[h[k]].name;
    return t;
  }
  void build() {
    if (!ops.empty()) return;
    spec_ = &s->spec;
    const std::vector<Field> &fs = s->spec.tmpls[0].fields;
    object_ops(ops, *s);
    record_ops(ops, s->spec, fs, fs, 0, {}, 0);
    record_ops(ops, s->spec, fs, fs, 1, {}, 0);
    if (s->gen) gen_ops(ops);
  }
  bool one(hx::Ctx &c, const std::vector<int> &h, std::string *key, int fail_op = -1, uint64_t fail_at = 0, bool forever = false, bool *failed = nullptr) {
    std::string t = check + " " + name + (fail_op >= 0 ? hx::fmt(" fail=%d,%llu,%d", fail_op, (unsigned long long)fail_at, forever) : std::string()) + " ops=" + path_text(h);
    c.begin(t);
    bool na;
    std::string e = path(h, &na, key, fail_op, fail_at, forever, failed);
    if (na) return false;
    c.transition();
    if (!e.empty()) {
      c.violation(s->name + ":" + (fail_op >= 0 ? "alloc-failure:" + ops[h[fail_op]].name : ops[h.back()].name), "after " + path_text(h) + (fail_op >= 0 ? hx::fmt(" (allocation %llu of operation %d fails)", (unsigned long long)fail_at, fail_op + 1) : std::string()) + ": " + e);
      return false;
    }
    return true;
  }
  void explore(hx::Ctx &c, size_t first) {
    build();
    if (first >= ops.size()) return;
    if (check == "C23") return explore_fail(c, first);
    struct Node { std::vector<int> h; };
    std::deque<Node> q;
    std::set<std::string> seen;
    size_t depth = c.quick() ? 3 : 5, limit = c.quick() ? (s->wide ? 12 : 45) : (s->wide ? 100 : 500);
    std::string key;
    std::vector<int> h0;
    if (!one(c, {(int)first}, &key)) return;
    seen.insert(key);
    q.push_back({{(int)first}});
    c.state(hx::hash_str(name + key));
    while (!q.empty() && c.nviol < 8) {
      Node n = q.front();
      q.pop_front();
      for (size_t o = 0; o < ops.size(); ++o) {
        std::vector<int> h = n.h;
        h.push_back((int)o);
        if (!one(c, h, &key)) continue;
        c.traces();
        if (seen.insert(key).second) {
          c.state(hx::hash_str(name + key));
          if (h.size() < depth && seen.size() < limit) q.push_back({h});
        }
      }
    }
  }
  // every allocation of the last operation of every path fails; then every operation follows
  void explore_fail(hx::Ctx &c, size_t first) {
    if (!ops[first].may_fail) return;
    size_t plen = c.quick() ? 1 : 2;
    std::string key;
    std::set<std::string> seen;
    std::deque<std::vector<int>> q;
    q.push_back({});
    // the work item fixes the failing operation; prefixes are explored breadth first
    while (!q.empty() && c.nviol < 8) {
      std::vector<int> pre = q.front();
      q.pop_front();
      for (int forever = 0; forever < 2; ++forever)
        for (uint64_t k = 1; k < 40; ++k) {
          std::vector<int> h = pre;
          h.push_back((int)first);
          bool failed = false;
          if (!one(c, h, nullptr, (int)pre.size(), k, forever, &failed) || !failed) break;
          c.traces();
          c.state(hx::hash_str(name + path_text(h) + std::to_string(k * 2 + forever)));
          for (size_t o = 0; o < ops.size(); ++o) {
            std::vector<int> g = h;
            g.push_back((int)o);
            one(c, g, nullptr, (int)pre.size(), k, forever);
          }
        }
      if (pre.size() < plen)
        for (size_t o = 0; o < ops.size(); ++o) {
          std::vector<int> h = pre;
          h.push_back((int)o);
          bool na;
          if (!path(h, &na, &key).empty() || na) continue;
          if (seen.insert(key).second && seen.size() < (c.quick() ? 14u : 120u)) q.push_back(h);
        }
    }
  }
  void replay(hx::Ctx &c, const std::string &t, int fail_op, uint64_t fail_at, bool forever) {
    build();
    std::vector<int> h;
    size_t at = 0;
    while (at <= t.size()) {
      size_t e = t.find(';', at);
      if (e == std::string::npos) e = t.size();
      std::string n = t.substr(at, e - at);
      for (size_t k = 0; k < ops.size(); ++k)
        if (ops[k].name == n) { h.push_back((int)k); break; }
      at = e + 1;
    }
    std::string key;
    one(c, h, &key, fail_op, fail_at, forever);
  }
};

struct Item {
  std::shared_ptr<Runner> r;
  size_t first;
};
static std::vector<Item> items_;
static std::vector<Space> spaces_;

int main(int argc, char **argv) {
  return hx::drive(argc, argv, [](const std::string &check, const std::string &) {
    spaces_ = spaces();
    for (auto &s : spaces_) {
      std::shared_ptr<templates_description> own;
      const templates_description *d = nullptr;
      if (s.gen) d = w::description();
      if (!d) {
        own = std::make_shared<dynamic_templates_description>(spec_xml(s.spec).c_str());
        d = own.get();
      }
      for (int al = 0; al < 4; ++al) {
        if (check == "C16" && s.name.find("seq") == std::string::npos && !s.gen) continue;
        if ((check == "C23" || s.gen) && al != 0 && al != 3) continue;
        auto r = std::make_shared<Runner>();
        r->name = s.name + "." + alloc_names[al];
        r->s = &s;
        r->own = own;
        r->d = d;
        r->alloc_kind = al;
        r->check = check;
        r->build();
        for (size_t o = 0; o < r->ops.size(); ++o) items_.push_back({r, o});
      }
    }
    hx::Harness h;
    h.name = "world";
    h.items = items_.size();
    h.run = [](hx::Ctx &c, size_t i) { items_[i].r->explore(c, items_[i].first); };
    h.run_case = [](hx::Ctx &c, const std::string &cs) {
      size_t at = cs.find(" ops="), sp = cs.find(' ', 4);
      std::string n = cs.substr(4, sp - 4);
      int fo = -1, fv = 0;
      unsigned long long fa = 0;
      size_t fp = cs.find(" fail=");
      if (fp != std::string::npos && fp < at) sscanf(cs.c_str() + fp + 6, "%d,%llu,%d", &fo, &fa, &fv);
      for (auto &it : items_)
        if (it.r->name == n) return it.r->replay(c, cs.substr(at + 5), fo, fa, fv);
    };
    h.crash_key = [](const std::string &s) {
      size_t at = s.find(" ops="), l = s.rfind(';'), sp = s.find_first_of(". ", 4);
      if (at == std::string::npos) return s;
      return s.substr(4, sp - 4) + ":" + s.substr(l == std::string::npos || l < at ? at + 5 : l + 1);
    };
    return h;
  });
}
