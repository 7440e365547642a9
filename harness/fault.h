// C23 (codecs): every allocation made while a codec is constructed, encodes or decodes fails in turn - those through
// the allocator, through malloc and through operator new (linked with --wrap).
// Included by codec_checks.h.
#pragma once
extern "C" void *__real_malloc(size_t);
extern "C" void *__real__Znwm(size_t);
extern "C" void *__real__Znam(size_t);
namespace cc {
struct Fault {
  bool armed = false;
  bool forever = false;
  uint64_t at = 0;     // 1-based, 0: only count
  uint64_t calls = 0;
  bool hit = false;
  bool fail() {
    if (!armed) return false;
    ++calls;
    if (at && (forever ? calls >= at : calls == at)) return hit = true;
    return false;
  }
};
inline Fault &fault() { static Fault f; return f; }
struct Armed {
  Armed(uint64_t at, bool forever) { Fault &f = fault(); f.at = at; f.forever = forever; f.calls = 0; f.hit = false; f.armed = true; }
  ~Armed() { fault().armed = false; }
};
}  // namespace cc
extern "C" void *__wrap_malloc(size_t n) { return cc::fault().fail() ? nullptr : __real_malloc(n); }
extern "C" void *__wrap__Znwm(size_t n) {
  if (cc::fault().fail()) throw std::bad_alloc();
  return __real__Znwm(n);
}
extern "C" void *__wrap__Znam(size_t n) {
  if (cc::fault().fail()) throw std::bad_alloc();
  return __real__Znam(n);
}
namespace cc {
namespace flt {
// allocator of the codec under test: its blocks are accounted for, its failures come from malloc
struct Al : CountingAlloc {
  void *allocate(std::size_t n) override {
    void *p = ::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    Fault keep = fault();
    fault().armed = false;
    live[p] = n;
    fault() = keep;
    return p;
  }
  void deallocate(void *p, std::size_t n) override {
    Fault keep = fault();
    fault().armed = false;
    CountingAlloc::deallocate(p, n);
    fault() = keep;
  }
};
// the same message with much more in it
inline Val bulk(const Field &f, const Val &v, const Spec &s);
inline std::vector<Val> bulk(const std::vector<Field> &fs, const std::vector<Val> &vs, const Spec &s) {
  std::vector<Val> r;
  for (size_t k = 0; k < fs.size(); ++k) r.push_back(bulk(fs[k], vs[k], s));
  return r;
}
inline Val bulk(const Field &f, const Val &v, const Spec &s) {
  if (!v.present) return v;
  Val r = v;
  if (is_str(f.ty) && f.op.op != CONST) r.s += std::string(4500, 'b');
  if (f.ty == GRP) r.sub = bulk(f.sub, v.sub, s);
  if (f.ty == TREF)
    if (auto *t = s.by_id(v.tmpl)) r.sub = bulk(t->fields, v.sub, s);
  if (f.ty == SEQ && !(f.has_len && f.lop.op != NONE) && !v.sub.empty()) {
    r.sub.clear();
    for (int k = 0; k < 12; ++k) r.sub.push_back(v.sub[(size_t)k % v.sub.size()]);
  }
  return r;
}
struct Case {
  Hist h;          // prefix
  int m;           // message; >= number of messages: its bulky form
  uint64_t at;     // failing allocation
  bool forever;
  bool vec;        // encode into a growing vector
  int tail;        // message of the continuation
};
typedef std::function<mfast::message_cref(int)> MsgAt;

inline std::string text(const Bench &b, const char *kind, const Case &x) {
  return "C23 " + b.e->name + hx::fmt(" %s h=%s m=%d at=%llu for=%d vec=%d t=%d", kind, hist_text(x.h).c_str(), x.m, (unsigned long long)x.at, (int)x.forever, (int)x.vec, x.tail);
}
struct Msgs {
  std::vector<std::unique_ptr<mfast::message_type>> own;
  std::vector<Val> want;
  size_t n;
  Msgs(const Bench &b) : n(b.msgs.size()) {
    for (size_t k = 0; k < n; ++k) {
      uint32_t id = b.e->tmplof[k];
      Val v = vsub(bulk(b.e->spec.by_id(id)->fields, b.e->msgs[k], b.e->spec));
      v.tmpl = id;
      want.push_back(v);
      own.emplace_back(b.make_msg(id, v.sub));
    }
  }
};
inline mfast::message_cref msg_at(const Bench &b, const Msgs &ms, int k) { return (size_t)k < ms.n ? b.msgs[k]->cref() : ms.own[(size_t)k - ms.n]->cref(); }
inline const Val &want_at(const Bench &b, const Msgs &ms, int k) { return (size_t)k < ms.n ? b.want[k] : ms.want[(size_t)k - ms.n]; }

// returns the number of allocations of the operation
inline uint64_t enc_one(hx::Ctx &c, Bench &b, const Msgs &ms, const Case &x, const Fresh &f, const EncOut &full) {
  Al al;
  uint64_t calls = 0;
  {
    auto e = b.c.enc(&al);
    for (auto &p : x.h) encode1(*e, b.msgs[p.first]->cref(), p.second);
    bool thrown = false;
    std::string got;
    if (x.vec) {
      std::vector<char> out;
      try {
        Armed arm(x.at, x.forever);
        e->encode(msg_at(b, ms, x.m), out, false);
      } catch (std::exception &) {
        thrown = true;
      }
      got.assign(out.begin(), out.end());
    } else {
      std::unique_ptr<char[]> buf(new char[1 << 17]);
      size_t n = 0;
      try {
        Armed arm(x.at, x.forever);
        n = e->encode(msg_at(b, ms, x.m), buf.get(), 1 << 17, false);
      } catch (std::exception &) {
        thrown = true;
      }
      got.assign(buf.get(), n);
    }
    calls = fault().calls;
    bool hit = fault().hit;
    c.transition();
    c.outcome(hit ? (thrown ? 1 : 2) : 0);
    std::string how = text(b, "enc", x);
    if (thrown && !hit && !full.thrown) c.violation(b.e->name + ":encode-throws", how + ": encode throws although no allocation failed");
    if (!thrown && !full.thrown && got != full.bytes) c.violation(b.e->name + ":encode-silent", how + ": encode reports no failure but gives [" + hex(got.substr(0, 60)) + "], expected [" + hex(full.bytes.substr(0, 60)) + "]");
    if (b.e->spec.tmpls.size() && ad::read_msg(msg_at(b, ms, x.m), &b.e->spec) != want_at(b, ms, x.m)) c.violation(b.e->name + ":encode-changes-message", how + ": the message is changed");
    // without reset: anything but damage
    encode1(*e, b.msgs[x.tail]->cref(), false);
    enc_tail(c, b, *e, {{x.tail, false}, {x.tail, false}}, f, ":encoder-after-alloc-failure", how);
  }
  if (al.bad_free) c.violation(b.e->name + ":encoder-release", text(b, "enc", x) + ": " + al.bad);
  return calls;
}
inline uint64_t dec_one(hx::Ctx &c, Bench &b, const Decs &dmk, size_t d, const std::vector<std::string> &pre, const std::string &bytes, const Msgs &ms, const Case &x, const Fresh &f) {
  Al al;
  uint64_t calls = 0;
  Out base;  // without failure
  {
    auto dec = dmk[d].second(mfast::malloc_allocator::instance());
    for (size_t k = 0; k < pre.size(); ++k) decode1(*dec, pre[k], k == 0 || x.h[k].second, b.e->spec);
    base = decode1(*dec, bytes, pre.empty(), b.e->spec);
  }
  {
    auto dec = dmk[d].second(&al);
    for (size_t k = 0; k < pre.size(); ++k) decode1(*dec, pre[k], k == 0 || x.h[k].second, b.e->spec);
    bool thrown = false;
    Val got;
    std::unique_ptr<char[]> buf(new char[bytes.size() + 1]);
    memcpy(buf.get(), bytes.data(), bytes.size());
    const char *first = buf.get();
    try {
      mfast::message_cref r = [&] {
        Armed arm(x.at, x.forever);
        return dec->decode(first, buf.get() + bytes.size(), pre.empty());
      }();
      got = ad::read_msg(r, &b.e->spec);
    } catch (std::exception &) {
      thrown = true;
    }
    calls = fault().calls;
    bool hit = fault().hit;
    c.transition();
    c.outcome(hit ? (thrown ? 3 : 4) : 0);
    std::string how = dmk[d].first + " " + text(b, "dec", x);
    if (thrown && !hit && !base.thrown) c.violation(b.e->name + ":decode-throws", how + ": decode throws although no allocation failed");
    if (!thrown && (base.thrown || got != base.v)) c.violation(b.e->name + ":decode-silent", how + ": decode reports no failure but gives " + show(got).substr(0, 200));
    if (first < buf.get() || first > buf.get() + bytes.size()) c.violation(b.e->name + ":decode-position", how + ": position outside the data");
    if (!f.enc[0].thrown) decode1(*dec, f.enc[0].bytes, false, b.e->spec);
    dec_tail(c, b, *dec, d, {{x.tail, false}, {x.tail, false}}, f, ":decoder-after-alloc-failure", how);
  }
  if (al.bad_free) c.violation(b.e->name + ":decoder-release", dmk[d].first + " " + text(b, "dec", x) + ": " + al.bad);
  return calls;
}
// construction; kind 0: encoder, 1 + d: decoder d
inline uint64_t make_one(hx::Ctx &c, Bench &b, const Decs &dmk, size_t kind, const Case &x, const Fresh &f) {
  Al al;
  uint64_t calls = 0;
  std::string how = text(b, kind ? ("mkdec" + std::to_string(kind - 1)).c_str() : "mkenc", x);
  {
    std::unique_ptr<IEnc> e;
    std::unique_ptr<IDec> d;
    bool thrown = false;
    try {
      Armed arm(x.at, x.forever);
      if (kind) d = dmk[kind - 1].second(&al);
      else e = b.c.enc(&al);
    } catch (std::exception &) {
      thrown = true;
    }
    calls = fault().calls;
    bool hit = fault().hit;
    c.transition();
    c.outcome(hit ? (thrown ? 5 : 6) : 0);
    if (thrown && !hit) c.violation(b.e->name + ":make-throws", how + ": construction throws although no allocation failed");
    if (e) enc_tail(c, b, *e, {{x.tail, false}, {x.tail, false}}, f, ":encoder-made-without-memory", how);
    if (d) dec_tail(c, b, *d, kind - 1, {{x.tail, false}, {x.tail, false}}, f, ":decoder-made-without-memory", how);
  }
  if (al.bad_free) c.violation(b.e->name + ":make-release", how + ": " + al.bad);
  return calls;
}
struct Plan {
  hx::Ctx &c;
  Bench &b;
  const Decs &dmk;
  Msgs ms;
  std::vector<Fresh> fs;  // per tail message, sent twice
  Plan(hx::Ctx &c, Bench &b, const Decs &dmk) : c(c), b(b), dmk(dmk), ms(b) {
    for (int t = 0; t < (int)b.msgs.size() && t < 4; ++t) fs.push_back(fresh_run(b, dmk, {{t, false}, {t, false}}));
  }
  uint64_t enc(const Case &x) {
    auto probe = b.c.enc(mfast::malloc_allocator::instance());
    for (auto &p : x.h) encode1(*probe, b.msgs[p.first]->cref(), p.second);
    EncOut full;
    std::vector<char> v;
    try {
      probe->encode(msg_at(b, ms, x.m), v, false);
      full.bytes.assign(v.begin(), v.end());
      full.thrown = false;
    } catch (std::exception &) {
      full.thrown = true;
    }
    return enc_one(c, b, ms, x, fs[x.tail], full);
  }
  bool streams(const Case &x, std::vector<std::string> &pre, std::string &bytes) {
    RefEncoder re(b.e->spec);
    try {
      for (auto &p : x.h) pre.push_back(re.encode(b.want[p.first], p.second));
      bytes = re.encode(want_at(b, ms, x.m), false);
    } catch (Unencodable &) {
      return false;
    }
    return true;
  }
  uint64_t dec(const Case &x, size_t d) {
    std::vector<std::string> pre;
    std::string bytes;
    if (!streams(x, pre, bytes)) return 0;
    return dec_one(c, b, dmk, d, pre, bytes, ms, x, fs[x.tail]);
  }
};
inline void alloc_all(hx::Ctx &c, Bench &b, const Decs &dmk) {
  Plan p(c, b, dmk);
  size_t nm = b.msgs.size();
  bool q = c.quick();
  auto announce = [&](const std::string &t) {
    c.begin(t);
    c.traces();
    c.state(hx::hash_str(t));
  };
  // every failing allocation of one operation; op runs the case and returns the number of its allocations
  auto sweep = [&](Case x, const std::string &kind, std::function<uint64_t(const Case &)> op) {
    x.at = 0;
    x.forever = false;
    announce(text(b, kind.c_str(), x));
    uint64_t n = op(x);
    for (int fo = 0; fo < 2; ++fo)
      for (uint64_t k = 1; k <= n; ++k)
        for (int t = 0; t < (int)p.fs.size() && (!q || t < 2); ++t) {
          if (fo && k == n && n == 1) continue;
          x.at = k;
          x.forever = fo;
          x.tail = q ? (int)((k + t + x.m) % p.fs.size()) : t;
          announce(text(b, kind.c_str(), x));
          op(x);
          if (c.nviol >= 12) return;
        }
  };
  if (p.fs.empty()) return;
  for (size_t kind = 0; kind <= dmk.size(); ++kind)
    sweep(Case{Hist(), 0, 0, false, false, 0}, kind ? "mkdec" + std::to_string(kind - 1) : "mkenc", [&](const Case &x) { return make_one(c, b, dmk, kind, x, p.fs[x.tail]); });
  for (size_t h = 0; h <= nm; ++h) {
    if (q && h > 2) break;
    for (size_t m = 0; m < 2 * nm; ++m) {
      if (m >= nm && p.ms.want[m - nm] == b.want[m - nm]) continue;
      for (int vec = 0; vec < 2; ++vec) {
        Case x{prefix_hist(h), (int)m, 0, false, vec == 1, 0};
        sweep(x, "enc", [&](const Case &y) { return p.enc(y); });
      }
      for (size_t d = 0; d < dmk.size(); ++d) {
        Case x{prefix_hist(h), (int)m, 0, false, false, 0};
        sweep(x, "dec" + std::to_string(d), [&](const Case &y) { return p.dec(y, d); });
      }
      if (c.nviol >= 12) return;
    }
  }
}
inline void run_one(hx::Ctx &c, Bench &b, const Decs &dmk, const std::vector<std::string> &w) {
  Plan p(c, b, dmk);
  Case x{hist_parse(param(w, "h")), atoi(param(w, "m").c_str()), strtoull(param(w, "at").c_str(), 0, 10), param(w, "for") == "1", param(w, "vec") == "1", atoi(param(w, "t").c_str())};
  if (w[2] == "enc") p.enc(x);
  else if (w[2] == "mkenc") make_one(c, b, dmk, 0, x, p.fs[x.tail]);
  else if (w[2].substr(0, 5) == "mkdec") make_one(c, b, dmk, 1 + (size_t)atoi(w[2].c_str() + 5), x, p.fs[x.tail]);
  else if (w[2].substr(0, 3) == "dec") p.dec(x, (size_t)atoi(w[2].c_str() + 3));
}
}  // namespace flt
}  // namespace cc
