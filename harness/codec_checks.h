// Checks that only need the codec factories of an entry: C04 C05 C06 C10 C11 C24.  Used for both codec generations.
#pragma once
#include "hist.h"
#include "alloc.h"

namespace cc {
using namespace cx;
typedef std::vector<std::pair<std::string, MkDec>> Decs;

inline std::string unhex(const std::string &h) {
  std::string r;
  for (size_t k = 0; k + 1 < h.size(); k += 2) r += (char)strtol(h.substr(k, 2).c_str(), nullptr, 16);
  return r;
}
inline std::string hexs(const std::string &s) {
  std::string r;
  char b[4];
  for (unsigned char c : s) { snprintf(b, sizeof b, "%02X", c); r += b; }
  return r;
}
inline std::string param(const std::vector<std::string> &w, const std::string &k) {
  for (auto &x : w)
    if (x.compare(0, k.size() + 1, k + "=") == 0) return x.substr(k.size() + 1);
  return "";
}

// outcome of one decode call on an exactly sized heap copy of the bytes
struct Out {
  bool thrown = false;
  std::exception_ptr exc;  // formatted only when it has to be shown
  Val v;
  ptrdiff_t used = 0;
  bool pos_ok = true;
};
inline Out decode1(IDec &d, const std::string &bytes, bool reset, const Spec &sp, unsigned tok = 0) {
  Out o;
  std::unique_ptr<char[]> exact(new char[bytes.size()]);
  memcpy(exact.get(), bytes.data(), bytes.size());
  const char *p = exact.get(), *e = p + bytes.size();
  try {
    mfast::message_cref m = d.decode(p, e, reset, tok);
    o.v = ad::read_msg(m, &sp);
  } catch (std::exception &x) {
    o.thrown = true;
    o.exc = std::current_exception();
  }
  o.used = p - exact.get();
  o.pos_ok = p >= exact.get() && p <= e;
  return o;
}
inline std::string err_text(const Out &o) {
  try {
    std::rethrow_exception(o.exc);
  } catch (std::exception &x) {
    return what(x);
  }
}
inline std::string show(const Out &o) { return o.thrown ? "error " + err_text(o) : hx::fmt("%s, %zd bytes consumed", mdl::show(o.v).c_str(), o.used); }

// ------------------------------------------------------------------ C04
// enumerates choice sequences with at most `dev` non-zero choices
struct Choices {
  std::vector<size_t> given;
  std::vector<size_t> taken, arity;
  size_t pos = 0;
  size_t next(size_t n) {
    size_t c = pos < given.size() ? given[pos] : 0;
    ++pos;
    if (c >= n) c = n - 1;
    taken.push_back(c);
    arity.push_back(n);
    return c;
  }
};
inline std::string list_text(const std::vector<size_t> &v) {
  std::string s;
  for (auto x : v) s += (s.empty() ? "" : ",") + std::to_string(x);
  return s;
}
inline std::vector<size_t> list_parse(const std::string &t) {
  std::vector<size_t> r;
  for (auto &x : split(t, ','))
    if (!x.empty()) r.push_back(atoi(x.c_str()));
  return r;
}
// one history under one choice sequence; returns false if the history cannot be encoded
inline bool alt_one(hx::Ctx &c, Bench &b, const Decs &dmk, const Hist &h, Choices &ch, std::string *announced) {
  const sp::Entry &en = *b.e;
  RefEncoder re(en.spec);
  re.choose = [&](size_t n) { return ch.next(n); };
  std::vector<std::string> bytes;
  try {
    for (auto &x : h) {
      bytes.push_back(re.encode(b.want[x.first], x.second));
      if (re.wide) return false;
    }
  } catch (Unencodable &) {
    return false;
  }
  while (!ch.taken.empty() && ch.taken.back() == 0) ch.taken.pop_back();
  *announced = "C04 " + en.name + " alt h=" + hist_text(h) + " ch=" + list_text(ch.taken);
  c.begin(*announced);
  c.state(hx::hash_str(*announced));
  for (auto &d : dmk) {
    auto dec = d.second(mfast::malloc_allocator::instance());
    for (size_t k = 0; k < h.size(); ++k) {
      c.transition();
      Out o = decode1(*dec, bytes[k], h[k].second, en.spec, (unsigned)(k % dec->tokens()));
      const Val &want = b.want[h[k].first];
      if (o.thrown || o.v != want || o.used != (ptrdiff_t)bytes[k].size()) {
        c.violation(en.name + ":alt:" + (o.thrown ? "rejected" : diff_field(en, want, o.v)),
                    hx::fmt("step %zu of history %s: the FAST encoding [%s] of %s decodes (%s) to %s", k, hist_text(h).c_str(), hex(bytes[k]).c_str(), mdl::show(want).c_str(), d.first.c_str(), show(o).c_str()));
        return true;
      }
    }
  }
  return true;
}
inline void alt_all(hx::Ctx &c, Bench &b, const Decs &dmk, int depth, int dev) {
  all_hists(b.msgs.size(), depth, [&](const Hist &h) {
    c.traces();
    std::function<void(std::vector<size_t>, size_t, int)> rec = [&](std::vector<size_t> given, size_t from, int left) {
      Choices ch;
      ch.given = given;
      std::string text;
      std::vector<size_t> arity;
      {
        Choices probe;
        probe.given = given;
        if (!alt_one(c, b, dmk, h, probe, &text)) return;
        arity = probe.arity;
      }
      if (!left) return;
      for (size_t k = from; k < arity.size(); ++k)
        for (size_t v = 1; v < arity[k] && v < 6; ++v) {
          std::vector<size_t> g = given;
          g.resize(k, 0);
          g.push_back(v);
          rec(g, k + 1, left - 1);
        }
    };
    rec({}, 0, dev);
    return true;
  });
}

inline const std::vector<unsigned char> &pmap_alpha(bool full) {
  static std::vector<unsigned char> q, f;
  if (q.empty()) {
    for (int b = 0; b < 16; ++b) q.push_back((unsigned char)(0x80 | b << 3));
    for (int x : {0x87, 0xff, 0x00, 0x40, 0x60, 0x70, 0x7f}) q.push_back((unsigned char)x);
    for (int x = 255; x >= 0; --x) f.push_back((unsigned char)x);
  }
  return full ? f : q;
}
inline const std::vector<unsigned char> &byte_alpha(bool full) {
  static std::vector<unsigned char> q = {0x80, 0x81, 0x82, 0x83, 0x86, 0xc0, 0xc1, 0xff, 0xfe, 0xbf, 0x00, 0x01, 0x40, 0x41, 0x7f, 0x3f, 0x05, 0x0f}, f;
  if (f.empty())
    for (int x = 255; x >= 0; --x) f.push_back((unsigned char)x);
  return full ? f : q;
}

enum Verdict { TRUNC, ERROR, VALUE, UNKNOWN };
struct RefOut {
  Verdict v;
  Val val;
  std::string err;
  ptrdiff_t used = 0;
  bool reportable = false;
  RefDecoder::State st;
};
inline RefOut ref_decode(RefDecoder &r, const RefDecoder::State &st, const std::string &bytes, bool reset) {
  RefOut o;
  r.st = st;
  const char *p = bytes.data(), *e = p + bytes.size();
  try {
    o.val = r.decode(p, e, reset);
    o.v = VALUE;
    o.used = p - bytes.data();
  } catch (Truncated &) {
    o.v = TRUNC;
  } catch (RefErr &x) {
    o.err = x.what();
    o.v = o.err.find("for the model") != std::string::npos ? UNKNOWN : ERROR;
  }
  o.reportable = r.reportable;
  o.st = r.st;
  return o;
}

// prefix history (canonical reference encoding), then the byte string, then one canonical message per alphabet entry in `follow`
struct ByteRun {
  Bench &b;
  const Decs &dmk;
  std::vector<std::unique_ptr<IDec>> decs;
  std::vector<std::string> pre;  // encoded prefix messages
  RefDecoder ref;
  RefDecoder::State st;
  bool ok = true;
  ByteRun(Bench &bb, const Decs &d, const Hist &h) : b(bb), dmk(d), ref(bb.e->spec) {
    ref.max_elems = 2000;
    RefEncoder re(b.e->spec);
    try {
      for (auto &x : h) {
        pre.push_back(re.encode(b.want[x.first], x.second));
        if (re.wide) ok = false;  // a receiver may refuse it
      }
      if (!ok) return;
    } catch (Unencodable &) {
      ok = false;
      return;
    }
    st = re.st;
    for (auto &x : dmk) decs.push_back(x.second(mfast::malloc_allocator::instance()));
  }
  // decodes the prefix on decoder d; the first call resets
  bool prefix(hx::Ctx &c, size_t d, const Hist &h) {
    for (size_t k = 0; k < pre.size(); ++k) {
      Out o = decode1(*decs[d], pre[k], k == 0 || h[k].second, b.e->spec, (unsigned)(k % decs[d]->tokens()));
      if (o.thrown || o.v != b.want[h[k].first]) {
        c.violation(b.e->name + ":prefix", hx::fmt("canonical FAST encoding [%s] decodes (%s) to %s", hex(pre[k]).c_str(), dmk[d].first.c_str(), show(o).c_str()));
        return false;
      }
    }
    return true;
  }
  Verdict run(hx::Ctx &c, const Hist &h, const std::string &bytes, const std::string &text, bool judge) {
    const sp::Entry &en = *b.e;
    RefOut r = ref_decode(ref, st, bytes, pre.empty());
    if (r.v == UNKNOWN) return r.v;
    c.begin(text);
    c.outcome(r.v);
    for (size_t d = 0; d < decs.size(); ++d) {
      if (!prefix(c, d, h)) return r.v;
      c.transition();
      Out o = decode1(*decs[d], bytes, pre.empty(), en.spec, (unsigned)(pre.size() % decs[d]->tokens()));
      if (!o.pos_ok) c.violation(en.name + ":position", hx::fmt("after decoding [%s] the reported position is outside the range (%zd)", hex(bytes).c_str(), o.used));
      if (!judge) continue;
      auto head = [&] { return hx::fmt("after history %s, [%s] decodes (%s) to %s, ", hist_text(h).c_str(), hex(bytes).c_str(), dmk[d].first.c_str(), show(o).c_str()); };
      if (r.v == TRUNC || r.v == ERROR) {
        if (!o.thrown) {
          c.violation(en.name + (r.v == TRUNC ? ":accepts-truncated" : ":accepts:" + r.err), head() + "FAST: " + (r.v == TRUNC ? "the message is incomplete" : r.err));
          return r.v;
        }
      } else {
        if (o.thrown) {
          if (!r.reportable) {
            c.violation(en.name + ":rejects", head() + "FAST: " + mdl::show(r.val));
            return r.v;
          }
          continue;
        }
        if (o.v != r.val) {
          c.violation(en.name + ":value:" + diff_field(en, r.val, o.v), head() + "FAST: " + mdl::show(r.val));
          return r.v;
        }
        if (o.used != r.used) {
          c.violation(en.name + ":consumed", head() + hx::fmt("FAST: %zd bytes", r.used));
          return r.v;
        }
      }
    }
    // what the dictionary now contains shows in the next message: an all-operators-implied one for every template
    if (judge && r.v == VALUE && !r.reportable) follow(c, h, bytes, r);
    return r.v;
  }
  void follow(hx::Ctx &c, const Hist &h, const std::string &bytes, const RefOut &r) {
    const sp::Entry &en = *b.e;
    RefEncoder re(en.spec);
    re.st = r.st;
    re.choose = nullptr;
    size_t m = 0;
    for (; m < b.want.size(); ++m)
      if (b.want[m].tmpl == r.val.tmpl) break;
    // same message again: operators imply it
    std::string nb;
    try {
      nb = re.encode(r.val, false);
    } catch (Unencodable &) {
      return;
    } catch (std::exception &) {
      return;
    }
    if (re.wide) return;
    for (size_t d = 0; d < decs.size(); ++d) {
      Out o = decode1(*decs[d], nb, false, en.spec, (unsigned)((pre.size() + 1) % decs[d]->tokens()));
      if (o.thrown || o.v != r.val) {
        c.violation(en.name + ":state", hx::fmt("after history %s and [%s] (%s), the repetition [%s] decodes (%s) to %s", hist_text(h).c_str(), hex(bytes).c_str(), mdl::show(r.val).c_str(), hex(nb).c_str(), dmk[d].first.c_str(), show(o).c_str()));
        return;
      }
    }
  }
};
// breadth first over byte strings; a string is extended only while the reference decoder wants more bytes
inline void bytes_all(hx::Ctx &c, Bench &b, const Decs &dmk, const std::string &check, const Hist &h, size_t cap, int full) {
  bool judge = check == "C04";
  ByteRun run(b, dmk, h);
  if (!run.ok) return;
  std::string pre = check + " " + b.e->name + " bytes pre=" + hist_text(h) + " hex=";
  std::vector<std::string> level = {""};
  size_t used = 0;
  for (int len = 1; len <= 16 && !level.empty(); ++len) {
    auto alpha_of = [&](const std::string &s) -> const std::vector<unsigned char> & {
      bool in_pmap = true;
      for (unsigned char x : s)
        if (x & 0x80) in_pmap = false;
      bool wide = len <= full;
      static const std::vector<unsigned char> deep = {0x80, 0x81, 0x83, 0xc0, 0xff, 0x00, 0x01, 0x7f, 0x41, 0x05};
      if (!full && len > 2 && !in_pmap) return deep;
      return in_pmap ? pmap_alpha(wide) : byte_alpha(wide);
    };
    size_t n = 0;
    for (auto &s : level) n += alpha_of(s).size();
    if (used + n > cap) break;
    used += n;
    std::vector<std::string> next;
    for (auto &s : level)
      for (unsigned char x : alpha_of(s)) {
        std::string t = s + (char)x;
        Verdict v = run.run(c, h, t, pre + hexs(t), judge);
        if (v == TRUNC) next.push_back(t);
        c.state(hx::hash_str(pre + t));
      }
    level.swap(next);
    if (c.nviol >= 12) return;
  }
}

// ------------------------------------------------------------------ C05
// valid streams damaged in one place, then the next valid message without a reset
inline void damage_one(hx::Ctx &c, Bench &b, const Decs &dmk, const std::string &s0, const std::string &s1, bool reset0, std::vector<std::unique_ptr<IDec>> &decs) {
  for (size_t d = 0; d < decs.size(); ++d) {
    Out o = decode1(*decs[d], s0, reset0, b.e->spec);
    Out p = decode1(*decs[d], s1, false, b.e->spec, 1 % decs[d]->tokens());
    c.transition(2);
    if (!o.pos_ok || !p.pos_ok) c.violation(b.e->name + ":position", "reported position outside the range");
  }
}
inline bool bounded(RefDecoder &ref, const std::string &s0, const std::string &s1) {
  // keep the element counts the check is willing to execute
  RefDecoder::State init;
  {
    RefDecoder r(*ref.spec_);
    init = r.st;
  }
  RefOut a = ref_decode(ref, init, s0, true);
  if (a.v == UNKNOWN) return false;
  RefOut e = ref_decode(ref, a.st, s1, false);
  return e.v != UNKNOWN;
}
inline void damage_all(hx::Ctx &c, Bench &b, const Decs &dmk, bool quick) {
  const sp::Entry &en = *b.e;
  std::vector<std::unique_ptr<IDec>> decs;
  for (auto &x : dmk) decs.push_back(x.second(mfast::malloc_allocator::instance()));
  RefDecoder ref(en.spec);
  ref.max_elems = 2000;
  std::string pre = "C05 " + en.name + " damage ";
  for (size_t m = 0; m < b.want.size(); ++m)
    for (size_t n = 0; n < b.want.size(); ++n) {
      RefEncoder re(en.spec);
      std::string s[2];
      try {
        s[0] = re.encode(b.want[m], false);
        s[1] = re.encode(b.want[n], false);
      } catch (Unencodable &) {
        continue;
      }
      c.traces();
      auto go = [&](const std::string &x0, const std::string &x1) {
        if (!bounded(ref, x0, x1)) return;
        std::string t = pre + "a=" + hexs(x0) + " b=" + hexs(x1);
        c.begin(t);
        c.state(hx::hash_str(t));
        damage_one(c, b, dmk, x0, x1, true, decs);
      };
      for (int w = 0; w < 2; ++w) {
        if (w == 1 && quick && n > 2 && m > 2) continue;
        if (w == 0 && n > 1) continue;  // damage in the first message: two successors are enough
        for (size_t k = 0; k < s[w].size(); ++k) {
          std::string t = s[w].substr(0, k);
          if (k) go(w ? s[0] : t, w ? t : s[1]);
          for (int x : byte_alpha(!quick)) {
            t = s[w];
            if ((unsigned char)t[k] == x) continue;
            t[k] = (char)x;
            go(w ? s[0] : t, w ? t : s[1]);
          }
          t = s[w];
          t.erase(k, 1);
          if (!t.empty()) go(w ? s[0] : t, w ? t : s[1]);
          for (int x : {0x00, 0x7f, 0x80, 0xff}) {
            t = s[w];
            t.insert(k, 1, (char)x);
            go(w ? s[0] : t, w ? t : s[1]);
          }
        }
      }
    }
}

inline Hist prefix_hist(size_t k) { return k == 0 ? Hist() : Hist{{(int)(k - 1), false}}; }
// ------------------------------------------------------------------ helpers around encoders
struct EncOut {
  bool thrown = false;
  std::string bytes;
  std::exception_ptr exc;
};
inline EncOut encode1(IEnc &e, const mfast::message_cref &m, bool reset) {
  EncOut o;
  std::vector<char> v;
  try {
    e.encode(m, v, reset);
    o.bytes.assign(v.begin(), v.end());
  } catch (std::exception &) {
    o.thrown = true;
    o.exc = std::current_exception();
  }
  return o;
}
inline bool same(const EncOut &a, const EncOut &b) { return a.thrown == b.thrown && (a.thrown || a.bytes == b.bytes); }
inline std::string show(const EncOut &o) { return o.thrown ? "an error" : "[" + hex(o.bytes) + "]"; }
inline std::vector<Hist> plain_hists(size_t alphabet, int depth) {
  std::vector<Hist> r;
  Hist h(depth);
  std::function<void(int)> rec = [&](int k) {
    if (k == depth) { r.push_back(h); return; }
    for (size_t m = 0; m < alphabet; ++m) { h[k] = {(int)m, false}; rec(k + 1); }
  };
  rec(0);
  return r;
}
// what freshly created codecs do with a history (no reset at its start)
struct Fresh {
  std::vector<EncOut> enc;
  std::vector<std::vector<Out>> dec;  // per decoder kind, per step; only for encodable steps
};
inline Fresh fresh_run(Bench &b, const Decs &dmk, const Hist &h) {
  Fresh f;
  auto e = b.c.enc(mfast::malloc_allocator::instance());
  for (auto &x : h) f.enc.push_back(encode1(*e, b.msgs[x.first]->cref(), x.second));
  for (auto &d : dmk) {
    auto dec = d.second(mfast::malloc_allocator::instance());
    std::vector<Out> o;
    for (size_t k = 0; k < h.size() && !f.enc[k].thrown; ++k) o.push_back(decode1(*dec, f.enc[k].bytes, h[k].second, b.e->spec));
    f.dec.push_back(o);
  }
  return f;
}
inline bool same(const Out &a, const Out &b) { return a.thrown == b.thrown && (a.thrown || (a.v == b.v && a.used == b.used)); }

// after a reset the codec must do for `tail` what a fresh one does
inline bool enc_tail(hx::Ctx &c, Bench &b, IEnc &e, const Hist &tail, const Fresh &f, const std::string &key, const std::string &pre) {
  for (size_t k = 0; k < tail.size(); ++k) {
    c.transition();
    EncOut o = encode1(e, b.msgs[tail[k].first]->cref(), k == 0 || tail[k].second);
    if (!same(o, f.enc[k])) {
      c.violation(b.e->name + key, pre + hx::fmt(", then reset and %s: step %zu (%s) gives %s, on a fresh encoder %s", hist_text(tail).c_str(), k, mdl::show(b.want[tail[k].first]).c_str(), show(o).c_str(), show(f.enc[k]).c_str()));
      return false;
    }
  }
  return true;
}
inline bool dec_tail(hx::Ctx &c, Bench &b, IDec &d, size_t kind, const Hist &tail, const Fresh &f, const std::string &key, const std::string &pre) {
  for (size_t k = 0; k < f.dec[kind].size(); ++k) {
    c.transition();
    Out o = decode1(d, f.enc[k].bytes, k == 0 || tail[k].second, b.e->spec, (unsigned)(k % d.tokens()));
    if (!same(o, f.dec[kind][k])) {
      c.violation(b.e->name + key, pre + hx::fmt(", then reset and [%s]: %s; on a fresh decoder %s", hex(f.enc[k].bytes).c_str(), show(o).c_str(), show(f.dec[kind][k]).c_str()));
      return false;
    }
  }
  return true;
}

// ------------------------------------------------------------------ C10
inline void reset_one(hx::Ctx &c, Bench &b, const Decs &dmk, const Hist &h, const Hist &tail, const Fresh &f) {
  auto e = b.c.enc(mfast::malloc_allocator::instance());
  std::vector<EncOut> pre;
  for (auto &x : h) pre.push_back(encode1(*e, b.msgs[x.first]->cref(), x.second));
  std::string text = "after history " + hist_text(h);
  if (!enc_tail(c, b, *e, tail, f, ":reset-encoder", text)) return;
  for (size_t d = 0; d < dmk.size(); ++d) {
    auto dec = dmk[d].second(mfast::malloc_allocator::instance());
    for (size_t k = 0; k < h.size() && !pre[k].thrown; ++k) decode1(*dec, pre[k].bytes, h[k].second, b.e->spec, (unsigned)(k % dec->tokens()));
    if (!dec_tail(c, b, *dec, d, tail, f, ":reset-decoder", dmk[d].first + " " + text)) return;
  }
}
inline void reset_all(hx::Ctx &c, Bench &b, const Decs &dmk, int dh, int dt) {
  auto tails = plain_hists(b.msgs.size(), dt);
  std::vector<Fresh> fs;
  for (auto &t : tails) fs.push_back(fresh_run(b, dmk, t));
  for (auto &h : plain_hists(b.msgs.size(), dh))
    for (size_t k = 0; k < tails.size(); ++k) {
      std::string t = "C10 " + b.e->name + " reset h=" + hist_text(h) + " t=" + hist_text(tails[k]);
      c.begin(t);
      c.traces();
      c.state(hx::hash_str(t));
      reset_one(c, b, dmk, h, tails[k], fs[k]);
      if (c.nviol >= 12) return;
    }
}

// ------------------------------------------------------------------ C11
// kind "enc": history, then message m into a buffer of n bytes (0: a growing buffer), then reset and tail
inline void fail_enc(hx::Ctx &c, Bench &b, const Hist &h, int m, size_t n, const Hist &tail, const Fresh &f) {
  CountingAlloc al;
  {
    auto e = b.c.enc(&al);
    for (auto &x : h) encode1(*e, b.msgs[x.first]->cref(), x.second);
    bool thrown = false;
    if (n) {
      std::unique_ptr<char[]> buf(new char[n]);
      try {
        e->encode(b.msgs[m]->cref(), buf.get(), n, false);
      } catch (std::exception &) {
        thrown = true;
      }
    } else
      thrown = encode1(*e, b.msgs[m]->cref(), false).thrown;
    c.outcome(thrown ? 1 : 0);
    if (!enc_tail(c, b, *e, tail, f, ":encoder-after-failure", hx::fmt("after history %s and a %s encode of message %d into %zu bytes", hist_text(h).c_str(), thrown ? "failed" : "successful", m, n))) return;
  }
  if (al.outstanding() || al.bad_free) c.violation(b.e->name + ":encoder-leak", hx::fmt("after destroying the encoder %zu blocks are still allocated %s", al.outstanding(), al.bad.c_str()));
}
inline void fail_dec(hx::Ctx &c, Bench &b, const Decs &dmk, const std::string &good, const std::string &bad, const Hist &tail, const Fresh &f) {
  for (size_t d = 0; d < dmk.size(); ++d) {
    CountingAlloc al;
    {
      auto dec = dmk[d].second(&al);
      if (!good.empty()) decode1(*dec, good, true, b.e->spec);
      Out o = decode1(*dec, bad, good.empty(), b.e->spec);
      c.outcome(o.thrown ? 1 : 0);
      if (!dec_tail(c, b, *dec, d, tail, f, ":decoder-after-failure", dmk[d].first + hx::fmt(" after [%s] and [%s] (%s)", hex(good).c_str(), hex(bad).c_str(), show(o).c_str()))) return;
    }
    if (al.outstanding() || al.bad_free) {
      c.violation(b.e->name + ":decoder-leak", dmk[d].first + hx::fmt(" after [%s] [%s]: once the decoder is destroyed %zu blocks are still allocated %s", hex(good).c_str(), hex(bad).c_str(), al.outstanding(), al.bad.c_str()));
      return;
    }
  }
}
inline void fail_all(hx::Ctx &c, Bench &b, const Decs &dmk) {
  const sp::Entry &en = *b.e;
  bool q = c.quick();
  auto tails = plain_hists(std::min<size_t>(b.msgs.size(), q ? 4 : 6), 1);
  if (!q)
    for (auto &x : plain_hists(std::min<size_t>(b.msgs.size(), 4), 2)) tails.push_back(x);
  std::vector<Fresh> fs;
  for (auto &t : tails) fs.push_back(fresh_run(b, dmk, t));
  // encoders
  size_t nm = b.msgs.size();
  for (size_t p = 0; p <= nm; ++p)
    for (size_t m = 0; m < nm; ++m) {
      Hist h = prefix_hist(p);
      auto probe = b.c.enc(mfast::malloc_allocator::instance());
      for (auto &x : h) encode1(*probe, b.msgs[x.first]->cref(), false);
      EncOut full = encode1(*probe, b.msgs[m]->cref(), false);
      size_t len = full.thrown ? 1 : full.bytes.size();
      for (size_t n = 0; n < len; ++n) {
        if (n == 0 && !full.thrown) continue;
        for (size_t t = 0; t < tails.size(); ++t) {
          if (q && p > 1 && !full.thrown && t > 1) break;
          std::string text = "C11 " + en.name + hx::fmt(" enc h=%s m=%zu n=%zu t=%s", hist_text(h).c_str(), m, n, hist_text(tails[t]).c_str());
          c.begin(text);
          c.traces();
          c.state(hx::hash_str(text));
          fail_enc(c, b, h, (int)m, n, tails[t], fs[t]);
        }
      }
      if (c.nviol >= 12) return;
    }
  // decoders
  RefDecoder ref(en.spec);
  ref.max_elems = 2000;
  for (size_t p = 0; p <= nm; ++p) {
    if (q && p > 2) break;
    for (size_t m = 0; m < nm; ++m) {
      RefEncoder re(en.spec);
      std::string good, s;
      try {
        if (p) good = re.encode(b.want[p - 1], false);
        s = re.encode(b.want[m], false);
      } catch (Unencodable &) {
        continue;
      }
      std::set<std::string> bad;
      for (size_t k = 0; k < s.size(); ++k) {
        if (k) bad.insert(s.substr(0, k));
        for (int x : byte_alpha(!q)) {
          std::string t = s;
          t[k] = (char)x;
          bad.insert(t);
        }
        std::string t = s;
        t.insert(k, 1, '\0');
        bad.insert(t);
      }
      for (auto &x : bad) {
        RefDecoder::State init;
        {
          RefDecoder r(en.spec);
          init = r.st;
        }
        if (!good.empty()) {
          RefOut g = ref_decode(ref, init, good, true);
          init = g.st;
        }
        RefOut o = ref_decode(ref, init, x, good.empty());
        if (o.v == UNKNOWN || o.v == VALUE) continue;
        size_t n = 0;
        for (size_t t = 0; t < tails.size(); ++t) {
          if (q && n >= 2) break;
          if (q && (hx::hash_str(x) + t) % tails.size() > 1) continue;  // deterministic choice of two tails per damaged stream
          ++n;
          std::string text = "C11 " + en.name + " dec a=" + hexs(good) + " b=" + hexs(x) + " t=" + hist_text(tails[t]);
          c.begin(text);
          c.traces();
          c.state(hx::hash_str(text));
          fail_dec(c, b, dmk, good, x, tails[t], fs[t]);
        }
        if (c.nviol >= 12) return;
      }
    }
  }
}

// ------------------------------------------------------------------ C06
inline void buffer_one(hx::Ctx &c, Bench &b, const Hist &h, int m, bool overlong, int kind, size_t n, size_t slack) {
  const sp::Entry &en = *b.e;
  auto mk = [&] {
    auto e = b.c.enc(mfast::malloc_allocator::instance());
    e->overlong(overlong);
    for (auto &x : h) encode1(*e, b.msgs[x.first]->cref(), x.second);
    return e;
  };
  std::string want;
  {
    auto e = mk();
    std::unique_ptr<char[]> big(new char[4096]);
    size_t r;
    try {
      r = e->encode(b.msgs[m]->cref(), big.get(), 4096, false);
    } catch (std::exception &) {
      return;
    }
    want.assign(big.get(), r);
  }
  auto e = mk();
  c.transition();
  std::string at = hx::fmt("history %s, message %s, overlong maps %s, ", hist_text(h).c_str(), mdl::show(b.want[m]).c_str(), overlong ? "on" : "off");
  if (kind == 0) {
    std::unique_ptr<char[]> buf(new char[n]);
    memset(buf.get(), 0x55, n);
    size_t r;
    try {
      r = e->encode(b.msgs[m]->cref(), buf.get(), n, false);
    } catch (std::exception &) {
      c.outcome(1);
      if (n >= want.size() + 64) c.violation(en.name + ":refuses", at + hx::fmt("buffer of %zu bytes refused although the encoding has %zu", n, want.size()));
      return;
    }
    c.outcome(0);
    if (r > n || r != want.size() || memcmp(buf.get(), want.data(), r))
      c.violation(en.name + ":buffer", at + hx::fmt("buffer of %zu bytes: returned %zu [%s], full encoding [%s]", n, r, hex(std::string(buf.get(), std::min(r, n))).c_str(), hex(want).c_str()));
  } else {
    std::vector<char> v;
    v.reserve(n + slack);
    for (size_t k = 0; k < n; ++k) v.push_back((char)(k * 7 + 1));
    try {
      e->encode(b.msgs[m]->cref(), v, false);
    } catch (std::exception &x) {
      c.violation(en.name + ":vector-throws", at + "encoding into a vector throws " + what(x));
      return;
    }
    std::string got(v.begin(), v.end());
    std::string exp;
    for (size_t k = 0; k < n; ++k) exp += (char)(k * 7 + 1);
    exp += want;
    if (got != exp) c.violation(en.name + ":vector", at + hx::fmt("vector of size %zu and capacity %zu becomes [%s], expected [%s]", n, n + slack, hex(got).c_str(), hex(exp).c_str()));
  }
}
inline void buffer_all(hx::Ctx &c, Bench &b) {
  bool q = c.quick();
  size_t nm = b.msgs.size();
  for (size_t p = 0; p <= nm; ++p) {
    if (q && p > 2) break;
    for (size_t m = 0; m < nm; ++m)
      for (int ov = 0; ov < 2; ++ov) {
        Hist h = prefix_hist(p);
        auto probe = b.c.enc(mfast::malloc_allocator::instance());
        for (auto &x : h) encode1(*probe, b.msgs[x.first]->cref(), false);
        EncOut full = encode1(*probe, b.msgs[m]->cref(), false);
        if (full.thrown) continue;
        size_t len = full.bytes.size();
        auto go = [&](int kind, size_t n, size_t slack) {
          std::string text = "C06 " + b.e->name + hx::fmt(" buf h=%s m=%zu ov=%d kind=%d n=%zu s=%zu", hist_text(h).c_str(), m, ov, kind, n, slack);
          c.begin(text);
          c.traces();
          c.state(hx::hash_str(text));
          buffer_one(c, b, h, (int)m, ov, kind, n, slack);
        };
        for (size_t n = 1; n <= len + 12; ++n) go(0, n, 0);
        go(0, len + 64, 0);
        for (size_t n : {0, 1, 3, 8})
          for (size_t s = 0; s <= len + 10; s += (q && s > 2 && s + 2 < len ? 3 : 1)) go(1, n, s);
        if (c.nviol >= 12) return;
      }
  }
}

// ------------------------------------------------------------------ C24
// two independent instances over one description; order: string of 'a'/'b' (which instance does its next message)
inline void inter_one(hx::Ctx &c, Bench &b, const Decs &dmk, const Hist &ha, const Hist &hb, const std::string &order) {
  const Hist *h[2] = {&ha, &hb};
  Fresh f[2];
  for (int k = 0; k < 2; ++k) f[k] = fresh_run(b, dmk, *h[k]);
  std::unique_ptr<IEnc> e[2];
  for (int k = 0; k < 2; ++k) e[k] = b.c.enc(mfast::malloc_allocator::instance());
  std::vector<std::unique_ptr<IDec>> d[2];
  for (int k = 0; k < 2; ++k)
    for (auto &x : dmk) d[k].push_back(x.second(mfast::malloc_allocator::instance()));
  // messages handed out stay valid until the next decode of the same instance and token
  size_t pos[2] = {0, 0};
  std::string pre = "histories " + hist_text(ha) + " and " + hist_text(hb) + " interleaved as " + order + ": ";
  for (char ch : order) {
    int w = ch == 'b';
    size_t k = pos[w]++;
    c.transition();
    EncOut o = encode1(*e[w], b.msgs[(*h[w])[k].first]->cref(), false);
    if (!same(o, f[w].enc[k])) {
      c.violation(b.e->name + ":encoders", pre + hx::fmt("instance %d step %zu gives %s, alone %s", w, k, show(o).c_str(), show(f[w].enc[k]).c_str()));
      return;
    }
    if (o.thrown) continue;
    for (size_t x = 0; x < dmk.size(); ++x) {
      if (k >= f[w].dec[x].size()) continue;
      Out r = decode1(*d[w][x], o.bytes, false, b.e->spec);
      if (!same(r, f[w].dec[x][k])) {
        c.violation(b.e->name + ":decoders", pre + hx::fmt("decoder %s instance %d step %zu gives %s, alone %s", dmk[x].first.c_str(), w, k, show(r).c_str(), show(f[w].dec[x][k]).c_str()));
        return;
      }
    }
  }
}
// one decoder, messages of several tokens alive at the same time; toks: token per step
inline void token_one(hx::Ctx &c, Bench &b, const Decs &dmk, const Hist &h, const std::string &toks) {
  auto e = b.c.enc(mfast::malloc_allocator::instance());
  std::vector<std::string> bytes;
  for (auto &x : h) {
    EncOut o = encode1(*e, b.msgs[x.first]->cref(), false);
    if (o.thrown) return;
    bytes.push_back(o.bytes);
  }
  for (size_t x = 0; x < dmk.size(); ++x) {
    auto d = dmk[x].second(mfast::malloc_allocator::instance());
    if (d->tokens() < 2) continue;
    std::map<unsigned, std::pair<mfast::message_cref, Val>> live;
    for (size_t k = 0; k < h.size(); ++k) {
      unsigned t = toks[k] - '0';
      const char *p = bytes[k].data(), *end = p + bytes[k].size();
      c.transition();
      try {
        mfast::message_cref m = d->decode(p, end, false, t);
        live.erase(t);
        live.insert({t, {m, ad::read_msg(m, &b.e->spec)}});
      } catch (std::exception &ex) {
        c.violation(b.e->name + ":token-throws", hx::fmt("history %s on tokens %s: step %zu throws %s", hist_text(h).c_str(), toks.c_str(), k, what(ex).c_str()));
        return;
      }
      if (!conveys(b.e->spec, b.want[h[k].first], live.at(t).second)) {
        c.violation(b.e->name + ":token-value", hx::fmt("history %s on tokens %s: step %zu gives %s", hist_text(h).c_str(), toks.c_str(), k, mdl::show(live.at(t).second).c_str()));
        return;
      }
      for (auto &l : live) {
        Val now = ad::read_msg(l.second.first, &b.e->spec);
        if (now != l.second.second) {
          c.violation(b.e->name + ":token-overwritten", hx::fmt("history %s on tokens %s: decoding step %zu on token %u changes the message of token %u from %s to %s", hist_text(h).c_str(), toks.c_str(), k, t, l.first, mdl::show(l.second.second).c_str(), mdl::show(now).c_str()));
          return;
        }
      }
    }
  }
}
inline void inter_all(hx::Ctx &c, Bench &b, const Decs &dmk) {
  bool q = c.quick();
  size_t al = std::min<size_t>(b.msgs.size(), q ? 3 : 5);
  auto hs = plain_hists(al, q ? 2 : 2);
  for (auto &h : plain_hists(al, 1)) hs.push_back(h);
  for (auto &ha : hs)
    for (auto &hb : hs) {
      std::string o = std::string(ha.size(), 'a') + std::string(hb.size(), 'b');
      do {
        std::string text = "C24 " + b.e->name + " inter a=" + hist_text(ha) + " b=" + hist_text(hb) + " o=" + o;
        c.begin(text);
        c.traces();
        c.state(hx::hash_str(text));
        inter_one(c, b, dmk, ha, hb, o);
      } while (std::next_permutation(o.begin(), o.end()));
      if (c.nviol >= 12) return;
    }
  bool toks = false;
  for (auto &x : dmk) toks |= x.second(mfast::malloc_allocator::instance())->tokens() > 1;
  if (!toks) return;
  int depth = q ? 3 : 4;
  for (auto &h : plain_hists(std::min<size_t>(b.msgs.size(), q ? 4 : 6), depth))
    for (int m = 0; m < (1 << depth); ++m) {
      std::string t;
      for (int k = 0; k < depth; ++k) t += (m >> k) & 1 ? '1' : '0';
      std::string text = "C24 " + b.e->name + " token h=" + hist_text(h) + " t=" + t;
      c.begin(text);
      c.traces();
      c.state(hx::hash_str(text));
      token_one(c, b, dmk, h, t);
      if (c.nviol >= 12) return;
    }
}

}  // namespace cc
#include "codec_more.h"
namespace cc {
// which part of the template space a check explores
}  // namespace cc
#include "fault.h"
namespace cc {
inline bool uses(const std::string &check, const sp::Entry &e) {
  if (check == "C08") return e.kind == "pmap";
  if (check == "C12") return e.kind == "dict" || e.kind == "clash";
  if (check == "C09") return e.kind == "tid" || (e.kind == "" && more::int_entry(e));
  if (e.kind == "wide") return check == "C01" || check == "C02" || check == "C03" || check == "C07";
  return e.kind == "";
}
// ------------------------------------------------------------------ dispatch
inline void run_entry(hx::Ctx &c, Bench &b, const std::string &check) {
  const Decs &dmk = b.c.decs;
  bool q = c.quick();
  if (check == "C04") {
    alt_all(c, b, dmk, 2, q ? 1 : 2);
    if (!q) alt_all(c, b, dmk, 3, 1);
    for (size_t k = 0; k <= b.want.size() && (k < 4 || !q); ++k) bytes_all(c, b, dmk, check, prefix_hist(k), q ? 3500 : 60000, q ? 0 : 1);
  }
  if (check == "C05") {
    for (size_t k = 0; k <= b.want.size() && (k < 3 || !q); ++k) bytes_all(c, b, dmk, check, prefix_hist(k), q ? 4000 : 200000, q ? 1 : 2);
    damage_all(c, b, dmk, q);
  }
  if (check == "C06") buffer_all(c, b);
  if (check == "C10") {
    reset_all(c, b, dmk, q ? 2 : 3, q ? 2 : 2);
    for (auto &t : b.e->spec.tmpls)
      if (t.reset) {
        // template-declared resets: byte meaning and round trip, deeper histories
        all_hists(b.msgs.size(), q ? 4 : 5, [&](const Hist &h) {
          c.begin("C10 " + b.e->name + " hist h=" + hist_text(h));
          c.traces();
          run_hist(c, b, h, true, dmk);
          return c.nviol < 12;
        });
        break;
      }
  }
  if (check == "C11") fail_all(c, b, dmk);
  if (check == "C23") flt::alloc_all(c, b, dmk);
  if (check == "C24") inter_all(c, b, dmk);
  if (check == "C08") more::pmap_all(c, b, dmk);
  if (check == "C09") more::ints_all(c, b, dmk);
  if (check == "C12") more::dict_all(c, b, dmk);
}
inline void run_one(hx::Ctx &c, Bench &b, const std::string &check, const std::string &cs) {
  auto w = split(cs, ' ');
  const Decs &dmk = b.c.decs;
  if (w.size() < 3) return;
  if (check == "C23") {
    c.begin(cs);
    return flt::run_one(c, b, dmk, w);
  }
  if (check == "C08" || check == "C09" || w[2] == "clash") return more::run_one(c, b, dmk, cs);
  if (w[2] == "alt") {
    Choices ch;
    ch.given = list_parse(param(w, "ch"));
    std::string t;
    alt_one(c, b, dmk, hist_parse(param(w, "h")), ch, &t);
  } else if (w[2] == "bytes") {
    Hist h = hist_parse(param(w, "pre"));
    ByteRun run(b, dmk, h);
    if (run.ok) run.run(c, h, unhex(param(w, "hex")), cs, check == "C04");
  } else if (w[2] == "damage") {
    std::vector<std::unique_ptr<IDec>> decs;
    for (auto &x : dmk) decs.push_back(x.second(mfast::malloc_allocator::instance()));
    c.begin(cs);
    damage_one(c, b, dmk, unhex(param(w, "a")), unhex(param(w, "b")), true, decs);
  } else {
    c.begin(cs);
    Hist h = hist_parse(param(w, "h")), t = hist_parse(param(w, "t"));
    if (w[2] == "reset") reset_one(c, b, dmk, h, t, fresh_run(b, dmk, t));
    if (w[2] == "hist") run_hist(c, b, h, true, dmk);
    if (w[2] == "enc") fail_enc(c, b, h, atoi(param(w, "m").c_str()), atoi(param(w, "n").c_str()), t, fresh_run(b, dmk, t));
    if (w[2] == "dec") fail_dec(c, b, dmk, unhex(param(w, "a")), unhex(param(w, "b")), t, fresh_run(b, dmk, t));
    if (w[2] == "buf") buffer_one(c, b, h, atoi(param(w, "m").c_str()), param(w, "ov") == "1", atoi(param(w, "kind").c_str()), atoi(param(w, "n").c_str()), atoi(param(w, "s").c_str()));
    if (w[2] == "inter") inter_one(c, b, dmk, hist_parse(param(w, "a")), hist_parse(param(w, "b")), param(w, "o"));
    if (w[2] == "token") token_one(c, b, dmk, h, param(w, "t"));
  }
}
}  // namespace cc
