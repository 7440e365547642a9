// C08 presence maps, C09 integers, C12 dictionary keys.  Used for both codec generations.
#pragma once
namespace cc {
namespace more {

inline EncOut enc_msg(IEnc &e, const mfast::message_type &m, bool reset) { return encode1(e, m.cref(), reset); }

// ------------------------------------------------------------------ C08
inline std::string bits_text(const std::vector<bool> &b) {
  std::string s;
  for (bool x : b) s += x ? '1' : '0';
  return s;
}
inline void pmap_one(hx::Ctx &c, Bench &b, const Decs &dmk, const std::vector<bool> &bits) {
  const sp::Entry &en = *b.e;
  std::vector<bool> inv = bits;
  inv.flip();
  // z unchanged in the second message: its bit is 0; complement in the third
  std::vector<std::vector<Val>> h = {sp::pmap_msg(en, bits, 1), sp::pmap_msg(en, bits, 1), sp::pmap_msg(en, inv, 1), sp::pmap_msg(en, bits, 2)};
  std::vector<std::unique_ptr<mfast::message_type>> ms;
  std::vector<Val> want;
  for (auto &v : h) {
    ms.push_back(b.make_msg(1, v));
    want.push_back(vsub(v));
    want.back().tmpl = 1;
  }
  auto judge_dec = [&](const std::vector<std::string> &bytes, const char *how) {
    for (auto &d : dmk) {
      auto dec = d.second(mfast::malloc_allocator::instance());
      for (size_t k = 0; k < h.size(); ++k) {
        c.transition();
        Out o = decode1(*dec, bytes[k], false, en.spec, (unsigned)(k % dec->tokens()));
        if (o.thrown || o.v != want[k] || o.used != (ptrdiff_t)bytes[k].size()) {
          c.violation(en.name + ":decoder", hx::fmt("bits %s, message %zu, %s: [%s] decodes (%s) to %s, expected %s", bits_text(bits).c_str(), k, how, hex(bytes[k]).c_str(), d.first.c_str(), show(o).c_str(), mdl::show(want[k]).c_str()));
          return false;
        }
      }
    }
    return true;
  };
  for (int ov = 0; ov < 2; ++ov) {
    auto e = b.c.enc(mfast::malloc_allocator::instance());
    e->overlong(ov);
    RefDecoder ref(en.spec);
    std::vector<std::string> bytes;
    for (size_t k = 0; k < h.size(); ++k) {
      EncOut o = enc_msg(*e, *ms[k], false);
      auto head = [&] { return hx::fmt("bits %s, message %zu, overlong maps %s: ", bits_text(bits).c_str(), k, ov ? "allowed" : "not allowed"); };
      if (o.thrown) {
        c.violation(en.name + ":encode-throws", head() + show(o));
        return;
      }
      const char *p = o.bytes.data(), *q = p + o.bytes.size();
      Val got;
      try {
        got = ref.decode(p, q, false);
      } catch (std::exception &x) {
        c.violation(en.name + ":not-fast", head() + "[" + hex(o.bytes) + "] " + x.what());
        return;
      }
      if (got != want[k] || p != q) {
        c.violation(en.name + ":meaning", head() + "[" + hex(o.bytes) + "] means " + mdl::show(got) + ", expected " + mdl::show(want[k]));
        return;
      }
      if (!ov && ref.overlong_maps) {
        c.violation(en.name + ":overlong", head() + "[" + hex(o.bytes) + "] contains an overlong presence map");
        return;
      }
      bytes.push_back(o.bytes);
    }
    if (!judge_dec(bytes, ov ? "encoder, overlong maps allowed" : "encoder, overlong maps not allowed")) return;
  }
  for (size_t extra : {0, 1, 2, 9}) {
    RefEncoder re(en.spec);
    re.extra_map_bytes = extra;
    std::vector<std::string> bytes;
    for (auto &w : want) bytes.push_back(re.encode(w, false));
    if (!judge_dec(bytes, hx::fmt("maps with %zu trailing zero bytes", extra).c_str())) return;
  }
}
inline void pmap_all(hx::Ctx &c, Bench &b, const Decs &dmk) {
  const sp::Entry &en = *b.e;
  const Field *f = &en.spec.tmpls[0].fields[0];
  size_t n = (f->ty == GRP || f->ty == SEQ ? f->sub.size() : en.spec.tmpls[0].fields.size() - 1) - 1;
  bool q = c.quick();
  auto go = [&](const std::vector<bool> &bits) {
    std::string t = "C08 " + en.name + " bits=" + bits_text(bits);
    c.begin(t);
    c.traces();
    c.state(hx::hash_str(t));
    pmap_one(c, b, dmk, bits);
    return c.nviol < 3;
  };
  if (n <= (q ? 9u : 13u)) {
    for (size_t m = 0; m < (1u << n); ++m) {
      std::vector<bool> bits(n);
      for (size_t k = 0; k < n; ++k) bits[k] = (m >> k) & 1;
      if (!go(bits)) return;
    }
    return;
  }
  if (q && n > 22 && n % 7 >= 1 && n % 7 <= 4) return;
  bool two = !q || (f->ty == U32 && en.spec.tmpls.size() == 1 && n < 40);
  for (int base = 0; base < 2; ++base) {
    std::vector<bool> bits(n, base);
    if (!go(bits)) return;
    for (size_t k = 0; k < n; ++k) {
      bits[k] = !base;
      if (!go(bits)) return;
      for (size_t j = k + 1; j < n; ++j) {
        if (!two && j != k + 1 && j != k + 7 && j + 1 != n) continue;
        bits[j] = !base;
        if (!go(bits)) return;
        bits[j] = base;
      }
      bits[k] = base;
    }
  }
}

// ------------------------------------------------------------------ C09
inline bool int_entry(const sp::Entry &e) {
  const Field &f = e.spec.tmpls[0].fields[0];
  if (e.spec.tmpls.size() != 1 || e.spec.tmpls[0].fields.size() > 3) return false;
  if (f.ty <= U64) return f.op.op != CONST;
  if (f.ty == DEC) return f.split ? f.eop.op != CONST || f.mop.op != CONST : f.op.op != CONST;
  if (is_ivec(f.ty)) return true;
  if (f.ty == UNI || f.ty == BV) return f.op.op == NONE || f.op.op == COPY;
  if (f.ty == SEQ) return f.has_len && f.lop.op != CONST && e.name.substr(0, 11) == "seqlenplain";
  return false;
}
inline std::vector<int64_t> edge_values(Ty ty, bool few) {
  std::vector<int64_t> r;
  i128 lo, hi;
  RefDecoder::range(ty, lo, hi);
  auto add = [&](i128 x) {
    if (x < lo || x > hi) return;
    int64_t y = (int64_t)(uint64_t)x;
    for (auto z : r)
      if (z == y) return;
    r.push_back(y);
  };
  for (int d = -3; d <= 3; ++d) add(d);
  for (int k = 1; k <= 9; ++k)
    for (int s : {1, -1})
      for (int j : {-1, 0}) {
        if (few && k > 2 && k < 9 && k != 4 && k != 5) continue;
        for (int d = -2; d <= 2; ++d) add((((i128)1 << (7 * k + j)) + d) * s);
      }
  for (int d = 0; d < 3; ++d) {
    add(lo + d);
    add(hi - d);
    add(((i128)1 << 31) + d - 1);
    add(((i128)1 << 32) + d - 1);
    add(((i128)1 << 63) + d - 1);
  }
  return r;
}
// one history of field-0 values: bytes conformant and minimal, read back exactly
inline bool ints_hist(hx::Ctx &c, Bench &b, const Decs &dmk, const std::vector<Val> &vs, const std::vector<std::vector<Val>> &rest) {
  const sp::Entry &en = *b.e;
  auto e = b.c.enc(mfast::malloc_allocator::instance());
  std::vector<std::unique_ptr<IDec>> decs;
  for (auto &x : dmk) decs.push_back(x.second(mfast::malloc_allocator::instance()));
  RefDecoder ref(en.spec);
  RefEncoder re(en.spec);
  std::string hs;
  auto head = [&](size_t k) {
    std::string s;
    for (size_t j = 0; j <= k; ++j) s += (j ? ", " : "") + mdl::show(vs[j]);
    return "values " + s + ": ";
  };
  for (size_t k = 0; k < vs.size(); ++k) {
    std::vector<Val> m = rest[0];
    m[0] = vs[k];
    Val want = vsub(m);
    want.tmpl = b.e->spec.tmpls[0].id;
    std::string canon;
    bool enc_ok = true;
    try {
      canon = re.encode(want, false);
    } catch (Unencodable &) {
      enc_ok = false;
    }
    auto msg = b.make_msg(want.tmpl, m);
    EncOut o = enc_msg(*e, *msg, false);
    c.transition();
    if (o.thrown) {
      if (enc_ok && !re.wide && !re.may_refuse) c.violation(en.name + ":encode-throws", head(k) + show(o));
      return c.nviol < 12;
    }
    const char *p = o.bytes.data(), *q = p + o.bytes.size();
    Val got;
    try {
      got = ref.decode(p, q, false);
    } catch (std::exception &x) {
      c.violation(en.name + ":not-fast", head(k) + "[" + hex(o.bytes) + "] " + x.what());
      return c.nviol < 12;
    }
    if (!conveys(en.spec, want, got) || p != q) {
      c.violation(en.name + ":meaning", head(k) + "[" + hex(o.bytes) + "] means " + mdl::show(got));
      return c.nviol < 12;
    }
    if (enc_ok && got == want && o.bytes.size() > canon.size()) {
      c.violation(en.name + ":length", head(k) + "[" + hex(o.bytes) + "] is longer than [" + hex(canon) + "]");
      return c.nviol < 12;
    }
    for (size_t d = 0; d < decs.size(); ++d) {
      Out r = decode1(*decs[d], o.bytes, false, en.spec, (unsigned)(k % decs[d]->tokens()));
      if (r.thrown && re.wide) return true;
      if (r.thrown || !conveys(en.spec, want, r.v) || r.used != (ptrdiff_t)o.bytes.size()) {
        c.violation(en.name + ":decoder", head(k) + "[" + hex(o.bytes) + "] decodes (" + dmk[d].first + ") to " + show(r));
        return c.nviol < 12;
      }
    }
  }
  return true;
}
inline std::string val_text(const Val &v) {
  if (!v.present) return "-";
  std::string s = std::to_string((long long)v.i) + "/" + std::to_string(v.e) + "/" + std::to_string(v.s.size()) + "/" + std::to_string(v.sub.size()) + "/";
  for (auto x : v.v) s += std::to_string((long long)x) + "_";
  return s;
}
inline Val val_parse(const sp::Entry &e, const std::string &t) {
  if (t == "-") return absent();
  auto w = split(t, '/');
  Val v;
  v.present = true;
  v.i = strtoll(w[0].c_str(), nullptr, 10);
  v.e = atoi(w[1].c_str());
  v.s = std::string(strtoul(w[2].c_str(), nullptr, 10), 'x');
  for (size_t k = 0; k < strtoul(w[3].c_str(), nullptr, 10); ++k) v.sub.push_back(vsub({vint(1)}));
  for (auto &x : split(w[4], '_'))
    if (!x.empty()) v.v.push_back(strtoll(x.c_str(), nullptr, 10));
  return v;
}
inline void ints_wire(hx::Ctx &c, Bench &b, const Decs &dmk, const Hist &h, ByteRun &run, const std::string &bytes) {
  std::string t = "C09 " + b.e->name + " wire pre=" + hist_text(h) + " hex=" + hexs(bytes);
  c.traces();
  c.state(hx::hash_str(t));
  run.run(c, h, bytes, t, true);
}
// wire integers around every boundary, in and out of range, in shortest and overlong form
inline std::vector<std::string> wire_ints() {
  std::vector<std::string> r;
  std::set<std::string> seen;
  auto add = [&](const std::string &s) {
    if (seen.insert(s).second) r.push_back(s);
  };
  for (int k : {0, 6, 7, 13, 14, 20, 21, 27, 28, 30, 31, 32, 33, 34, 35, 41, 42, 48, 49, 55, 56, 62, 63, 64, 65, 69, 70, 71, 77})
    for (int sg : {1, -1})
      for (int d = -2; d <= 2; ++d) {
        i128 x = (((i128)1 << k) + d) * sg;
        for (bool s : {false, true}) {
          if (!s && x < 0) continue;
          std::string w = RefEncoder::put_int(x, s, false);
          add(w);
          for (int n = 1; n <= 3; ++n) add(std::string((size_t)n, (char)(x < 0 ? 0x7f : 0x00)) + w);
        }
      }
  return r;
}
inline void ints_all(hx::Ctx &c, Bench &b, const Decs &dmk) {
  const sp::Entry &en = *b.e;
  bool q = c.quick();
  if (en.kind == "tid") {
    all_hists(b.msgs.size(), q ? 2 : 3, [&](const Hist &h) {
      c.begin("C09 " + en.name + " tid h=" + hist_text(h));
      c.traces();
      run_hist(c, b, h, true, dmk);
      return c.nviol < 12;
    });
    return;
  }
  const Field &f = en.spec.tmpls[0].fields[0];
  // values of the other fields
  std::vector<std::vector<Val>> rest = {en.msgs[en.msgs.size() - 1]};
  bool stateful = false;
  std::vector<Val> vs;
  if (f.opt) vs.push_back(absent());
  auto st = [](Op o) { return o == COPY || o == INCR || o == DELTA || o == TAIL; };
  if (f.ty <= U64) {
    stateful = st(f.op.op);
    for (auto x : edge_values(f.ty, false)) vs.push_back(vint(x));
  } else if (f.ty == DEC) {
    stateful = f.split ? st(f.eop.op) || st(f.mop.op) : st(f.op.op);
    std::vector<int> es;
    if (f.split && f.eop.op == CONST) es = {(int)f.eop.ival};
    else es = {0, 1, -1, 63, -63, 62, -62, 31, 32, -32, -33};
    std::vector<int64_t> ms;
    if (f.split && f.mop.op == CONST) ms = {f.mop.ival};
    else ms = edge_values(I64, true);
    for (size_t k = 0; k < ms.size(); ++k) vs.push_back(vdec(ms[k], es[k % es.size()]));
    for (size_t k = 0; k < es.size(); ++k) vs.push_back(vdec(ms[(k * 5) % ms.size()], es[k]));
  } else if (is_ivec(f.ty)) {
    static const Ty et[] = {I32, U32, I64, U64};
    auto xs = edge_values(et[f.ty - I32V], false);
    for (auto x : xs) vs.push_back(vvec({x}));
    vs.push_back(vvec(xs));
    for (size_t n : {62, 63, 64, 126, 127, 128}) vs.push_back(vvec(std::vector<int64_t>(n, 5)));
  } else if (f.ty == SEQ) {
    stateful = st(f.lop.op);
    for (size_t n : {0, 1, 2, 3, 62, 63, 64, 65, 126, 127, 128, 129, 300}) {
      Val v;
      v.present = true;
      for (size_t k = 0; k < n; ++k) v.sub.push_back(vsub({vint(1)}));
      vs.push_back(v);
    }
  } else {
    for (size_t n : {0, 1, 62, 63, 64, 126, 127, 128, 129, 8191, 8192, 16383, 16384}) vs.push_back(vstr(std::string(n, 'x')));
  }
  auto go = [&](const std::vector<Val> &h) {
    std::string t = "C09 " + en.name + " vals=";
    for (auto &v : h) t += val_text(v) + ",";
    c.begin(t);
    c.traces();
    c.state(hx::hash_str(t));
    return ints_hist(c, b, dmk, h, rest);
  };
  for (auto &v : vs)
    if (!go({v})) return;
  if (stateful)
    for (auto &u : vs)
      for (auto &v : vs)
        if (!go({u, v})) return;
  if (f.ty > DEC && !is_ivec(f.ty)) return;
  // the wire side: field value bytes w, then whatever follows in the template
  auto wires = wire_ints();
  std::vector<Hist> pre = {Hist()};
  if (stateful)
    for (size_t k = 0; k < std::min<size_t>(b.want.size(), q ? 2 : 6); ++k) pre.push_back({{(int)k, false}});
  for (auto &h : pre) {
    ByteRun run(b, dmk, h);
    if (!run.ok) continue;
    std::string map(1, h.empty() ? (char)0xff : (char)0xbf);  // all operator bits set, no template id
    map[0] = (char)0xbf;
    for (auto &w : wires) {
      if (f.ty <= U64) ints_wire(c, b, dmk, h, run, map + w + "\xaa");
      else if (f.ty == DEC) {
        ints_wire(c, b, dmk, h, run, map + "\x81" + w + "\xaa\xaa");
        ints_wire(c, b, dmk, h, run, map + w + "\x81\xaa\xaa");
      } else {
        std::string one = f.opt ? "\x82" : "\x81";
        ints_wire(c, b, dmk, h, run, map + one + w + "\xaa");
        ints_wire(c, b, dmk, h, run, map + w + "\x81\xaa");
      }
      if (c.nviol >= 12) return;
    }
  }
}

// ------------------------------------------------------------------ C12
inline void clash(hx::Ctx &c, Bench &b, const Decs &dmk) {
  const sp::Entry &en = *b.e;
  bool fine = en.nbase != 0;
  auto attempt = [&](const std::string &who, std::function<void()> f) {
    std::string err;
    bool threw = false;
    try {
      f();
    } catch (std::exception &x) {
      threw = true;
      err = what(x);
    }
    c.transition();
    c.outcome(threw);
    if (fine && threw) c.violation(en.name + ":refused", who + " over two fields of one type and key: " + err);
    if (!fine && !threw) c.violation(en.name + ":accepted", who + " can be built although two fields of different types share one dictionary key");
  };
  attempt("encoder", [&] { b.c.enc(mfast::malloc_allocator::instance()); });
  for (auto &d : dmk) attempt("decoder " + d.first, [&] { d.second(mfast::malloc_allocator::instance()); });
}
inline void dict_all(hx::Ctx &c, Bench &b, const Decs &dmk) {
  const sp::Entry &en = *b.e;
  if (en.kind == "clash") {
    std::string t = "C12 " + en.name + " clash";
    c.begin(t);
    c.traces();
    c.state(hx::hash_str(t));
    clash(c, b, dmk);
    return;
  }
  bool q = c.quick();
  auto go = [&](const Hist &h) {
    c.begin("C12 " + en.name + " hist h=" + hist_text(h));
    c.traces();
    run_hist(c, b, h, true, dmk);
    return c.nviol < 12;
  };
  all_hists(en.nbase, q ? 3 : 4, [&](const Hist &h) {
    if (en.nbase > 8) {  // quick: at most one reset; depth 4: none
      int n = 0;
      for (auto &x : h) n += x.second;
      if (n > (q ? 1 : 0)) return true;
    }
    return go(h);
  });
  all_hists(b.msgs.size(), 2, [&](const Hist &h) {
    if (q && b.msgs.size() > 40)
      for (auto &x : h)
        if (x.second) return true;
    return go(h);
  });
  if (en.name.substr(0, 10) == "dict.mixed") alt_all(c, b, dmk, 2, q ? 1 : 2);
}

inline void run_one(hx::Ctx &c, Bench &b, const Decs &dmk, const std::string &cs) {
  auto w = split(cs, ' ');
  c.begin(cs);
  if (w[2] == "clash") return clash(c, b, dmk);
  if (w[2].substr(0, 5) == "bits=") {
    std::vector<bool> bits;
    for (char x : w[2].substr(5)) bits.push_back(x == '1');
    return pmap_one(c, b, dmk, bits);
  }
  if (w[2].substr(0, 5) == "vals=") {
    std::vector<Val> h;
    for (auto &x : split(w[2].substr(5), ','))
      if (!x.empty()) h.push_back(val_parse(*b.e, x));
    ints_hist(c, b, dmk, h, {b.e->msgs[b.e->msgs.size() - 1]});
    return;
  }
  if (w[2] == "tid") return run_hist(c, b, hist_parse(param(w, "h")), true, dmk);
  if (w[2] == "wire") {
    Hist h = hist_parse(param(w, "pre"));
    ByteRun run(b, dmk, h);
    if (run.ok) run.run(c, h, unhex(param(w, "hex")), cs, true);
  }
}
}  // namespace more
}  // namespace cc
