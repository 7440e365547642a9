// The history explorer shared by the codec checks: one encoder, any number of decoders, the reference model.
#pragma once
#include "codec.h"
namespace cx {

// ---- C01 / C03: round trip of a history
// conf: judge the bytes by the reference decoder; decs: decoders that must return the messages
inline void run_hist(hx::Ctx &c, Bench &b, const Hist &h, bool conf, const std::vector<std::pair<std::string, MkDec>> &dmk) {
  const sp::Entry &en = *b.e;
  std::string steps;
  auto enc = b.c.enc(mfast::malloc_allocator::instance());
  std::vector<std::unique_ptr<IDec>> decs;
  for (auto &d : dmk) decs.push_back(d.second(mfast::malloc_allocator::instance()));
  RefDecoder ref(en.spec);
  RefEncoder renc(en.spec);
  std::vector<char> out;
  for (size_t k = 0; k < h.size(); ++k) {
    const Val &want = b.want[h[k].first];
    bool reset = h[k].second;
    out.clear();
    auto pre = [&] { return hx::fmt("step %zu of history %s, message %s: ", k, hist_text(h).c_str(), show(want).c_str()); };
    bool encodable = true;
    try {
      renc.encode(want, reset);
    } catch (Unencodable &) {
      encodable = false;
    }
    try {
      enc->encode(b.msgs[h[k].first]->cref(), out, reset);
    } catch (std::exception &e) {
      if (!encodable || renc.may_refuse) return;
      c.violation(en.name + ":encode-throws", pre() + "encoder throws " + what(e));
      return;
    }
    std::string bytes(out.begin(), out.end());
    Val after = ad::read_msg(b.msgs[h[k].first]->cref(), &en.spec);
    if (after != want) {
      c.violation(en.name + ":encode-changes-message", pre() + "after encoding the message reads " + show(after));
      b.msgs[h[k].first].reset(b.make(h[k].first, mfast::malloc_allocator::instance()));
      return;
    }
    c.transition();
    steps += bytes + "|";
    c.state(hx::hash_str(en.name + steps));
    if (conf) {
      const char *p = bytes.data(), *e = p + bytes.size();
      Val got;
      try {
        got = ref.decode(p, e, reset);
      } catch (std::exception &x) {
        c.violation(en.name + ":not-fast", pre() + "encoder wrote [" + hex(bytes) + "] which FAST rejects: " + x.what());
        return;
      }
      if (!conveys(en.spec, want, got)) {
        c.violation(en.name + ":meaning:" + diff_field(en, want, got), pre() + "encoder wrote [" + hex(bytes) + "] which means " + show(got));
        return;
      }
      if (p != e) {
        c.violation(en.name + ":length", pre() + hx::fmt("encoder wrote [%s], the message ends after %zd bytes", hex(bytes).c_str(), p - bytes.data()));
        return;
      }
      if (ref.reportable && !renc.wide) {
        c.violation(en.name + ":reportable", pre() + "encoder wrote [" + hex(bytes) + "]: " + ref.why_reportable);
        return;
      }
    }
    for (size_t d = 0; d < decs.size(); ++d) {
      const std::string &dn = dmk[d].first;
      std::unique_ptr<char[]> exact(new char[bytes.size()]);
      memcpy(exact.get(), bytes.data(), bytes.size());
      const char *p = exact.get(), *e = p + bytes.size();
      Val got;
      try {
        mfast::message_cref m = decs[d]->decode(p, e, reset, k % decs[d]->tokens());
        got = ad::read_msg(m, &en.spec);
      } catch (std::exception &x) {
        c.violation(en.name + ":decode-throws", pre() + dn + " decoder rejects the encoder's bytes [" + hex(bytes) + "]: " + what(x));
        return;
      }
      if (!conveys(en.spec, want, got)) {
        c.violation(en.name + ":mismatch:" + diff_field(en, want, got), pre() + "bytes [" + hex(bytes) + "] decode (" + dn + ") to " + show(got));
        return;
      }
      if (p != e) {
        c.violation(en.name + ":consumed", pre() + hx::fmt("%zu bytes emitted [%s], decoder %s consumed %zd", bytes.size(), hex(bytes).c_str(), dn.c_str(), p - exact.get()));
        return;
      }
    }
  }
}

}  // namespace cx
