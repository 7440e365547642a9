#pragma once
#include "codec.h"
#include "mfast/coder/fast_encoder_v2.h"
#include "mfast/coder/fast_decoder_v2.h"
// Registration of generated code with the generic harnesses; every generated glue file includes this.
namespace v2 {
template <unsigned N> struct Dec : cx::IDec {
  mfast::fast_decoder_v2<N> d;
  template <class... D> Dec(mfast::allocator *a, const D *...t) : d(a, t...) {}
  unsigned tokens() const override { return N; }
  mfast::message_cref decode(const char *&b, const char *e, bool reset, unsigned t) override { return d.decode(t, b, e, reset); }
};
template <> struct Dec<0> : cx::IDec {
  mfast::fast_decoder_v2<0> d;
  template <class... D> Dec(mfast::allocator *a, const D *...t) : d(a, t...) {}
  mfast::message_cref decode(const char *&b, const char *e, bool reset, unsigned) override { return d.decode(b, e, reset); }
};
inline std::map<int, cx::Codecs> &reg() { static std::map<int, cx::Codecs> r; return r; }
template <class... D> int add(int k, const D *...d) {
  cx::Codecs c;
  c.descs = {d...};
  c.enc = [d...](mfast::allocator *a) { return std::unique_ptr<cx::IEnc>(new cx::EncW<mfast::fast_encoder_v2>(a, d...)); };
  c.decs.push_back({"v2<0>", [d...](mfast::allocator *a) { return std::unique_ptr<cx::IDec>(new Dec<0>(a, d...)); }});
  c.decs.push_back({"v2<2>", [d...](mfast::allocator *a) { return std::unique_ptr<cx::IDec>(new Dec<2>(a, d...)); }});
  reg()[k] = c;
  return 0;
}
}
