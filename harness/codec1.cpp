// Run-time-template codec (fast_encoder / fast_decoder): message histories.
#include "codec_checks.h"
using namespace cx;

static std::vector<sp::Entry> space_;
static std::string check_;

static void with_bench(hx::Ctx &c, const sp::Entry &e, std::function<void(Bench &)> f) {
  c.begin(check_ + " " + e.name + " load");
  Loaded d;
  Bench b;
  try {
    d = load(e.spec);
    b.init(e, v1_codecs(d.descs));
  } catch (std::exception &x) {
    c.violation(e.name + ":load", std::string("template cannot be loaded or its messages built: ") + what(x) + "\n" + spec_xml(e.spec));
    return;
  }
  f(b);
}

static void run_item(hx::Ctx &c, size_t i) {
  const sp::Entry &e = space_[i];
  if (!cc::uses(check_, e)) return;
  with_bench(c, e, [&](Bench &b) {
    if (check_ != "C01" && check_ != "C03") return cc::run_entry(c, b, check_);
    std::string pre = check_ + " " + e.name + " h=";
    all_hists(b.msgs.size(), c.quick() ? e.depth_quick : e.depth_thorough, [&](const Hist &h) {
      c.begin(pre + hist_text(h));
      c.traces();
      run_hist(c, b, h, check_ == "C03", check_ == "C03" ? std::vector<std::pair<std::string, MkDec>>() : b.c.decs);
      return true;
    });
  });
}
static void run_case(hx::Ctx &c, const std::string &cs) {
  auto w = split(cs, ' ');
  for (auto &e : space_)
    if (w.size() > 1 && e.name == w[1])
      with_bench(c, e, [&](Bench &b) {
        if (check_ != "C01" && check_ != "C03") return cc::run_one(c, b, check_, cs);
        if (w.size() > 2 && w[2].substr(0, 2) == "h=") {
          c.begin(cs);
          run_hist(c, b, hist_parse(w[2].substr(2)), check_ == "C03", check_ == "C03" ? std::vector<std::pair<std::string, MkDec>>() : b.c.decs);
        }
      });
}

int main(int argc, char **argv) {
  return hx::drive(argc, argv, [](const std::string &check, const std::string &tier) {
    check_ = check;
    space_ = sp::full_space();
    hx::Harness h;
    h.name = "codec1";
    h.items = space_.size();
    h.run = run_item;
    h.run_case = run_case;
    h.crash_key = [](const std::string &s) { auto w = split(s, ' '); return w.size() > 1 ? w[1] : s; };
    return h;
  });
}
