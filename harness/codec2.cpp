// Generated-code codec (fast_encoder_v2 / fast_decoder_v2): message histories, alone and against the run-time codec.
#include "codec_checks.h"
#include "v2glue.h"
using namespace cx;

static std::vector<sp::Entry> space_;
static std::string check_;
static bool own_;  // decided here and not in codec_checks.h
typedef std::vector<std::pair<std::string, MkDec>> Decs;

struct Two {
  Loaded d;
  Bench b1, b2;  // run-time templates, generated templates
};
static void with_two(hx::Ctx &c, size_t k, std::function<void(Two &)> f) {
  const sp::Entry &e = space_[k];
  c.begin(check_ + " " + e.name + " load");
  Two t;
  try {
    t.d = load(e.spec);
    t.b1.init(e, v1_codecs(t.d.descs));
    t.b2.init(e, v2::reg().at(e.same_as >= 0 ? e.same_as : (int)k));
  } catch (std::exception &x) {
    c.violation(e.name + ":load", std::string("messages cannot be built: ") + what(x) + "\n" + spec_xml(e.spec));
    return;
  }
  f(t);
}
static void one(hx::Ctx &c, Two &t, const Hist &h, const std::string &dir) {
  if (check_ == "C02") run_hist(c, t.b2, h, false, t.b2.c.decs);
  else if (check_ == "C03") run_hist(c, t.b2, h, true, Decs());
  else if (dir == "1to2") run_hist(c, t.b1, h, false, t.b2.c.decs);
  else run_hist(c, t.b2, h, false, t.b1.c.decs);
}
static void run_item(hx::Ctx &c, size_t i) {
  const sp::Entry &e = space_[i];
  if (!e.v2ok || !cc::uses(check_, e)) return;
  with_two(c, i, [&](Two &t) {
    if (!own_) return cc::run_entry(c, t.b2, check_);
    std::vector<std::string> dirs = {"2to2"};
    if (check_ == "C07") dirs = {"1to2", "2to1"};
    for (auto &dir : dirs) {
      std::string pre = check_ + " " + e.name + " " + dir + " h=";
      all_hists(t.b2.msgs.size(), c.quick() ? e.depth_quick : e.depth_thorough, [&](const Hist &h) {
        c.begin(pre + hist_text(h));
        c.traces();
        one(c, t, h, dir);
        return true;
      });
    }
  });
}
static void run_case(hx::Ctx &c, const std::string &cs) {
  auto w = split(cs, ' ');
  for (size_t k = 0; k < space_.size(); ++k)
    if (w.size() > 1 && space_[k].name == w[1])
      with_two(c, k, [&](Two &t) {
        if (!own_) return cc::run_one(c, t.b2, check_, cs);
        if (w.size() > 3 && w[3].substr(0, 2) == "h=") {
          c.begin(cs);
          one(c, t, hist_parse(w[3].substr(2)), w[2]);
        }
      });
}
int main(int argc, char **argv) {
  return hx::drive(argc, argv, [](const std::string &check, const std::string &tier) {
    check_ = check;
    own_ = check == "C02" || check == "C03" || check == "C07";
    space_ = sp::full_space();
    hx::Harness h;
    h.name = "codec2";
    h.items = space_.size();
    h.run = run_item;
    h.run_case = run_case;
    h.crash_key = [](const std::string &s) { auto w = split(s, ' '); return w.size() > 1 ? w[1] : s; };
    return h;
  });
}
