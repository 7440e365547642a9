// C21: decimals to text and back, text to decimals, changes of representation; judged by arithmetic on digit strings.
#include "hx.h"
#include "mfast.h"
#include "mfast/decimal_ref.h"
#include "mfast/xml_parser/dynamic_templates_description.h"
#include <climits>
#include <sstream>
using namespace mfast;

// ------------------------------------------------------------ reference numbers: sign, digits without zeros at either end, power of ten
struct Num {
  bool neg = false;
  std::string d;  // "" is zero
  long e = 0;
  bool operator==(const Num &o) const { return d == o.d && (d.empty() || (neg == o.neg && e == o.e)); }
  bool operator!=(const Num &o) const { return !(*this == o); }
};
static Num norm(bool neg, std::string d, long e) {
  size_t k = 0;
  while (k < d.size() && d[k] == '0') ++k;
  d.erase(0, k);
  while (!d.empty() && d.back() == '0') {
    d.pop_back();
    ++e;
  }
  Num n;
  n.neg = neg && !d.empty();
  n.d = d;
  n.e = d.empty() ? 0 : e;
  return n;
}
static Num of(int64_t m, long e) {
  std::string s = std::to_string((long long)m);
  bool neg = s[0] == '-';
  return norm(neg, neg ? s.substr(1) : s, e);
}
static std::string show(const Num &n) { return (n.neg ? "-" : "") + (n.d.empty() ? "0" : n.d) + "e" + std::to_string(n.e); }
static bool fits64(bool neg, const std::string &d) {
  static const std::string mx = "9223372036854775807", mn = "9223372036854775808";
  const std::string &l = neg ? mn : mx;
  return d.size() < l.size() || (d.size() == l.size() && d <= l);
}
// is there a mantissa and an exponent (of at most lim in size) for it
static bool representable(const Num &n, long lo = -32768, long hi = 32767) {
  if (n.d.empty()) return true;
  if (!fits64(n.neg, n.d)) return false;
  std::string d = n.d;
  long e = n.e;
  while (e > hi && fits64(n.neg, d + "0")) {
    d += "0";
    --e;
  }
  return e >= lo && e <= hi;
}
// [+-]?digits[.digits][(e|E)[+-]?digits] at the start of s; returns its length, 0 if there is none. loose: "1." counts, too
static size_t literal(const std::string &s, Num *n, bool *loose) {
  size_t k = 0;
  bool neg = false;
  *loose = false;
  if (k < s.size() && (s[k] == '-' || s[k] == '+')) neg = s[k++] == '-';
  std::string d;
  long e = 0;
  size_t b = k;
  while (k < s.size() && isdigit((unsigned char)s[k])) d += s[k++];
  if (k == b) return 0;
  if (k < s.size() && s[k] == '.') {
    size_t f = k + 1;
    std::string fr;
    while (f < s.size() && isdigit((unsigned char)s[f])) fr += s[f++];
    if (fr.empty()) *loose = true;
    d += fr;
    e = -(long)fr.size();
    k = f;
  }
  if (k < s.size() && (s[k] == 'e' || s[k] == 'E')) {
    size_t f = k + 1;
    bool en = false;
    if (f < s.size() && (s[f] == '-' || s[f] == '+')) en = s[f++] == '-';
    size_t g = f;
    long v = 0;
    while (f < s.size() && isdigit((unsigned char)s[f])) {
      if (v < 10000000) v = v * 10 + (s[f] - '0');
      ++f;
    }
    if (f == g) return 0;  // "1e": not a number
    e += en ? -v : v;
    k = f;
  }
  *n = norm(neg, d, e);
  return k;
}

// ------------------------------------------------------------ fields
static const char *kXml = R"(<templates><template name="T" id="1">
<decimal name="a"/><decimal name="b" presence="optional"/>
<decimal name="c"><exponent><constant value="-3"/></exponent><mantissa/></decimal>
<decimal name="d"><exponent><constant value="0"/></exponent><mantissa/></decimal>
<decimal name="e" presence="optional"><exponent><constant value="2"/></exponent><mantissa><copy/></mantissa></decimal>
<decimal name="f"><exponent><copy value="1"/></exponent><mantissa><delta/></mantissa></decimal>
</template></templates>)";
static const int kConst[] = {INT_MIN, INT_MIN, -3, 0, 2, INT_MIN};
struct Fields {
  dynamic_templates_description d;
  message_type m;
  Fields() : d(kXml), m(malloc_allocator::instance(), d.instruction_with_id(1)) {}
};
static Fields *F;
static decimal_mref field(int k) { return decimal_mref(aggregate_mref(F->m.mref())[k]); }
static Num value_of(const decimal_cref &c) { return of(c.mantissa(), c.exponent()); }
// what a field with a constant exponent holds: digits below the exponent are dropped
static bool scaled(const Num &n, int ce, Num *r) {
  if (n.d.empty()) {
    *r = n;
    return true;
  }
  std::string d = n.d;
  if (n.e >= ce) {
    if (n.e - ce > 40) return false;
    d += std::string(n.e - ce, '0');
    if (!fits64(n.neg, d)) return false;
  } else {
    size_t drop = (size_t)(ce - n.e);
    d = drop >= d.size() ? "" : d.substr(0, d.size() - drop);
  }
  *r = norm(n.neg, d, ce);
  return true;
}

static std::vector<int64_t> mantissas(bool quick) {
  std::set<int64_t> s;
  for (int64_t v = -1100; v <= 1100; ++v)
    if (!quick || v % 10 == 0 || (v > -130 && v < 130)) s.insert(v);
  int64_t p = 1;
  for (int k = 0; k <= 18; ++k) {
    for (int m : {1, 2, 5, 9, 12, 99})
      for (int64_t dlt = -2; dlt <= 2; ++dlt) {
        __int128 x = (__int128)p * m + dlt;
        if (x <= INT64_MAX) { s.insert((int64_t)x); s.insert((int64_t)-x); }
      }
    if (k < 18) p *= 10;
  }
  for (int k = 0; k < 64; ++k)
    for (int64_t dlt = -2; dlt <= 2; ++dlt) {
      int64_t x = (int64_t)(((uint64_t)1 << k) + (uint64_t)dlt);
      s.insert(x);
      s.insert(x == INT64_MIN ? x : -x);
    }
  for (int k = 0; k < 20; ++k) {
    s.insert(INT64_MAX - k);
    s.insert(INT64_MIN + k);
  }
  return std::vector<int64_t>(s.begin(), s.end());
}
static void round_trip(hx::Ctx &c, int64_t m, int e) {
  c.begin(hx::fmt("C21 rt %lld %d", (long long)m, e));
  c.transition();
  Num want = of(m, e), n;
  std::ostringstream os;
  os << decimal_value_storage(m, (int16_t)e);
  std::string t = os.str();
  bool loose;
  size_t len = literal(t, &n, &loose);
  if (len != t.size() || loose || n != want) { c.violation("print", hx::fmt("%lld times 10^%d is printed as ", (long long)m, e) + t.substr(0, 120)); return; }
  for (const char *tail : {"", " ", ",", "}"}) {
    std::istringstream is(t + tail);
    decimal_value_storage r(7, 7);
    is >> r;
    if (!is && !is.eof()) { c.violation("read-back", "reading back " + t.substr(0, 120) + " fails"); return; }
    if (is.fail()) { c.violation("read-back", "reading back " + t.substr(0, 120) + " fails"); return; }
    if (of(r.mantissa(), r.exponent()) != want) { c.violation("round-trip", hx::fmt("%lld times 10^%d becomes %lld times 10^%d by printing and reading back", (long long)m, e, (long long)r.mantissa(), r.exponent())); return; }
    is.clear();
    if (is.get() != (*tail ? *tail : EOF)) { c.violation("read-consumes", "reading " + t.substr(0, 120) + tail + " consumes more or less than the number"); return; }
  }
  // through a field
  for (int k : {0, 1, 5}) {
    decimal_mref f = field(k);
    if (e >= -63 && e <= 63) {
      f.as(m, (int16_t)e);
      if (!f.present() || f.mantissa() != m || f.exponent() != e) { c.violation("as(mantissa, exponent)", hx::fmt("a field set to %lld, %d holds %lld, %d", (long long)m, e, (long long)f.mantissa(), f.exponent())); return; }
      if (decimal_cref(f).to_string() != t) { c.violation("to_string", "to_string() differs from printing"); return; }
      f.normalize();
      if (value_of(f) != want) { c.violation("normalize", hx::fmt("normalize() changes %lld times 10^%d to %lld times 10^%d", (long long)m, e, (long long)f.mantissa(), f.exponent())); return; }
      if (f.exponent() > 63 && e <= 63) { c.violation("normalize-range", hx::fmt("normalize() gives %lld times 10^%d the exponent %d, which cannot be encoded", (long long)m, e, f.exponent())); return; }
      decimal v = decimal_cref(f).value();
      if (v.compare(decimal((std::to_string((long long)m) + "e" + std::to_string(e)).c_str()))) { c.violation("value()", hx::fmt("value() of %lld times 10^%d is another number", (long long)m, e)); return; }
      if (want.d.size() <= 18) {
        decimal_mref g = field(1 - (k == 1));
        g.as(v);
        if (!g.present() || value_of(g) != want) { c.violation("as(decimal)", hx::fmt("assigning the decimal %lld times 10^%d gives %lld times 10^%d", (long long)m, e, (long long)g.mantissa(), g.exponent())); return; }
      }
    }
    f.as(t);
    if (!f.present() || value_of(f) != want) { c.violation("as(text)", "assigning the text " + t.substr(0, 100) + " gives " + show(value_of(f))); return; }
  }
  for (int k = 2; k < 5; ++k) {  // constant exponent
    Num w;
    bool ok = scaled(want, kConst[k], &w);
    for (int how = 0; how < 3; ++how) {
      decimal_mref f = field(k);
      bool threw = false;
      if (how == 2 && want.d.size() > 18) continue;
      try {
        if (how == 0) f.as(t);
        else if (how == 1) { f.as(m, (int16_t)e > 63 ? 63 : (int16_t)e < -63 ? -63 : (int16_t)e); if (e > 63 || e < -63) break; f.normalize(); }
        else f.as(make_decimal(m, (int16_t)e));
      } catch (const std::exception &) {
        threw = true;
      }
      if (threw == ok) { c.violation(hx::fmt("constant-exponent-range-%d", how), hx::fmt("%lld times 10^%d with the constant exponent %d %s", (long long)m, e, kConst[k], ok ? "is refused" : "does not fit, but is not refused")); return; }
      if (ok && (value_of(f) != w || f.exponent() != kConst[k])) { c.violation(hx::fmt("constant-exponent-%d", how), hx::fmt("%lld times 10^%d with the constant exponent %d becomes %lld times 10^%d", (long long)m, e, kConst[k], (long long)f.mantissa(), f.exponent())); return; }
    }
  }
}
// the text t from a stream and by as()
static void text_case(hx::Ctx &c, const std::string &t) {
  c.begin("C21 text " + t);
  c.transition();
  Num n;
  bool loose;
  size_t len = literal(t, &n, &loose);
  if (len && !loose) {
    bool can = representable(n);
    std::istringstream is(t);
    decimal_value_storage r(7, 7);
    is >> r;
    bool edge = std::labs(n.e) > 32600 && std::labs(n.e) < 32900;  // may be refused, as another representation would be needed
    if (edge && is.fail()) return;
    if (edge) can = true;
    if (is.fail() == can) { c.violation(can ? "read-refused" : "read-unrepresentable", "reading " + t + (can ? " fails" : hx::fmt(" gives %lld times 10^%d instead of a failure", (long long)r.mantissa(), r.exponent()))); return; }
    if (can) {
      if (of(r.mantissa(), r.exponent()) != n) { c.violation("read-value", "reading " + t + hx::fmt(" gives %lld times 10^%d", (long long)r.mantissa(), r.exponent())); return; }
      is.clear();
      int g = is.get();
      if (g != (len < t.size() ? (unsigned char)t[len] : EOF)) { c.violation("read-consumes", "reading " + t + " consumes more or less than the number"); return; }
    } else if (r.mantissa() != 7 || r.exponent() != 7) { c.violation("read-alters", "the failed reading of " + t + " changes the value"); return; }
  }
  if (!len) {
    std::istringstream is(t);
    decimal_value_storage r(7, 7);
    is >> r;
    if (!is.fail() && t.find_first_of(" ") == std::string::npos) { c.violation("read-nonsense", "reading " + t + hx::fmt(" gives %lld times 10^%d", (long long)r.mantissa(), r.exponent())); return; }
  }
  if (loose || t.find(' ') != std::string::npos || (len && std::labs(n.e) > 32600 && std::labs(n.e) < 32900)) return;
  decimal_mref f = field(0);
  f.as(7, 7);
  bool threw = false;
  try {
    f.as(t);
  } catch (const std::exception &) {
    threw = true;
  }
  bool want = len && len == t.size() && representable(n);
  if (threw == want) { c.violation(want ? "as-text-refused" : "as-text-nonsense", "assigning the text " + t + (want ? " is refused" : hx::fmt(" gives %lld times 10^%d", (long long)f.mantissa(), f.exponent()))); return; }
  if (want && value_of(f) != n) c.violation("as-text-value", "assigning the text " + t + hx::fmt(" gives %lld times 10^%d", (long long)f.mantissa(), f.exponent()));
  if (!want && (f.mantissa() != 7 || f.exponent() != 7)) c.violation("as-text-alters", "the refused text " + t + " changes the field");
}
template <class T> static void int_case(hx::Ctx &c, T v, const char *tn) {
  bool neg = v < 0;
  std::string s = std::to_string(v);
  c.begin(hx::fmt("C21 int %s ", tn) + s);
  c.transition();
  Num n = norm(neg, neg ? s.substr(1) : s, 0);
  for (int k = 0; k < 6; ++k) {
    Num w = n;
    bool ok = kConst[k] == INT_MIN ? true : scaled(n, kConst[k], &w), threw = false;
    bool need = kConst[k] == INT_MIN ? fits64(neg, neg ? s.substr(1) : s) : ok && fits64(neg, neg ? s.substr(1) : s);
    decimal_mref f = field(k);
    try {
      f.as(v);
    } catch (const std::exception &) {
      threw = true;
    }
    if (threw && need) { c.violation("as(integer)-refused", "assigning the integer " + s + " is refused"); return; }
    if (!threw && (!ok || value_of(f) != w)) { c.violation("as(integer)", "assigning the integer " + s + hx::fmt(" gives %lld times 10^%d", (long long)f.mantissa(), f.exponent())); return; }
  }
}

static const char kAlpha[] = "019-+.eE ,x";
static void strings(hx::Ctx &c, std::string s, size_t max) {
  text_case(c, s);
  c.state(hx::hash_str(s));
  if (s.size() == max) return;
  for (const char *p = kAlpha; *p; ++p) strings(c, s + *p, max);
}
static std::vector<std::string> parts(bool quick) {  // digit strings
  std::vector<std::string> r;
  for (const char *p : {"0", "1", "5", "9", "00", "01", "10", "007", "100", "123", "999"}) r.push_back(p);
  for (size_t n : {4, 8, 17, 18, 19, 20, 21, 25, 40}) {
    r.push_back("1" + std::string(n - 1, '0'));
    r.push_back(std::string(n, '0'));
    r.push_back(std::string(n, '9'));
    r.push_back(std::string(n - 1, '0') + "1");
    r.push_back("1" + std::string(n - 2, '0') + "1");
    if (!quick) {
      r.push_back("12345" + std::string(n, '0'));
      r.push_back(std::string(n, '1'));
      r.push_back("0" + std::string(n, '2') + "00");
    }
  }
  for (const char *p : {"9223372036854775806", "9223372036854775807", "9223372036854775808", "9223372036854775809", "92233720368547758070", "92233720368547758080", "922337203685477580", "7", "8", "07", "08", "80", "18446744073709551615", "18446744073709551616", "36893488147419103233"}) r.push_back(p);
  return r;
}
static std::vector<int64_t> mant_;
int main(int argc, char **argv) {
  return hx::drive(argc, argv, [](const std::string &, const std::string &tier) {
    bool quick = tier != "thorough";
    F = new Fields;
    mant_ = mantissas(quick);
    size_t rt = (mant_.size() + 15) / 16;
    auto ps = std::make_shared<std::vector<std::string>>(parts(quick));
    size_t nl = ps->size(), ng = sizeof kAlpha - 1;
    hx::Harness h;
    h.name = "dec";
    h.items = rt + nl + ng * ng + 1;
    h.run = [=](hx::Ctx &c, size_t i) {
      if (i < rt) {
        for (size_t k = i * 16; k < mant_.size() && k < i * 16 + 16; ++k) {
          for (int e = -70; e <= 70; e += (c.quick() && (e < -24 || e > 24) && e != 62 && e != 63 && e != -64) ? 2 : 1) {
            round_trip(c, mant_[k], e);
            c.state(hx::hash_str(hx::fmt("%lld %d", (long long)mant_[k], e)));
          }
          for (int e : {100, 128, 255, 256, -127, -128, -129, 400, -400}) round_trip(c, mant_[k], e);
        }
        return;
      }
      i -= rt;
      if (i < nl) {
        std::vector<std::string> fr{""};
        for (auto &p : *ps) fr.push_back("." + p);
        for (const char *sg : {"", "-", "+"})
          for (auto &f : fr)
            for (const char *ex : {"", "e0", "E5", "e+12", "e-1", "e-20", "E40", "e007", "e-63", "e32767", "e32760", "e-32760", "e32768", "e40000", "e-40000", "e99999999999999999999", "e-99999999999999999999"}) {
              if (c.quick() && *sg == '+' && *ex) continue;
              std::string t = sg + (*ps)[i] + f + ex;
              text_case(c, t);
              c.state(hx::hash_str(t));
              if (!*ex) text_case(c, t + ",");
            }
        return;
      }
      i -= nl;
      if (i < ng * ng) {
        if (i < ng) text_case(c, std::string(1, kAlpha[i]));
        strings(c, std::string(1, kAlpha[i / ng]) + kAlpha[i % ng], c.quick() ? 5 : 6);
        return;
      }
      text_case(c, "");
      for (auto m : mant_) {
        int_case<int64_t>(c, m, "i64");
        int_case<uint64_t>(c, (uint64_t)m, "u64");
        int_case<int>(c, (int)m, "i32");
        int_case<unsigned>(c, (unsigned)m, "u32");
        int_case<short>(c, (short)m, "i16");
      }
    };
    h.run_case = [](hx::Ctx &c, const std::string &s) {
      long long m;
      int e;
      char tn[8], v[40];
      if (sscanf(s.c_str(), "C21 rt %lld %d", &m, &e) == 2) round_trip(c, m, e);
      else if (s.compare(0, 9, "C21 text ") == 0) text_case(c, s.substr(9));
      else if (sscanf(s.c_str(), "C21 int %7s %39s", tn, v) == 2) {
        if (!strcmp(tn, "u64")) int_case<uint64_t>(c, strtoull(v, nullptr, 10), tn);
        else if (!strcmp(tn, "u32")) int_case<unsigned>(c, (unsigned)strtoull(v, nullptr, 10), tn);
        else if (!strcmp(tn, "i32")) int_case<int>(c, atoi(v), tn);
        else if (!strcmp(tn, "i16")) int_case<short>(c, (short)atoi(v), tn);
        else int_case<int64_t>(c, strtoll(v, nullptr, 10), tn);
      }
    };
    h.crash_key = [](const std::string &s) { return s.substr(0, 8); };
    return h;
  });
}
