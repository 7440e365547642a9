// C15: operation sequences on string and vector fields against std::vector.
// Explicit-state breadth-first exploration of the real field storage: a state is (contents, presence, ownership and
// block size of the field and of a partner field); every operation is applied in every state reached within the depth.
#include "hx.h"
#include "alloc.h"
#include "mfast.h"
#include "mfast/malloc_allocator.h"
#include "mfast/arena_allocator.h"
#include "mfast/string_ref.h"
#include "mfast/vector_ref.h"
#include "mfast/xml_parser/dynamic_templates_description.h"
#include <deque>
#include <list>
#include <sstream>
#include <iterator>
using namespace mfast;

template <class M_, class C_, class T_, bool S> struct Kind {
  static const bool has_initial = sizeof(T_) == 1;
  typedef M_ M;
  typedef C_ C;
  typedef T_ T;
  static const bool is_string = S;
};
typedef Kind<ascii_string_mref, ascii_string_cref, char, true> KA;
typedef Kind<unicode_string_mref, unicode_string_cref, char, true> KU;
typedef Kind<byte_vector_mref, byte_vector_cref, unsigned char, false> KB;
typedef Kind<int32_vector_mref, int32_vector_cref, int32_t, false> KI32;
typedef Kind<uint32_vector_mref, uint32_vector_cref, uint32_t, false> KU32;
typedef Kind<int64_vector_mref, int64_vector_cref, int64_t, false> KI64;
typedef Kind<uint64_vector_mref, uint64_vector_cref, uint64_t, false> KU64;

static std::string xml_of(const std::string &el, const std::string &attr, bool init) {
  auto f = [&](const char *n, const char *pres, const char *body) { return "<" + el + attr + " name=\"" + n + "\"" + pres + ">" + body + "</" + el + ">"; };
  std::string i = init ? (el == "byteVector" ? "<copy value=\"61 62 63\"/>" : "<copy value=\"abc\"/>") : "";
  return "<templates><template name=\"T\" id=\"1\">" + f("a", " presence=\"optional\"", "") + f("b", "", "") + f("c", " presence=\"optional\"", i.c_str()) + f("d", "", i.c_str()) + f("p", " presence=\"optional\"", i.c_str()) + f("q", "", i.c_str()) + "</template></templates>";
}

template <class T> struct Cell {
  bool present = false, sure = true;  // sure: presence is specified
  bool owned = false;                 // known to be in storage of its own
  std::vector<T> v;
};
template <class T> T val(int k) {
  static const long long v[] = {1, 2, -1, 0, 0x7f};
  return (T)v[k % 5];
}
template <class K> struct World {
  typedef typename K::T T;
  typename K::M a, p;
  Cell<T> ma, mp;
  const std::vector<T> *init_a, *init_p;
  bool has_init_a, has_init_p;
  T outside[4];
  std::string why;
  void expect(bool b, const char *w) {
    if (!b && why.empty()) why = w;
  }
};
template <class T> struct InIt {  // an input iterator, nothing more
  typedef std::input_iterator_tag iterator_category;
  typedef T value_type;
  typedef std::ptrdiff_t difference_type;
  typedef const T *pointer;
  typedef const T &reference;
  const T *p;
  const T &operator*() const { return *p; }
  InIt &operator++() { ++p; return *this; }
  InIt operator++(int) { InIt r = *this; ++p; return r; }
  bool operator==(const InIt &o) const { return p == o.p; }
  bool operator!=(const InIt &o) const { return p != o.p; }
};
// the operations; each returns false when its precondition does not hold
template <class K> struct Op {
  std::string name;
  std::function<bool(World<K> &)> f;
};
static const size_t MAXN = 7;

template <class T> void refer(const vector_mref_base<T> &m, const typename vector_mref_base<T>::value_type *p, size_t n) { m.refers_to(p, n); }
template <class M> void to_initial(const M &m, std::true_type) { m.to_initial_value(); }
template <class M> void to_initial(const M &, std::false_type) {}
template <class C> bool is_initial(const C &c, bool, std::true_type) { return c.is_initial_value(); }
template <class C> bool is_initial(const C &, bool want, std::false_type) { return want; }
template <class K> void string_ops(std::vector<Op<K>> &, std::true_type, size_t);
template <class K> void string_ops(std::vector<Op<K>> &, std::false_type, size_t) {}
template <class K> std::vector<Op<K>> all_ops(bool quick) {
  typedef typename K::T T;
  typedef World<K> W;
  std::vector<Op<K>> r;
  auto add = [&](const std::string &n, std::function<bool(W &)> f) { r.push_back({n, f}); };
  auto now = [](Cell<T> &c) { c.present = true; c.sure = true; c.owned = true; };
  auto pattern = [](size_t n, int s) {
    std::vector<T> x;
    for (size_t k = 0; k < n; ++k) x.push_back(val<T>((int)k + s));
    return x;
  };
  for (size_t n = 0; n <= 3; ++n) {
    add(hx::fmt("assign%zu", n), [=](W &w) { auto x = pattern(n, 0); w.a.assign(x.begin(), x.end()); w.ma.v = x; now(w.ma); return true; });
    add(hx::fmt("assign-input%zu", n), [=](W &w) { auto x = pattern(n, 1); w.a.assign(InIt<T>{x.data()}, InIt<T>{x.data() + n}); w.ma.v = x; now(w.ma); return true; });
    add(hx::fmt("assign-fill%zu", n), [=](W &w) { w.a.assign(n, val<T>(2)); w.ma.v.assign(n, val<T>(2)); now(w.ma); return true; });
    add(hx::fmt("resize%zu", n), [=](W &w) { w.a.resize(n); w.ma.v.resize(n); now(w.ma); return true; });
    add(hx::fmt("grow%zu", n), [=](W &w) { if (w.ma.v.size() + n > MAXN) return false; size_t m = w.ma.v.size() + n; w.a.resize(m, val<T>(2)); w.ma.v.resize(m, val<T>(2)); now(w.ma); return true; });
  }
  for (size_t n : {0, 1, 2, 9, 40}) add(hx::fmt("reserve%zu", n), [=](W &w) {
    w.a.reserve(n);
    if (!w.ma.owned && n < w.ma.v.size()) w.ma.v.resize(w.ma.v.size());  // reserve never shrinks the contents
    if (!w.ma.present) w.ma.sure = false;
    else w.ma.owned = false;  // may or may not have moved
    return true;
  });
  add("push", [=](W &w) { if (w.ma.v.size() >= MAXN) return false; w.a.push_back(val<T>(3)); w.ma.v.push_back(val<T>(3)); now(w.ma); return true; });
  add("push2", [=](W &w) { if (w.ma.v.size() >= MAXN) return false; w.a.push_back(val<T>(2)); w.ma.v.push_back(val<T>(2)); now(w.ma); return true; });
  add("pop", [=](W &w) { if (w.ma.v.empty()) return false; w.a.pop_back(); w.ma.v.pop_back(); return true; });
  add("omit", [=](W &w) { if (w.a.instruction()->optional() == false) return false; w.a.omit(); w.ma.v.clear(); w.ma.present = false; w.ma.sure = true; return true; });
  if (K::has_initial) add("initial", [=](W &w) {
    if (!w.has_init_a && !w.a.instruction()->optional()) return false;
    to_initial(w.a, std::integral_constant<bool, K::has_initial>());
    if (w.has_init_a) { w.ma.v = *w.init_a; w.ma.present = true; w.ma.sure = true; w.ma.owned = false; }
    else { w.ma.v.clear(); w.ma.present = false; w.ma.sure = true; }
    return true;
  });
  for (int posk = 0; posk < 3; ++posk) {  // begin, after the first, end
    auto pos = [posk](size_t n) { return posk == 0 ? 0 : posk == 1 ? std::min<size_t>(1, n) : n; };
    add(hx::fmt("insert@%d", posk), [=](W &w) {
      if (w.ma.v.size() >= MAXN) return false;
      size_t p = pos(w.ma.v.size());
      auto it = w.a.insert(w.a.begin() + p, val<T>(4));
      w.ma.v.insert(w.ma.v.begin() + p, val<T>(4));
      now(w.ma);
      w.expect(it == w.a.begin() + p, "insert returns a position other than that of the inserted element");
      return true;
    });
    for (size_t n : {0, 1, 2}) {
      add(hx::fmt("insert-fill%zu@%d", n, posk), [=](W &w) {
        if (w.ma.v.size() + n > MAXN) return false;
        size_t p = pos(w.ma.v.size());
        w.a.insert(w.a.begin() + p, n, val<T>(2));
        w.ma.v.insert(w.ma.v.begin() + p, n, val<T>(2));
        now(w.ma);
        return true;
      });
      add(hx::fmt("insert-range%zu@%d", n, posk), [=](W &w) {
        if (w.ma.v.size() + n > MAXN) return false;
        size_t p = pos(w.ma.v.size());
        auto x = pattern(n, 2);
        w.a.insert(w.a.begin() + p, x.data(), x.data() + n);
        w.ma.v.insert(w.ma.v.begin() + p, x.begin(), x.end());
        now(w.ma);
        return true;
      });
    }
    add(hx::fmt("insert-input2@%d", posk), [=](W &w) {
      if (w.ma.v.size() + 2 > MAXN) return false;
      size_t p = pos(w.ma.v.size());
      auto x = pattern(2, 3);
      w.a.insert(w.a.begin() + p, InIt<T>{x.data()}, InIt<T>{x.data() + 2});
      w.ma.v.insert(w.ma.v.begin() + p, x.begin(), x.end());
      now(w.ma);
      return true;
    });
    for (size_t cnt : {(size_t)0, (size_t)1, (size_t)2, (size_t)-1})
      for (size_t n : {0, 1, 2, 3}) add(hx::fmt("replace@%d:%d:%zu", posk, (int)cnt, n), [=](W &w) {
        size_t p = pos(w.ma.v.size()), c = std::min(cnt, w.ma.v.size() - p);
        if (w.ma.v.size() - c + n > MAXN) return false;
        auto x = pattern(n, 1);
        w.a.replace(p, cnt, x.data(), n);
        w.ma.v.erase(w.ma.v.begin() + p, w.ma.v.begin() + p + c);
        w.ma.v.insert(w.ma.v.begin() + p, x.begin(), x.end());
        now(w.ma);
        return true;
      });
  }
  add("refers_to3", [=](W &w) { refer(w.a, w.outside, 3); w.ma.v.assign(w.outside, w.outside + 3); w.ma.present = w.ma.sure = true; w.ma.owned = false; return true; });
  add("refers_to0", [=](W &w) { refer(w.a, w.outside, 0); w.ma.v.clear(); w.ma.present = w.ma.sure = true; w.ma.owned = false; return true; });
  add("as-partner", [=](W &w) { w.a.as(typename K::C(w.p)); w.ma = w.mp; if (w.mp.present) now(w.ma); return w.mp.sure; });
  add("partner-as", [=](W &w) { if (!w.ma.sure) return false; w.p.as(typename K::C(w.a)); w.mp = w.ma; if (w.ma.present) now(w.mp); return true; });
  add("as-self", [=](W &w) { if (!w.ma.sure) return false; w.a.as(typename K::C(w.a)); if (w.ma.present) now(w.ma); return true; });
  add("self-tail", [=](W &w) { if (w.ma.v.size() < 2) return false; w.a.assign(w.a.begin() + 1, w.a.end()); w.ma.v.erase(w.ma.v.begin()); now(w.ma); return true; });
  add("swap", [=](W &w) { w.a.swap(w.p); std::swap(w.ma, w.mp); return true; });
  add("partner-assign2", [=](W &w) { auto x = pattern(2, 4); w.p.assign(x.begin(), x.end()); w.mp.v = x; now(w.mp); return true; });
  add("partner-omit", [=](W &w) { if (!w.p.instruction()->optional()) return false; w.p.omit(); w.mp.v.clear(); w.mp.present = false; w.mp.sure = true; return true; });
  add("partner-refers", [=](W &w) { refer(w.p, w.outside + 1, 2); w.mp.v.assign(w.outside + 1, w.outside + 3); w.mp.present = w.mp.sure = true; w.mp.owned = false; return true; });
  add("set0", [=](W &w) { if (w.ma.v.empty() || !w.ma.owned) return false; w.a[0] = val<T>(4); w.ma.v[0] = val<T>(4); return true; });
  add("setlast", [=](W &w) { if (w.ma.v.empty() || !w.ma.owned) return false; w.a.end()[-1] = val<T>(3); w.ma.v.back() = val<T>(3); return true; });
  string_ops<K>(r, std::integral_constant<bool, K::is_string>(), MAXN);
  (void)quick;
  return r;
}
template <class K> void string_ops(std::vector<Op<K>> &r, std::true_type, size_t maxn) {
  typedef World<K> W;
  auto add = [&](const std::string &n, std::function<bool(W &)> f) { r.push_back({n, f}); };
  auto app = [=](W &w, const std::string &s) {
    w.ma.v.insert(w.ma.v.end(), s.begin(), s.end());
    w.ma.present = w.ma.sure = w.ma.owned = true;
    return true;
  };
  auto set = [=](W &w, const std::string &s) {
    w.ma.v.assign(s.begin(), s.end());
    w.ma.present = w.ma.sure = w.ma.owned = true;
    return true;
  };
  for (std::string s : {"", "q", "xy"}) {
    add("append\"" + s + "\"", [=](W &w) { if (w.ma.v.size() + s.size() > maxn) return false; w.a.append(boost::string_ref(s)); return app(w, s); });
    add("append-n\"" + s + "\"", [=](W &w) { if (w.ma.v.size() + s.size() > maxn) return false; w.a.append(s.data(), s.size()); return app(w, s); });
    add("+=\"" + s + "\"", [=](W &w) { if (w.ma.v.size() + s.size() > maxn) return false; w.a += boost::string_ref(s); return app(w, s); });
    add("as\"" + s + "\"", [=](W &w) { w.a.as(boost::string_ref(s)); return set(w, s); });
    add("=\"" + s + "\"", [=](W &w) { w.a = boost::string_ref(s); return set(w, s); });
  }
  add("append-sub", [=](W &w) { if (w.ma.v.size() + 2 > maxn) return false; w.a.append(boost::string_ref("pqrst"), 1, 2); return app(w, "qr"); });
  add("append-fill", [=](W &w) { if (w.ma.v.size() + 2 > maxn) return false; w.a.append((size_t)2, 'z'); return app(w, "zz"); });
  add("+=char", [=](W &w) { if (w.ma.v.size() + 1 > maxn) return false; w.a += 'k'; return app(w, "k"); });
  add("append-iter", [=](W &w) { if (w.ma.v.size() + 2 > maxn) return false; std::string s = "uv"; w.a.append(s.begin(), s.end()); return app(w, s); });
  add("c_str", [=](W &w) {
    if (w.ma.owned || (w.has_init_a && w.ma.v == *w.init_a && w.ma.present)) {
      typename K::C c(w.a);
      std::string s = c.c_str();
      w.expect(s == std::string(w.ma.v.begin(), std::find(w.ma.v.begin(), w.ma.v.end(), 0)) && c.c_str()[w.ma.v.size()] == 0, "c_str() differs from the contents");
    }
    return true;
  });
  add("refers-ref", [=](W &w) { static const char t[] = "lit"; w.a.refers_to(boost::string_ref(t, 3)); w.ma.v.assign(t, t + 3); w.ma.present = w.ma.sure = true; w.ma.owned = false; return true; });
  add("shallow", [=](W &w) { static const char t[] = "sh"; w.a.shallow_assign(t); w.ma.v.assign(t, t + 2); w.ma.present = w.ma.sure = true; w.ma.owned = false; return true; });
}

struct Cfg {
  std::string name;
  std::function<void(hx::Ctx &, const std::vector<int> *, const std::string &)> run;
};

template <class K> struct Runner {
  typedef typename K::T T;
  std::string name;
  std::shared_ptr<dynamic_templates_description> d;
  int field;
  int alloc_kind;
  std::vector<Op<K>> ops;

  template <class C> static std::string text(const C &c) {
    std::string s = c.present() ? "[" : "absent[";
    for (size_t k = 0; k < c.size(); ++k) s += hx::fmt("%s%lld", k ? "," : "", (long long)c.data()[k]);
    return s + "]";
  }
  static std::string text_m(const Cell<T> &m) {
    std::string s = m.present ? "[" : "absent[";
    for (size_t k = 0; k < m.v.size(); ++k) s += hx::fmt("%s%lld", k ? "," : "", (long long)m.v[k]);
    return s + "]";
  }
  // "" or what differs
  std::string compare(const typename K::M &m, Cell<T> &c, const char *who) {
    typename K::C r(m);
    std::string p = std::string(who) + " ";
    if (r.size() != c.v.size() || r.length() != c.v.size()) return p + hx::fmt("has %zu elements instead of %zu", (size_t)r.size(), c.v.size());
    if (c.sure) {
      if (r.absent() == c.present || r.present() != c.present) return p + (c.present ? "is absent" : "is present");
    } else {
      c.present = r.present();
      c.sure = true;
      c.owned = false;
    }
    for (size_t k = 0; k < c.v.size(); ++k)
      if (r[k] != c.v[k] || r.data()[k] != c.v[k] || r.begin()[k] != c.v[k]) return p + "reads " + text(r) + " instead of " + text_m(c);
    std::vector<T> x(r.begin(), r.end()), y(r.rbegin(), r.rend());
    std::reverse(y.begin(), y.end());
    if (x != c.v || y != c.v || (size_t)(r.cend() - r.cbegin()) != c.v.size() || (size_t)(r.crend() - r.crbegin()) != c.v.size()) return p + "iterates over other contents than it has";
    return "";
  }
  // runs a path; returns "" and the state key, or the failure; *stop = a precondition failed
  std::string path(const std::vector<int> &h, bool *inapplicable, std::string *key) {
    *inapplicable = false;
    std::string fail, detail;
    cc::CountingAlloc ca;
    arena_allocator arena;
    mfast::allocator *al = alloc_kind == 0 ? (mfast::allocator *)&ca : alloc_kind == 1 ? (mfast::allocator *)malloc_allocator::instance() : (mfast::allocator *)&arena;
    {
      message_type msg(al, d->begin()[0]);
      const int partner = field % 2 ? 5 : 4;  // of the same presence as the field
      World<K> w{typename K::M(msg.ref()[field]), typename K::M(msg.ref()[partner])};
      std::vector<T> ia, ip;
      auto init = [&](int f, std::vector<T> &v, Cell<T> &c, bool &has) {
        typename K::C r(msg.cref()[f]);
        has = K::is_string || std::is_same<T, unsigned char>::value ? f >= 2 : false;
        if (has) {
          static const char t[] = "abc";
          v.assign(t, t + 3);
        }
        c.v.assign(r.begin(), r.end());  // what a fresh field holds: the initial value, or nothing
        c.present = r.present();
        if (c.present && !c.v.empty() && c.v != v) w.expect(false, "a fresh field holds something else than its initial value");
        if (has && !r.instruction()->optional() && c.v != v) w.expect(false, "a fresh mandatory field does not hold its initial value");
      };
      init(field, ia, w.ma, w.has_init_a);
      init(partner, ip, w.mp, w.has_init_p);
      w.init_a = &ia;
      w.init_p = &ip;
      for (int k = 0; k < 4; ++k) w.outside[k] = val<T>(k + 1);
      std::vector<T> outside(w.outside, w.outside + 4);
      for (size_t k = 0; k < h.size() && w.why.empty(); ++k) {
        if (!ops[h[k]].f(w)) {
          *inapplicable = true;
          break;
        }
        w.expect(w.why.empty(), "");
        std::string e = compare(w.a, w.ma, "the field");
        if (e.empty()) e = compare(w.p, w.mp, "the other field");
        if (!e.empty()) w.expect(false, e.c_str());
        if (!std::equal(outside.begin(), outside.end(), w.outside)) w.expect(false, "the operation wrote to memory the field merely refers to");
      }
      if (w.why.empty() && !*inapplicable) {
        typename K::C ca_(w.a), cp(w.p);
        bool want = w.ma.present == w.mp.present && w.ma.v == w.mp.v;
        if ((ca_ == cp) != want || (ca_ != cp) == want) w.why = "operator== disagrees with the contents";
        bool wi = w.has_init_a ? w.ma.present && w.ma.v == ia : !w.ma.present;
        if (w.why.empty() && is_initial(ca_, wi, std::integral_constant<bool, K::has_initial>()) != wi) w.why = "is_initial_value() is wrong";
      }
      fail = w.why;
      if (key) {
        auto blk = [&](const typename K::M &m) -> size_t {
          typename K::C r(m);
          auto it = ca.live.find((void *)r.data());
          return it == ca.live.end() ? (r.data() == nullptr ? 0 : (r.data() >= w.outside && r.data() < w.outside + 4) ? 1 : 2) : 3 + it->second;
        };
        *key = text(typename K::C(w.a)) + hx::fmt("/%zu/%d|", blk(w.a), w.ma.owned) + text(typename K::C(w.p)) + hx::fmt("/%zu/%d", blk(w.p), w.mp.owned);
      }
    }
    if (fail.empty() && alloc_kind == 0) {
      if (ca.bad_free) fail = ca.bad;
      else if (ca.outstanding()) fail = hx::fmt("%zu memory blocks are never released", (size_t)ca.outstanding());
    }
    return fail;
  }
  std::string path_text(const std::vector<int> &h) {
    std::string t;
    for (size_t k = 0; k < h.size(); ++k) t += (k ? ";" : "") + ops[h[k]].name;
    return t;
  }
  bool one(hx::Ctx &c, const std::vector<int> &h, std::string *key) {
    std::string t = "C15 " + name + " ops=" + path_text(h);
    c.begin(t);
    bool na;
    std::string e = path(h, &na, key);
    if (na) return false;
    c.transition();
    if (!e.empty()) {
      std::string lastop = ops[h.back()].name;
      c.violation(name + ":" + lastop.substr(0, lastop.find_first_of("0123456789@\"")), "after " + path_text(h) + ": " + e);
      return false;
    }
    return true;
  }
  void explore(hx::Ctx &c, size_t first) {
    ops = all_ops<K>(c.quick());
    // the first operation is fixed by the work item; every state is expanded by every operation
    struct Node { std::vector<int> h; };
    std::deque<Node> q;
    std::set<std::string> seen;
    size_t depth = c.quick() ? 3 : 5, limit = c.quick() ? 28 : 900;
    std::string key;
    if (first >= ops.size()) return;
    if (!one(c, {(int)first}, &key)) return;
    seen.insert(key);
    q.push_back({{(int)first}});
    c.state(hx::hash_str(name + key));
    while (!q.empty() && c.nviol < 8) {
      Node n = q.front();
      q.pop_front();
      for (size_t o = 0; o < ops.size(); ++o) {
        std::vector<int> h = n.h;
        h.push_back((int)o);
        if (!one(c, h, &key)) continue;
        c.traces();
        if (h.size() < depth && seen.insert(key).second) {
          c.state(hx::hash_str(name + key));
          if (seen.size() < limit) q.push_back({h});
        }
      }
    }
  }
  void replay(hx::Ctx &c, const std::string &t) {
    ops = all_ops<K>(true);
    std::vector<int> h;
    std::string rest = t;
    // operation names do not contain ';'
    size_t at = 0;
    while (at <= rest.size()) {
      size_t e = rest.find(';', at);
      if (e == std::string::npos) e = rest.size();
      std::string n = rest.substr(at, e - at);
      for (size_t k = 0; k < ops.size(); ++k)
        if (ops[k].name == n) h.push_back((int)k);
      at = e + 1;
    }
    std::string key;
    one(c, h, &key);
  }
};

struct Item {
  std::string name;
  std::function<void(hx::Ctx &)> run;
  std::function<void(hx::Ctx &, const std::string &)> replay;
};
static std::vector<Item> items_;
template <class K> void register_kind(const std::string &tn, const std::string &el, const std::string &attr, bool init) {
  auto d = std::make_shared<dynamic_templates_description>(xml_of(el, attr, init).c_str());
  static const char *fn[] = {"optional", "mandatory", "optional-initial", "mandatory-initial"};
  static const char *an[] = {"exact", "malloc", "arena"};
  size_t nops = all_ops<K>(true).size();
  for (int f = 0; f < (init ? 4 : 2); ++f)
    for (int al = 0; al < 3; ++al) {
      auto r = std::make_shared<Runner<K>>();
      r->name = tn + "." + fn[f] + "." + an[al];
      r->d = d;
      r->field = f;
      r->alloc_kind = al;
      auto rep = [r](hx::Ctx &c, const std::string &t) { r->replay(c, t); };
      for (size_t o = 0; o < nops; ++o) items_.push_back({r->name, [r, o](hx::Ctx &c) { r->explore(c, o); }, rep});
    }
}
int main(int argc, char **argv) {
  return hx::drive(argc, argv, [](const std::string &, const std::string &) {
    register_kind<KA>("ascii", "string", "", true);
    register_kind<KU>("unicode", "string", " charset=\"unicode\"", true);
    register_kind<KB>("byteVector", "byteVector", "", true);
    register_kind<KI32>("int32Vector", "int32Vector", "", false);
    register_kind<KU32>("uInt32Vector", "uInt32Vector", "", false);
    register_kind<KI64>("int64Vector", "int64Vector", "", false);
    register_kind<KU64>("uInt64Vector", "uInt64Vector", "", false);
    hx::Harness h;
    h.name = "vec";
    h.items = items_.size();
    h.run = [](hx::Ctx &c, size_t i) { items_[i].run(c); };
    h.run_case = [](hx::Ctx &c, const std::string &cs) {
      size_t at = cs.find(" ops=");
      std::string n = cs.substr(4, at - 4);
      for (auto &it : items_)
        if (it.name == n) return it.replay(c, cs.substr(at + 5));
    };
    h.crash_key = [](const std::string &s) {
      size_t at = s.find(" ops="), l = s.rfind(';');
      if (at == std::string::npos) return s;
      std::string o = s.substr(l == std::string::npos || l < at ? at + 5 : l + 1);
      return s.substr(4, at - 4) + ":" + o.substr(0, o.find_first_of("0123456789@\""));
    };
    return h;
  });
}
