// C18: every sequence of allocator calls up to a depth, on the real allocators, with every live block filled with a
// pattern of its own and all patterns verified after every call. malloc is interposed, so that it can be made to fail.
#include "hx.h"
#include "mfast/arena_allocator.h"
#include "mfast/malloc_allocator.h"
#include <memory>
#include <new>
extern "C" void *__real_malloc(size_t);
extern "C" void __real_free(void *);
static int fail_malloc;  // > 0: fails the next calls
static bool count_malloc;
static std::map<char *, size_t> chunks;
static size_t last_malloc;
extern "C" void *__wrap_malloc(size_t n) {
  if (!count_malloc) return __real_malloc(n);
  if (fail_malloc || n > (size_t(1) << 40)) return nullptr;
  count_malloc = false;
  void *p = __real_malloc(n);
  if (p) {
    chunks[(char *)p] = n;
    memset(p, 0xA5, n);  // memory from the system is not zero
  }
  count_malloc = true;
  return p;
}
extern "C" void __wrap_free(void *p) {
  if (count_malloc) {
    count_malloc = false;
    chunks.erase((char *)p);
    count_malloc = true;
  }
  __real_free(p);
}
struct BaseAlloc : mfast::allocator {  // an allocator that relies on the inherited reallocate()
  void *allocate(size_t n) override {
    void *p = ::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
  }
  size_t reallocate(void *&p, size_t o, size_t n) override { return mfast::allocator::reallocate(p, o, n); }
  void deallocate(void *p, size_t) override { ::free(p); }
};
struct Op {
  char kind;  // a allocate, n new block by reallocate, l/f reallocate the last/first such block, d release the last block, R reset, x allocate while the system has no memory, y reallocate likewise, h allocate a huge block, H reallocate to it
  size_t n;
  std::string name() const { return std::string(1, kind) + (kind == 'R' || kind == 'd' ? "" : std::to_string(n)); }
};
struct Block {
  char *p;
  size_t n;
  unsigned char pat;
  bool re;
  bool live;
};
static std::vector<Op> ops_for(int kind) {
  std::vector<Op> r;
  const size_t u = 4096 - 24;  // what a fresh chunk has room for
  for (size_t n : {size_t(0), size_t(1), size_t(8), size_t(20), size_t(64), size_t(1000), u - 64, u - 65, u, u + 1, size_t(9000)}) r.push_back({'a', n});
  r.push_back({'n', 10});
  for (size_t n : {40, 100, 3000}) r.push_back({'l', (size_t)n});
  r.push_back({'l', 1});
  r.push_back({'f', 200});
  r.push_back({'d', 0});
  if (kind == 0) r.push_back({'R', 0});
  r.push_back({'x', 4000});
  r.push_back({'y', 5000});
  r.push_back({'h', ~size_t(0) - 7});
  r.push_back({'h', ~size_t(0) / 2});
  r.push_back({'H', ~size_t(0)});
  r.push_back({'H', ~size_t(0) / 2 + 20});
  return r;
}
static const char *kinds[] = {"arena", "malloc", "inherited"};
static std::shared_ptr<mfast::allocator> make(int kind) {
  if (kind == 0) return std::make_shared<mfast::arena_allocator>();
  if (kind == 1) return std::make_shared<mfast::malloc_allocator>();
  return std::make_shared<BaseAlloc>();
}
static unsigned char at(const Block &b, size_t k) { return (unsigned char)(b.pat + k * 7); }
static void fill(const Block &b, size_t from = 0) {
  for (size_t k = from; k < b.n; ++k) b.p[k] = (char)at(b, k);
}
static std::string seq_text(int kind, const std::vector<int> &h, const std::vector<Op> &ops) {
  std::string t = std::string("C18 ") + kinds[kind] + " ops=";
  for (size_t k = 0; k < h.size(); ++k) t += (k ? ";" : "") + ops[h[k]].name();
  return t;
}
// runs one sequence; "" or what is wrong. na: an operation does not apply
static std::string run(hx::Ctx &c, int kind, const std::vector<int> &h, const std::vector<Op> &ops, bool *na, int *bad_op, uint64_t *layout) {
  *na = false;
  std::string why;
  chunks.clear();
  size_t mallocs = 0;
  {
    count_malloc = true;
    std::shared_ptr<mfast::allocator> al;
    al = make(kind);
    count_malloc = false;
    std::vector<Block> bs;
    unsigned char pat = 1;
    auto last = [&](bool first) -> Block * {
      Block *r = nullptr;
      for (auto &b : bs)
        if (b.live && b.re) {
          r = &b;
          if (first) return r;
        }
      return r;
    };
    for (size_t k = 0; k < h.size() && why.empty(); ++k) {
      const Op &o = ops[h[k]];
      *bad_op = h[k];
      auto given = [&](void *p, size_t n, bool re, size_t asked) {
        if (n < asked) { why = "a block smaller than requested is handed out"; return; }
        if (!p && n) { why = "a null block is handed out"; return; }
        if ((uintptr_t)p % sizeof(void *)) { why = "a block is not aligned"; return; }
        for (auto &b : bs)
          if (b.live && b.n && n && (char *)p < b.p + b.n && b.p < (char *)p + n) { why = "a block overlaps a live block"; return; }
        bs.push_back({(char *)p, n, pat++, re, true});
      };
      bool threw = false;
      switch (o.kind) {
      case 'a':
      case 'x':
      case 'h': {
        void *p = nullptr;
        count_malloc = true;
        fail_malloc = o.kind == 'x';
        try {
          p = al->allocate(o.n);
        } catch (const std::bad_alloc &) {
          threw = true;
        }
        count_malloc = false;
        fail_malloc = 0;
        if (threw) {
          if (o.kind == 'a') why = "allocate() reports a failure although memory is available";
          break;
        }
        if (o.kind == 'h') { why = "allocate() of more than there can be does not report a failure"; break; }
        given(p, o.n, false, o.n);
        if (why.empty()) fill(bs.back());
        break;
      }
      case 'n':
      case 'l':
      case 'f':
      case 'y':
      case 'H': {
        Block *b = o.kind == 'n' ? nullptr : last(o.kind == 'f');
        if (!b && o.kind != 'n') {
          *na = true;
          break;
        }
        void *p = b ? b->p : nullptr, *before = p;
        size_t old = b ? b->n : 0, n = 0;
        count_malloc = true;
        fail_malloc = o.kind == 'y';
        try {
          n = al->reallocate(p, old, o.n);
        } catch (const std::bad_alloc &) {
          threw = true;
        }
        count_malloc = false;
        fail_malloc = 0;
        if (threw) {
          if (o.kind != 'y' && o.kind != 'H') why = "reallocate() reports a failure although memory is available";
          else if (p != before) why = "a failed reallocate() changes the pointer";
          break;
        }
        if (o.kind == 'H') { why = "reallocate() to more than there can be does not report a failure"; break; }
        Block ob = b ? *b : Block();
        if (b) b->live = false;
        given(p, n, true, o.n);
        if (!why.empty()) break;
        Block &nb = bs.back();
        size_t keep = old < o.n ? old : o.n;
        for (size_t x = 0; x < keep; ++x)
          if ((unsigned char)nb.p[x] != at(ob, x)) { why = "reallocate() does not preserve the contents"; break; }
        fill(nb);
        break;
      }
      case 'd': {
        Block *b = nullptr;
        for (auto &x : bs)
          if (x.live) b = &x;
        if (!b) {
          *na = true;
          break;
        }
        b->live = false;
        count_malloc = true;
        al->deallocate(b->p, b->n);
        count_malloc = false;
        break;
      }
      case 'R':
        for (auto &b : bs) b.live = false;
        count_malloc = true;
        if (!static_cast<mfast::arena_allocator &>(*al).reset()) why = "reset() reports a failure";
        count_malloc = false;
        break;
      }
      if (*na) break;
      c.transition();
      for (auto &b : bs) {
        if (!b.live || !why.empty()) continue;
        for (size_t x = 0; x < b.n; ++x)
          if ((unsigned char)b.p[x] != at(b, x)) { why = "the contents of a live block change"; break; }
      }
    }
    if (layout) {
      uint64_t l = hx::hash_bytes(&kind, sizeof kind);
      for (auto &b : bs) {
        if (!b.live) continue;
        auto it = chunks.upper_bound(b.p);
        size_t off = 0, ord = 0;
        if (it != chunks.begin()) {
          --it;
          off = b.p - it->first;
          ord = it->second;
        }
        size_t v[3] = {off, ord, b.n};
        l = hx::hash_bytes(v, sizeof v, l);
      }
      *layout = l;
    }
    if (kind)
      for (auto &b : bs)
        if (b.live) {
          count_malloc = true;
          al->deallocate(b.p, b.n);
          count_malloc = false;
        }
    count_malloc = true;
    al.reset();
    count_malloc = false;
    mallocs = chunks.size();
  }
  if (why.empty() && mallocs) why = "memory taken from the system is never given back";
  return why;
}
static void one(hx::Ctx &c, int kind, const std::vector<int> &h, const std::vector<Op> &ops) {
  bool na;
  int bad = 0;
  uint64_t lay = 0;
  c.begin(seq_text(kind, h, ops));
  std::string e = run(c, kind, h, ops, &na, &bad, &lay);
  if (na) return;
  c.traces();
  c.state(lay);
  if (!e.empty()) c.violation(std::string(kinds[kind]) + ":" + ops[bad].name() + ":" + e, e);
}
// the work done between two resets repeats: the memory taken from the system must not grow without bound
static void bounded(hx::Ctx &c, const std::vector<int> &h, const std::vector<Op> &ops) {
  c.begin("C18 repeat" + seq_text(0, h, ops).substr(9));
  mfast::arena_allocator *al;
  chunks.clear();
  count_malloc = true;
  al = new mfast::arena_allocator;
  size_t at20 = 0;
  for (int k = 0; k < 60; ++k) {
    for (int o : h) {
      void *p = nullptr;
      if (ops[o].kind == 'a') al->allocate(ops[o].n);
      else al->reallocate(p, 0, ops[o].n);
    }
    al->reset();
    count_malloc = false;
    if (k == 19) at20 = chunks.size();
    count_malloc = true;
  }
  size_t end = chunks.size();
  delete al;
  count_malloc = false;
  c.transition(60 * h.size());
  c.traces();
  if (end > at20 + 1) c.violation("repeat", hx::fmt("repeating the same allocations after reset() takes more and more memory from the system (%zu chunks after 20 rounds, %zu after 60)", at20, end));
}
struct Item { int kind; int a, b; };
static std::vector<Item> items_;
static void dfs(hx::Ctx &c, int kind, const std::vector<Op> &ops, std::vector<int> &h, size_t depth, bool rep) {
  if (h.size() == depth) {
    if (rep) bounded(c, h, ops);
    else one(c, kind, h, ops);
    return;
  }
  for (size_t o = 0; o < ops.size(); ++o) {
    if (rep && ops[o].kind != 'a' && ops[o].kind != 'n') continue;
    h.push_back((int)o);
    dfs(c, kind, ops, h, depth, rep);
    h.pop_back();
  }
}
int main(int argc, char **argv) {
  return hx::drive(argc, argv, [](const std::string &, const std::string &) {
    for (int k = 0; k < 3; ++k) {
      int n = (int)ops_for(k).size();
      for (int a = 0; a < n; ++a)
        for (int b = 0; b < n; ++b) items_.push_back({k, a, b});
    }
    items_.push_back({3, 0, 0});
    hx::Harness h;
    h.name = "arena";
    h.items = items_.size();
    h.run = [](hx::Ctx &c, size_t i) {
      const Item &it = items_[i];
      auto ops = ops_for(it.kind % 3);
      if (it.kind == 3) {
        for (size_t d = 1; d <= (c.quick() ? 3u : 4u); ++d) {
          std::vector<int> h;
          dfs(c, 0, ops, h, d, true);
        }
        return;
      }
      std::vector<int> p{it.a, it.b};
      if (it.b == 0) one(c, it.kind, {it.a}, ops);
      one(c, it.kind, p, ops);
      bool na;
      int bad;
      if (!run(c, it.kind, p, ops, &na, &bad, nullptr).empty() || na) return;
      size_t depth = it.kind ? (c.quick() ? 4 : 5) : (c.quick() ? 5 : 6);
      dfs(c, it.kind, ops, p, depth, false);
    };
    h.run_case = [](hx::Ctx &c, const std::string &cs) {
      size_t at = cs.find(" ops=");
      std::string n = cs.substr(4, at - 4), rest = cs.substr(at + 5);
      for (int k = 0; k < 3; ++k)
        if (n == kinds[k] || (k == 0 && n == "repeat")) {
          auto ops = ops_for(k);
          std::vector<int> h;
          for (size_t p = 0; p <= rest.size();) {
            size_t e = rest.find(';', p);
            if (e == std::string::npos) e = rest.size();
            for (size_t o = 0; o < ops.size(); ++o)
              if (ops[o].name() == rest.substr(p, e - p)) h.push_back((int)o);
            p = e + 1;
          }
          if (n == "repeat") bounded(c, h, ops);
          else one(c, k, h, ops);
          return;
        }
    };
    h.crash_key = [](const std::string &s) {
      size_t at = s.find(" ops="), l = s.find_last_of(";=");
      return at == std::string::npos ? s : s.substr(4, at - 4) + ":" + s.substr(l + 1);
    };
    return h;
  });
}
