// Exploration driver shared by all harnesses.
//
//  * The space is a list of work items; items are distributed over forked workers.
//  * Inside an item the harness announces every single case with ctx.begin(case_text); the text is enough to
//    re-run exactly that case with --case.
//  * A worker that dies (ASan report, assertion, signal) or stops making progress yields a violation for the
//    case it had announced, and the item list is resumed behind that item.
//  * Output is one JSON document.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace hx {

inline std::string fmt(const char *f, ...) {
  va_list ap;
  va_start(ap, f);
  char b[8192];
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}
inline std::string json_str(const std::string &s) {
  std::string r = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += (char)c;
  }
  return r + "\"";
}
inline double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

struct Shared {  // one per worker
  volatile uint64_t beat;
  volatile int64_t item;  // item being processed
  volatile uint64_t evals, states, transitions, distinct, traces;
  volatile uint64_t outcome[64];
  volatile int in_case;
  char cur[16384];
};

struct Ctx {
  Shared *sh = nullptr;
  FILE *out = nullptr;
  int nviol = 0;
  int max_viol = 40;
  bool replay = false;
  std::string only_case;  // --case
  std::string tier;
  std::vector<std::string> samples;
  std::unordered_set<uint64_t> seen;
  std::set<std::string> keys;
  uint64_t nbegin = 0;

  bool quick() const { return tier != "thorough"; }
  // announces a case; the harness then runs it
  void begin(const char *text, size_t n) {
    ++sh->evals;
    ++sh->beat;
    if (n >= sizeof sh->cur) n = sizeof sh->cur - 1;
    memcpy(sh->cur, text, n);
    sh->cur[n] = 0;
    if ((++nbegin & (nbegin - 1)) == 0 && samples.size() < 12) samples.push_back(std::string(text, n));
  }
  void begin(const std::string &s) { begin(s.data(), s.size()); }
  bool selected(const std::string &s) const { return only_case.empty() || only_case == s; }
  void transition(uint64_t n = 1) { sh->transitions += n; }
  void traces(uint64_t n = 1) { sh->traces += n; }
  void outcome(int k) { ++sh->outcome[k & 63]; }
  // counts distinct states / observations by hash
  bool state(uint64_t h) {
    if (seen.size() > 4000000) return false;
    if (seen.insert(h).second) { ++sh->states; return true; }
    return false;
  }
  void nontrivial(uint64_t n = 1) { sh->distinct += n; }
  // key: stable identity of what fails (used by the known-findings file); detail: human readable
  void violation(const std::string &key, const std::string &detail) {
    if (!keys.insert(key).second) return;
    if (++nviol > max_viol) return;
    fprintf(out, "{\"key\":%s,\"case\":%s,\"detail\":%s}\n", json_str(key).c_str(), json_str(sh->cur).c_str(), json_str(detail).c_str());
    fflush(out);
  }
};

inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char *c = (const unsigned char *)p;
  for (size_t k = 0; k < n; ++k) { h ^= c[k]; h *= 1099511628211ull; }
  return h;
}
inline uint64_t hash_str(const std::string &s, uint64_t h = 1469598103934665603ull) { return hash_bytes(s.data(), s.size(), h); }

struct Harness {
  std::string name;
  size_t items = 0;
  std::function<void(Ctx &, size_t)> run;                    // explore one item
  std::function<void(Ctx &, const std::string &)> run_case;  // re-run one case
  std::function<std::string(const std::string &)> crash_key;  // case text -> stable key
  double stall_s = 60;
};

inline std::string read_tail(const std::string &f, size_t n = 2500) {
  FILE *fp = fopen(f.c_str(), "rb");
  if (!fp) return "";
  std::string s;
  char b[4096];
  size_t k;
  while ((k = fread(b, 1, sizeof b, fp)) > 0) {
    s += b ? std::string(b, k) : "";
    if (s.size() > 200000) break;
  }
  fclose(fp);
  size_t at = s.find("ERROR: AddressSanitizer");
  if (at == std::string::npos) at = s.find("Assertion");
  if (at == std::string::npos) at = s.size() > n ? s.size() - n : 0;
  return s.substr(at, n);
}

inline int drive(int argc, char **argv, std::function<Harness(const std::string &check, const std::string &tier)> make) {
  std::string check, tier = "quick", casestr, outdir = "/tmp";
  bool has_case = false;
  int jobs = 8;
  double budget = 0;
  for (int k = 1; k < argc; ++k) {
    std::string a = argv[k];
    auto nxt = [&]() -> std::string { return k + 1 < argc ? argv[++k] : ""; };
    if (a == "--check") check = nxt();
    else if (a == "--tier") tier = nxt();
    else if (a == "--case") { casestr = nxt(); has_case = true; }
    else if (a == "--jobs") jobs = atoi(nxt().c_str());
    else if (a == "--out") outdir = nxt();
    else if (a == "--budget") budget = atof(nxt().c_str());
  }
  Harness h = make(check, tier);
  if (has_case) {
    Shared *sh = (Shared *)calloc(1, sizeof(Shared));
    Ctx c;
    c.sh = sh;
    c.out = stdout;
    c.replay = true;
    c.tier = tier;
    c.only_case = casestr;
    alarm(120);
    h.run_case(c, casestr);
    return c.nviol ? 1 : 0;
  }
  std::string base = outdir + "/" + h.name + "-" + check + "." + std::to_string(getpid());
  Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared) * jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void *)sh, 0, sizeof(Shared) * jobs);
  // dynamic distribution of the items
  volatile uint64_t *next = (volatile uint64_t *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  *next = 0;
  std::vector<pid_t> pid(jobs, 0);
  std::vector<int> gen(jobs, 0);
  std::vector<double> lastt(jobs, now());
  std::vector<uint64_t> lastb(jobs, 0);
  std::vector<std::string> viol;
  int crashes = 0;
  double t0 = now();
  bool capped = false;
  auto fn = [&](int w, const char *suf) { return base + "." + std::to_string(w) + "." + std::to_string(gen[w]) + suf; };
  auto spawn = [&](int w) {
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
      int fd = open(fn(w, ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
      dup2(fd, 2);
      dup2(fd, 1);
      Ctx c;
      c.sh = &sh[w];
      c.tier = tier;
      c.out = fopen(fn(w, ".jsonl").c_str(), "w");
      for (;;) {
        uint64_t it = __sync_fetch_and_add(next, 1);
        if (it >= h.items) break;
        c.sh->item = (int64_t)it;
        if (budget > 0 && now() - t0 > budget) { fprintf(c.out, "{\"capped\":1}\n"); break; }
        h.run(c, it);
      }
      for (auto &s : c.samples) fprintf(c.out, "{\"sample\":%s}\n", json_str(s).c_str());
      fprintf(c.out, "{\"done\":1}\n");
      fclose(c.out);
      _exit(0);
    }
    pid[w] = p;
    lastt[w] = now();
    lastb[w] = sh[w].beat;
  };
  auto collect = [&](int w) -> bool {
    bool done = false;
    FILE *f = fopen(fn(w, ".jsonl").c_str(), "r");
    if (f) {
      char *line = nullptr;
      size_t cap = 0;
      ssize_t n;
      while ((n = getline(&line, &cap, f)) > 0) {
        if (line[n - 1] != '\n') continue;
        std::string s(line, n - 1);
        if (s == "{\"done\":1}") done = true;
        else if (s == "{\"capped\":1}") capped = true;
        else viol.push_back(s);
      }
      free(line);
      fclose(f);
    }
    return done;
  };
  if ((size_t)jobs > h.items) jobs = h.items ? (int)h.items : 1;
  for (int w = 0; w < jobs; ++w) spawn(w);
  int live = jobs;
  while (live > 0) {
    bool any = false;
    for (int w = 0; w < jobs; ++w) {
      if (!pid[w]) continue;
      int stt = 0;
      pid_t r = waitpid(pid[w], &stt, WNOHANG);
      bool hang = false;
      if (r == 0) {
        if (sh[w].beat != lastb[w]) { lastb[w] = sh[w].beat; lastt[w] = now(); continue; }
        if (now() - lastt[w] > h.stall_s) {
          kill(pid[w], SIGKILL);
          waitpid(pid[w], &stt, 0);
          hang = true;
        } else continue;
      }
      any = true;
      bool done = collect(w);
      if (hang || !done) {
        ++crashes;
        std::string cs = sh[w].cur;
        std::string key = h.crash_key ? h.crash_key(cs) : cs;
        std::string d = hang ? "no progress (endless loop?) in this case" : hx::fmt("worker died, wait status 0x%x: ", stt) + read_tail(fn(w, ".err"));
        viol.push_back("{\"key\":" + json_str((hang ? "hang:" : "crash:") + key) + ",\"case\":" + json_str(cs) + ",\"detail\":" + json_str(d) + "}");
      }
      unlink(fn(w, ".err").c_str());
      unlink(fn(w, ".jsonl").c_str());
      pid[w] = 0;
      if ((hang || !done) && crashes < 24 && *next < h.items) {
        ++gen[w];
        spawn(w);
      } else
        --live;
    }
    if (!any) usleep(20000);
  }
  uint64_t ev = 0, st = 0, tr = 0, di = 0, tc = 0, oc[64] = {0};
  for (int w = 0; w < jobs; ++w) {
    ev += sh[w].evals;
    st += sh[w].states;
    tr += sh[w].transitions;
    di += sh[w].distinct;
    tc += sh[w].traces;
    for (int k = 0; k < 64; ++k) oc[k] += sh[w].outcome[k];
  }
  std::string ocs;
  for (int k = 0; k < 64; ++k)
    if (oc[k]) ocs += (ocs.empty() ? "" : ",") + hx::fmt("\"%d\":%llu", k, (unsigned long long)oc[k]);
  printf("{\"harness\":%s,\"items\":%zu,\"items_started\":%llu,\"evaluations\":%llu,\"states\":%llu,\"transitions\":%llu,\"distinct_nontrivial\":%llu,\"traces\":%llu,\"capped\":%s,\"crashes\":%d,\"wall_s\":%.2f,\"outcomes\":{%s},\"records\":[",
         json_str(h.name).c_str(), h.items, (unsigned long long)(*next < h.items ? *next : h.items), (unsigned long long)ev, (unsigned long long)st, (unsigned long long)tr, (unsigned long long)di,
         (unsigned long long)tc, capped || (crashes >= 24 && *next < h.items) ? "true" : "false", crashes, now() - t0, ocs.c_str());
  for (size_t k = 0; k < viol.size(); ++k) printf("%s%s", k ? ",\n" : "\n", viol[k].c_str());
  printf("]}\n");
  return 0;
}

}  // namespace hx
