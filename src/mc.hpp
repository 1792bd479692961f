// Bounded-exhaustive explorer core: case numbering, sharding, crash/hang attribution, reporting.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <cstdint>
#include <cstring>
#include <csignal>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <unordered_set>
#include <functional>
#include <sstream>
#include <algorithm>
#include <numeric>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>

#ifdef MC_GCOV
extern "C" void __gcov_dump(void); // coverage measurements of tools/mutate.py
#endif
namespace mc {

struct Shared { volatile int64_t idx; volatile int64_t heartbeat; };

struct Fail { int64_t idx; std::string key, desc, msg; };

inline std::string jesc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c == '\t') o += "\\t";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

struct Ctx {
  bool thorough = false;
  int shard = 0, nshards = 1;
  int64_t resume = 0, only = -1;
  int max_fail = 3;
  std::string out, known_file, prop, scratch;
  Shared *sh = nullptr;
  int64_t idx = -1;
  // counters measured on the run
  uint64_t states = 0, calls = 0, compared = 0;
  std::map<std::string, uint64_t> space_states;
  std::map<std::string, uint64_t> extra;
  std::map<std::string, std::unordered_set<uint64_t>> outcomes;
  std::string space = "default";
  std::vector<std::string> samples;
  std::vector<Fail> fails, knowns;
  std::set<std::string> known;
  std::function<std::string()> descf;
  bool active = false;
  int64_t last_sample = -1;

  // Starts a case of the current space. True if this process must run it.
  template <class F> bool begin(F f) {
    ++idx;
    active = false;
    if (only >= 0) { if (idx != only) return false; }
    else {
      if (idx < resume) return false;
      if ((int)(idx % nshards) != shard) return false;
    }
    sh->idx = idx;
    sh->heartbeat = sh->heartbeat + 1;
    active = true;
    if (trace) { tick(); tdesc = space + " " + f(); }
    ++states;
    ++space_states[space];
    descf = f;
    if (only >= 0) { fprintf(stderr, "CASE %lld %s\n", (long long)idx, (space + " " + f()).c_str()); }
    if (states == 1 || (samples.size() < 6 && (states % 997) == 0)) samples.push_back(space + " " + f());
    return true;
  }
  // development: MC_TRACE=1 reports the cases that take longer than 100 ms of CPU time
  bool trace = getenv("MC_TRACE") != nullptr; clock_t t0 = 0; std::string tdesc;
  void tick() { clock_t t = clock(); if (!tdesc.empty() && t - t0 > CLOCKS_PER_SEC / 10) fprintf(stderr, "TIME %ld ms %s\n", (long)((t - t0) * 1000 / CLOCKS_PER_SEC), tdesc.c_str()); t0 = t; }
  std::string desc() { return space + " " + (descf ? descf() : std::string()); }
  void call(uint64_t k = 1) { calls += k; }
  // A complete output has been compared with the reference model; h = hash of the observed outcome
  void checked(uint64_t h = 0) { ++compared; auto &s = outcomes[space]; if (h && s.size() < 200000) s.insert(h); }
  void fail(const std::string &what, const std::string &msg) {
    Fail f{idx, what + " | " + desc(), desc(), what + ": " + msg};
    if (known.count(f.key)) { if (knowns.size() < 50) knowns.push_back(f); return; }
    fails.push_back(f);
    fprintf(stderr, "FAIL %lld %s :: %s\n", (long long)idx, f.desc.c_str(), f.msg.c_str());
    if ((int)fails.size() >= max_fail) { finish(); _exit(3); }
  }
  void finish() {
    if (trace) tick();
    if (out.empty()) return;
    FILE *f = fopen(out.c_str(), "w");
    if (!f) _exit(96);
    fprintf(f, "{\"states\":%llu,\"calls\":%llu,\"compared\":%llu,\"last\":%lld,",
            (unsigned long long)states, (unsigned long long)calls, (unsigned long long)compared, (long long)idx);
    fprintf(f, "\"spaces\":{");
    bool first = true;
    for (auto &p : space_states) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(p.first).c_str(), (unsigned long long)p.second); first = false; }
    fprintf(f, "},\"outcomes\":{");
    first = true;
    for (auto &p : outcomes) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(p.first).c_str(), (unsigned long long)p.second.size()); first = false; }
    fprintf(f, "},\"extra\":{");
    first = true;
    for (auto &p : extra) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(p.first).c_str(), (unsigned long long)p.second); first = false; }
    fprintf(f, "},\"samples\":[");
    first = true;
    for (auto &s : samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(s).c_str()); first = false; }
    auto dump = [&](const char *n, std::vector<Fail> &v) {
      fprintf(f, "],\"%s\":[", n);
      bool fi = true;
      for (auto &x : v) {
        fprintf(f, "%s{\"idx\":%lld,\"key\":\"%s\",\"desc\":\"%s\",\"msg\":\"%s\"}", fi ? "" : ",", (long long)x.idx,
                jesc(x.key).c_str(), jesc(x.desc).c_str(), jesc(x.msg).c_str());
        fi = false;
      }
    };
    dump("fails", fails);
    dump("knowns", knowns);
    fprintf(f, "]}\n");
    fclose(f);
  }
};

inline Ctx *&gctx() { static Ctx *c = nullptr; return c; }
inline volatile int64_t g_last_hb = -1;
inline volatile int g_stuck = 0;
inline int g_hang_ticks = 8;
inline void on_prof(int) {
  Shared *s = gctx()->sh;
  if (s->heartbeat == g_last_hb) {
    if (++g_stuck >= g_hang_ticks) {
      const char m[] = "MC-HANG no progress on this case\n";
      ssize_t r = write(2, m, sizeof m - 1); (void)r;
      _exit(97);
    }
  } else { g_last_hb = s->heartbeat; g_stuck = 0; }
}
inline void beat() { gctx()->sh->heartbeat = gctx()->sh->heartbeat + 1; }

// FNV-style hashing of observed outcomes
struct H {
  uint64_t h = 1469598103934665603ull;
  H &u(uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 1099511628211ull; return *this; }
  template <class T> H &arr(const T *a, size_t n) { for (size_t i = 0; i < n; ++i) u((uint64_t)(int64_t)a[i]); return u(n); }
};

template <class It> std::string join(It b, It e, const char *sep = ",") {
  std::ostringstream o; bool f = true;
  for (; b != e; ++b) { if (!f) o << sep; o << *b; f = false; }
  return o.str();
}
template <class C> std::string str(const C &c) { return "[" + join(c.begin(), c.end()) + "]"; }
template <class T> std::string str(const T *a, size_t n) { return "[" + join(a, a + n) + "]"; }
template <class... A> std::string cat(const A &...a) { std::ostringstream o; (void)std::initializer_list<int>{(o << a, 0)...}; return o.str(); }

// Runs f in a child process: 0 if it returned r == 0, otherwise its answer (1..50), -1 if it crashed
template <class F> int in_child(F f) {
  fflush(stderr); pid_t p = fork();
  if (p == 0) { int d = open("/dev/null", O_WRONLY); dup2(d, 2); alarm(60); int r = f(); _exit(r < 0 || r > 50 ? 51 : r); }
  int st = 0; if (p < 0 || waitpid(p, &st, 0) != p) _exit(95);
  return WIFEXITED(st) && WEXITSTATUS(st) <= 51 ? WEXITSTATUS(st) : -1;
}
int run_main(int argc, char **argv, void (*body)(Ctx &));
} // namespace mc

#define MC_MAIN(fn) int main(int c, char **v) { return mc::run_main(c, v, fn); }
#define CASE(ctx, ...) if ((ctx).begin([&]() -> std::string { return mc::cat(__VA_ARGS__); }))

namespace mc {
inline int run_main(int argc, char **argv, void (*body)(Ctx &)) {
  Ctx c;
  gctx() = &c;
  std::string shm;
  int hang = 10;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--tier") c.thorough = nx() == "thorough";
    else if (a == "--shard") c.shard = atoi(nx().c_str());
    else if (a == "--nshards") c.nshards = atoi(nx().c_str());
    else if (a == "--resume") c.resume = atoll(nx().c_str());
    else if (a == "--only") c.only = atoll(nx().c_str());
    else if (a == "--out") c.out = nx();
    else if (a == "--shm") shm = nx();
    else if (a == "--known") c.known_file = nx();
    else if (a == "--prop") c.prop = nx();
    else if (a == "--scratch") c.scratch = nx();
    else if (a == "--hang") hang = atoi(nx().c_str());
    else if (a == "--maxfail") c.max_fail = atoi(nx().c_str());
  }
  static Shared local;
  c.sh = &local;
  if (!shm.empty()) {
    int fd = open(shm.c_str(), O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, sizeof(Shared))) return 95;
    void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (p == MAP_FAILED) return 95;
    c.sh = (Shared *)p;
    close(fd);
  }
  c.sh->idx = -1;
  if (!c.known_file.empty()) {
    FILE *f = fopen(c.known_file.c_str(), "r");
    if (f) {
      char *line = nullptr; size_t cap = 0; ssize_t n;
      std::string pre = "finding: property=" + c.prop + " key=";
      while ((n = getline(&line, &cap, f)) > 0) {
        std::string s(line, n);
        while (!s.empty() && (s.back() == '\n' || s.back() == '\r')) s.pop_back();
        if (s.compare(0, pre.size(), pre) == 0) c.known.insert(s.substr(pre.size()));
      }
      free(line); fclose(f);
    }
  }
  g_hang_ticks = hang;
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_prof; sa.sa_flags = SA_RESTART;
  sigaction(SIGPROF, &sa, nullptr);
  struct itimerval it; it.it_interval.tv_sec = 1; it.it_interval.tv_usec = 0; it.it_value = it.it_interval;
  setitimer(ITIMER_PROF, &it, nullptr);
  // The code under test prints progress; keep it away from our protocol.
  int dn = open("/dev/null", O_WRONLY);
  if (dn >= 0) { dup2(dn, 1); close(dn); }
  body(c);
  signal(SIGPROF, SIG_IGN); // the handler reads the context, which ends here
  c.finish();
#ifdef MC_GCOV
  __gcov_dump();
#endif
  _exit(c.fails.empty() ? 0 : 3);
}
} // namespace mc
