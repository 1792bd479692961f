// C30: every requested hardware event is measured once per run, over exactly the timed code
#define CSV_LOG
#include <cmath>
#include <iostream>
#include <map>
#include "mat.hpp"
#include "aggregation/def.h"
#include "aggregation/utils.h"
#include "aggregation/sparse_io.h"
#include "aggregation/sparse_utilities.h"
#include "aggregation/test_utils.h"
#include <papi.h>
#include "sptrsv_profiler_utils.h"
using namespace sym_lib; using mc::Ctx; typedef std::vector<int> VI; typedef std::vector<double> VD; typedef std::vector<long long> VL;
// ---- the library: one process, event sets valid from create to shutdown, counters that only move while started
namespace lib {
struct Set { VI ev; bool on = false; VL base, got; };
struct St { bool inited = false; std::map<int, Set> sets; int next = 1, budget = 1 << 30, calls = 0, fails = 0; long long clock = 0; uint64_t mask = 0; bool rest = false; int fault_from = -1; std::string wrong; std::map<std::string, int> by; } st;
// the calls of every kind are numbered together; those in the mask (and, with rest, all later ones) fail
static bool fault(const char *w) { int k = st.calls++; st.by[w]++; bool f = (k < 60 && (st.mask >> k & 1)) || (st.rest && k >= st.fault_from); if (f) st.fails++; return f; }
static long long rate(int ev) { return (ev & 0xff) * 3 + 1; }
static Set *find(int s) { auto it = st.sets.find(s); return it == st.sets.end() ? nullptr : &it->second; }
static void bad(const std::string &m) { if (st.wrong.empty()) st.wrong = m; }
}
extern "C" {
int PAPI_library_init(int v) { if (lib::fault("init")) return PAPI_EINVAL; if (v != PAPI_VER_CURRENT) return PAPI_EINVAL; lib::st.inited = true; return PAPI_VER_CURRENT; }
int PAPI_is_initialized(void) { return lib::st.inited ? PAPI_LOW_LEVEL_INITED : PAPI_NOT_INITED; }
void PAPI_shutdown(void) { lib::st.inited = false; lib::st.sets.clear(); }
int PAPI_event_code_to_name(int code, char *o) { snprintf(o, PAPI_MAX_STR_LEN, "EVENT_%x", code & 0xffff); return PAPI_OK; }
int PAPI_create_eventset(int *s) { if (lib::fault("create")) return PAPI_ENOINIT; if (!lib::st.inited) return PAPI_ENOINIT; if (*s != PAPI_NULL) return PAPI_EINVAL; *s = lib::st.next++; lib::st.sets[*s] = lib::Set(); return PAPI_OK; }
int PAPI_cleanup_eventset(int s) { auto *p = lib::find(s); if (!p) return PAPI_ENOEVST; if (p->on) return PAPI_EISRUN; p->ev.clear(); return PAPI_OK; }
int PAPI_destroy_eventset(int *s) { auto *p = lib::find(*s); if (!p) return PAPI_ENOEVST; if (!p->ev.empty()) return PAPI_EINVAL; lib::st.sets.erase(*s); *s = PAPI_NULL; return PAPI_OK; }
int PAPI_add_events(int s, int *e, int n) { if (lib::fault("add")) return PAPI_ECNFLCT; auto *p = lib::find(s); if (!p) return PAPI_ENOEVST; if (p->on) return PAPI_EISRUN; for (int k = 0; k < n; ++k) { if ((int)p->ev.size() >= lib::st.budget) { lib::bad(mc::cat(n, " events in one set, the limit is ", lib::st.budget)); return PAPI_ECNFLCT; } p->ev.push_back(e[k]); } p->base.assign(p->ev.size(), lib::st.clock); p->got.assign(p->ev.size(), 0); return PAPI_OK; }
int PAPI_add_event(int s, int e) { return PAPI_add_events(s, &e, 1); }
int PAPI_num_events(int s) { auto *p = lib::find(s); return p ? (int)p->ev.size() : PAPI_ENOEVST; }
int PAPI_reset(int s) { if (lib::fault("reset")) return PAPI_EINVAL; auto *p = lib::find(s); if (!p) return PAPI_ENOEVST; std::fill(p->got.begin(), p->got.end(), 0); p->base.assign(p->ev.size(), lib::st.clock); return PAPI_OK; }
int PAPI_start(int s) { if (lib::fault("start")) return PAPI_EINVAL; auto *p = lib::find(s); if (!p) return PAPI_ENOEVST; if (p->on) return PAPI_EISRUN; if (p->ev.empty()) return PAPI_EINVAL; for (auto &q : lib::st.sets) if (q.second.on) return PAPI_EISRUN; p->on = true; std::fill(p->got.begin(), p->got.end(), 0); p->base.assign(p->ev.size(), lib::st.clock); return PAPI_OK; }
int PAPI_read(int s, long long *v) { auto *p = lib::find(s); if (!p) return PAPI_ENOEVST; for (size_t k = 0; k < p->ev.size(); ++k) v[k] = p->got[k] + (p->on ? (lib::st.clock - p->base[k]) * lib::rate(p->ev[k]) : 0); return PAPI_OK; }
int PAPI_stop(int s, long long *v) { if (lib::fault("stop")) return PAPI_EINVAL; auto *p = lib::find(s); if (!p) return PAPI_ENOEVST; if (!p->on) return PAPI_ENOTRUN; PAPI_read(s, v); p->on = false; return PAPI_OK; }
int PAPI_accum(int s, long long *v) { auto *p = lib::find(s); if (!p) return PAPI_ENOEVST; VL t(p->ev.size()); PAPI_read(s, t.data()); for (size_t k = 0; k < t.size(); ++k) v[k] += t[k]; return PAPI_reset(s); }
char *PAPI_strerror(int) { static char m[] = "error"; return m; }
}
struct Cap { std::ostringstream o, e; std::streambuf *a, *b; Cap() : a(std::cout.rdbuf(o.rdbuf())), b(std::cerr.rdbuf(e.rdbuf())) {} ~Cap() { std::cout.rdbuf(a); std::cerr.rdbuf(b); } };
static int lines(const std::string &s) { int k = 0; for (char c : s) k += c == '\n'; return k; }
// ---- a demonstrator whose timed code takes work(run) ticks; everything else it does takes ticks of its own
struct Log { int built = 0, died = 0, runs = 0; VI threads; std::string wrong; std::vector<VL> work; };
static long long work(int bundle, int run) { return 10 + 7 * run + 100 * bundle; }
struct Demo : FusionDemo {
  Log &l; int b; int r = 0; bool set = false;
  Demo(Log &g, int bundle, const std::string &nm, PAPIWrapper *pw) : FusionDemo(2, nm), l(g), b(bundle) { pw_ = pw; l.built++; }
  ~Demo() override { l.died++; }
  void build_set() override { lib::st.clock += 1000; set = true; l.threads.push_back(num_threads_); redundant_nodes_ = 5 + b; redundant_nnz_ = 6.5 + b; cost_nnz_ = 7.5 + b; cost_unit_ = 8.5 + b; avg_parallelism = 9.5 + b; avg_iter_parallelism = 10.5 + b; critical_path_ = 11.5 + b; max_diff_ = 12.5 + b; }
  void setting_up() override { FusionDemo::setting_up(); lib::st.clock += 333; }
  timing_measurement fused_code() override { if (!set) l.wrong = "ran before the inspection"; l.runs++; lib::st.clock += work(b, r++); timing_measurement t; t.elapsed_time = r; return t; }
  void testing() override { lib::st.clock += 50; }
};
struct Prof : Profiler {
  Log &l; std::vector<const void *> want; int p1, p2, p3; std::string nm; bool two; VI given;
  Prof(Log &g, const VI &ev, int b, int k) : Profiler(ev, b, k), l(g) {}
  void got(const void *a, const void *b, const void *c, const void *d, const void *e, const void *f, const void *g, const void *x, const std::string &n, int q1, int q2, int q3, bool t) { std::vector<const void *> h{a, b, c, d, e, f, g, x}; if (h != want || n != nm || q1 != p1 || q2 != p2 || q3 != p3 || t != two) l.wrong = "the demonstrator was built from other arguments"; }
  FusionDemo *construct_demo(CSR *L, CSC *Lc, CSC *Lt, CSR *A, CSC *Ac, double *x, std::string n, PAPIWrapper *pw, int q1, int q2, int q3) override { got(L, Lc, Lt, A, Ac, 0, 0, x, n, q1, q2, q3, false); return new Demo(l, l.built, n + "!", pw); }
  FusionDemo *construct_demo(CSR *L, CSC *Lc, CSC *Lt, CSR *A, CSC *Ac, CSR *B, CSC *Bc, double *x, std::string n, PAPIWrapper *pw, int q1, int q2, int q3) override { got(L, Lc, Lt, A, Ac, B, Bc, x, n, q1, q2, q3, true); return new Demo(l, l.built, n + "!", pw); }
  void go(bool t, bool defaults) {
    static char m[8]; auto R = [&](int k) { return (CSR *)(m + k); }; auto C = [&](int k) { return (CSC *)(m + k); }; double *x = (double *)(m + 7); two = t; nm = "name"; p1 = defaults ? 2 : 3; p2 = defaults ? 2 : 4; p3 = defaults ? 2 : 5;
    want = {m, m + 1, m + 2, m + 3, m + 4, t ? m + 5 : nullptr, t ? m + 6 : nullptr, x};
    if (t) { if (defaults) profile(R(0), C(1), C(2), R(3), C(4), R(5), C(6), x, nm); else profile(R(0), C(1), C(2), R(3), C(4), R(5), C(6), x, nm, p1, p2, p3); }
    else { if (defaults) profile(R(0), C(1), C(2), R(3), C(4), x, nm); else profile(R(0), C(1), C(2), R(3), C(4), x, nm, p1, p2, p3); }
  }
};
static std::string evname(int c) { char t[32]; snprintf(t, sizeof t, "EVENT_%x", c & 0xffff); return t; }
struct Plan { VI ev; int b, inst; bool two, def; uint64_t mask; bool rest; int from; int budget() const { return b; } };
// returns the number of library calls made
static int one(Ctx &ctx, const Plan &p) {
  lib::st = lib::St(); lib::st.mask = p.mask; lib::st.rest = p.rest; lib::st.fault_from = p.from; lib::st.budget = p.b; Log l; Cap c; Prof *pr = new Prof(l, p.ev, p.b, p.inst); int nb = (p.ev.size() + p.b - 1) / p.b; bool faulty = p.mask || p.rest;
  auto bad = [&](const std::string &m) { ctx.fail("profile", mc::cat("events ", mc::str(p.ev), " per set ", p.b, " runs ", p.inst, ": ", m)); };
  // what a run with failing calls must show: replay the calls of one run against the same fault plan
  pr->go(p.two, p.def); ctx.call(); int calls = lib::st.calls; std::string err = c.e.str(); c.o.str("");
  if (!l.wrong.empty()) bad(l.wrong); if (!lib::st.wrong.empty()) bad(lib::st.wrong);
  if (l.built != nb || l.died != nb) bad(mc::cat(l.built, " demonstrators built and ", l.died, " destroyed instead of ", nb));
  if (l.runs != nb * p.inst) bad(mc::cat(l.runs, " runs instead of ", nb * p.inst)); for (int t : l.threads) if (t != pr->p1) bad("wrong number of threads");
  if (lib::st.fails ? lines(err) < 1 : !err.empty()) bad(lib::st.fails ? "failing calls were not reported" : "reported an error: " + err);
  if (lib::st.inited || !lib::st.sets.empty()) bad("the library was not shut down");
  std::string e; for (int v : p.ev) e += evname(v) + ","; pr->print_headers(); if (c.o.str() != e) bad("header " + c.o.str() + " instead of " + e);
  std::vector<std::vector<std::string>> row(p.inst); std::string all;
  for (int i = 0; i < p.inst; ++i) { c.o.str(""); pr->print_counters(i); std::string s = c.o.str(), t; all += s; for (char ch : s) if (ch == ',') row[i].push_back(t), t.clear(); else t += ch; if (!t.empty() || row[i].size() != p.ev.size()) { bad("row " + s); delete pr; return calls; } }
  c.o.str(""); pr->print_counters(); if (c.o.str() != all) bad("all rows " + c.o.str() + " instead of " + all);
  // a counter holds the work of its own run, or zero if a call that measured this run failed
  int zero = 0; for (int i = 0; i < p.inst; ++i) for (size_t k = 0; k < p.ev.size(); ++k) { long long w = work(k / p.b, i) * lib::rate(p.ev[k]); bool z = row[i][k] == "0"; zero += z; if (!(row[i][k] == std::to_string(w) || (faulty && z))) bad(mc::cat("run ", i, " event ", k, " counts ", row[i][k], " instead of ", w)); else if (z != (row[i][k / p.b * p.b] == "0")) bad("one set of events measured in part"); }
  if (zero > lib::st.fails * p.b) bad(mc::cat(lib::st.fails, " failing calls left ", zero, " counters empty"));
  if (nb) { int b = nb - 1; if (pr->Name() != "name!" || pr->redundantNodes() != 5 + b || pr->redundantNNZ() != 6.5 + b || pr->CostNNZ() != 7.5 + b || pr->CostUnit() != 8.5 + b || pr->avgParallelism() != 9.5 + b || pr->avgIterParallelism() != 10.5 + b || pr->criticalPath() != 11.5 + b || pr->maxDiff() != 12.5 + b) bad("figures are not those of the demonstrator"); }
  else if (pr->Name() != "" || pr->redundantNodes() || pr->redundantNNZ() || pr->CostNNZ() || pr->CostUnit() || pr->avgParallelism() || pr->avgIterParallelism() || pr->criticalPath() || pr->maxDiff()) bad("figures without a run");
  delete pr; ctx.checked(mc::H().u(zero).arr(p.ev.data(), p.ev.size()).u(p.b).u(p.inst).h); return calls;
}
static void events(Ctx &ctx) {
  static const int code[] = {PAPI_L1_DCM, PAPI_TOT_CYC, PAPI_BR_MSP, PAPI_L2_DCA, PAPI_TOT_INS, PAPI_TLB_DM, PAPI_L3_TCM, PAPI_REF_CYC}; bool T = ctx.thorough;
  ctx.space = "event lists"; int len = T ? 6 : 5; VI ev; std::function<void(int)> rec = [&](int left) {
    CASE(ctx, "events ", mc::str(ev)) for (int b = 1; b <= len + 1; ++b) for (int inst = 0; inst <= 6; ++inst) for (int two = 0; two < 2; ++two) one(ctx, Plan{ev, b, inst, two > 0, (b + inst) % 2 > 0, 0, false, 0});
    if (!left) return; for (int k = 0; k < 4; ++k) { ev.push_back(code[k]); rec(left - 1); ev.pop_back(); } }; rec(len);
  ctx.space = "long event lists and many runs"; for (int n : {8, 16, 33, 130, 300}) for (int b : {1, 2, 7, 64, 128, 300}) for (int inst : {1, 5, 130, 260}) if (n * inst <= 16 * 260) CASE(ctx, n, " events, ", b, " per set, ", inst, " runs") { VI e(n); for (int k = 0; k < n; ++k) e[k] = (int)(0x80000000u + k); one(ctx, Plan{e, b, inst, n % 2 > 0, true, 0, false, 0}); }
  // every call that can fail, alone, in pairs, and with all that follow it
  ctx.space = "failing calls"; for (int n = 1; n <= 3; ++n) for (int b = 1; b <= n; ++b) for (int inst = 1; inst <= (T ? 4 : 3); ++inst) for (int two = 0; two < 2; ++two) {
    VI e(code, code + n); auto plan = [&](uint64_t m, bool r, int f) { return Plan{e, b, inst, two > 0, true, m, r, f}; };
    CASE(ctx, n, " events, ", b, " per set, ", inst, " runs, overload ", two) { int c = std::min(59, one(ctx, plan(0, false, 0))); for (int k = 0; k < c; ++k) { one(ctx, plan(1ull << k, false, 0)); one(ctx, plan(0, true, k)); for (int q = 0; q < k; ++q) { one(ctx, plan(1ull << k | 1ull << q, false, 0)); one(ctx, plan(1ull << q, true, k)); } } }
    if (n * inst <= 2) CASE(ctx, "every set of failing calls, ", n, " events, ", b, " per set, ", inst, " runs, overload ", two) { int c = std::min(T ? 14 : 12, one(ctx, plan(0, false, 0))); for (uint64_t m = 1; m < 1ull << c; ++m) one(ctx, plan(m, false, 0)); } }
}
// the wrapper used directly: a history of begin, end, work
static void wrapper(Ctx &ctx) {
  ctx.space = "wrapper histories"; const int code[] = {PAPI_L1_DCM, PAPI_TOT_CYC, PAPI_BR_MSP};
  for (int n = 1; n <= 3; ++n) for (int runs = 0; runs <= (ctx.thorough ? 6 : 5); ++runs) CASE(ctx, "events ", n, " measured intervals ", runs) { VI w(2 * runs + 1, 0); std::function<void(int)> rec = [&](int k) {
    if (k < (int)w.size()) { for (int v : {0, 1, 4}) { w[k] = v; rec(k + 1); } return; }
    lib::st = lib::St(); Cap c; PAPIWrapper p(VI(code, code + n), runs); std::string e, g; for (int q = 0; q <= runs; ++q) { lib::st.clock += w[2 * q]; if (q < runs) { if (p.begin_profiling() != 1) ctx.fail("begin_profiling", "reported a failure"); lib::st.clock += w[2 * q + 1]; p.finish_profiling(); } } ctx.call();
    p.print_header(); for (int q = 0; q < n; ++q) e += evname(code[q]) + ","; for (int r = 0; r < runs; ++r) { p.print(r); for (int q = 0; q < n; ++q) e += std::to_string(w[2 * r + 1] * lib::rate(code[q])) + ","; } g = c.o.str(); if (g != e || !c.e.str().empty()) ctx.fail("PAPIWrapper", mc::cat("work ", mc::str(w), " gives ", g, " instead of ", e));
    if ((int)p.counter_bundles_.size() != n) ctx.fail("PAPIWrapper", "wrong number of bundles"); else for (int q = 0; q < n; ++q) if (p.counter_bundles_[q].event_code != code[q] || (int)p.counter_bundles_[q].counters.size() != runs) ctx.fail("PAPIWrapper", "wrong bundle"); ctx.checked(mc::H().arr(w.data(), w.size()).h); }; rec(0); }
}
// the profiler of the repository: the solve is measured, its answer is compared, the matrix stays as it was
static void solves(Ctx &ctx) {
  ctx.space = "profiled solves"; for (int n = 1; n <= (ctx.thorough ? 5 : 4); ++n) for (uint64_t m = 0; m < 1ull << (n * (n - 1) / 2); ++m) CASE(ctx, "n=", n, " mask=", m) for (int off = 0; off < 2; ++off) for (int inst : {1, 3, 5}) {
    std::vector<VD> a(n, VD(n, 0)); int bit = 0, z = n; for (int i = 0; i < n; ++i) { a[i][i] = 2 + i % 2; for (int j = 0; j < i; ++j) if (m >> bit++ & 1) a[i][j] = 1 + (i + j) % 3, ++z; }
    CSR R(n, n, z); int q = 0; for (int i = 0; i < n; ++i) { R.p[i] = q; for (int j = 0; j <= i; ++j) if (a[i][j]) { R.i[q] = j; R.x[q++] = a[i][j]; } } R.p[n] = q; VI P(R.p, R.p + n + 1), I(R.i, R.i + z); VD X(R.x, R.x + z);
    VD x(n, 1); for (int i = 0; i < n; ++i) { for (int j = 0; j < i; ++j) x[i] -= a[i][j] * x[j]; x[i] /= a[i][i]; } VD y(x); if (off) x[n - 1] += 1; lib::st = lib::St(); Cap c; VI ev{PAPI_TOT_CYC, PAPI_TOT_INS, PAPI_L1_DCM}; SptrsvSerialProfiler p(ev, 2, inst); p.profile(&R, nullptr, nullptr, nullptr, nullptr, x.data(), "Serial"); ctx.call();
    int said = 0; std::string s = c.o.str(); for (size_t k = s.find("!="); k != std::string::npos; k = s.find("!=", k + 2)) ++said;
    if (said != (off ? 2 : 0)) ctx.fail("profile", mc::cat("reported ", said, " wrong answers")); if (p.Name() != "Serial" || !c.e.str().empty()) ctx.fail("profile", "name or errors"); if (lib::st.by["start"] != 2 * inst || lib::st.by["stop"] != 2 * inst) ctx.fail("profile", mc::cat("measured ", lib::st.by["start"], " runs instead of ", 2 * inst));
    if (!std::equal(P.begin(), P.end(), R.p) || !std::equal(I.begin(), I.end(), R.i) || !std::equal(X.begin(), X.end(), R.x)) ctx.fail("profile", "matrix changed"); for (int i = 0; i < n; ++i) if (x[i] != y[i] + (off && i == n - 1)) ctx.fail("profile", "reference changed"); ctx.checked(mc::H().u(m).u(n).h); }
}
static void body(Ctx &ctx) { events(ctx); wrapper(ctx); solves(ctx); }
MC_MAIN(body)
