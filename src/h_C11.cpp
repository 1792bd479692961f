// C11: parallel triangular solves, every interleaving
#include "sptrsv_common.hpp"
#include "omp/sched.hpp"
#include "aggregation/sparse_utilities.h"
#include "aggregation/lbc.h"
#include "aggregation/hdagg.h"
#include "aggregation/sparse_inspector.h"
using namespace tr;
using namespace sym_lib;
using mc::Ctx;
typedef std::vector<int> VI;
struct K {
  Ctx &ctx; Sys s; Csc rr; std::vector<double> xr; bool exact; VI threads; omps::Stats st;
  K(Ctx &c, const G &g, int vs, bool ex, VI t) : ctx(c), s(make(g, vs)), rr(s.r), xr(s.x), exact(ex), threads(t) {}
  ~K() { ctx.extra["interleavings"] += st.execs; ctx.extra["parallel regions"] += st.regions; ctx.extra["scheduling steps"] += st.steps; }
  template <class F> void run(const char *nm, F f, const std::string &what) {
    for (int t : threads) {
      omps::Opt o; o.threads = t; o.norace = true;
      std::vector<double> x;
      std::string e = omps::explore(o, [&]() -> std::string { x = s.b; f(x.data()); return diff(s, x.data(), exact); }, st);
      ctx.call(); mc::beat();
      if (e.empty() && (s.r.p != rr.p || s.r.i != rr.i || s.x != xr)) { e = "matrix modified"; s.r = rr; s.x = xr; }
      if (!e.empty()) ctx.fail(mc::cat(nm, " with ", t, " threads"), e + " " + what);
    }
  }
  int *p() { return s.r.p.data(); } int *i() { return s.r.i.data(); } double *v() { return s.x.data(); }
};
static bool singles(const HS &s, int n) { if ((int)s.pp.size() != n + 1) return false; for (int i = 0; i <= n; ++i) if (s.pp[i] != i) return false; return true; }
static void on_schedule(K &k, HS s, const std::string &src) {
  int n = k.s.n; HS c = s; std::string d = src + c.str();
  k.run("sptrsv_csr_lbc", [&](double *x) { sptrsv_csr_lbc(n, k.p(), k.i(), k.v(), x, s.L, s.lp.data(), s.pp.data(), s.np.data()); }, d);
  if (singles(s, n)) {
    k.run("sptrsv_csr_levelset", [&](double *x) { sptrsv_csr_levelset(n, k.p(), k.i(), k.v(), x, s.L, s.lp.data(), s.np.data()); }, d);
    k.run("sptrsv_csr_levelset (second form)", [&](double *x) { sptrsv_csr_levelset(n, k.p(), k.i(), k.v(), s.L, s.lp.data(), s.np.data(), x); }, d);
  }
  if (s.lp != c.lp || s.pp != c.pp || s.np != c.np) k.ctx.fail("solve", "schedule modified");
}
static void on_groups(K &kk, int k, VI gp, VI gs, HS s, const std::string &src) {
  int n = kk.s.n; HS c = s; VI g1 = gp, g2 = gs; std::string d = src + c.str() + " groups " + mc::str(gp) + mc::str(gs);
  kk.run("sptrsv_csr_group_lbc", [&](double *x) { sptrsv_csr_group_lbc(n, kk.p(), kk.i(), kk.v(), x, s.L, s.lp.data(), s.pp.data(), s.np.data(), g1.data(), g2.data()); }, d);
  if (singles(s, k)) {
    kk.run("sptrsv_csr_group_levelset", [&](double *x) { sptrsv_csr_group_levelset(kk.p(), kk.i(), kk.v(), x, s.L, s.lp.data(), s.np.data(), g1.data(), g2.data()); }, d);
    kk.run("fs_csr_executor_sgroup", [&](double *x) { fs_csr_executor_sgroup(n, kk.p(), kk.i(), kk.v(), x, x, g1.data(), g2.data(), k, s.L, s.lp.data(), s.np.data()); }, d);
  }
  if (s.lp != c.lp || s.pp != c.pp || s.np != c.np || g1 != gp || g2 != gs) kk.ctx.fail("grouped solve", "schedule or groups modified");
}
static void kernels(Ctx &ctx, const G &g, int inner, VI thr) {
  K k(ctx, g, 0, true, thr); uint64_t ns = 0;
  schedules(g, inner, [&](const HS &c) { ++ns; on_schedule(k, c, ""); });
  ctx.extra["schedules"] += ns; ctx.checked(ns);
}
static void grouped(Ctx &ctx, const G &g, const VI &a, int k, int inner, VI thr) {
  int n = g.n; G q(k); for (int u = 0; u < n; ++u) for (int x : g.out[u]) if (a[u] != a[x]) q.edge(a[u], a[x]);
  q.norm(); if (!acyclic(q)) return;
  K kk(ctx, g, 1, true, thr); uint64_t ns = 0; VI gp = {0}, gs;
  for (int x = 0; x < k; ++x) { VI m, pick; for (int v = 0; v < n; ++v) if (a[v] == x) m.push_back(v); topo_orders(g, m, [&](const VI &o) { pick = o; }); gs.insert(gs.end(), pick.begin(), pick.end()); gp.push_back(gs.size()); }
  schedules(q, inner, [&](const HS &c) { ++ns; on_groups(kk, k, gp, gs, c, ""); });
  ctx.extra["grouped schedules"] += ns; ctx.checked(ns);
}
// schedules the library itself computes, then executed under every interleaving
static void library(Ctx &ctx, const G &g, bool exact, int vs, VI thr, const VI &parts) {
  int n = g.n; K k(ctx, g, vs, exact, thr); Csc c = csc_diag(g); std::vector<double> cost(n, 1.0); for (int i = 0; i < n; ++i) cost[i] = 1 + i % 3;
  omps::set_threads(2); mc::H h;
  auto take = [&](int L, const int *lp, const int *pp, const int *np) { HS s; s.L = L; s.lp.assign(lp, lp + L + 1); s.pp.assign(pp, pp + s.lp[L] + 1); s.np.assign(np, np + s.pp[s.lp[L]]); return s; };
  for (int w : parts) {
    { int L, P, *lp, *pp, *np; get_coarse_Level_set_DAG_CSC03(n, c.p.data(), c.i.data(), L, lp, P, pp, np, w, 1, 2, cost.data()); on_schedule(k, take(L, lp, pp, np), "coarsened "); delete[] lp; delete[] pp; delete[] np; }
    { int L, P, *lp, *pp, *np; get_coarse_Level_set_DAG_CSC03_parallel(n, c.p.data(), c.i.data(), L, lp, P, pp, np, w, 1, 2, cost.data(), 2, true); on_schedule(k, take(L, lp, pp, np), "coarsened in parallel "); delete[] lp; delete[] pp; delete[] np; }
    for (int bp = 0; bp < 2; ++bp) { Csc d = csr_diag(g); Csc e = c; int L; VI lp, pp, np; int nl;
      HDAGG::HDAGG(n, c.nnz(), e.p, e.i, cost, w, L, lp, pp, np, false, false, bp);
      on_schedule(k, take(L, lp.data(), pp.data(), np.data()), "hybrid "); }
  }
  ctx.checked(h.u(n).h);
}
static void body(Ctx &ctx) {
  bool T = ctx.thorough;
  for (int n = 1; n <= (T ? 6 : 5); ++n) {
    ctx.space = mc::cat("kernels n=", n, " x every schedule");
    for (uint64_t m = 0; m < (1ull << npairs(n)); ++m)
      CASE(ctx, "mask=", m, " ", lower(n, m).str()) kernels(ctx, lower(n, m), n <= 4, n <= 4 ? VI{1, 2, 3, 4} : VI{2, 3});
  }
  for (int n = 1; n <= 5; ++n) {
    ctx.space = mc::cat("grouped kernels n=", n, " x every grouping x every schedule");
    for (uint64_t m = 0; m < (1ull << npairs(n)); ++m) partitions(n, [&](const VI &a, int k) {
      CASE(ctx, "mask=", m, " groups=", mc::str(a)) grouped(ctx, lower(n, m), a, k, n < 5, n <= 4 ? VI{2, 3, 4} : VI{3});
    });
  }
  for (int n = 2; n <= (T ? 6 : 5); ++n) {
    ctx.space = mc::cat("library schedules n=", n);
    for (uint64_t m = 0; m < (1ull << npairs(n)); ++m) CASE(ctx, "mask=", m, " ", lower(n, m).str()) library(ctx, lower(n, m), true, 0, {2, 3}, {2, 3});
  }
  ctx.space = "library schedules, families";
  families(T ? 100 : 40, [&](const std::string &nm, const G &g) { if (g.n > 5) CASE(ctx, nm) library(ctx, g, false, 2, {2, 3, 4}, {2, 4}); });
}
MC_MAIN(body)
