// C10: scheduled triangular solves equal serial forward substitution
#include "sptrsv_common.hpp"
#include "aggregation/sparse_utilities.h"
#include "aggregation/lbc.h"
#include "aggregation/sparse_inspector.h"
#include "aggregation/hdagg.h"
#include "aggregation/FusionDemo.h"
#define GROUPING_ENABLED
#include "sptrsv_demo_utils.h"
#define main sptrsv_runtime_main
#include "SpTRSV_runtime.h"
#undef main
using namespace tr;
using namespace sym_lib;
using mc::Ctx;
struct Quiet { std::streambuf *a, *b; Quiet() : a(std::cout.rdbuf(nullptr)), b(std::cerr.rdbuf(nullptr)) {} ~Quiet() { std::cout.rdbuf(a); std::cerr.rdbuf(b); std::cout.clear(); std::cerr.clear(); } };

struct K {
  Ctx &ctx; Sys s; Csc rr; std::vector<double> xr; bool exact;
  K(Ctx &c, const G &g, int vs, bool ex) : ctx(c), s(make(g, vs)), rr(s.r), xr(s.x), exact(ex) {}
  template <class F> void run(const char *nm, F f, const std::string &what) {
    std::vector<double> x = s.b;
    f(x.data());
    ctx.call();
    std::string e = diff(s, x.data(), exact);
    if (e.empty() && (s.r.p != rr.p || s.r.i != rr.i || s.x != xr)) { e = "matrix modified"; s.r = rr; s.x = xr; }
    if (!e.empty()) ctx.fail(nm, e + " " + what);
  }
  int *p() { return s.r.p.data(); } int *i() { return s.r.i.data(); } double *v() { return s.x.data(); }
};
static void kernels(Ctx &ctx, const G &g, int vs, int inner) {
  K k(ctx, g, vs, true); int n = g.n; mc::H h; uint64_t ns = 0;
  k.run("sptrsv_csr", [&](double *x) { sptrsv_csr(n, k.p(), k.i(), k.v(), x); }, "");
  schedules(g, inner, [&](const HS &c) {
    HS s = c; ++ns;
    k.run("sptrsv_csr_lbc", [&](double *x) { sptrsv_csr_lbc(n, k.p(), k.i(), k.v(), x, s.L, s.lp.data(), s.pp.data(), s.np.data()); }, c.str());
    k.run("sptrsv_csr_lbc_seq", [&](double *x) { sptrsv_csr_lbc_seq(n, k.p(), k.i(), k.v(), x, s.L, s.lp.data(), s.pp.data(), s.np.data()); }, c.str());
    if ((int)s.pp.size() == n + 1) { // every partition is one node: a level set
      k.run("sptrsv_csr_levelset", [&](double *x) { sptrsv_csr_levelset(n, k.p(), k.i(), k.v(), x, s.L, s.lp.data(), s.np.data()); }, c.str());
      k.run("sptrsv_csr_levelset (second form)", [&](double *x) { sptrsv_csr_levelset(n, k.p(), k.i(), k.v(), s.L, s.lp.data(), s.np.data(), x); }, c.str());
      k.run("sptrsv_csr_levelset_seq", [&](double *x) { sptrsv_csr_levelset_seq(n, k.p(), k.i(), k.v(), x, s.L, s.lp.data(), s.np.data()); }, c.str());
    }
    if (s.lp != c.lp || s.pp != c.pp || s.np != c.np) ctx.fail("solve", "schedule modified");
  });
  ctx.extra["schedules"] += ns;
  ctx.checked(h.u(ns).h);
}
static void grouped(Ctx &ctx, const G &g, const VI &a, int k, int inner) {
  int n = g.n; G q(k); for (int u = 0; u < n; ++u) for (int x : g.out[u]) if (a[u] != a[x]) q.edge(a[u], a[x]);
  q.norm(); if (!acyclic(q)) return;
  K kk(ctx, g, 1, true); uint64_t ns = 0;
  VI gp = {0}, gs;
  for (int x = 0; x < k; ++x) { VI m, pick; for (int v = 0; v < n; ++v) if (a[v] == x) m.push_back(v); topo_orders(g, m, [&](const VI &o) { pick = o; }); gs.insert(gs.end(), pick.begin(), pick.end()); gp.push_back(gs.size()); }
  VI g1 = gp, g2 = gs;
  schedules(q, inner, [&](const HS &c) {
    HS s = c; ++ns; std::string d = c.str() + " groups " + mc::str(gp) + mc::str(gs);
    kk.run("sptrsv_csr_group_lbc", [&](double *x) { sptrsv_csr_group_lbc(n, kk.p(), kk.i(), kk.v(), x, s.L, s.lp.data(), s.pp.data(), s.np.data(), g1.data(), g2.data()); }, d);
    if ((int)s.pp.size() == k + 1) {
      kk.run("sptrsv_csr_group_levelset", [&](double *x) { sptrsv_csr_group_levelset(kk.p(), kk.i(), kk.v(), x, s.L, s.lp.data(), s.np.data(), g1.data(), g2.data()); }, d);
      kk.run("fs_csr_executor_sgroup", [&](double *x) { int r = fs_csr_executor_sgroup(n, kk.p(), kk.i(), kk.v(), x, x, g1.data(), g2.data(), k, s.L, s.lp.data(), s.np.data()); if (r != 1) ctx.fail("fs_csr_executor_sgroup", mc::cat("returned ", r)); }, d);
    }
    if (s.lp != c.lp || s.pp != c.pp || s.np != c.np || g1 != gp || g2 != gs) ctx.fail("grouped solve", "schedule or groups modified");
  });
  ctx.extra["grouped schedules"] += ns;
  ctx.checked(ns);
}
// frees the schedule itself: the destructor of the base uses the wrong form of delete (a recorded defect)
struct Lbc : SpTrSv_LL_LBC { Lbc(CSR *L, CSC *C, double *x, int c) : SpTrSv_LL_LBC(L, C, x, "", c) { final_level_ptr = final_part_ptr = final_node_ptr = nullptr; } ~Lbc() { delete[] final_level_ptr; delete[] final_part_ptr; delete[] final_node_ptr; final_level_ptr = final_part_ptr = final_node_ptr = nullptr; } };
static void recorded(Ctx &ctx) {
  ctx.space = "recorded defects";
  CASE(ctx, "schedule of SpTrSv_LL_LBC released") { int r = mc::in_child([&] { Quiet q; CSR R(1, 1, 1); CSC C(1, 1, 1); R.p[0] = C.p[0] = R.i[0] = C.i[0] = 0; R.p[1] = C.p[1] = 1; R.x[0] = C.x[0] = 1; auto *d = new SpTrSv_LL_LBC(&R, &C, nullptr, "", 2); d->evaluate(); delete d; return 0; }); ctx.call(); ctx.checked(); if (r) ctx.fail("SpTrSv_LL_LBC", "arrays released with delete"); }
}
// Complete demonstrators: inspect, schedule, execute
static void demos(Ctx &ctx, const G &g, int vs, bool exact, const std::vector<int> &cores, const std::vector<std::pair<int, int>> &par) {
  int n = g.n; Sys s = make(g, vs);
  CSR R(n, n, s.r.nnz(), false); CSC C(n, n, s.r.nnz(), false);
  auto fill = [&]() {
    std::copy(s.r.p.begin(), s.r.p.end(), R.p); std::copy(s.r.i.begin(), s.r.i.end(), R.i); std::copy(s.x.begin(), s.x.end(), R.x);
    VI w(n + 1, 0); for (int c : s.r.i) w[c + 1]++; for (int j = 0; j < n; ++j) w[j + 1] += w[j];
    std::copy(w.begin(), w.end(), C.p);
    for (int i = 0; i < n; ++i) for (int k = s.r.p[i]; k < s.r.p[i + 1]; ++k) { int z = w[s.r.i[k]]++; C.i[z] = i; C.x[z] = s.x[k]; }
  };
  int closed = 1;
  for (int j = 0; j < n; ++j) if (!g.out[j].empty()) { int p = g.out[j][0]; for (int x : g.out[j]) if (x > p && !std::count(g.out[p].begin(), g.out[p].end(), x)) closed = 0; }
  fill(); C.stype = -1; R.stype = -1;
  Sys one = s; // the demonstrators use a right-hand side of ones
  for (int i = 0; i < n; ++i) { double t = 1; int e = s.r.p[i + 1] - 1; for (int k = s.r.p[i]; k < e; ++k) t -= s.x[k] * one.sol[s.r.i[k]]; one.sol[i] = t / s.x[e]; }
  Csc cr; cr.n = n; cr.p.assign(C.p, C.p + n + 1); cr.i.assign(C.i, C.i + s.r.nnz()); std::vector<double> cx(C.x, C.x + s.r.nnz());
  auto go = [&](const std::string &nm, FusionDemo *d) {
    std::string e;
    { Quiet q; d->evaluate(); e = diff(one, d->solution(), exact); }
    ctx.call();
    if (e.empty()) {
      for (int i = 0; i <= n; ++i) if (R.p[i] != s.r.p[i] || C.p[i] != cr.p[i]) e = "matrix modified";
      for (int i = 0; i < s.r.nnz(); ++i) if (R.i[i] != s.r.i[i] || R.x[i] != s.x[i] || C.i[i] != cr.i[i] || C.x[i] != cx[i]) e = "matrix modified";
    }
    if (!e.empty()) ctx.fail(nm, e);
    delete d;
  };
  go("SptrsvSerial", new SptrsvSerial(&R, &C, one.sol.data(), ""));
  go("SptrsvLevelSet", new SptrsvLevelSet(&R, &C, one.sol.data(), ""));
  go("SpTrsvCSR_Grouping", new SpTrsvCSR_Grouping(&R, &C, one.sol.data(), "", 2));
  go("SpTrsv_LL_Wavefront", new SpTrsv_LL_Wavefront(&R, &C, one.sol.data(), "", 2));
  go("SpTrSv_LL_Tree_Wavefront", new SpTrSv_LL_Tree_Wavefront_No_unPACK(&R, &C, one.sol.data(), "", 2));
  for (int c : cores) {
    for (auto &p : par) {
      std::string d = mc::cat(" parts=", c, " cut=", p.first, " merge=", p.second);
      go("SptrsvLBC" + d, new SptrsvLBC(&R, &C, one.sol.data(), "", c, p.first, p.second));
      go("SptrsvLBCDAG" + d, new SptrsvLBCDAG(&R, &C, one.sol.data(), "", c, p.first, p.second));
      go("SptrsvLBCDAGParallel" + d, new SptrsvLBCDAGParallel(&R, &C, one.sol.data(), "", c, p.first, p.second));
      for (int f = 0; f < 2; ++f) {
        go("SptrsvLBC_W_Sorting" + d, new SptrsvLBC_W_Sorting(&R, &C, one.sol.data(), "", c, p.first, p.second, f));
        go("SpTrsvCSR_Grouping_H2" + d, new SpTrsvCSR_Grouping_H2(&R, &C, one.sol.data(), "", c, p.first, p.second, f));
      }
    }
    for (int bp = 0; bp < 2; ++bp) {
      std::string d = mc::cat(" cores=", c, " pack=", bp);
      go("SpTrSv_LL_HDAGG" + d, new SpTrSv_LL_HDAGG(&R, &C, one.sol.data(), "", c, bp));
      for (int lf = 0; lf <= closed; ++lf) { // the tree of a factor orders the whole factor
        go("SpTrSv_LL_Tree_HDAGG" + d, new SpTrSv_LL_Tree_HDAGG(&R, &C, one.sol.data(), "", c, lf, bp));
        go("SpTrSv_LL_Tree_HDAGG_BFS" + d, new SpTrSv_LL_Tree_HDAGG_BFS(&R, &C, one.sol.data(), "", c, lf, bp));
      }
    }
    go("SpTrSv_LL_LBC", new Lbc(&R, &C, one.sol.data(), c));
  }
  ctx.checked(mc::H().u(R.p[n]).h);
}
static void body(Ctx &ctx) {
  bool T = ctx.thorough; recorded(ctx);
  for (int n = 1; n <= (T ? 6 : 5); ++n) {
    ctx.space = mc::cat("kernels n=", n, " x every schedule");
    for (uint64_t m = 0; m < (1ull << npairs(n)); ++m) for (int vs = 0; vs < (n < 5 ? 2 : 1); ++vs)
      CASE(ctx, "mask=", m, " values=", vs, " ", lower(n, m).str()) kernels(ctx, lower(n, m), vs, n < 6);
  }
  for (int n = 1; n <= 5; ++n) {
    ctx.space = mc::cat("grouped kernels n=", n, " x every grouping x every schedule");
    for (uint64_t m = 0; m < (1ull << npairs(n)); ++m) partitions(n, [&](const VI &a, int k) {
      CASE(ctx, "mask=", m, " groups=", mc::str(a)) grouped(ctx, lower(n, m), a, k, n < 5 || T);
    });
  }
  std::vector<std::pair<int, int>> par = {{0, 1}, {-1, 4000}, {1, 2}, {2, 1}};
  for (int n = 1; n <= (T ? 6 : 5); ++n) {
    ctx.space = mc::cat("demonstrators n=", n);
    for (uint64_t m = 0; m < (1ull << npairs(n)); ++m) CASE(ctx, "mask=", m, " ", lower(n, m).str()) demos(ctx, lower(n, m), m % 2, true, n < 5 ? VI{1, 2, 3} : VI{2}, par);
  }
  ctx.space = "demonstrators, families";
  families(T ? 150 : 40, [&](const std::string &nm, const G &g) { if (g.n > 5) CASE(ctx, nm) demos(ctx, g, 2, false, T ? VI{1, 2, 3, 4, 8} : VI{2, 3}, {{-1, 4000}, {1, 2}}); });
  ctx.space = "demonstrators, large families";
  big_families(T ? VI{150, 600, 1500} : VI{150, 1030}, [&](const std::string &nm, const G &g) { CASE(ctx, nm) demos(ctx, g, 2, false, {3}, {{1, 2}}); }, true);
  ctx.space = "huge families";
  huge_families(33000, [&](const std::string &nm, const std::function<G()> &mk) { CASE(ctx, nm) demos(ctx, mk(), 2, false, {3}, {{1, 2}}); });
  huge_chain(3000, [&](const std::string &nm, const std::function<G()> &mk) { CASE(ctx, nm) demos(ctx, mk(), 2, false, {3}, {{1, 2}}); });
}
MC_MAIN(body)
