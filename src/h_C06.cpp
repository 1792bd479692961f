// C06: vertex grouping and quotient graphs
#include "hdagg_common.hpp"
#include "aggregation/lbc.h"
using namespace hd;
using mc::Ctx;
namespace HDAGG { __attribute__((weak)) bool treeBasedGrouping_Aggressive(int n, std::vector<int> &DAG_ptr, std::vector<int> &DAG_set, int &ngroups,
                               std::vector<int> &group_ptr, std::vector<int> &group_set, bool apply_size_restriction); }

// Exact quotient of g by grp (self edges dropped)
static G quotient(const G &g, const VI &grp, int k) {
  G q(k);
  for (int u = 0; u < g.n; ++u) for (int x : g.out[u]) if (grp[u] != grp[x]) q.edge(grp[u], grp[x]);
  q.norm(); return q;
}
static std::string check_groups(int n, int ng, const VI &gp, const VI &gs, VI &grp) {
  if (ng < (n > 0) || ng > n) return mc::cat("number of groups ", ng);
  if ((int)gp.size() < ng + 1) return mc::cat("group_ptr has ", gp.size(), " entries for ", ng, " groups");
  if (gp[0] != 0 || gp[ng] != n) return mc::cat("groups span ", gp[0], "..", gp[ng], " of ", n);
  if ((int)gs.size() < n) return mc::cat("group_set has ", gs.size(), " entries");
  grp.assign(n, -1);
  for (int k = 0; k < ng; ++k) {
    if (gp[k + 1] <= gp[k]) return mc::cat("group ", k, " is empty or negative");
    for (int q = gp[k]; q < gp[k + 1]; ++q) {
      int v = gs[q];
      if (v < 0 || v >= n) return mc::cat("node ", v, " out of range");
      if (grp[v] >= 0) return mc::cat("node ", v, " in groups ", grp[v], " and ", k);
      grp[v] = k;
    }
  }
  return "";
}
static std::string check_gdag(const G &g, int ng, const VI &grp, const VI &dp, const VI &ds, bool lib_has_diag) {
  if ((int)dp.size() < ng + 1) return mc::cat("group graph pointer has ", dp.size(), " entries for ", ng, " groups");
  if (dp[0] != 0) return mc::cat("group graph starts at ", dp[0]);
  G q = quotient(g, grp, ng);
  for (int k = 0; k < ng; ++k) {
    if (dp[k + 1] < dp[k] || dp[k + 1] > (int)ds.size()) return mc::cat("group graph pointer ", k + 1, " is ", dp[k + 1]);
    VI e; int self = 0;
    for (int j = dp[k]; j < dp[k + 1]; ++j) if (ds[j] == k) ++self; else e.push_back(ds[j]);
    VI s = e; std::sort(s.begin(), s.end());
    if (s != q.out[k]) return mc::cat("group ", k, " has edges to [", mc::str(s), "] instead of [", mc::str(q.out[k]), "]");
    if (self > 1) return mc::cat("group ", k, " repeats its own entry");
    if (lib_has_diag && self != 1) return mc::cat("group ", k, " lost its own entry");
  }
  return "";
}

// post order, grouped into chains, with the graph of the groups
static void postgroup(Ctx &ctx, const G &g) {
  int n = g.n; Csc c = csc_diag(g), ref = c;
  for (int reuse = 0; reuse < 2; ++reuse) {
    int ng = -4; VI gp, po, dp, ds; if (reuse) gp = {3, 1}, po = {8, 8}, dp = {2, 5, 6}, ds = {9};
    HDAGG::computePostOrderAndGroup(n, c.p.data(), c.i.data(), ng, gp, po, dp, ds); ctx.call();
    VI grp; std::string e = check_groups(n, ng, gp, po, grp);
    if (e.empty() && ((int)po.size() != n || (int)gp.size() != ng + 1)) e = "order or group boundaries of wrong size";
    VI pos(n); if (e.empty()) for (int k = 0; k < n; ++k) pos[po[k]] = k;
    if (e.empty()) for (int u = 0; u < n; ++u) for (int x : g.out[u]) if (pos[x] < pos[u]) e = mc::cat("node ", x, " is ordered before ", u, " it depends on");
    VI in(n, 0); for (int u = 0; u < n; ++u) for (int x : g.out[u]) ++in[x];
    if (e.empty()) for (int k = 0; k < ng; ++k) for (int j = gp[k]; j + 1 < gp[k + 1]; ++j) if (g.out[po[j]] != VI{po[j + 1]} || in[po[j + 1]] != 1) e = mc::cat("group ", k, " is not a chain");
    if (e.empty()) for (int k = 0; k + 1 < ng; ++k) { int u = po[gp[k + 1] - 1], x = po[gp[k + 1]]; if (g.out[u] == VI{x} && in[x] == 1) e = mc::cat("groups ", k, " and ", k + 1, " continue one chain"); }
    if (e.empty()) e = check_gdag(g, ng, grp, dp, ds, true);
    if (!e.empty()) ctx.fail(mc::cat("computePostOrderAndGroup output ", reuse ? "reused" : "fresh"), e);
    if (c.p != ref.p || c.i != ref.i) { ctx.fail("computePostOrderAndGroup", "input modified"); c = ref; }
  }
}
static void one(Ctx &ctx, const G &g, bool pipeline) {
  int n = g.n;
  Csc c = csc_diag(g), ref = c;
  mc::H h;
  typedef bool (*F)(int, VI &, VI &, int &, VI &, VI &, bool);
  struct A { const char *nm; F f; bool flag; };
  std::vector<A> fs = {{"treeBasedGrouping", HDAGG::treeBasedGrouping, false}, {"treeBasedGrouping size-limited", HDAGG::treeBasedGrouping, true},
                       {"treeBasedGroupingBFS", HDAGG::treeBasedGroupingBFS, false}, {"treeBasedGroupingBFS size-limited", HDAGG::treeBasedGroupingBFS, true},
                       {"chainGrouping", nullptr, false}};
  if (&HDAGG::treeBasedGrouping_Aggressive) { fs.push_back({"treeBasedGrouping_Aggressive", HDAGG::treeBasedGrouping_Aggressive, false}); fs.push_back({"treeBasedGrouping_Aggressive size-limited", HDAGG::treeBasedGrouping_Aggressive, true}); }
  for (auto &a : fs) {
    int ng = -5; VI gp = {7, 7, 7}, gs = {9}, dp, ds, grp;
    { Quiet q;
      if (a.f) a.f(n, c.p, c.i, ng, gp, gs, a.flag);
      else HDAGG::chainGrouping(n, c.p, c.i, ng, gp, gs); }
    ctx.call();
    std::string e = check_groups(n, ng, gp, gs, grp);
    if (!e.empty()) { ctx.fail(a.nm, e); continue; }
    if (c.p != ref.p || c.i != ref.i) { ctx.fail(a.nm, "input modified"); c = ref; }
    G q = quotient(g, grp, ng);
    if (!acyclic(q)) { ctx.fail(a.nm, mc::cat("contracted groups form a cycle: groups ", mc::str(grp))); continue; }
    HDAGG::buildGroupDAG(n, ng, gp.data(), gs.data(), c.p.data(), c.i.data(), dp, ds);
    ctx.call();
    e = check_gdag(g, ng, grp, dp, ds, true);
    if (!e.empty()) ctx.fail(mc::cat(a.nm, " + buildGroupDAG"), e);
    h.u(ng).arr(gp.data(), ng + 1).arr(gs.data(), n);
  }
  postgroup(ctx, g);
  ctx.checked(h.h);
}
// any grouping
static void quot(Ctx &ctx, const G &g, const VI &a, int k, bool diag) {
  int n = g.n;
  Csc c = diag ? csc_diag(g) : csc_nodiag(g);
  VI gp(k + 1, 0), gs(n), dp = {3, 3, 3, 3, 3, 3, 3, 3, 3}, ds = {4, 4};
  for (int v = 0; v < n; ++v) gp[a[v] + 1]++;
  for (int i = 0; i < k; ++i) gp[i + 1] += gp[i];
  { VI w = gp; for (int v = n - 1; v >= 0; --v) gs[w[a[v]]++] = v; }
  c.i.push_back(-99);
  HDAGG::buildGroupDAG(n, k, gp.data(), gs.data(), c.p.data(), c.i.data(), dp, ds);
  ctx.call();
  std::string e = check_gdag(g, k, a, dp, ds, diag);
  if (!e.empty()) ctx.fail("buildGroupDAG", e);
  ctx.checked(mc::H().arr(ds.data(), dp[k]).arr(dp.data(), k + 1).h);
  // groups taken from a schedule: one group per non-empty partition
  if (acyclic(quotient(g, a, k))) {
    G q = quotient(g, a, k); VI lev; int L = gr::levels(q, lev);
    VI lp = {0}, pp = {0}, np;
    for (int l = 0; l < L; ++l) {
      for (int j = 0; j < k; ++j) if (lev[j] == l) { for (int x = gp[j]; x < gp[j + 1]; ++x) np.push_back(gs[x]); pp.push_back(np.size()); if (j % 2) pp.push_back(np.size()); }
      lp.push_back(pp.size() - 1);
    }
    int ng = -1; VI fgp = {1}, fgs = {2, 2}, fdp = {5}, fds = {6, 6, 6}, grp;
    HDAGG::getFinalScheduleDAG(n, L, lp.data(), pp.data(), np.data(), c.p.data(), c.i.data(), ng, fgp, fgs, fdp, fds);
    ctx.call();
    e = check_groups(n, ng, fgp, fgs, grp);
    if (e.empty() && ng != k) e = mc::cat(ng, " groups from ", k, " partitions");
    if (e.empty()) for (int v = 0; v < n; ++v) for (int u = 0; u < n; ++u) if ((a[u] == a[v]) != (grp[u] == grp[v])) e = "groups differ from the partitions of the schedule";
    if (e.empty()) for (int i = 0; i < n; ++i) if (fgs[i] != np[i]) e = "group order differs from the schedule";
    if (e.empty()) e = check_gdag(g, ng, grp, fdp, fds, diag);
    if (!e.empty()) ctx.fail("getFinalScheduleDAG", e);
  }
}

static void body(Ctx &ctx) {
  int N = ctx.thorough ? 7 : 6;
  for (int n = 1; n <= N; ++n) {
    ctx.space = mc::cat("groupings of lower DAGs n=", n);
    for (uint64_t m = 0; m < (1ull << npairs(n)); ++m) CASE(ctx, "mask=", m, " ", lower(n, m).str()) one(ctx, lower(n, m), n <= 5);
  }
  ctx.space = "groupings of DAG families";
  families(ctx.thorough ? 300 : 80, [&](const std::string &nm, const G &g) { CASE(ctx, nm) one(ctx, g, false); });
  ctx.space = "groupings of large DAG families";
  big_families(ctx.thorough ? VI{150, 1030, 2500, 6000} : VI{150, 1030, 2500}, [&](const std::string &nm, const G &g) { CASE(ctx, nm) one(ctx, g, false); }, true);
  ctx.space = "groupings of small DAGs among isolated nodes (size limit of two and three)";
  for (int n = 3; n <= (ctx.thorough ? 5 : 4); ++n) for (uint64_t m = 0; m < (1ull << npairs(n)); ++m) for (int big : {1000, 2000, 20000}) for (int at = 0; at < 3; ++at) if (big < 20000 || (n < 4 && at == 0)) CASE(ctx, "n=", big, " mask=", m, " of ", n, " position=", at) {
    G g(big), s = lower(n, m); // at the front, at the back, spread
    auto id = [&](int v) { return at == 0 ? v : at == 1 ? big - n + v : v * (big / n); };
    for (int v = 0; v < n; ++v) for (int x : s.out[v]) g.edge(id(v), id(x));
    g.norm(); one(ctx, g, false);
  }
  ctx.space = "groupings of forests";
  for (int n = 1; n <= (ctx.thorough ? 9 : 8); ++n) forests(n, [&](const VI &par) {
    CASE(ctx, "parents=", mc::str(par)) { G g(n); for (int v = 0; v < n; ++v) if (par[v] >= 0) g.edge(v, par[v]); one(ctx, g, false); }
  });
  // group size limits start to differ from one node at n = 1000 (tree) and n = 20000 (breadth first)
  ctx.space = "large groupings (size limit active)";
  for (int n : {1000, 1999, 2000, 3001, 20000, 30001}) for (int k = 0; k < 6; ++k) CASE(ctx, "n=", n, " kind=", k) {
    G g(n);
    for (int v = 0; v + 1 < n; ++v) switch (k) {
      case 0: g.edge(v, v + 1); break;
      case 1: if (v + 3 < n) g.edge(v, v + 3); break;
      case 2: g.edge(v, n - 1); break;
      case 3: g.edge(v, v + 1); if (v % 10 == 0 && v + 5 < n) g.edge(v, v + 5); break;
      case 4: g.edge(v, n - 1 - (n - 2 - v) / 2); break;
      case 5: if (v % 6 != 5) g.edge(v, v + 1); else if (v + 6 < n) g.edge(v, v + 6); break;
    }
    g.norm();
    one(ctx, g, false);
  }
  for (int n = 1; n <= (ctx.thorough ? 5 : 4); ++n) {
    ctx.space = mc::cat("quotients: every DAG n=", n, " x every partition");
    for (uint64_t m = 0; m < (1ull << npairs(n)); ++m) partitions(n, [&](const VI &a, int k) {
      for (int d = 0; d < 2; ++d) CASE(ctx, "mask=", m, " groups=", mc::str(a), " diagonal=", d) quot(ctx, lower(n, m), a, k, d);
    });
  }
  ctx.space = "quotients n=5 (no transposed numbering)";
  if (!ctx.thorough) for (uint64_t m = 0; m < 1024; ++m) partitions(5, [&](const VI &a, int k) { CASE(ctx, "mask=", m, " groups=", mc::str(a)) quot(ctx, lower(5, m), a, k, true); });
  ctx.space = "quotients of upward numbered DAGs n=4";
  for (uint64_t m = 0; m < 64; ++m) partitions(4, [&](const VI &a, int k) { CASE(ctx, "mask=", m, " groups=", mc::str(a)) quot(ctx, relabel(lower(4, m), {3, 2, 1, 0}), a, k, true); });
  ctx.space = "huge families";
  auto huge = [&](const std::string &nm, const std::function<G()> &mk) { CASE(ctx, nm) one(ctx, mk(), false); };
  huge_families(12000, huge); huge_chain(33000, huge);
  huge_families(70000, [&](const std::string &nm, const std::function<G()> &mk) { if (nm.find("star") == std::string::npos || nm[0] == 'i') huge(nm, mk); });
}
MC_MAIN(body)
