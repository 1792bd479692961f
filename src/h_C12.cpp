// C12: parallel inspectors, every interleaving
#include "ops.hpp"
#include "omp/sched.hpp"
#include "aggregation/lbc.h"
#include "aggregation/sparse_inspector.h"
#include "aggregation/group.h"
#include "aggregation/group_utils.h"
using namespace gr;
using namespace sym_lib;
using mc::Ctx;
namespace sym_lib { // in no header: skipped if it is gone
__attribute__((weak)) int parallel_cc(int *lC, int *lR, int dfsLevel, int ubLevel, int *node2Level, int *levelPtr, int *levelSet, int *node2partition, double *outCost,
                double *nodeCost, double &curLeveledParCost, int numNodes, int *nodes, int numThreads);
}
static omps::Stats st;
struct R {
  Ctx &ctx; VI threads; int delay; std::string nm;
  template <class F> void operator()(const std::string &what, F body) {
    for (int t : threads) {
      omps::Opt o; o.threads = t; o.delay = delay; o.cache = true; o.maxexec = 3000000;
      std::string e = omps::explore(o, [&]() { return body(t); }, st);
      ctx.call(); mc::beat();
      if (!e.empty()) ctx.fail(mc::cat(what, " with ", t, " threads"), e);
    }
  }
};
static void stats(Ctx &ctx) {
  ctx.extra["interleavings"] += st.execs; ctx.extra["scheduling steps"] += st.steps; ctx.extra["races met"] += st.races; ctx.extra["barrier states"] += st.states; ctx.extra["merged at known states"] += st.merged;
  ctx.extra["interleavings of one case, max"] = std::max<long>(ctx.extra["interleavings of one case, max"], st.maxexecs); st = omps::Stats();
}
// connected components of the nodes in levels [lb, ub)
static VI comps(const G &g, const VI &lev, int lb, int ub) {
  VI c(g.n, -1); for (int i = 0; i < g.n; ++i) if (lev[i] >= lb && lev[i] < ub) c[i] = i;
  for (bool ch = true; ch;) { ch = false; for (int u = 0; u < g.n; ++u) if (c[u] >= 0) for (int v : g.out[u]) if (c[v] >= 0 && c[u] != c[v]) { c[u] = c[v] = std::min(c[u], c[v]); ch = true; } }
  return c;
}
static std::string same(const VI &want, const int *got) {
  int n = want.size();
  for (int i = 0; i < n; ++i) { if ((want[i] < 0) != (got[i] < 0)) return mc::cat("label of node ", i, " is ", got[i]); for (int j = 0; j < i; ++j) if (want[i] >= 0 && want[j] >= 0 && (want[i] == want[j]) != (got[i] == got[j])) return mc::cat("nodes ", j, " and ", i, " labelled ", got[j], " and ", got[i]); }
  return "";
}
static void cc(Ctx &ctx, const G &g, VI thr, bool windows) {
  int n = g.n; Csc c = csc_diag(g); VI lev; int nl = levels(g, lev); VI lp(nl + 1, 0), ls; for (int l = 0; l < nl; ++l) { for (int i = 0; i < n; ++i) if (lev[i] == l) ls.push_back(i); lp[l + 1] = ls.size(); }
  VD cost(n); for (int i = 0; i < n; ++i) cost[i] = 1 << i;
  R run{ctx, thr, -1, ""};
  for (int lb = 0; lb < nl; ++lb) for (int ub = lb + 1; ub <= nl; ++ub) {
    if (!windows && (lb != 0 || ub != nl)) continue;
    VI want = comps(g, lev, lb, ub); std::string w = mc::cat(" levels [", lb, ",", ub, ")"); int nn = lp[ub] - lp[lb];
    std::vector<int> reps; for (int i = 0; i < n; ++i) if (want[i] == i) reps.push_back(i);
    run("HDAGG::parallel_cc" + w, [&](int) -> std::string {
      VI lab(n, -1), nodes(ls.begin() + lp[lb], ls.begin() + lp[ub]);
      HDAGG::parallel_cc(n, c.p.data(), c.i.data(), lb, ub, lev.data(), nn, nodes.data(), lab.data());
      return same(want, lab.data());
    });
    if (sym_lib::parallel_cc) run("sym_lib::parallel_cc" + w, [&](int t) -> std::string {
      VI lab(n, -1), nodes(ls.begin() + lp[lb], ls.begin() + lp[ub]); VD out(n, 0); double x = 0;
      int k = sym_lib::parallel_cc(c.p.data(), c.i.data(), lb, ub, lev.data(), lp.data(), ls.data(), lab.data(), out.data(), cost.data(), x, nn, nodes.data(), t);
      std::string e = same(want, lab.data()); if (!e.empty()) return e;
      int mx = 0; VD w2(n, 0); for (int i = 0; i < n; ++i) if (lab[i] >= 0) { mx = std::max(mx, lab[i] + 1); w2[lab[i]] += cost[i]; }
      if (k != mx) return mc::cat("returned ", k, " for labels below ", mx);
      if (out != w2) return "component costs " + mc::str(out) + " instead of " + mc::str(w2);
      return "";
    });
    // grown step by step from every intermediate bound, as the aggregation does
    for (int mid = lb; mid < ub; ++mid) {
      if (!windows && mid != lb && mid != ub - 1) continue;
      run(mc::cat("computeCC", w, " known up to ", mid), [&](int) -> std::string {
        VI lab(n, -1); VD pc(n, 0); int cnt = -5; double tot = 0;
        if (mid > lb) { // a correct earlier result, labelled by the smallest position
          VI b = comps(g, lev, lb, mid), pos(n, -1); for (int i = lp[lb]; i < lp[mid]; ++i) pos[ls[i]] = i - lp[lb];
          for (int i = 0; i < n; ++i) if (b[i] >= 0) { int m = n; for (int j = 0; j < n; ++j) if (b[j] == b[i]) m = std::min(m, pos[j]); lab[i] = m; }
        }
        HDAGG::computeCC(lb, mid, ub, n, c.p.data(), c.i.data(), lp.data(), ls.data(), lev.data(), lab, cnt, pc, cost, tot);
        std::string e = same(want, lab.data()); if (!e.empty()) return e;
        if (cnt != (int)reps.size()) return mc::cat(cnt, " components instead of ", reps.size());
        VI labs; for (int i = 0; i < n; ++i) if (lab[i] >= 0) labs.push_back(lab[i]);
        std::sort(labs.begin(), labs.end()); labs.erase(std::unique(labs.begin(), labs.end()), labs.end());
        double sum = 0; for (size_t k = 0; k < labs.size(); ++k) { double s = 0; for (int i = 0; i < n; ++i) if (lab[i] == labs[k]) s += cost[i]; sum += s; if (pc[k] != s) return mc::cat("cost of component ", k, " is ", pc[k], " instead of ", s); }
        if (tot != sum) return mc::cat("total cost ", tot, " instead of ", sum);
        return "";
      });
    }
  }
  stats(ctx); ctx.checked(nl);
}

// routines whose result does not depend on the number of threads
template <class F> static void det(R &run, const std::string &what, F f) {
  omps::set_threads(1); const VD ref = f();
  run(what, [&](int) -> std::string { VD x = f(); if (x == ref) return ""; return "result " + mc::str(x) + " differs from the single-threaded " + mc::str(ref); });
}
static void put(VD &d, const VI &v) { d.push_back(v.size()); d.insert(d.end(), v.begin(), v.end()); }
static void loops(Ctx &ctx, const G &g, VI thr) {
  int n = g.n; Csc c = csc_diag(g), r = csr_diag(g); R run{ctx, thr, -1, ""}; hd::Quiet quiet;
  for (int k = 0; k < 7; ++k) det(run, mc::cat("costComputation kernel ", k), [&]() { VD x; HDAGG::costComputation(n, c.p.data(), c.i.data(), r.p.data(), r.i.data(), (HDAGG::Kernel)k, nullptr, nullptr, false, x); return x; });
  partitions(n, [&](const VI &a, int ng) {
    VI gp = {0}, gs, gi = a; for (int x = 0; x < ng; ++x) { for (int v = 0; v < n; ++v) if (a[v] == x) gs.push_back(v); gp.push_back(gs.size()); }
    std::string w = " groups " + mc::str(a);
    det(run, "buildGroupDAG" + w, [&]() { VI p, s; VD d; HDAGG::buildGroupDAG(n, ng, gp.data(), gs.data(), c.p.data(), c.i.data(), p, s); put(d, p); put(d, s); return d; });
    for (int k = 0; k < 7; k += n > 4 ? 3 : 1) det(run, mc::cat("costComputation grouped kernel ", k, w), [&]() { VD x; HDAGG::costComputation(ng, c.p.data(), c.i.data(), r.p.data(), r.i.data(), (HDAGG::Kernel)k, gp.data(), gs.data(), true, x); return x; });
    det(run, "fs_ic0csc_inspector_group" + w, [&]() { std::vector<VI> D(ng); VD d; fs_ic0csc_inspector_group(ng, gp.data(), gs.data(), gi.data(), c.p.data(), c.i.data(), D); for (auto &x : D) { std::sort(x.begin(), x.end()); x.erase(std::unique(x.begin(), x.end()), x.end()); put(d, x); } return d; });
  });
  for (int f = 0; f < 2; ++f) {
    det(run, mc::cat("treeBasedGrouping factor=", f), [&]() { VI p = c.p, i = c.i, a, b; int k = 0; VD d; HDAGG::treeBasedGrouping(n, p, i, k, a, b, f); d.push_back(k); put(d, a); put(d, b); return d; });
    det(run, mc::cat("treeBasedGroupingBFS factor=", f), [&]() { VI p = c.p, i = c.i, a, b; int k = 0; VD d; HDAGG::treeBasedGroupingBFS(n, p, i, k, a, b, f); d.push_back(k); put(d, a); put(d, b); return d; });
  }
  const Bits full = closure(g);
  for (int q = 0; q < 2; ++q) run(mc::cat("partialSparsification cliques=", q), [&](int) -> std::string {
    VI p, s; HDAGG::partialSparsification(n, c.nnz(), c.p.data(), c.i.data(), p, s, q);
    if ((int)p.size() < n + 1 || p[0] != 0 || p[n] != (int)s.size()) return "malformed result";
    std::vector<char> m(n * n, 0);
    for (int v = 0; v < n; ++v) { if (p[v + 1] < p[v]) return "malformed result"; int self = 0; for (int j = p[v]; j < p[v + 1]; ++j) { int x = s[j]; if (x == v) { ++self; continue; } if (x < 0 || x >= n || !std::binary_search(g.out[v].begin(), g.out[v].end(), x)) return mc::cat("edge ", v, "->", x, " is not in the input"); m[v * n + x] = 1; } if (self != 1) return mc::cat("column ", v, " lost its diagonal entry"); }
    for (int k = 0; k < n; ++k) for (int i = 0; i < n; ++i) if (m[i * n + k]) for (int j = 0; j < n; ++j) if (m[k * n + j]) m[i * n + j] = 1;
    for (int u = 0; u < n; ++u) for (int x : g.out[u]) if (!m[u * n + x]) return mc::cat("dependence ", u, "->", x, " is no longer implied");
    return "";
  });
  stats(ctx); ctx.checked(n);
}
static void supernodes(Ctx &ctx, int n, unsigned cut, VI thr) {
  VI sp = {0}; for (int v = 1; v < n; ++v) if (cut >> (v - 1) & 1) sp.push_back(v); sp.push_back(n); int ns = sp.size() - 1; VI gs(n); std::iota(gs.begin(), gs.end(), 0); R run{ctx, thr, -1, ""};
  det(run, "convertCNScheduleToSuperNode", [&]() { int L = 2; VI lp = {0, 1, ns > 1 ? 2 : 1}, pp = {0, 1}, np(ns); if (ns > 1) pp.push_back(ns); std::iota(np.begin(), np.end(), 0); VI gp = sp; HDAGG::convertCNScheduleToSuperNode(n, ns, gp.data(), gs.data(), sp.data(), L, lp, pp, np); VD d; put(d, lp); put(d, pp); put(d, np); return d; });
  stats(ctx); ctx.checked(ns);
}
// every other inspection routine: most are serial today, and must not depend on the number of threads or their timing if they are not
static std::vector<Op> OPS;
static bool free_result(const std::string &s) { // equally valid results may differ: decided by the oracles of the other spaces
  for (const char *p : {"HDAGG order", "GLC_V2", "build_coarsened_level_parallel", "DAG_CSC03_parallel", "partialSparsification cliques=1"}) if (s.compare(0, strlen(p), p) == 0) return true;
  return false;
}
static void every(Ctx &ctx, const Op &o, const G &g, VI thr) {
  R run{ctx, thr, -1, ""}; In in(g);
  det(run, o.name, [&]() { Dig d; Box b; { hd::Quiet q; o.f(in, b, d); } delete[] b.p; delete[] b.q; delete[] b.r; return VD(d.v.begin(), d.v.end()); });
  stats(ctx); ctx.checked(o.name.size());
}
// complete schedulers
static void coarsen(Ctx &ctx, const G &g, VI thr, int delay, const std::vector<VI> &grid) {
  int n = g.n; Csc c = csc_diag(g); VD cost(n); for (int i = 0; i < n; ++i) cost[i] = 1 + i % 3; R run{ctx, thr, delay, ""};
  for (auto &p : grid) for (int bp = 0; bp < 2; ++bp) run(mc::cat("parallel coarsening parts=", p[0], " first=", p[1], " step=", p[2], " pack=", bp), [&](int t) -> std::string {
    int L = -7, P = -7, *lp = nullptr, *pp = nullptr, *np = nullptr; VD w = cost;
    get_coarse_Level_set_DAG_CSC03_parallel(n, c.p.data(), c.i.data(), L, lp, P, pp, np, p[0], p[1], p[2], w.data(), t, bp);
    std::string e; if (L < 0 || L > n) e = mc::cat("level count ", L); else e = check_hsched(g, L, lp, pp, np, true);
    delete[] lp; delete[] pp; delete[] np; return e;
  });
  stats(ctx); ctx.checked(n);
}
static void hybrid(Ctx &ctx, const G &g, VI thr, int delay, VI cores) {
  int n = g.n; Csc c = csc_diag(g); R run{ctx, thr, delay, ""}; hd::Quiet quiet; VD cost(n); for (int i = 0; i < n; ++i) cost[i] = 1 + g.out[i].size();
  for (int co : cores) {
    for (int bp = 0; bp < 2; ++bp) run(mc::cat("HDAGG cores=", co, " pack=", bp), [&](int) -> std::string {
      hd::S s; VI p = c.p, i = c.i; VD w = cost; VI wm = HDAGG::HDAGG(n, c.nnz(), p, i, w, co, s.L, s.lp, s.pp, s.np, false, false, bp); return hd::valid(g, s); });
    for (int bp = 0; bp < 2; ++bp) run(mc::cat("GLC_V2 cores=", co, " pack=", bp), [&](int) -> std::string {
      hd::S s; VI p = c.p, i = c.i; VD w = cost; VI wm = HDAGG::GLC_V2(n, c.nnz(), p, i, w, co, s.L, s.lp, s.pp, s.np, false, false, bp); return hd::valid(g, s); });
    run(mc::cat("build_coarsened_level_parallel cores=", co), [&](int) -> std::string { hd::S s; HDAGG::build_coarsened_level_parallel(n, c.p.data(), c.i.data(), co, s.L, s.lp, s.pp, s.np); return hd::valid(g, s); });
  }
  stats(ctx); ctx.checked(n);
}
static void body(Ctx &ctx) {
  bool T = ctx.thorough;
  for (int n = 2; n <= 5; ++n) {
    ctx.space = mc::cat("components n=", n);
    for (uint64_t m = 0; m < (1ull << npairs(n)); ++m) CASE(ctx, "mask=", m, " ", lower(n, m).str()) cc(ctx, lower(n, m), n < (T ? 5 : 4) ? VI{2, 3} : VI{2}, n < 5);
  }
  for (int n = 1; n <= (T ? 6 : 5); ++n) {
    ctx.space = mc::cat("parallel loops n=", n);
    for (uint64_t m = 0; m < (1ull << npairs(n)); ++m) CASE(ctx, "mask=", m, " ", lower(n, m).str()) loops(ctx, lower(n, m), n < 5 ? VI{2, 3, 4} : VI{3});
  }
  ctx.space = "supernodes";
  for (int n = 1; n <= 7; ++n) for (unsigned m = 0; m < (1u << (n - 1)); ++m) CASE(ctx, "n=", n, " cuts=", m) supernodes(ctx, n, m, {2, 3, 4});
  OPS = ops(false);
  for (int n = 1; n <= (T ? 5 : 4); ++n) {
    ctx.space = mc::cat("every inspection routine n=", n);
    for (uint64_t m = 0; m < (1ull << npairs(n)); ++m) for (auto &o : OPS) if (!free_result(o.name)) CASE(ctx, o.name, " mask=", m) every(ctx, o, lower(n, m), n < 4 ? VI{2, 3, 4} : VI{2, 3});
  }
  for (int n = 2; n <= (T ? 5 : 4); ++n) {
    ctx.space = mc::cat("parallel coarsening n=", n);
    for (uint64_t m = 0; m < (1ull << npairs(n)); ++m) CASE(ctx, "mask=", m, " ", lower(n, m).str()) coarsen(ctx, lower(n, m), {2, 3}, -1, {{2, 0, 1}, {2, 1, 1}, {1, 1, 2}, {3, 0, 1}});
  }
  for (int n = 2; n <= (T ? 5 : 4); ++n) {
    ctx.space = mc::cat("hybrid aggregation n=", n);
    for (uint64_t m = 0; m < (1ull << npairs(n)); ++m) CASE(ctx, "mask=", m, " ", lower(n, m).str()) hybrid(ctx, lower(n, m), {2}, -1, {2, 3});
  }
  ctx.space = "families, delay bounded";
  families(T ? 16 : 10, [&](const std::string &nm, const G &g) { if (g.n > 5) { CASE(ctx, "coarsening ", nm) coarsen(ctx, g, {2, 3}, 2, {{2, 1, 1}}); CASE(ctx, "hybrid ", nm) hybrid(ctx, g, {3}, T ? 2 : 1, {2}); } });
}
MC_MAIN(body)
