// C01: level sets
#include "graph.hpp"
#include "aggregation/def.h"
#include "aggregation/sparse_inspector.h"
#include "aggregation/sparse_utilities.h"
#include "aggregation/hdagg.h"
using namespace gr;
using mc::Ctx;

static std::string chk(int n, const VI &lev, int nl, int got, const int *ptr, const int *set) {
  if (got != nl) return mc::cat("number of levels ", got, ", longest path has ", nl);
  if (ptr[0] != 0) return mc::cat("levelPtr[0]=", ptr[0]);
  if (ptr[nl] != n) return mc::cat("levelPtr[last]=", ptr[nl], " for n=", n);
  std::vector<char> seen(n, 0);
  for (int l = 0; l < nl; ++l) {
    if (ptr[l + 1] <= ptr[l]) return mc::cat("level ", l, " is empty");
    for (int k = ptr[l]; k < ptr[l + 1]; ++k) {
      int v = set[k];
      if (v < 0 || v >= n) return mc::cat("node ", v, " out of range");
      if (seen[v]) return mc::cat("node ", v, " listed twice");
      seen[v] = 1;
      if (lev[v] != l) return mc::cat("node ", v, " in level ", l, ", its deepest predecessor puts it in ", lev[v]);
    }
  }
  return "";
}

static void dag_case(Ctx &ctx, const G &g, bool cyc) {
  int n = g.n;
  Csc c = csc_diag(g);
  Csc ref = c;
  VI lev; int nl = levels(g, lev);
  auto rep = [&](const char *w, const std::string &e) { if (!e.empty()) ctx.fail(w, e); };
  auto unchanged = [&](const char *w) { if (c.p != ref.p || c.i != ref.i) { ctx.fail(w, "input graph modified"); c = ref; } };
  mc::H h;
  { // allocating builder
    int *lp = nullptr, *ls = nullptr;
    int r = sym_lib::build_levelSet_CSC((size_t)n, c.p.data(), c.i.data(), lp, ls);
    ctx.call();
    if (cyc) { if (r != -1) ctx.fail("array builder", mc::cat("returned ", r, " for a cyclic graph")); }
    else rep("array builder", chk(n, lev, nl, r, lp, ls));
    if (!cyc && r == nl) h.arr(ls, n).arr(lp, nl + 1);
    delete[] lp; delete[] ls; unchanged("array builder");
  }
  { // preallocated builder
    int *lp = new int[n + 1](), *ls = new int[n];
    int r = sym_lib::build_levelSet_CSC((size_t)n, (const int *)c.p.data(), (const int *)c.i.data(), lp, ls);
    ctx.call();
    if (cyc) { if (r != -1) ctx.fail("preallocated builder", mc::cat("returned ", r, " for a cyclic graph")); }
    else rep("preallocated builder", chk(n, lev, nl, r, lp, ls));
    delete[] lp; delete[] ls; unchanged("preallocated builder");
  }
  { // builder with node levels
    int *lp = new int[n + 1](), *ls = new int[n], *nl2 = new int[n];
    for (int i = 0; i < n; ++i) nl2[i] = -77;
    int r = HDAGG::build_levelSet_CSC((size_t)n, c.p.data(), c.i.data(), lp, ls, nl2);
    ctx.call();
    if (cyc) { if (r != -1) ctx.fail("node-level builder", mc::cat("returned ", r, " for a cyclic graph")); }
    else {
      rep("node-level builder", chk(n, lev, nl, r, lp, ls));
      for (int i = 0; i < n; ++i) if (nl2[i] != lev[i]) { ctx.fail("node-level builder", mc::cat("level of node ", i, " is ", nl2[i], ", expected ", lev[i])); break; }
    }
    delete[] lp; delete[] ls; delete[] nl2; unchanged("node-level builder");
  }
  // vector versions; every second case with containers that held a larger problem
  for (int reuse = 0; reuse < 2; ++reuse) {
    VI lp, ls, n2l;
    if (reuse) { lp.assign(n + 6, 9); ls.assign(n + 6, 9); n2l = ls; lp[0] = 0; }
    int r = -5;
    sym_lib::computingLevelSet_CSC(n, c.p.data(), c.i.data(), lp, ls, r);
    ctx.call();
    if (cyc) {
      if (r != -1) ctx.fail("vector builder", mc::cat("returned ", r, " for a cyclic graph"));
    } else {
      rep("vector builder", chk(n, lev, nl, r, lp.data(), ls.data()));
      if (r == nl) {
        HDAGG::computingNode2Level(lp, ls, r, n, n2l);
        ctx.call();
        for (int i = 0; i < n; ++i) if ((int)n2l.size() < n || n2l[i] != lev[i]) { ctx.fail("node to level", mc::cat("node ", i)); break; }
      }
    }
    unchanged("vector builder");
  }
  if (!cyc) {
    { // queue based
      int *lp = new int[n + 1](), *ls = new int[n];
      int r = sym_lib::buildLevelSet_CSC_Queue(n, c.nnz(), c.p.data(), c.i.data(), lp, ls);
      ctx.call();
      rep("queue builder", chk(n, lev, nl, r, lp, ls));
      delete[] lp; delete[] ls; unchanged("queue builder");
    }
    for (int K = 1; K <= (n <= 3 ? 9 : n <= 60 && n > 6 ? 6 : 3); ++K) { // several loops over the same graph, copy q of a node after copy q-1
      int *lp = nullptr, *ls = nullptr;
      int r = sym_lib::level_set_multi_graphs(n, c.p.data(), c.i.data(), lp, ls, K);
      ctx.call();
      G m(n * K);
      for (int q = 0; q < K; ++q) for (int v = 0; v < n; ++v) { for (int x : g.out[v]) m.edge(v + q * n, x + q * n); if (q + 1 < K) m.edge(v + q * n, v + (q + 1) * n); }
      VI ml; int mn = levels(m, ml);
      rep(mc::cat("multi-loop builder x", K).c_str(), chk(n * K, ml, mn, r, lp, ls));
      delete[] lp; delete[] ls; unchanged("multi-loop builder");
    }
    { // depth: level in the transposed graph
      G t = transpose(g); VI dl; levels(t, dl);
      sym_lib::CSC A(n, n, c.nnz());
      std::copy(c.p.begin(), c.p.end(), A.p); std::copy(c.i.begin(), c.i.end(), A.i);
      int *d = new int[n];
      for (int i = 0; i < n; ++i) d[i] = -7;
      sym_lib::compute_depth(&A, d);
      ctx.call();
      for (int i = 0; i < n; ++i) if (d[i] != dl[i]) { ctx.fail("depth", mc::cat("node ", i, " depth ", d[i], ", expected ", dl[i])); break; }
      delete[] d;
    }
  }
  ctx.checked(h.h);
}

static void tree_case(Ctx &ctx, const VI &par) {
  int n = par.size();
  G g(n);
  for (int i = 0; i < n; ++i) if (par[i] >= 0) g.edge(i, par[i]);
  VI lev; int nl = levels(g, lev);
  mc::H h;
  {
    int *lp = new int[n + 1], *ls = new int[n];
    int r = sym_lib::build_level_set_tree(n, par.data(), lp, ls);
    std::string e = chk(n, lev, nl, r, lp, ls);
    if (!e.empty()) ctx.fail("tree builder", e); else h.arr(ls, n).arr(lp, nl + 1);
    delete[] lp; delete[] ls; ctx.call();
  }
  {
    int *lp = new int[n + 1](), *ls = new int[n], *n2l = new int[n](); 
    int *nc = new int[n]();
    for (int i = 0; i < n; ++i) if (par[i] >= 0) nc[par[i]]++;
    VI ncr(nc, nc + n);
    int r = sym_lib::build_level_set_tree_efficient(n, par.data(), nc, lp, ls, n2l);
    ctx.call();
    std::string e = chk(n, lev, nl, r, lp, ls);
    if (!e.empty()) ctx.fail("linear tree builder", e);
    for (int i = 0; i < n; ++i) if (n2l[i] != lev[i]) { ctx.fail("linear tree builder", mc::cat("node to level of ", i)); break; }
    if (ncr != VI(nc, nc + n)) ctx.fail("linear tree builder", "child counts modified");
    delete[] lp; delete[] ls; delete[] n2l; delete[] nc;
  }
  ctx.checked(h.h);
}

static void body(Ctx &ctx) {
  int nl = ctx.thorough ? 7 : 6;
  for (int n = 1; n <= nl; ++n) {
    ctx.space = mc::cat("all lower DAGs n=", n);
    for (uint64_t m = 0; m < (1ull << npairs(n)); ++m) CASE(ctx, "mask=", m, " ", lower(n, m).str()) dag_case(ctx, lower(n, m), false);
  }
  int nd = ctx.thorough ? 5 : 4;
  for (int n = 1; n <= nd; ++n) {
    ctx.space = mc::cat("all digraphs n=", n);
    for (uint64_t m = 0; m < (1ull << (n * (n - 1))); ++m) CASE(ctx, "mask=", m, " ", digraph(n, m).str()) { G g = digraph(n, m); dag_case(ctx, g, !acyclic(g)); }
  }
  ctx.space = "parametric DAG families";
  families(ctx.thorough ? 140 : 48, [&](const std::string &nm, const G &g) {
    CASE(ctx, nm) dag_case(ctx, g, false);
    // the same graph with node numbers reversed is upper triangular
    CASE(ctx, nm, " reversed") { VI p(g.n); for (int i = 0; i < g.n; ++i) p[i] = g.n - 1 - i; dag_case(ctx, relabel(g, p), false); }
    CASE(ctx, nm, " closed to a cycle") if (g.n > 1) { G h = g; int s = -1; for (int v = 0; v < g.n && s < 0; ++v) if (!g.out[v].empty()) s = v; if (s >= 0) { h.edge(g.out[s].back(), s); h.norm(); dag_case(ctx, h, true); } }
  });
  ctx.space = "large DAG families";
  big_families(ctx.thorough ? VI{150, 500, 1030, 2500} : VI{150, 1030}, [&](const std::string &nm, const G &g) {
    CASE(ctx, nm) dag_case(ctx, g, false);
    CASE(ctx, nm, " reversed") { VI p(g.n); for (int i = 0; i < g.n; ++i) p[i] = g.n - 1 - i; dag_case(ctx, relabel(g, p), false); }
    CASE(ctx, nm, " as a tree") { VI p(g.n, -1); for (int v = 0; v < g.n; ++v) if (!g.out[v].empty()) p[v] = g.out[v][0]; tree_case(ctx, p); }
  });
  for (int n = 1; n <= (ctx.thorough ? 9 : 8); ++n) {
    ctx.space = mc::cat("all forests n=", n);
    forests(n, [&](const VI &p) { CASE(ctx, mc::str(p)) tree_case(ctx, p); });
  }
  ctx.space = "huge families";
  huge_families(70000, [&](const std::string &nm, const std::function<G()> &mk) { CASE(ctx, nm) dag_case(ctx, mk(), false); CASE(ctx, nm, " as a tree") { G g = mk(); VI p(g.n, -1); for (int v = 0; v < g.n; ++v) if (!g.out[v].empty()) p[v] = g.out[v][0]; tree_case(ctx, p); } });
  huge_chain(33000, [&](const std::string &nm, const std::function<G()> &mk) { CASE(ctx, nm) dag_case(ctx, mk(), false); CASE(ctx, nm, " as a tree") { G g = mk(); VI p(g.n, -1); for (int v = 0; v < g.n; ++v) if (!g.out[v].empty()) p[v] = g.out[v][0]; tree_case(ctx, p); } });
}
MC_MAIN(body)
