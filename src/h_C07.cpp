// C07: row/column grouping inspectors and their dependence graphs
#include "graph.hpp"
#include "aggregation/def.h"
#include "aggregation/group.h"
#include "aggregation/group_utils.h"
using namespace gr;
using mc::Ctx;
typedef std::vector<std::vector<int>> VV;

struct Gr { VI gp, gs, gi; int ng = -3; };
static std::string check(int n, const Gr &r, bool ascending) {
  if (r.ng < (n > 0) || r.ng > n) return mc::cat("number of groups ", r.ng);
  if (r.gp[0] != 0 || r.gp[r.ng] != n) return mc::cat("groups span ", r.gp[0], "..", r.gp[r.ng], " of ", n);
  VI seen(n, -1);
  for (int k = 0; k < r.ng; ++k) {
    if (r.gp[k + 1] <= r.gp[k]) return mc::cat("group ", k, " is empty or negative");
    for (int q = r.gp[k]; q < r.gp[k + 1]; ++q) {
      int v = r.gs[q];
      if (v < 0 || v >= n) return mc::cat("member ", v, " out of range");
      if (seen[v] >= 0) return mc::cat("member ", v, " in two groups");
      seen[v] = k;
      if (r.gi[v] != k) return mc::cat("inverse map of ", v, " is ", r.gi[v], ", group is ", k);
      if (ascending && q > r.gp[k] && r.gs[q - 1] > v) return mc::cat("group ", k, " is not ascending");
    }
  }
  return "";
}
static G quotient(const G &g, const VI &grp, int k) {
  G q(k);
  for (int u = 0; u < g.n; ++u) for (int x : g.out[u]) if (grp[u] != grp[x]) q.edge(grp[u], grp[x]);
  q.norm(); return q;
}
static std::string same_edges(const G &q, const VV &d, bool dup_ok) {
  if ((int)d.size() != q.n) return mc::cat("dependence graph has ", d.size(), " nodes for ", q.n, " groups");
  for (int k = 0; k < q.n; ++k) {
    VI s = d[k]; std::sort(s.begin(), s.end());
    if (dup_ok) s.erase(std::unique(s.begin(), s.end()), s.end());
    if (s != q.out[k]) return mc::cat("group ", k, " points to [", mc::str(s), "] instead of [", mc::str(q.out[k]), "]");
  }
  return "";
}
static void deps(Ctx &ctx, const std::string &nm, const G &g, Gr &r, Csc &row, Csc &col) {
  G q = quotient(g, r.gi, r.ng);
  { VV d(r.ng); sym_lib::fs_csr_inspector_dep(r.ng, r.gp.data(), r.gs.data(), r.gi.data(), row.p.data(), row.i.data(), d); ctx.call();
    auto e = same_edges(q, d, true); if (!e.empty()) ctx.fail(nm + " + grouped row dependences", e); }
  { VV d(r.ng); sym_lib::fs_ic0csc_inspector_group(r.ng, r.gp.data(), r.gs.data(), r.gi.data(), col.p.data(), col.i.data(), d); ctx.call();
    auto e = same_edges(q, d, true); if (!e.empty()) ctx.fail(nm + " + grouped column dependences", e); }
  { VV in = g.out, keep = in;
    VV d = sym_lib::Group_DAG(in, r.gp.data(), r.gs.data(), r.gi.data(), r.ng); ctx.call();
    auto e = same_edges(q, d, false); if (!e.empty()) ctx.fail(nm + " + Group_DAG", e);
    if (in != keep) ctx.fail(nm + " + Group_DAG", "input modified"); }
}

static void one(Ctx &ctx, const G &g) {
  int n = g.n;
  Csc row = csr_diag(g), col = csc_diag(g), rr = row, rc = col;
  mc::H h;
  auto run = [&](const char *nm, int which, int blk, bool ascending, bool must_acyclic) {
    Gr r; r.gp.assign(n + 1, -7); r.gs.assign(n, -7); r.gi.assign(n, -7);
    bool csr = which < 2 || which == 4;
    Csc &m = csr ? row : col;
    sym_lib::group gg(n, m.p.data(), m.i.data());
    switch (which) {
      case 0: gg.inspection_sptrsvcsr_v1(r.gp.data(), r.gs.data(), r.ng, r.gi.data()); break;
      case 1: gg.inspection_sptrsvcsr_v2(r.gp.data(), r.gs.data(), r.ng, r.gi.data()); break;
      case 2: gg.inspection_spicocsc_v1(r.gp.data(), r.gs.data(), r.ng, r.gi.data()); break;
      case 3: gg.inspection_spicocsc_v2(r.gp.data(), r.gs.data(), r.ng, r.gi.data()); break;
      case 4: gg.NaiveGrouping(n, r.gp.data(), r.gs.data(), r.ng, r.gi.data(), blk); break;
    }
    ctx.call();
    std::string nn = mc::cat(nm, which == 4 ? mc::cat(" block size ", blk) : "");
    auto e = check(n, r, ascending);
    if (!e.empty()) { ctx.fail(nn, e); return; }
    if (which == 4 && r.ng != (n + blk - 1) / blk) ctx.fail(nn, mc::cat(r.ng, " groups"));
    { // members of a group run one after the other in the listed order
      VI pos(n); for (int q = 0; q < n; ++q) pos[r.gs[q]] = q;
      for (int u = 0; u < n; ++u) for (int x : g.out[u]) if (r.gi[u] == r.gi[x] && pos[x] < pos[u]) { ctx.fail(nn, mc::cat("members ", u, " and ", x, " of a group are listed against their dependence")); return; }
    }
    if (must_acyclic && !acyclic(quotient(g, r.gi, r.ng))) { ctx.fail(nn, "contracted groups form a cycle: " + mc::str(r.gi)); return; }
    if (row.p != rr.p || row.i != rr.i || col.p != rc.p || col.i != rc.i) { ctx.fail(nn, "input modified"); row = rr; col = rc; }
    deps(ctx, nn, g, r, row, col);
    h.u(r.ng).arr(r.gi.data(), n);
  };
  run("inspection_sptrsvcsr_v1", 0, 0, true, true);
  run("inspection_sptrsvcsr_v2", 1, 0, true, true);
  run("inspection_spicocsc_v1", 2, 0, true, true);
  run("inspection_spicocsc_v2", 3, 0, false, false);
  for (int b = 1; b <= std::min(n + 1, 9); ++b) run("NaiveGrouping", 4, b, true, true);
  { VV d(n); sym_lib::fs_csr_inspector_dep(n, row.p.data(), row.i.data(), d); ctx.call();
    auto e = same_edges(g, d, false); if (!e.empty()) ctx.fail("row dependences", e);
    h.u(g.m()); }
  ctx.checked(h.h);
}
static void anygroup(Ctx &ctx, const G &g, const VI &a, int k) {
  int n = g.n; Gr r; r.ng = k; r.gi = a; r.gp.assign(k + 1, 0); r.gs.assign(n, 0);
  for (int v : a) r.gp[v + 1]++;
  for (int i = 0; i < k; ++i) r.gp[i + 1] += r.gp[i];
  { VI w = r.gp; for (int v = 0; v < n; ++v) r.gs[w[a[v]]++] = v; }
  Csc row = csr_diag(g), col = csc_diag(g);
  deps(ctx, "given groups", g, r, row, col);
  ctx.checked(mc::H().arr(a.data(), n).u(g.m()).h);
}
static void circle(Ctx &ctx, const G &g) {
  std::string f = ctx.scratch + "/circle.txt";
  fflush(stdout);
  int old = dup(1), fd = open(f.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
  dup2(fd, 1);
  VV d = g.out;
  sym_lib::detectDAGCircle(d);
  fflush(stdout);
  dup2(old, 1); close(old);
  struct stat st; fstat(fd, &st); close(fd);
  bool two = false;
  for (int u = 0; u < g.n; ++u) for (int x : g.out[u]) for (int y : g.out[x]) two |= y == u;
  ctx.call();
  if (two != (st.st_size > 0)) ctx.fail("detectDAGCircle", two ? "mutual dependence not reported" : "reports a circle in a graph without one");
  ctx.checked(mc::H().u(two).h);
}
static void body(Ctx &ctx) {
  for (int n = 1; n <= (ctx.thorough ? 7 : 6); ++n) {
    ctx.space = mc::cat("lower triangular patterns n=", n);
    for (uint64_t m = 0; m < (1ull << npairs(n)); ++m) CASE(ctx, "mask=", m, " ", lower(n, m).str()) one(ctx, lower(n, m));
  }
  ctx.space = "DAG families";
  families(ctx.thorough ? 200 : 64, [&](const std::string &nm, const G &g) { CASE(ctx, nm) one(ctx, g); });
  ctx.space = "large DAG families";
  big_families(ctx.thorough ? VI{150, 500, 1030} : VI{150, 500}, [&](const std::string &nm, const G &g) { CASE(ctx, nm) one(ctx, g); });
  // the chains of nodes without dependents are limited to one twelfth of the columns
  ctx.space = "small DAGs among isolated nodes";
  for (int n = 2; n <= (ctx.thorough ? 5 : 4); ++n) for (uint64_t m = 1; m < (1ull << npairs(n)); ++m) for (int big : {12, 13, 25, 40}) for (int step : {1, 2, 3, 5}) for (int at = 0; at + (n - 1) * step < big; at += step < 3 && big < 30 ? 1 : 7) CASE(ctx, "n=", big, " mask=", m, " of ", n, " from=", at, " step=", step) {
    G g(big), t = lower(n, m);
    for (int v = 0; v < n; ++v) for (int x : t.out[v]) g.edge(at + v * step, at + x * step);
    g.norm(); one(ctx, g);
  }
  for (int n = 2; n <= (ctx.thorough ? 6 : 5); ++n) {
    ctx.space = mc::cat("dependence graphs of every grouping n=", n);
    for (uint64_t m = 0; m < (1ull << npairs(n)); ++m) partitions(n, [&](const VI &a, int k) { CASE(ctx, "mask=", m, " groups=", mc::str(a)) anygroup(ctx, lower(n, m), a, k); });
  }
  for (int n = 1; n <= 4; ++n) {
    ctx.space = mc::cat("mutual dependence detection, digraphs n=", n);
    for (uint64_t m = 0; m < (1ull << (n * (n - 1))); ++m) CASE(ctx, "mask=", m) circle(ctx, digraph(n, m));
  }
  ctx.space = "huge families";
  huge_families(70000, [&](const std::string &nm, const std::function<G()> &mk) { CASE(ctx, nm) one(ctx, mk()); });
  huge_chain(33000, [&](const std::string &nm, const std::function<G()> &mk) { CASE(ctx, nm) one(ctx, mk()); });
}
MC_MAIN(body)
