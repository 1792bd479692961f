// C08: partial sparsification keeps the dependence relation
#include "hdagg_common.hpp"
using namespace hd;
using mc::Ctx;

static std::string compare(const G &g, const VI &dp, const VI &ds, int &edges) {
  int n = g.n;
  if ((int)dp.size() < n + 1) return mc::cat("pointer has ", dp.size(), " entries");
  if (dp[0] != 0) return mc::cat("pointer starts at ", dp[0]);
  if (dp[n] != (int)ds.size()) return mc::cat("pointer ends at ", dp[n], " index array has ", ds.size(), " entries");
  G o(n); edges = 0;
  for (int v = 0; v < n; ++v) {
    if (dp[v + 1] < dp[v] || dp[v + 1] > (int)ds.size()) return mc::cat("pointer ", v + 1, " is ", dp[v + 1]);
    int self = 0;
    for (int j = dp[v]; j < dp[v + 1]; ++j) {
      int x = ds[j];
      if (x < 0 || x >= n) return mc::cat("entry ", x, " in column ", v);
      if (j > dp[v] + 1 && ds[j - 1] >= x) return mc::cat("column ", v, " is not sorted or has a duplicate");
      if (x == v) { ++self; continue; }
      if (!std::binary_search(g.out[v].begin(), g.out[v].end(), x)) return mc::cat("edge ", v, "->", x, " is not in the input");
      o.edge(v, x); ++edges;
    }
    if (self != 1 || ds[dp[v]] != v) return mc::cat("column ", v, " lost its diagonal entry");
  }
  Bits a = closure(g), b = closure(o);
  for (int u = 0; u < n; ++u) for (int x : g.out[u]) if (!b.get(u, x)) return mc::cat("dependence ", u, "->", x, " is no longer implied");
  (void)a;
  return "";
}
static void one(Ctx &ctx, const G &g, bool lower_only = true) {
  Csc c = csc_diag(g), ref = c;
  mc::H h;
  for (int q = 0; q < 1 + lower_only; ++q) for (int reuse = 0; reuse < 4; ++reuse) {
    VI dp, ds;
    if (reuse == 1) { dp = {5, 5}; ds = {1}; }
    if (reuse == 2) { dp.assign(g.n + 4, 3); ds.assign(g.m() + g.n + 5, 0); }
    { Quiet s;
      if (reuse == 3) { VI one_p = {0, 1, 2}, one_i = {0, 1}; HDAGG::partialSparsification(2, 2, one_p.data(), one_i.data(), dp, ds, q); }
      HDAGG::partialSparsification(g.n, c.nnz(), c.p.data(), c.i.data(), dp, ds, q); }
    ctx.call();
    int e = 0;
    auto m = compare(g, dp, ds, e);
    if (!m.empty()) ctx.fail(mc::cat("partialSparsification cliques=", q, " output ", reuse ? "reused" : "fresh"), m);
    h.u(e).arr(ds.data(), ds.size());
    if (c.p != ref.p || c.i != ref.i) { ctx.fail("partialSparsification", "input modified"); c = ref; }
  }
  ctx.checked(h.h);
}
static void body(Ctx &ctx) {
  for (int n = 1; n <= (ctx.thorough ? 7 : 6); ++n) {
    ctx.space = mc::cat("lower DAGs n=", n);
    for (uint64_t m = 0; m < (1ull << npairs(n)); ++m) CASE(ctx, "mask=", m, " ", lower(n, m).str()) one(ctx, lower(n, m));
  }
  ctx.space = "DAG families";
  families(ctx.thorough ? 300 : 100, [&](const std::string &nm, const G &g) { CASE(ctx, nm) one(ctx, g); });
  ctx.space = "large DAG families";
  big_families(ctx.thorough ? VI{150, 600, 1500} : VI{150, 600}, [&](const std::string &nm, const G &g) { CASE(ctx, nm) one(ctx, g); }, true);
  for (int n = 2; n <= (ctx.thorough ? 5 : 4); ++n) {
    ctx.space = mc::cat("relabelled DAGs n=", n, " (not triangular, cliques off)");
    for (uint64_t m = 0; m < (1ull << npairs(n)); ++m) { VI p(n); std::iota(p.begin(), p.end(), 0); do { CASE(ctx, "mask=", m, " perm=", mc::str(p)) one(ctx, relabel(lower(n, m), p), false); } while (std::next_permutation(p.begin(), p.end())); }
  }
  ctx.space = "reversed families (upper triangular, cliques off)";
  families(ctx.thorough ? 100 : 30, [&](const std::string &nm, const G &g) { CASE(ctx, nm) { VI p(g.n); for (int i = 0; i < g.n; ++i) p[i] = g.n - 1 - i; one(ctx, relabel(g, p), false); } });
  ctx.space = "chains of cliques, every block size sequence";
  for (int n = 2; n <= (ctx.thorough ? 14 : 11); ++n) for (int m = 0; m < (1 << (n - 1)); ++m) for (int k = 0; k < 3; ++k) CASE(ctx, "n=", n, " cuts=", m, " tail=", k) {
    // block boundaries where bit set; every block is a clique; tail 0: disjoint, 1: all point at the next block, 2: all columns point at the last node
    G g(n);
    VI blk(n, 0); for (int i = 1; i < n; ++i) blk[i] = blk[i - 1] + (m >> (i - 1) & 1);
    for (int u = 0; u < n; ++u) for (int v = u + 1; v < n; ++v) if (blk[u] == blk[v] || (k == 1 && blk[v] == blk[u] + 1) || (k == 2 && v == n - 1)) g.edge(u, v);
    one(ctx, g);
  }
  ctx.space = "huge families";
  auto huge = [&](const std::string &nm, const std::function<G()> &mk) { CASE(ctx, nm) one(ctx, mk()); };
  huge_families(9000, huge); huge_chain(12000, huge);
  huge_families(33000, [&](const std::string &nm, const std::function<G()> &mk) { if (nm.find("star") == std::string::npos || nm[0] == 'i') huge(nm, mk); });
}
MC_MAIN(body)
