// C04: blocked level sets and blocked coarsening
#include "lbc_common.hpp"
#include "aggregation/lbc_utils.h"
using namespace lbc;
using mc::Ctx;

struct Blocked {
  int n, nb;
  VI s2c, c2s;               // block -> first column (nb+1), column -> block
  std::vector<size_t> lp, lip; VI rows;
  Csc padded;                // column form with the block structure filled in
  G q;                       // block graph
};
// widths: composition of n
static Blocked make(const G &g, const VI &w) {
  Blocked b; b.n = g.n; b.nb = w.size(); b.s2c.assign(1, 0); b.c2s.assign(g.n, 0);
  for (size_t k = 0; k < w.size(); ++k) { b.s2c.push_back(b.s2c.back() + w[k]); for (int c = b.s2c[k]; c < b.s2c[k + 1]; ++c) b.c2s[c] = k; }
  b.lp.assign(g.n + 1, 0); b.lip.assign(g.n + 1, 0); b.q = G(b.nb);
  b.padded.n = g.n; b.padded.p.assign(1, 0);
  for (int k = 0; k < b.nb; ++k) {
    int c0 = b.s2c[k], c1 = b.s2c[k + 1];
    std::set<int> r; for (int c = c0; c < c1; ++c) { r.insert(c); for (int x : g.out[c]) r.insert(x); }
    for (int c = c0; c < c1; ++c) { b.lip[c] = b.rows.size(); for (int x : r) if (x >= c) b.padded.i.push_back(x); b.padded.p.push_back(b.padded.i.size()); }
    for (int x : r) { b.rows.push_back(x); if (b.c2s[x] != k) b.q.edge(k, b.c2s[x]); }
    b.lip[c1] = b.rows.size();
    for (int c = c0; c < c1; ++c) b.lp[c + 1] = b.lp[c] + r.size();
  }
  b.q.norm();
  return b;
}
static void comps(int n, const std::function<void(const VI &)> &f) {
  for (int m = 0; m < (1 << (n - 1)); ++m) { VI w; int c = 1; for (int i = 0; i < n - 1; ++i) { if (m >> i & 1) { w.push_back(c); c = 1; } else ++c; } w.push_back(c); f(w); }
}
template <class T> static std::string lvl(int n, const VI &lev, int nl, int got, const int *ptr, const T *set, const std::function<int(int)> &id) {
  if (got != nl) return mc::cat(got, " levels, longest path has ", nl);
  if (ptr[0] || ptr[nl] != n) return mc::cat("level pointers cover ", ptr[0], "..", ptr[nl], " of ", n);
  std::vector<char> seen(n, 0);
  for (int l = 0; l < nl; ++l) {
    if (ptr[l + 1] < ptr[l]) return "level pointers decrease";
    for (int k = ptr[l]; k < ptr[l + 1]; ++k) {
      int v = id((int)set[k]);
      if (v < 0 || v >= n || seen[v]) return mc::cat("block ", v, " invalid or repeated");
      seen[v] = 1;
      if (lev[v] != l) return mc::cat("block ", v, " in level ", l, ", expected ", lev[v]);
    }
  }
  return "";
}

static void lev_case(Ctx &ctx, const G &g, const VI &w) {
  Blocked b = make(g, w);
  int n = b.n, nb = b.nb;
  VI lev; int nl = levels(b.q, lev);
  mc::H h;
  {
    int *lp = nullptr; size_t *ls = nullptr;
    auto l2 = b.lip; auto r2 = b.rows;
    int r = sym_lib::build_levelSet_BCSC(n, b.rows.size(), b.lp.data(), b.lip.data(), b.rows.data(), nb, b.s2c.data(), b.c2s.data(), lp, ls);
    ctx.call();
    std::string e = lvl(nb, lev, nl, r, lp, ls, [](int v) { return v; });
    if (!e.empty()) ctx.fail("blocked level set", e); else h.arr(ls, nb).arr(lp, nl + 1);
    if (l2 != b.lip || r2 != b.rows) ctx.fail("blocked level set", "input modified");
    delete[] lp; delete[] ls;
  }
  for (int K = 1; K <= (n <= 3 ? 9 : n > 6 && n <= 60 ? 6 : 3); ++K) {
    G m(nb * K);
    for (int q = 0; q < K; ++q) for (int v = 0; v < nb; ++v) { for (int x : b.q.out[v]) m.edge(v + q * nb, x + q * nb); if (q + 1 < K) m.edge(v + q * nb, v + (q + 1) * nb); }
    VI ml; int mn = levels(m, ml);
    {
      int *lp = nullptr, *ls = nullptr; VI sup = b.s2c; Csc c = b.padded;
      int r = sym_lib::level_set_bn(n, c.p.data(), c.i.data(), lp, ls, sup.data(), nb, K, true);
      ctx.call();
      std::string e = lvl(nb * K, ml, mn, r, lp, ls, [&](int v) { if (v < 0 || v >= n * K) return -1; int q = v / n; v %= n; int k = b.c2s[v]; return b.s2c[k] == v ? k + q * nb : -1; });
      if (!e.empty()) ctx.fail(mc::cat("blocked level set, lower, loops ", K), e); else h.arr(ls, nb * K);
      if (c.p != b.padded.p || c.i != b.padded.i || sup != b.s2c) ctx.fail("blocked level set, lower", "input modified");
      int *s2n = nullptr;
      sym_lib::sup2node_gen(n, nb * K, ls, nb, sup.data(), s2n);
      ctx.call();
      for (int i = 0; i < nb * K && e.empty(); ++i) if (s2n[i] != b.c2s[ls[i] % n]) { ctx.fail("supernode to node map", mc::cat("entry ", i)); break; }
      delete[] s2n; delete[] lp; delete[] ls;
    }
    { // upper: mirror the matrix; block k of the mirrored matrix ends at column n-1-s2c[k]
      VI sup; for (int k = 0; k <= nb; ++k) sup.push_back(n - 1 - b.s2c[k]);
      Csc u; u.n = n; u.p.assign(1, 0);
      for (int c = 0; c < n; ++c) { int o = n - 1 - c; for (int x = b.padded.p[o + 1] - 1; x >= b.padded.p[o]; --x) u.i.push_back(n - 1 - b.padded.i[x]); u.p.push_back(u.i.size()); }
      int *lp = nullptr, *ls = nullptr;
      int r = sym_lib::level_set_bn(n, u.p.data(), u.i.data(), lp, ls, sup.data(), nb, K, false);
      ctx.call();
      std::string e = lvl(nb * K, ml, mn, r, lp, ls, [&](int v) { if (v < 0 || v >= n * K) return -1; int q = v / n; v %= n; int k = b.c2s[n - 1 - v]; return b.s2c[k] == n - 1 - v ? k + q * nb : -1; });
      if (!e.empty()) ctx.fail(mc::cat("blocked level set, upper, loops ", K), e); else h.arr(ls, nb * K);
      delete[] lp; delete[] ls;
    }
  }
  ctx.checked(h.h);
}

static void coarse_case(Ctx &ctx, const G &g, const VI &w, Par p) {
  Blocked b = make(g, w);
  mc::H h;
  for (int ck = 0; ck < 2; ++ck) {
    auto cost = costs(b.nb, ck), cref = cost;
    auto lip = b.lip; auto rows = b.rows;
    Sched s; int *par = nullptr;
    sym_lib::getCoarseLevelSet_DAG_BCSC02(b.nb, b.lp.data(), b.lip.data(), b.rows.data(), b.s2c.data(), b.c2s.data(), s.L, s.lp, par, s.P, s.pp, s.np, p.w, p.first, p.step, cost.data());
    ctx.call();
    std::string e = check_hsched(b.q, s.L, s.lp, s.pp, s.np);
    if (!e.empty()) ctx.fail(mc::cat("blocked coarsening (cost ", ck, ")"), e);
    else { h.u(s.L).arr(s.np, b.nb); h.arr(s.pp, s.lp[s.L] + 1); }
    if (lip != b.lip || rows != b.rows || cost != cref) ctx.fail("blocked coarsening", "input modified");
  }
  ctx.checked(h.h);
}

static void body(Ctx &ctx) {
  for (int n = 1; n <= (ctx.thorough ? 6 : 5); ++n) {
    ctx.space = mc::cat("matrices n=", n, " x block partitions: level sets");
    for (uint64_t m = 0; m < (1ull << npairs(n)); ++m) comps(n, [&](const VI &w) { CASE(ctx, "mask=", m, " blocks=", mc::str(w)) lev_case(ctx, lower(n, m), w); });
  }
  ctx.space = "width-one blocks n=6: level sets";
  for (uint64_t m = 0; m < (1ull << npairs(6)); ++m) CASE(ctx, "mask=", m) lev_case(ctx, lower(6, m), VI(6, 1));
  std::vector<Par> grid;
  for (int w : {1, 2, 3, 4, 9}) for (int f : {-1, 0, 1, 2, 3}) for (int s : {0, 2, 3, 4000}) grid.push_back({w, f, s});
  auto P = [](Par p) { return mc::cat("parts=", p.w, " dist=", p.first, " div=", p.step, " "); };
  for (int n = 1; n <= 4; ++n) {
    ctx.space = mc::cat("matrices n=", n, " x block partitions x parameter grid: coarsening");
    for (auto p : grid) for (uint64_t m = 0; m < (1ull << npairs(n)); ++m) comps(n, [&](const VI &w) { CASE(ctx, P(p), "mask=", m, " blocks=", mc::str(w)) coarse_case(ctx, lower(n, m), w, p); });
  }
  std::vector<Par> few = ctx.thorough ? grid : std::vector<Par>{{2, 1, 2}, {3, 2, 2}, {4, 1, 3}, {9, 1, 2}};
  ctx.space = "matrices n=5 x block partitions: coarsening";
  for (auto p : few) for (uint64_t m = 0; m < (1ull << npairs(5)); ++m) comps(5, [&](const VI &w) { CASE(ctx, P(p), "mask=", m, " blocks=", mc::str(w)) coarse_case(ctx, lower(5, m), w, p); });
  ctx.space = "width-one blocks n=6: coarsening";
  for (auto p : few) for (uint64_t m = 0; m < (1ull << npairs(6)); ++m) CASE(ctx, P(p), "mask=", m) coarse_case(ctx, lower(6, m), VI(6, 1), p);
  ctx.space = "families x uniform and mixed block widths";
  families(ctx.thorough ? 80 : 30, [&](const std::string &nm, const G &g) {
    for (int k = 1; k <= 4; ++k) {
      VI w; int left = g.n, t = 0;
      while (left > 0) { int x = k == 4 ? 1 + (t++ % 3) : k; x = std::min(x, left); w.push_back(x); left -= x; }
      CASE(ctx, nm, " width ", k) lev_case(ctx, g, w);
      for (auto p : grid) CASE(ctx, P(p), nm, " width ", k) coarse_case(ctx, g, w, p);
    }
  });
}
MC_MAIN(body)
