// C02: coarsened level sets of DAGs
#include "lbc_common.hpp"
using namespace lbc;
using mc::Ctx;
static int threads_list[] = {1, 2, 3};

static void one(Ctx &ctx, const G &g, Par p, int ncost, const std::vector<int> &nthr) {
  int n = g.n;
  Csc c = csc_diag(g), ref = c;
  mc::H h;
  for (int ck = 0; ck < ncost; ++ck) {
    auto cost = costs(n, ck), cref = cost;
    auto verify = [&](const std::string &nm, Sched &s) {
      std::string e = check_hsched(g, s.L, s.lp, s.pp, s.np);
      if (!e.empty()) ctx.fail(nm, e);
      else { h.u(s.L).arr(s.np, n); int P = s.lp[s.L]; h.arr(s.pp, P + 1).arr(s.lp, s.L + 1); }
      if (c.p != ref.p || c.i != ref.i || cost != cref) { ctx.fail(nm, "input modified"); c = ref; cost = cref; }
      ctx.call();
    };
    for (int bp = 0; bp < 2; ++bp) {
      Sched s;
      sym_lib::get_coarse_levelSet_DAG_CSC(n, c.p.data(), c.i.data(), s.L, s.lp, s.P, s.pp, s.np, p.w, p.first, p.step, cost.data(), bp);
      verify(mc::cat("coarsening (bin packing ", bp, ", cost ", ck, ")"), s);
    }
    {
      Sched s;
      sym_lib::get_coarse_Level_set_DAG_CSC03(n, c.p.data(), c.i.data(), s.L, s.lp, s.P, s.pp, s.np, p.w, p.first, p.step, cost.data());
      verify(mc::cat("coarsening 3 (cost ", ck, ")"), s);
    }
    for (int bp = 0; bp < 2; ++bp) for (int t : nthr) {
      Sched s;
      sym_lib::get_coarse_Level_set_DAG_CSC03_parallel(n, c.p.data(), c.i.data(), s.L, s.lp, s.P, s.pp, s.np, p.w, p.first, p.step, cost.data(), t, bp);
      verify(mc::cat("parallel coarsening (threads ", t, ", bin packing ", bp, ", cost ", ck, ")"), s);
    }
  }
  ctx.checked(h.h);
}

static void body(Ctx &ctx) {
#ifndef FLAVOR_A
  std::vector<int> thr = {1, 2, 3};
#else
  std::vector<int> thr = {2, -1};
#endif
  std::vector<Par> grid;
  for (int w : {1, 2, 3, 5}) for (int f : {-1, 0, 1, 2, 3, 4}) for (int s : {1, 2, 3, 4000}) if (f + s >= 1) grid.push_back({w, f, s});
  auto P = [](Par p) { return mc::cat("parts=", p.w, " first=", p.first, " step=", p.step, " "); };
  for (int n = 1; n <= 5; ++n) {
    ctx.space = mc::cat("lower DAGs n=", n, " x parameter grid");
    for (auto p : grid) for (uint64_t m = 0; m < (1ull << npairs(n)); ++m)
      CASE(ctx, P(p), "mask=", m, " ", lower(n, m).str()) one(ctx, lower(n, m), p, n <= 4 ? 3 : 2, thr);
  }
  std::vector<Par> g6 = ctx.thorough ? grid : std::vector<Par>{{2, 1, 2}, {3, 2, 1}};
  ctx.space = "lower DAGs n=6";
  for (auto p : g6) for (uint64_t m = 0; m < (1ull << npairs(6)); ++m)
    CASE(ctx, P(p), "mask=", m, " ", lower(6, m).str()) one(ctx, lower(6, m), p, 1, {thr.back()});
  if (ctx.thorough) {
    ctx.space = "lower DAGs n=7";
    for (auto p : {Par{2, 1, 1}}) for (uint64_t m = 0; m < (1ull << npairs(7)); ++m)
      CASE(ctx, P(p), "mask=", m, " ", lower(7, m).str()) one(ctx, lower(7, m), p, 1, {thr.back()});
  }
  ctx.space = "DAG families x parameter grid";
  for (auto p : grid) families(ctx.thorough ? 120 : 40, [&](const std::string &nm, const G &g) {
    CASE(ctx, P(p), nm) one(ctx, g, p, g.n <= 24 ? 4 : 2, thr);
  });
  ctx.space = "large DAG families";
  for (auto p : {Par{2, 1, 2}, Par{4, 2, 3}, Par{3, -1, 4000}, Par{5, 1, 1}, Par{16, 0, 40}}) big_families(ctx.thorough ? VI{150, 500, 1030, 2500} : VI{150, 600}, [&](const std::string &nm, const G &g) {
    CASE(ctx, P(p), nm) one(ctx, g, p, 2, {thr.back()});
  }, true);
  // level ranges of more than 250000 iterations are treated apart; blocks of k levels alternate between wide (w) and narrow
  ctx.space = "huge level ranges";
  const int W = 126000;
  struct Shape { const char *nm; VI widths; };
  for (auto &sh : std::vector<Shape>{{"one huge range", {W, W}}, {"huge then small", {W, W, 40, 9, 3, 1}}, {"small then huge", {4, 30, W, W}}, {"two huge ranges", {W, W, W, W}}, {"huge small huge", {W, W, 7, 5, W, W}}})
    for (int pat = 0; pat < 3; ++pat) for (auto p : {Par{2, 2, 2}, Par{3, 1, 4000}}) for (int bp = 0; bp < 2; ++bp) {
      if (!ctx.thorough && ((pat && sh.widths.size() > 4) || (p.w == 3 && pat != 1))) continue;
      CASE(ctx, sh.nm, " pattern ", pat, " ", P(p), " bin packing ", bp) {
        // pattern 0: node i of a level feeds node i*|next|/|level|; 1: and one neighbour; 2: blocks of 1000 share one source
        int n = 0; VI at; for (int w : sh.widths) { at.push_back(n); n += w; }
        G g(n); for (size_t l = 0; l + 1 < sh.widths.size(); ++l) { int a = sh.widths[l], b = sh.widths[l + 1]; for (int i = 0; i < b; ++i) { int o = at[l] + (int)((long)i * a / b); std::set<int> src{o}; if (pat == 1) src.insert(at[l] + ((o - at[l]) + 1 + i % 7) % a); if (pat == 2) src.insert(at[l] + (o - at[l]) / 1000 * 1000); for (int x : src) g.edge(x, at[l + 1] + i); } }
        g.norm(); Csc c = csc_diag(g), ref = c; auto cost = costs(n, 1), cref = cost; mc::H h; mc::beat();
        for (int t : thr) { Sched s; sym_lib::get_coarse_Level_set_DAG_CSC03_parallel(n, c.p.data(), c.i.data(), s.L, s.lp, s.P, s.pp, s.np, p.w, p.first, p.step, cost.data(), t, bp); mc::beat(); ctx.call();
          std::string e = check_hsched(g, s.L, s.lp, s.pp, s.np); if (!e.empty()) ctx.fail(mc::cat("parallel coarsening (threads ", t, ")"), e); else h.u(s.L).arr(s.pp, s.lp[s.L] + 1).arr(s.lp, s.L + 1);
          if (c.p != ref.p || c.i != ref.i || cost != cref) { ctx.fail("parallel coarsening", "input modified"); c = ref; cost = cref; } mc::beat(); }
        ctx.checked(h.h);
      }
    }
  ctx.space = "relabelled DAGs n=4 (not triangular)";
  for (auto p : grid) if (p.w == 2 || ctx.thorough) for (uint64_t m = 0; m < 64; ++m) {
    VI pm = {0, 1, 2, 3};
    do { CASE(ctx, P(p), "mask=", m, " perm=", mc::str(pm)) { G g = relabel(lower(4, m), pm); one(ctx, g, p, 1, thr); } } while (std::next_permutation(pm.begin(), pm.end()));
  }
  ctx.space = "huge families";
  huge_families(33000, [&](const std::string &nm, const std::function<G()> &mk) { CASE(ctx, nm) one(ctx, mk(), Par{3, 2, 2}, 1, {thr.back()}); });
  huge_chain(33000, [&](const std::string &nm, const std::function<G()> &mk) { CASE(ctx, nm) one(ctx, mk(), Par{3, 2, 2}, 1, {thr.back()}); });
}
MC_MAIN(body)
