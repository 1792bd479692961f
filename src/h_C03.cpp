// C03: coarsened level sets of trees
#include "lbc_common.hpp"
using namespace lbc;
using mc::Ctx;

static std::string chk(const G &g, Sched &s) {
  std::string e = check_hsched(g, s.L, s.lp, s.pp, s.np);
  if (!e.empty()) return e;
  if (s.P != s.lp[s.L]) return mc::cat("reports ", s.P, " partitions, the levels hold ", s.lp[s.L]);
  return "";
}

static void tree_case(Ctx &ctx, const VI &par, Par p, int ncost) {
  int n = par.size();
  G g(n);
  for (int i = 0; i < n; ++i) if (par[i] >= 0) g.edge(i, par[i]);
  mc::H h;
  for (int ck = 0; ck < ncost; ++ck) {
    auto cost = costs(n, ck), cref = cost;
    VI t = par;
    Sched s;
    sym_lib::get_coarse_levelSet_tree(n, t.data(), s.L, s.lp, s.P, s.pp, s.np, p.w, p.first, p.step, cost.data());
    ctx.call();
    std::string e = chk(g, s);
    if (!e.empty()) ctx.fail(mc::cat("tree coarsening (cost ", ck, ")"), e);
    else h.u(s.L).arr(s.np, n).arr(s.pp, s.P + 1).arr(s.lp, s.L + 1);
    if (t != par || cost != cref) ctx.fail("tree coarsening", "input modified");
  }
  ctx.checked(h.h);
}

static void mat_case(Ctx &ctx, const G &g, Par p) {
  int n = g.n;
  // every entry L(i,j) of the factor is a dependence as well
  G f = g;
  for (int k = 0; k < n; ++k) { VI &o = f.out[k]; std::sort(o.begin(), o.end()); o.erase(std::unique(o.begin(), o.end()), o.end()); for (size_t a = 1; a < f.out[k].size(); ++a) { int u = f.out[k][0]; f.out[u].push_back(f.out[k][a]); } }
  f.norm();
  mc::H h;
  for (int form = 0; form < 3; ++form) { // lower half, upper half, full
    Csc c; int st;
    if (form == 0) { c = csc_diag(g); st = -1; }
    else if (form == 1) { c = csr_diag(g); st = 1; }
    else { G full = g, t = transpose(g); for (int i = 0; i < n; ++i) { full.out[i].insert(full.out[i].end(), t.out[i].begin(), t.out[i].end()); full.out[i].push_back(i); } full.norm(); c = csc_nodiag(full); st = 0; }
    Csc ref = c;
    for (int ck = 0; ck < 2; ++ck) {
      auto cost = costs(n, ck), cref = cost;
      Sched s;
      sym_lib::get_coarse_levelSet_DAG_CSC_tree(n, c.p.data(), c.i.data(), st, s.L, s.lp, s.P, s.pp, s.np, p.w, p.first, p.step, cost.data());
      ctx.call();
      std::string nm = mc::cat(form == 0 ? "lower half" : form == 1 ? "upper half" : "full matrix", ", cost ", ck);
      std::string e = chk(f, s);
      if (!e.empty()) ctx.fail(nm, e);
      else h.u(s.L).arr(s.np, n).arr(s.pp, s.P + 1).arr(s.lp, s.L + 1);
      if (c.p != ref.p || c.i != ref.i || cost != cref) { ctx.fail(nm, "input modified"); c = ref; }
    }
  }
  ctx.checked(h.h);
}

static void body(Ctx &ctx) {
  std::vector<Par> grid;
  for (int w : {1, 2, 3, 4, 9}) for (int f : {-1, 0, 1, 2, 3, 5}) for (int s : {0, 1, 2, 3, 4000}) grid.push_back({w, f, s});
  auto P = [](Par p) { return mc::cat("parts=", p.w, " dist=", p.first, " div=", p.step, " "); };
  for (int n = 1; n <= (ctx.thorough ? 8 : 6); ++n) {
    ctx.space = mc::cat("forests n=", n, " x parameter grid");
    for (auto p : grid) forests(n, [&](const VI &t) { CASE(ctx, P(p), mc::str(t)) tree_case(ctx, t, p, 3); });
  }
  std::vector<Par> few = {{2, 1, 2}, {3, 2, 2}, {4, 1, 3}};
  for (int n = 7; n <= (ctx.thorough ? 9 : 8); ++n) {
    ctx.space = mc::cat("forests n=", n);
    for (auto p : few) forests(n, [&](const VI &t) { CASE(ctx, P(p), mc::str(t)) tree_case(ctx, t, p, 1); });
  }
  for (int n = 1; n <= 5; ++n) {
    ctx.space = mc::cat("symmetric patterns n=", n, " x parameter grid");
    for (auto p : grid) if (n < 5 || p.step >= 2 || ctx.thorough) for (uint64_t m = 0; m < (1ull << npairs(n)); ++m)
      CASE(ctx, P(p), "mask=", m, " ", lower(n, m).str()) mat_case(ctx, lower(n, m), p);
  }
  ctx.space = "symmetric patterns n=6";
  for (auto p : few) if (ctx.thorough || p.w == 2) for (uint64_t m = 0; m < (1ull << npairs(6)); ++m)
    CASE(ctx, P(p), "mask=", m, " ", lower(6, m).str()) mat_case(ctx, lower(6, m), p);
  ctx.space = "pattern families x parameter grid";
  for (auto p : grid) families(ctx.thorough ? 90 : 26, [&](const std::string &nm, const G &g) { CASE(ctx, P(p), nm) mat_case(ctx, g, p); });
  ctx.space = "large pattern families";
  for (auto p : {Par{2, 1, 2}, Par{4, 2, 3}, Par{3, -1, 4000}, Par{9, 5, 2}, Par{16, 0, 1}}) big_families(ctx.thorough ? VI{150, 500, 1030} : VI{150, 400}, [&](const std::string &nm, const G &g) { CASE(ctx, P(p), nm) mat_case(ctx, g, p); });
  ctx.space = "huge families";
  auto huge = [&](const std::string &nm, const std::function<G()> &mk) {
    CASE(ctx, nm, " as a tree") { G g = mk(); VI t(g.n, -1); for (int v = 0; v < g.n; ++v) if (!g.out[v].empty()) t[v] = g.out[v].back(); tree_case(ctx, t, Par{3, 2, 2}, 1); }
    if (nm[0] != 'o' && nm[0] != 'd' && nm[0] != 'w') CASE(ctx, nm) mat_case(ctx, mk(), Par{3, 2, 2});
  };
  huge_families(70000, huge); huge_chain(5000, huge);
}
MC_MAIN(body)
