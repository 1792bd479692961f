// C05: hybrid aggregation
#include "hdagg_common.hpp"
using namespace hd;
using mc::Ctx;

// topo = node numbers are a topological order (lower triangular matrix)
static void one(Ctx &ctx, const G &g, int cores, const std::vector<int> &kinds, bool topo) {
  int n = g.n;
  Csc c = csc_diag(g), ref = c;
  VI lev; int nl = gr::levels(g, lev);
  mc::H h;
  for (int ck : kinds) {
    auto cost = hd::costs(g, ck), cref = cost;
    for (int alg = 0; alg < 2; ++alg) for (int po = 0; po < 2; ++po) for (int bp = 0; bp < 2; ++bp) {
      std::string nm = mc::cat(alg ? "GLC_V2" : "HDAGG", " post_order=", po, " bin_pack=", bp, " cost=", ck);
      S s; VI wm;
      { Quiet q;
        wm = alg ? HDAGG::GLC_V2(n, c.nnz(), c.p, c.i, cost, cores, s.L, s.lp, s.pp, s.np, false, po, bp)
                 : HDAGG::HDAGG(n, c.nnz(), c.p, c.i, cost, cores, s.L, s.lp, s.pp, s.np, false, po, bp); }
      ctx.call();
      // sorting by node number is only an order of execution when numbers are topological
      bool ordered = topo || alg == 1 || !bp || po;
      std::string e = valid(g, s, ordered);
      if (!e.empty()) { ctx.fail(nm, e + " schedule " + str(s)); continue; }
      if ((int)wm.size() < 2 || wm[0] != 0 || wm.back() != nl) { ctx.fail(nm, "merged level boundaries " + mc::str(wm) + mc::cat(" for ", nl, " levels")); continue; }
      bool inc = true;
      for (size_t i = 1; i < wm.size(); ++i) inc &= wm[i] > wm[i - 1];
      if (!inc) { ctx.fail(nm, "merged level boundaries not increasing " + mc::str(wm)); continue; }
      if (s.L != (int)wm.size() - 1) { ctx.fail(nm, mc::cat("level count ", s.L, " boundaries ", mc::str(wm))); continue; }
      for (int l = 0; l < s.L; ++l) {
        if (bp && s.lp[l + 1] - s.lp[l] > cores) ctx.fail(nm, mc::cat("level ", l, " has ", s.lp[l + 1] - s.lp[l], " partitions for ", cores, " cores"));
        for (int k = s.lp[l]; k < s.lp[l + 1]; ++k) for (int q = s.pp[k]; q < s.pp[k + 1]; ++q) {
          int v = s.np[q];
          if (lev[v] < wm[l] || lev[v] >= wm[l + 1]) ctx.fail(nm, mc::cat("node ", v, " of wavefront ", lev[v], " in coarsened level ", l, " boundaries ", mc::str(wm)));
        }
      }
      h.u(s.L).arr(s.np.data(), n).arr(s.pp.data(), s.pp.size()).arr(s.lp.data(), s.lp.size());
      if (c.p != ref.p || c.i != ref.i || cost != cref) { ctx.fail(nm, "input modified"); c = ref; cost = cref; }
    }
  }
  {
    S s;
    { Quiet q; HDAGG::build_coarsened_level_parallel(n, c.p.data(), c.i.data(), cores, s.L, s.lp, s.pp, s.np); }
    ctx.call();
    std::string e = valid(g, s);
    if (!e.empty()) ctx.fail("build_coarsened_level_parallel", e + " schedule " + str(s));
    else h.u(s.L).arr(s.np.data(), n).arr(s.pp.data(), s.pp.size());
    if (c.p != ref.p || c.i != ref.i) ctx.fail("build_coarsened_level_parallel", "input modified");
  }
  ctx.checked(h.h);
}

static void body(Ctx &ctx) {
  std::vector<int> all(NCOST); std::iota(all.begin(), all.end(), 0);
  for (int n = 1; n <= 5; ++n) {
    ctx.space = mc::cat("lower DAGs n=", n, " x cores x costs");
    for (int cores : {1, 2, 3, 4, 6}) for (uint64_t m = 0; m < (1ull << npairs(n)); ++m)
      CASE(ctx, "cores=", cores, " mask=", m, " ", lower(n, m).str()) one(ctx, lower(n, m), cores, all, true);
  }
  ctx.space = "lower DAGs n=6";
  for (int cores : ctx.thorough ? std::vector<int>{1, 2, 3, 4, 6} : std::vector<int>{2, 3}) for (uint64_t m = 0; m < (1ull << npairs(6)); ++m)
    CASE(ctx, "cores=", cores, " mask=", m, " ", lower(6, m).str()) one(ctx, lower(6, m), cores, ctx.thorough ? all : std::vector<int>{1}, true);
  if (ctx.thorough) {
    ctx.space = "lower DAGs n=7";
    for (int cores : {2, 3}) for (uint64_t m = 0; m < (1ull << npairs(7)); ++m)
      CASE(ctx, "cores=", cores, " mask=", m, " ", lower(7, m).str()) one(ctx, lower(7, m), cores, {1}, true);
  }
  ctx.space = "DAG families x cores x costs";
  for (int cores : {1, 2, 3, 4, 7, 20}) families(ctx.thorough ? 200 : 64, [&](const std::string &nm, const G &g) {
    CASE(ctx, "cores=", cores, " ", nm) one(ctx, g, cores, g.n <= 28 ? all : std::vector<int>{0, 1, 2, 4}, true);
  });
  ctx.space = "large DAG families";
  for (int cores : {2, 5, 16}) big_families(ctx.thorough ? VI{150, 500, 1030, 2500} : VI{150, 1030}, [&](const std::string &nm, const G &g) {
    CASE(ctx, "cores=", cores, " ", nm) one(ctx, g, cores, {1, 2}, true);
  });
  ctx.space = "relabelled DAGs n=4 (not triangular)";
  for (int cores : {1, 2, 3}) for (uint64_t m = 0; m < 64; ++m) {
    VI pm = {0, 1, 2, 3};
    do { CASE(ctx, "cores=", cores, " mask=", m, " perm=", mc::str(pm)) { one(ctx, relabel(lower(4, m), pm), cores, {0, 2, 4}, false); } } while (std::next_permutation(pm.begin(), pm.end()));
  }
  // nnz/n >= 10 and >= 100: coarsening by a fixed number of levels instead of plain wavefronts
  ctx.space = "wide bands (fixed coarsening factor)";
  for (int cores : {1, 2, 4}) for (int n : {20, 21, 27, 40, 64, 210, 230}) for (int b : {9, 12, 19, 40, 120, 229}) for (int s : {1, 2, 3}) if (b * s < n + 8) 
    CASE(ctx, "cores=", cores, " n=", n, " band=", b, " stride=", s) {
      G g(n); for (int i = 0; i < n; ++i) for (int d = 1; d <= b && i + d * s < n; ++d) g.edge(i, i + d * s);
      one(ctx, g, cores, {1}, true);
    }
  ctx.space = "huge families";
  auto huge = [&](const std::string &nm, const std::function<G()> &mk) { CASE(ctx, nm) one(ctx, mk(), 3, {1}, true); };
  huge_families(12000, huge); huge_chain(2500, huge);
  huge_families(70000, [&](const std::string &nm, const std::function<G()> &mk) { if (nm.find("star") == std::string::npos || nm[0] == 'i') huge(nm, mk); });
}
MC_MAIN(body)
