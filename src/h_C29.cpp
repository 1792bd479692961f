// C29: aggregation keeps the parallelism of the graph and balances its work
#include "lbc_common.hpp"
#include "hdagg_common.hpp"
using namespace lbc;
using mc::Ctx;

struct View { int L; const int *lp, *pp, *np; };
// What one coarsened level is made of, from the graph alone.
struct Level {
  int first = 1 << 30, last = -1, parts = 0, used = 0, comps = 0; double total = 0, heaviest = 0; // wavefronts, partitions, non-empty ones, components
  std::vector<double> load, smallest; // per partition: cost, cost of its cheapest component
  std::string split;
};
struct Shape { const G &g; VI lev, width; std::vector<int> root, part, cp; std::vector<double> cc; Shape(const G &x) : g(x) { gr::levels(g, lev); width.assign(g.n + 1, 0); for (int l : lev) ++width[l]; root.resize(g.n); part.assign(g.n, -1); cp.assign(g.n, -1); cc.assign(g.n, 0); } };
static Level look(Shape &s, const std::vector<double> &cost, const View &v, int l) {
  Level r; r.parts = v.lp[l + 1] - v.lp[l]; int a = v.pp[v.lp[l]], b = v.pp[v.lp[l + 1]]; const G &g = s.g;
  auto find = [&](int x) { while (s.root[x] != x) x = s.root[x] = s.root[s.root[x]]; return x; };
  for (int k = v.lp[l]; k < v.lp[l + 1]; ++k) for (int q = v.pp[k]; q < v.pp[k + 1]; ++q) { int x = v.np[q]; s.part[x] = k - v.lp[l]; s.root[x] = x; s.cp[x] = -1; s.cc[x] = 0; r.first = std::min(r.first, s.lev[x]); r.last = std::max(r.last, s.lev[x]); }
  for (int q = a; q < b; ++q) { int u = v.np[q]; for (int x : g.out[u]) if (s.part[x] >= 0) s.root[find(u)] = find(x); }
  for (int q = a; q < b; ++q) { int u = v.np[q], c = find(u); s.cc[c] += cost[u]; if (s.cp[c] >= 0 && s.cp[c] != s.part[u]) r.split = mc::cat("the component of node ", u, " is split"); s.cp[c] = s.part[u]; }
  r.load.assign(r.parts, 0); r.smallest.assign(r.parts, 1e300); std::vector<char> ne(r.parts, 0);
  for (int q = a; q < b; ++q) { int c = v.np[q]; if (s.cp[c] < 0) continue; ++r.comps; int k = s.cp[c]; r.load[k] += s.cc[c]; r.smallest[k] = std::min(r.smallest[k], s.cc[c]); r.heaviest = std::max(r.heaviest, s.cc[c]); r.total += s.cc[c]; r.used += !ne[k]; ne[k] = 1; }
  for (int q = a; q < b; ++q) s.part[v.np[q]] = -1;
  return r;
}
static std::map<std::string, uint64_t> seen_; // how often each obligation was actually met by a level
// Structure shared by all aggregation algorithms.
static std::string common(const Level &r, int &prev, int l, int want) {
  if (r.last < 0) return mc::cat("coarsened level ", l, " is empty");
  if (!r.split.empty()) return mc::cat("coarsened level ", l, ": ", r.split);
  if (r.first != prev + 1) return mc::cat("coarsened level ", l, " starts with wavefront ", r.first, " after ", prev);
  prev = r.last;
  if (want < 0) { if (r.used != r.comps) return mc::cat("coarsened level ", l, " puts ", r.comps, " components into ", r.used, " partitions although packing is off"); }
  else if (want >= 2 && r.used > want) return mc::cat("coarsened level ", l, " has ", r.used, " partitions, requested ", want);
  return "";
}
enum { DAG, TREE };
static std::string lbc_rules(Shape &s, const std::vector<double> &cost, View v, Par p, bool packed, int kind) {
  int prev = -1; static uint64_t &wide = seen_["wide levels"], &bal = seen_["packed levels"];
  for (int l = 0; l < v.L; ++l) {
    Level r = look(s, cost, v, l);
    std::string e = common(r, prev, l, packed ? p.w : -1); if (!e.empty()) return e;
    if (kind == DAG && l > 0 && l + 1 < v.L && r.last - r.first + 1 != p.step) return mc::cat("coarsened level ", l, " spans ", r.last - r.first + 1, " wavefronts, asked ", p.step);
    if (!packed) continue;
    double least = 1e300; for (double x : r.load) least = std::min(least, x);
    for (int k = 0; k < r.parts; ++k) if (r.load[k] > 0) { ++bal; if (r.load[k] - r.smallest[k] > least) return mc::cat("coarsened level ", l, ": partition ", k, " has cost ", r.load[k], ", the least loaded ", least, ", though it could give away a component of ", r.smallest[k]); }
    int thin = 1 << 30; for (int w = r.first; w <= r.last; ++w) thin = std::min(thin, s.width[w]);
    if (kind == DAG && l + 1 < v.L && thin >= 2 * p.w && r.comps >= p.w) { ++wide; if (p.w >= 2 && r.used != p.w) return mc::cat("coarsened level ", l, " uses ", r.used, " of ", p.w, " partitions for ", r.comps, " components"); }
    if (kind == TREE && l + 1 < v.L && p.w >= 2 && r.comps >= 2 && r.used < 2) return mc::cat("coarsened level ", l, " is sequential though it has ", r.comps, " components and is not the last");
  }
  if (prev + 1 != *std::max_element(s.lev.begin(), s.lev.end()) + 1) return mc::cat("the last coarsened level ends with wavefront ", prev);
  return "";
}
static std::vector<double> whole(int n, int k) { auto c = lbc::costs(n, k > 4 ? 0 : k); for (int i = 0; i < n; ++i) c[i] = k == 5 ? (i * 7 % 5 + 1) / 64.0 : c[i] < 1 ? 1 : std::floor(c[i]); return c; } // sums are exact

static void dag_case(Ctx &ctx, const G &g, Par p, const VI &kinds) {
  int n = g.n; Csc c = csc_diag(g); Shape s(g); mc::H h;
  for (int ck : kinds) {
    auto cost = whole(n, ck);
    auto verify = [&](const std::string &nm, Sched &x, bool packed, int kind) {
      std::string e = check_hsched(g, x.L, x.lp, x.pp, x.np); ctx.call(); if (e.empty()) e = lbc_rules(s, cost, {x.L, x.lp, x.pp, x.np}, p, packed, kind);
      if (!e.empty()) ctx.fail(mc::cat(nm, ", cost ", ck), e + " schedule " + hstr(x.L, x.lp, x.pp, x.np)); else h.u(x.L).arr(x.pp, x.lp[x.L] + 1);
    };
    for (int bp = 0; bp < 2; ++bp) { Sched x; sym_lib::get_coarse_levelSet_DAG_CSC(n, c.p.data(), c.i.data(), x.L, x.lp, x.P, x.pp, x.np, p.w, p.first, p.step, cost.data(), bp); verify(mc::cat("coarsening, packing ", bp), x, bp, DAG); }
    { Sched x; sym_lib::get_coarse_Level_set_DAG_CSC03(n, c.p.data(), c.i.data(), x.L, x.lp, x.P, x.pp, x.np, p.w, p.first, p.step, cost.data()); verify("coarsening 3", x, true, DAG); }
    for (int bp = 0; bp < 2; ++bp) for (int t = 1; t <= 2; ++t) { Sched x; sym_lib::get_coarse_Level_set_DAG_CSC03_parallel(n, c.p.data(), c.i.data(), x.L, x.lp, x.P, x.pp, x.np, p.w, p.first, p.step, cost.data(), t, bp); verify(mc::cat("parallel coarsening, threads ", t, ", packing ", bp), x, bp, DAG); }
    if (p.step >= 2 && p.first >= 1) {
      std::vector<size_t> ptr(c.p.begin(), c.p.end()), at = ptr; VI s2c(n + 1), c2s(n); std::iota(s2c.begin(), s2c.end(), 0); std::iota(c2s.begin(), c2s.end(), 0);
      Sched x; int *par = nullptr; sym_lib::getCoarseLevelSet_DAG_BCSC02(n, ptr.data(), at.data(), c.i.data(), s2c.data(), c2s.data(), x.L, x.lp, par, x.P, x.pp, x.np, p.w, p.first, p.step, cost.data()); verify("blocked coarsening", x, true, TREE);
    }
  }
  ctx.checked(h.h);
}
static void tree_case(Ctx &ctx, const VI &t, Par p, const VI &kinds) {
  int n = t.size(); G g(n); for (int i = 0; i < n; ++i) if (t[i] >= 0) g.edge(i, t[i]); Shape s(g); mc::H h;
  for (int ck : kinds) {
    auto cost = whole(n, ck); VI u = t; Sched x; sym_lib::get_coarse_levelSet_tree(n, u.data(), x.L, x.lp, x.P, x.pp, x.np, p.w, p.first, p.step, cost.data()); ctx.call();
    std::string e = check_hsched(g, x.L, x.lp, x.pp, x.np); if (e.empty()) e = lbc_rules(s, cost, {x.L, x.lp, x.pp, x.np}, p, true, TREE);
    if (!e.empty()) ctx.fail(mc::cat("tree coarsening, cost ", ck), e + " schedule " + hstr(x.L, x.lp, x.pp, x.np)); else h.u(x.L).arr(x.pp, x.P + 1);
  }
  ctx.checked(h.h);
}
static void hd_case(Ctx &ctx, const G &g, int cores, const VI &kinds, bool even) {
  int n = g.n; Csc c = csc_diag(g); Shape s(g); mc::H h; static uint64_t &merged = seen_["merged levels"];
  for (int ck : kinds) { auto cost = hd::costs(g, ck); for (int alg = 0; alg < 2; ++alg) for (int bp = 0; bp < 2; ++bp) {
    hd::S x; { hd::Quiet q; if (alg) HDAGG::GLC_V2(n, c.nnz(), c.p, c.i, cost, cores, x.L, x.lp, x.pp, x.np, false, false, bp); else HDAGG::HDAGG(n, c.nnz(), c.p, c.i, cost, cores, x.L, x.lp, x.pp, x.np, false, false, bp); }
    ctx.call(); std::string e = hd::valid(g, x); int prev = -1;
    for (int l = 0; e.empty() && l < x.L; ++l) {
      Level r = look(s, cost, {x.L, x.lp.data(), x.pp.data(), x.np.data()}, l); e = common(r, prev, l, bp ? cores : -1); if (!e.empty() || !bp) continue;
      if (cores == 1 && r.used > 1) e = mc::cat("coarsened level ", l, " has ", r.used, " partitions for one core");
      for (double y : r.load) if (y > r.total / cores + r.heaviest + 1e-9 * r.total) e = mc::cat("coarsened level ", l, ": a partition has cost ", y, " of ", r.total, " on ", cores, " cores, the heaviest component ", r.heaviest);
      if (r.last > r.first) { ++merged; int k = std::min(cores, s.width[r.first]); for (int w = r.first + 1; w <= r.last; ++w) if (s.width[w] > k) k = cores; double d = 0; for (double y : r.load) if (y > 0) d += y / r.total * std::log2(y / r.total * k);
        if (r.used != k) e = mc::cat("merged level ", l, " uses ", r.used, " of ", k, " cores"); else if (!(d < 0.003 + 1e-9)) e = mc::cat("merged level ", l, " diverges by ", d, " from an even distribution"); }
    }
    if (e.empty() && prev != *std::max_element(s.lev.begin(), s.lev.end())) e = mc::cat("the last coarsened level ends with wavefront ", prev);
    if (e.empty() && even && ck == 0 && x.L != 1) e = mc::cat("equal independent parts were left in ", x.L, " coarsened levels");
    if (!e.empty()) ctx.fail(mc::cat(alg ? "GLC_V2" : "HDAGG", " bin_pack=", bp, " cost=", ck), e + " schedule " + hd::str(x)); else h.u(x.L).arr(x.pp.data(), x.pp.size());
  } }
  { hd::S x; { hd::Quiet q; HDAGG::build_coarsened_level_parallel(n, c.p.data(), c.i.data(), cores, x.L, x.lp, x.pp, x.np); } ctx.call(); std::string e = hd::valid(g, x); int prev = -1; std::vector<double> one(n, 1); for (int l = 0; e.empty() && l < x.L; ++l) { Level r = look(s, one, {x.L, x.lp.data(), x.pp.data(), x.np.data()}, l); e = common(r, prev, l, -1); } if (!e.empty()) ctx.fail("build_coarsened_level_parallel", e + " schedule " + hd::str(x)); }
  ctx.checked(h.h);
}
static std::string P(Par p) { return mc::cat("parts=", p.w, " first=", p.first, " step=", p.step, " "); }
static void body(Ctx &ctx) {
  std::vector<Par> grid; for (int w : {1, 2, 3, 5}) for (int f : {-1, 0, 1, 2, 3, 4}) for (int s : {1, 2, 3, 4000}) if (f + s >= 1) grid.push_back({w, f, s});
  std::vector<Par> few = {{2, 1, 2}, {2, 0, 1}, {3, 1, 1}, {3, 2, 2}, {2, -1, 2}, {4, 1, 3}, {1, 1, 2}};
  const VI hk = {0, 1, 2, 3, 6, 9};
  for (int n = 1; n <= 5; ++n) { ctx.space = mc::cat("level coarsening: lower DAGs n=", n, " x parameters"); for (auto p : n < 5 || ctx.thorough ? grid : few) for (uint64_t m = 0; m < (1ull << npairs(n)); ++m) CASE(ctx, P(p), "mask=", m, " ", lower(n, m).str()) dag_case(ctx, lower(n, m), p, {0, 1, 2, 5}); }
  if (ctx.thorough) { ctx.space = "level coarsening: lower DAGs n=6 x parameters"; for (auto p : few) for (uint64_t m = 0; m < (1ull << npairs(6)); ++m) CASE(ctx, P(p), "mask=", m, " ", lower(6, m).str()) dag_case(ctx, lower(6, m), p, {1}); }
  ctx.space = "level coarsening: DAG families x parameters";
  for (auto p : ctx.thorough ? grid : few) families(ctx.thorough ? 100 : 42, [&](const std::string &nm, const G &g) { CASE(ctx, P(p), nm) dag_case(ctx, g, p, g.n < 30 ? VI{0, 1, 2, 3, 4, 5} : VI{0, 5}); });
  ctx.space = "level coarsening: many partitions";
  for (auto p : {Par{70, 1, 2}, Par{100, 2, 1}, Par{200, 1, 2}, Par{300, 3, 3}}) for (int f : {2, 3}) for (int cross : {0, 1, 7}) CASE(ctx, P(p), "layers of ", f * p.w + 3, " cross edges every ", cross) { int w = f * p.w + 3, d = 9; G g(w * d); for (int l = 0; l + 1 < d; ++l) for (int i = 0; i < w; ++i) { g.edge(l * w + i, (l + 1) * w + i); if (cross && i % cross == 0 && i % 2 && i + 1 < w) g.edge(l * w + i, (l + 1) * w + i + 1); } g.norm(); dag_case(ctx, g, p, {0, 1, 5}); }
  ctx.space = "level coarsening: large DAG families";
  for (auto p : {Par{2, 1, 2}, Par{4, 2, 3}, Par{5, 1, 1}, Par{16, 0, 3}, Par{40, 1, 2}}) big_families(ctx.thorough ? VI{150, 500, 1030, 2500} : VI{150, 600}, [&](const std::string &nm, const G &g) { CASE(ctx, P(p), nm) dag_case(ctx, g, p, {1, 5}); });
  for (int n = 1; n <= (ctx.thorough ? 8 : 6); ++n) { ctx.space = mc::cat("tree coarsening: forests n=", n, " x parameters"); for (auto p : grid) forests(n, [&](const VI &t) { CASE(ctx, P(p), mc::str(t)) tree_case(ctx, t, p, {0, 1, 5}); }); }
  ctx.space = "tree coarsening: forest families x parameters";
  { std::vector<Par> tp = few; for (int w : {4, 8, 9, 16, 100}) for (int f : {1, 2, 3}) for (int s : {2, 3}) tp.push_back({w, f, s});
    auto emit = [&](const std::string &nm, const G &g) { VI t(g.n, -1); for (int i = 0; i < g.n; ++i) { if (g.out[i].size() > 1) return; if (!g.out[i].empty()) t[i] = g.out[i][0]; } for (auto p : tp) CASE(ctx, P(p), nm) tree_case(ctx, t, p, {0, 1, 2, 3, 4, 5}); };
    for (int w : {40, 250, 1030}) for (int len : {3, 5, 12}) { G g(w * len); for (int i = 0; i < w; ++i) for (int l = 0; l + 1 < len; ++l) g.edge(l * w + i, (l + 1) * w + i); g.norm(); emit(mc::cat("chains ", w, " of ", len), g); }
    families(ctx.thorough ? 200 : 64, emit); big_families(ctx.thorough ? VI{150, 500, 1030, 2500} : VI{150, 600}, emit);
    // forests whose wavefronts halve, so that several levels are packed
    for (int roots : {1, 3, 8}) for (int d : {3, 5, 7}) { int per = (1 << d) - 1; G g(per * roots); for (int r = 0; r < roots; ++r) for (int v = 1; v < per; ++v) g.edge(r * per + per - 1 - v, r * per + per - 1 - (v - 1) / 2); g.norm(); emit(mc::cat("binary forest roots=", roots, " depth=", d), g); } }
  for (int n = 1; n <= 5; ++n) { ctx.space = mc::cat("hybrid aggregation: lower DAGs n=", n, " x cores"); for (int k : {1, 2, 3, 4}) for (uint64_t m = 0; m < (1ull << npairs(n)); ++m) CASE(ctx, "cores=", k, " mask=", m, " ", lower(n, m).str()) hd_case(ctx, lower(n, m), k, hk, false); }
  ctx.space = "hybrid aggregation: lower DAGs n=6 x cores";
  for (int k : ctx.thorough ? VI{1, 2, 3, 4, 6} : VI{2, 3}) for (uint64_t m = 0; m < (1ull << npairs(6)); ++m) CASE(ctx, "cores=", k, " mask=", m, " ", lower(6, m).str()) hd_case(ctx, lower(6, m), k, {2}, false);
  ctx.space = "hybrid aggregation: DAG families x cores";
  for (int k : {1, 2, 3, 4, 7, 20}) families(ctx.thorough ? 150 : 50, [&](const std::string &nm, const G &g) { CASE(ctx, "cores=", k, " ", nm) hd_case(ctx, g, k, g.n < 20 ? hk : VI{0, 1, 2}, false); });
  ctx.space = "hybrid aggregation: large DAG families";
  for (int k : {2, 5, 16, 40}) big_families(ctx.thorough ? VI{150, 500, 1030, 2500} : VI{150, 600}, [&](const std::string &nm, const G &g) { CASE(ctx, "cores=", k, " ", nm) hd_case(ctx, g, k, {1, 2}, false); });
  ctx.space = "hybrid aggregation: equal independent parts are merged";
  VI lens, ks = {16, 40, 100, 300}; for (int l = 1; l <= (ctx.thorough ? 30 : 9); ++l) lens.push_back(l); lens.push_back(50); lens.push_back(300); for (int k = 1; k <= (ctx.thorough ? 24 : 9); ++k) ks.push_back(k);
  for (int k : ks) for (int f = 1; f <= 4; ++f) for (int len : lens) for (int kind = 0; kind < 4; ++kind) if (k * f * len < 5000) CASE(ctx, "cores=", k, " parts=", k * f, " length=", len, " kind=", kind) {
    int c = k * f, sz = kind == 2 ? len + 2 : len; G g(c * sz);
    for (int q = 0; q < c; ++q) for (int i = 0; i + 1 < len; ++i) { auto id = [&](int x) { return kind == 1 ? x * c + q : q * sz + x; }; g.edge(id(i), id(i + 1)); if (kind == 3 && i + 2 < len) g.edge(id(i), id(i + 2)); if (kind == 2 && i + 2 == len) { g.edge(id(i + 1), id(i + 2)); g.edge(id(i + 1), id(i + 3)); } }
    if (kind == 2 && len == 1) for (int q = 0; q < c; ++q) { g.edge(q * sz, q * sz + 1); g.edge(q * sz, q * sz + 2); }
    g.norm(); hd_case(ctx, g, k, {0}, true); }
}
MC_MAIN(body)
