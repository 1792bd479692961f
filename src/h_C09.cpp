// C09: schedule transformations
#include "hdagg_common.hpp"
using namespace hd;
using mc::Ctx;

static S toS(const HS &h) { S s; s.L = h.L; s.lp = h.lp; s.pp = h.pp; s.np = h.np; return s; }
// Node sets per (level, partition) of a grouped schedule after expansion
static std::vector<VI> expand(const S &s, const VI &gp, const VI &gs) {
  std::vector<VI> r;
  for (int k = 0; k < s.lp[s.L]; ++k) { VI v; for (int q = s.pp[k]; q < s.pp[k + 1]; ++q) for (int j = gp[s.np[q]]; j < gp[s.np[q] + 1]; ++j) v.push_back(gs[j]); r.push_back(v); }
  return r;
}
static G quotient(const G &g, const VI &grp, int k) {
  G q(k);
  for (int u = 0; u < g.n; ++u) for (int x : g.out[u]) if (grp[u] != grp[x]) q.edge(grp[u], grp[x]);
  q.norm(); return q;
}
// mode 0 = as is, 1 = sort, 2 = post order
static std::string check_ungroup(const G &g, const S &before, const S &s, const VI &gp, const VI &gs, int mode, bool topo_num) {
  std::string e = sizes(s);
  if (!e.empty()) return e;
  if (s.L != before.L || s.lp != before.lp) return "level pointer changed";
  auto ex = expand(before, gp, gs);
  if ((int)s.pp.size() != before.lp[before.L] + 1) return mc::cat("part pointer has ", s.pp.size(), " entries for ", before.lp[before.L], " partitions");
  if ((int)s.np.size() != g.n) return mc::cat(s.np.size(), " nodes instead of ", g.n);
  for (size_t k = 0; k < ex.size(); ++k) {
    VI v(s.np.begin() + s.pp[k], s.np.begin() + s.pp[k + 1]), a = ex[k], b = v;
    std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
    if (a != b) return mc::cat("partition ", k, " holds ", mc::str(v), " instead of ", mc::str(a));
    if (mode == 0 && v != ex[k]) return mc::cat("partition ", k, " is in order ", mc::str(v), " instead of ", mc::str(ex[k]));
    if (mode == 1 && v != a) return mc::cat("partition ", k, " is not sorted: ", mc::str(v));
  }
  return check_hsched(g, s.L, s.lp.data(), s.pp.data(), s.np.data(), mode == 1 ? topo_num : true);
}
static void ungroup(Ctx &ctx, const G &g, const VI &a, int k, bool rev, bool topo_num, int inner) {
  int n = g.n;
  VI grp = a;
  if (rev) for (int &x : grp) x = k - 1 - x;
  G q = quotient(g, grp, k);
  Csc c = csc_diag(g), ref = c;
  // members of a group in a topological order (not always ascending)
  VI gp = {0}, gs;
  for (int x = 0; x < k; ++x) { VI m; for (int v = 0; v < n; ++v) if (grp[v] == x) m.push_back(v); VI pick; topo_orders(g, m, [&](const VI &o) { if (pick.empty() || rev) pick = o; }); gs.insert(gs.end(), pick.begin(), pick.end()); gp.push_back(gs.size()); }
  mc::H h;
  schedules(q, inner, [&](const HS &hs) {
    for (int mode = 0; mode < 3; ++mode) {
      S s = toS(hs), b = s; VI g1 = gp, g2 = gs;
      { Quiet qq; HDAGG::ungroupingScheduleAndApplyOrdering(n, s.L, s.lp, s.pp, s.np, g1, g2, c.p.data(), c.i.data(), mode == 1, mode == 2); }
      ctx.call();
      std::string e = check_ungroup(g, b, s, gp, gs, mode, topo_num);
      if (!e.empty()) ctx.fail(mc::cat("expand groups, mode ", mode), e + " from " + str(b));
      if (g1 != gp || g2 != gs || c.p != ref.p || c.i != ref.i) ctx.fail("expand groups", "input modified");
      h.arr(s.np.data(), n);
    }
  });
  // contradictory or incomplete requests are refused
  S s; s.L = 1; s.lp = {0, 1}; s.pp = {0, k}; for (int x = 0; x < k; ++x) s.np.push_back(x);
  S b = s;
  for (int z = 0; z < 2; ++z) {
    bool threw = false;
    try { Quiet qq; HDAGG::ungroupingScheduleAndApplyOrdering(n, s.L, s.lp, s.pp, s.np, gp, gs, z ? nullptr : c.p.data(), z ? nullptr : c.i.data(), !z, true); } catch (std::logic_error &) { threw = true; }
    if (!threw) ctx.fail("expand groups", z ? "post order without a graph accepted" : "sort and post order together accepted");
  }
  ctx.checked(h.h);
}
static void supernodes(Ctx &ctx, int n, unsigned cut1, unsigned cut2) {
  // cut1: node boundaries that start a supernode; cut2: supernode boundaries that start a group
  VI sp = {0}; for (int v = 1; v < n; ++v) if (cut1 >> (v - 1) & 1) sp.push_back(v); sp.push_back(n);
  int ns = sp.size() - 1;
  VI gp = {0}, gsup; for (int s = 1; s < ns; ++s) if (cut2 >> (s - 1) & 1) { gp.push_back(sp[s]); gsup.push_back(s); } gp.push_back(n);
  int ng = gp.size() - 1;
  VI gs(n); std::iota(gs.begin(), gs.end(), 0);
  VI first = {0}; for (int x : gsup) first.push_back(x); first.push_back(ns);
  mc::H h;
  G q(ng);
  schedules(q, 1, [&](const HS &hs) {
    S s = toS(hs), b = s;
    HDAGG::convertCNScheduleToSuperNode(n, ns, gp.data(), gs.data(), sp.data(), s.L, s.lp, s.pp, s.np);
    ctx.call();
    std::string e = sizes(s);
    if (e.empty() && (s.L != b.L || s.lp != b.lp || s.pp.size() != b.pp.size())) e = "levels or number of partitions changed";
    if (e.empty()) for (int k = 0; k < b.lp[b.L] && e.empty(); ++k) {
      VI want; for (int x = b.pp[k]; x < b.pp[k + 1]; ++x) for (int z = first[b.np[x]]; z < first[b.np[x] + 1]; ++z) want.push_back(z);
      VI got(s.np.begin() + s.pp[k], s.np.begin() + s.pp[k + 1]);
      if (got != want) e = mc::cat("partition ", k, " has supernodes ", mc::str(got), " instead of ", mc::str(want));
    }
    if (e.empty() && s.pp[b.lp[b.L]] != ns) e = "supernodes lost";
    if (!e.empty()) ctx.fail("convertCNScheduleToSuperNode", e + " from " + str(b));
    h.arr(s.np.data(), s.np.size());
  });
  ctx.checked(h.h);
}
static void twod(Ctx &ctx, const G &g, int inner) {
  int n = g.n; mc::H h;
  for (int form = 0; form < 2; ++form) { // 0: rows (CSR, diagonal last), 1: columns (CSC, diagonal first)
    Csc c = form ? csc_diag(g) : csr_diag(g), ref = c;
    schedules(g, inner, [&](const HS &hs) {
      S s = toS(hs), b = s;
      VI tp; std::vector<HDAGG::twoDIteration> it;
      if (form == 0) it.resize(3);
      for (int rep = 0; rep < 2; ++rep) { // the outputs are reused for the second call
        HDAGG::twoDReordering(n, c.nnz(), c.p.data(), c.i.data(), s.L, s.lp, s.pp, s.np, 1 + rep, tp, it);
        ctx.call();
        std::string e;
        if (s.lp != b.lp || s.pp != b.pp || s.np != b.np || c.p != ref.p || c.i != ref.i) e = "input modified";
        int P = s.lp[s.L];
        if (e.empty() && (int)it.size() != c.nnz()) e = mc::cat(it.size(), " iterations for ", c.nnz(), " nonzeros");
        if (e.empty() && (int)tp.size() != P + 1) e = mc::cat("iteration pointer has ", tp.size(), " entries for ", P, " partitions");
        std::vector<char> seen(c.nnz(), 0); VI pos(c.nnz(), -1);
        for (int k = 0; e.empty() && k < P; ++k) {
          if (tp[k] < 0 || tp[k + 1] < tp[k] || tp[k + 1] > c.nnz() || (k == 0 && tp[0])) { e = mc::cat("iteration pointer ", mc::str(tp)); break; }
          std::set<int> mem(s.np.begin() + s.pp[k], s.np.begin() + s.pp[k + 1]);
          int want = 0; for (int v : mem) want += c.p[v + 1] - c.p[v];
          if (tp[k + 1] - tp[k] != want) { e = mc::cat("partition ", k, " has ", tp[k + 1] - tp[k], " iterations instead of ", want); break; }
          for (int x = tp[k]; x < tp[k + 1]; ++x) {
            auto &t = it[x];
            if (t.k < 0 || t.k >= c.nnz() || seen[t.k]) { e = mc::cat("nonzero ", t.k, " out of range or repeated"); break; }
            seen[t.k] = 1; pos[t.k] = x;
            if (!mem.count(t.i) || t.k < c.p[t.i] || t.k >= c.p[t.i + 1] || c.i[t.k] != t.j) { e = mc::cat("iteration (", t.i, ",", t.k, ",", t.j, ") is not a nonzero of partition ", k); break; }
          }
        }
        // order: update (r,c) needs the division (c,c) and precedes the division (r,r)
        VI dg(n), prt(n); for (int v = 0; v < n; ++v) dg[v] = form ? c.p[v] : c.p[v + 1] - 1;
        for (int k = 0; k < P; ++k) for (int x = s.pp[k]; x < s.pp[k + 1]; ++x) prt[s.np[x]] = k;
        for (int v = 0; e.empty() && v < n; ++v) for (int k = c.p[v]; k < c.p[v + 1]; ++k) if (c.i[k] != v) {
          int row = form ? c.i[k] : v, col = form ? v : c.i[k];
          // the column form executes the update in the partition of the column, so the row is checked there only
          if (!(pos[dg[col]] < pos[k])) e = mc::cat("update (", row, ",", col, ") runs before the division of ", col);
          if (!(pos[k] < pos[dg[row]])) e = mc::cat("update (", row, ",", col, ") runs after the division of ", row);
        }
        if (!e.empty()) { ctx.fail(mc::cat("twoDReordering ", form ? "columns" : "rows", rep ? " second call" : ""), e + " from " + str(b)); break; }
      }
      for (auto &t : it) h.u(t.k);
    });
  }
  ctx.checked(h.h);
}
static void direct(Ctx &ctx, const G &g) {
  // assembly of a schedule from level boundaries and part-to-core chunks
  int n = g.n; Csc c = csc_diag(g); VI lev; int L = gr::levels(g, lev);
  VI lptr(L + 1, 0), lset; for (int l = 0; l < L; ++l) { for (int v = 0; v < n; ++v) if (lev[v] == l) lset.push_back(v); lptr[l + 1] = lset.size(); }
  mc::H h;
  for (unsigned cut = 0; cut < (1u << (L - 1)); ++cut) {
    VI WM = {0}; for (int l = 1; l < L; ++l) if (cut >> (l - 1) & 1) WM.push_back(l); WM.push_back(L);
    int M = WM.size() - 1;
    // connected components per merged level
    VI ncc(M, 0), comp(n, -1);
    for (int m = 0; m < M; ++m) {
      for (int v = 0; v < n; ++v) if (lev[v] >= WM[m] && lev[v] < WM[m + 1] && comp[v] < 0) {
        ncc[m]++; VI st = {v}; comp[v] = v;
        while (!st.empty()) { int u = st.back(); st.pop_back(); for (int x = 0; x < n; ++x) if (comp[x] < 0 && lev[x] >= WM[m] && lev[x] < WM[m + 1]) {
          bool adj = std::count(g.out[u].begin(), g.out[u].end(), x) || std::count(g.out[x].begin(), g.out[x].end(), u);
          if (adj) { comp[x] = v; st.push_back(x); } } }
      }
    }
    for (int T = 0; T <= 2; ++T) for (int post = 0; post < 2; ++post) {
      if (T == 0 && post) continue;
      // chunks: all nondecreasing splits of the first merged level, balanced elsewhere
      int c0 = T == 2 ? ncc[0] : 0;
      for (int sp = 0; sp <= c0; ++sp) {
        std::vector<VI> ch(M);
        if (T) for (int m = 0; m < M; ++m) { ch[m].assign(T + 1, 0); for (int t = 1; t <= T; ++t) ch[m][t] = t == T ? ncc[m] : (m == 0 ? sp : ncc[m] / 2); }
        S s; s.lp = {9}; s.pp = {8, 8}; s.np = {7};
        VI w = WM;
        { Quiet q; HDAGG::computeSchedule(T, n, c.p.data(), c.i.data(), lptr.data(), lset.data(), lev.data(), w, ch, s.L, s.lp, s.pp, s.np, T > 0, post); }
        ctx.call();
        std::string e = s.L != M ? mc::cat("level count ", s.L, " for ", M, " merged levels") : valid(g, s);
        if (e.empty()) for (int m = 0; m < M && e.empty(); ++m) {
          std::set<int> want, got;
          for (int v = 0; v < n; ++v) if (lev[v] >= WM[m] && lev[v] < WM[m + 1]) want.insert(v);
          for (int q = s.pp[s.lp[m]]; q < s.pp[s.lp[m + 1]]; ++q) got.insert(s.np[q]);
          if (want != got) e = "merged level holds other nodes";
          if (!T && s.lp[m + 1] - s.lp[m] != ncc[m]) e = mc::cat(s.lp[m + 1] - s.lp[m], " partitions for ", ncc[m], " components");
          if (T && s.lp[m + 1] - s.lp[m] > T) e = "more partitions than threads";
        }
        if (!e.empty()) ctx.fail(mc::cat("computeSchedule threads=", T, " post=", post, " WM=", mc::str(WM), " split=", sp), e + " " + str(s));
        h.arr(s.np.data(), s.np.size()).arr(s.pp.data(), s.pp.size());
      }
    }
  }
  ctx.checked(h.h);
}
// The inspector pipelines of the demos, with every combination of options
static void pipeline(Ctx &ctx, const G &g, int corelo, int corehi, bool all) {
  int n = g.n; mc::H h;
  Csc a = csc_diag(g), r = csr_diag(g);
  // the tree variant assumes a factor pattern; take the elimination tree of the pattern and its fill as the graph
  for (int src = 0; src < 2; ++src) {
    G dep = g;
    VI dp, ds;
    if (src == 0) { HDAGG::partialSparsification(n, a.nnz(), a.p.data(), a.i.data(), dp, ds, all); }
    else {
      // factor pattern: fill in
      std::vector<std::set<int>> col(n);
      for (int j = 0; j < n; ++j) { for (int x : g.out[j]) col[j].insert(x); }
      for (int j = 0; j < n; ++j) if (!col[j].empty()) { int p = *col[j].begin(); for (int x : col[j]) if (x > p) col[p].insert(x); }
      for (int j = 0; j < n; ++j) dep.out[j].assign(col[j].begin(), col[j].end());
      Csc lr = csr_diag(dep);
      sym_lib::CSR A(n, n, lr.nnz(), false); std::copy(lr.p.begin(), lr.p.end(), A.p); std::copy(lr.i.begin(), lr.i.end(), A.i);
      int ne; HDAGG::buildETree(&A, ne, dp, ds);
    }
    typedef bool (*F)(int, VI &, VI &, int &, VI &, VI &, bool);
    F fs[] = {HDAGG::treeBasedGrouping, HDAGG::treeBasedGroupingBFS};
    for (int gk = 0; gk < 3; ++gk) for (int fl = 0; fl < (gk < 2 && all ? 2 : 1); ++fl) {
      int ng; VI gp, gs, qp, qs; VI dp2 = dp, ds2 = ds;
      { Quiet q; if (gk < 2) fs[gk](n, dp2, ds2, ng, gp, gs, fl); else HDAGG::chainGrouping(n, dp2, ds2, ng, gp, gs); }
      // members are listed from the root down; the callers sort them
      for (int x = 0; x < ng; ++x) std::sort(gs.begin() + gp[x], gs.begin() + gp[x + 1]);
      HDAGG::buildGroupDAG(n, ng, gp.data(), gs.data(), dp2.data(), ds2.data(), qp, qs);
      std::vector<double> cost(ng, 0);
      Csc ac = csc_diag(dep), rc = csr_diag(dep);
      HDAGG::costComputation(ng, ac.p.data(), ac.i.data(), rc.p.data(), rc.i.data(), HDAGG::SpTrSv_LL, gp.data(), gs.data(), true, cost);
      for (int cores = corelo; cores <= corehi; ++cores) for (int po = 0; po < 2; ++po) for (int bp = 0; bp < 2; ++bp) for (int v2 = 0; v2 < 2; ++v2) {
        S s;
        { Quiet q; (v2 ? HDAGG::GLC_V2 : HDAGG::HDAGG)(ng, qp[ng], qp, qs, cost, cores, s.L, s.lp, s.pp, s.np, false, po, bp); }
        S b = s; std::string e = sizes(b);
        if (e.empty()) for (int x : b.np) if (x < 0 || x >= ng) e = "group out of range";
        if (e.empty() && b.np.size() != (size_t)ng) e = "groups lost";
        if (!e.empty()) { ctx.fail(mc::cat("pipeline src=", src, " grouping=", gk, fl, " cores=", cores, " post=", po, " pack=", bp, " v2=", v2), e); continue; }
        for (int mode = 0; mode < 3; ++mode) {
          S u = b; VI g1 = gp, g2 = gs;
          { Quiet q; HDAGG::ungroupingScheduleAndApplyOrdering(n, u.L, u.lp, u.pp, u.np, g1, g2, dp.data(), ds.data(), mode == 1, mode == 2); }
          ctx.call();
          // as-is keeps the order of the groups, which is only a dependence order if groups are ordered (post order or no packing)
          e = valid(dep, u, mode != 0 || po || !bp);
          if (!e.empty()) ctx.fail(mc::cat("pipeline src=", src, " grouping=", gk, fl, " cores=", cores, " post=", po, " pack=", bp, " v2=", v2, " mode=", mode), e + " " + str(u));
          h.arr(u.np.data(), n);
        }
        Quiet q;
        VI q1 = gp, q2 = gs; S t = b;
        double av = HDAGG::aggressiveSupernodeGrouping(n, gp.data(), gs.data(), ac.p.data(), ac.i.data(), t.L, t.lp, t.pp, t.np);
        if (double cnt = n / av; !(av >= 1 && av <= n) || std::abs(cnt - std::round(cnt)) > 1e-6) ctx.fail("aggressiveSupernodeGrouping", mc::cat("average ", av));
      }
    }
  }
  ctx.checked(h.h);
}

static void body(Ctx &ctx) {
  bool T = ctx.thorough;
  for (int n = 1; n <= (T ? 5 : 4); ++n) {
    ctx.space = mc::cat("expand groups n=", n, " x every partition x every schedule of the groups");
    for (uint64_t m = 0; m < (1ull << npairs(n)); ++m) partitions(n, [&](const VI &a, int k) {
      if (!acyclic(quotient(lower(n, m), a, k))) return;
      for (int rev = 0; rev < 2; ++rev) CASE(ctx, "mask=", m, " groups=", mc::str(a), " reversed=", rev) ungroup(ctx, lower(n, m), a, k, rev, true, n < 5);
    });
  }
  ctx.space = "expand groups, upward numbered n=4";
  for (uint64_t m = 0; m < 64; ++m) partitions(4, [&](const VI &a, int k) {
    G g = relabel(lower(4, m), {2, 3, 0, 1});
    if (acyclic(quotient(g, a, k))) CASE(ctx, "mask=", m, " groups=", mc::str(a)) ungroup(ctx, g, a, k, false, false, true);
  });
  for (int n = 1; n <= (T ? 7 : 5); ++n) {
    ctx.space = mc::cat("groups to supernodes n=", n);
    for (unsigned c1 = 0; c1 < (1u << (n - 1)); ++c1) for (unsigned c2 = 0; c2 < (1u << __builtin_popcount(c1)); ++c2)
      CASE(ctx, "supernode cuts=", c1, " group cuts=", c2) supernodes(ctx, n, c1, c2);
  }
  for (int n = 1; n <= (T ? 6 : 5); ++n) {
    ctx.space = mc::cat("two dimensional order n=", n, " x every schedule");
    for (uint64_t m = 0; m < (1ull << npairs(n)); ++m) CASE(ctx, "mask=", m, " ", lower(n, m).str()) twod(ctx, lower(n, m), n < 5);
  }
  for (int n = 1; n <= (T ? 6 : 5); ++n) {
    ctx.space = mc::cat("schedule assembly n=", n);
    for (uint64_t m = 0; m < (1ull << npairs(n)); ++m) CASE(ctx, "mask=", m, " ", lower(n, m).str()) direct(ctx, lower(n, m));
  }
  for (int n = 1; n <= (T ? 6 : 5); ++n) {
    ctx.space = mc::cat("inspector pipelines n=", n);
    for (uint64_t m = 0; m < (1ull << npairs(n)); ++m) CASE(ctx, "mask=", m, " ", lower(n, m).str()) pipeline(ctx, lower(n, m), 1, n < 5 ? 3 : 2, n < 5);
  }
  ctx.space = "inspector pipelines, families";
  families(T ? 120 : 32, [&](const std::string &nm, const G &g) { if (g.n > 5) CASE(ctx, nm) pipeline(ctx, g, 2, T ? 8 : 3, true); });
  ctx.space = "inspector pipelines, large families";
  big_families(T ? VI{150, 600, 1500} : VI{150}, [&](const std::string &nm, const G &g) { CASE(ctx, nm) pipeline(ctx, g, 2, T ? 4 : 2, false); }, true);
  ctx.space = "huge families";
  huge_families(1600, [&](const std::string &nm, const std::function<G()> &mk) { CASE(ctx, nm) pipeline(ctx, mk(), 2, 2, false); });
  huge_chain(1600, [&](const std::string &nm, const std::function<G()> &mk) { CASE(ctx, nm) pipeline(ctx, mk(), 2, 2, false); });
}
MC_MAIN(body)
