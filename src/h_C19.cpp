// C19: partitioners neither lose, duplicate nor starve work
#include "mat.hpp"
#include "graph.hpp"
#include <iostream>
#include <cmath>
#include "aggregation/lbc_utils.h"
#include "aggregation/utils.h"
#include "aggregation/sparse_utilities.h"
using namespace mat;
using mc::Ctx;
typedef std::vector<double> DV; typedef std::vector<VI> VV;
static VV items(const VI &sizes) { VV r; int v = 0; for (int s : sizes) { VI x; for (int k = 0; k < s; ++k) x.push_back(v++); std::rotate(x.begin(), x.begin() + x.size() / 2, x.end()); r.push_back(x); } return r; }
// node -> item; returns "" if the parts hold every item whole, once, its nodes in their order; fills item -> part
static std::string whole(const VV &it, const VV &parts, int np, VI &where) {
  where.assign(it.size(), -1); std::map<int, int> of; for (size_t k = 0; k < it.size(); ++k) for (int v : it[k]) of[v] = k; std::vector<VI> got(it.size());
  for (size_t p = 0; p < parts.size(); ++p) for (int v : parts[p]) { auto f = of.find(v); if (f == of.end()) return mc::cat("unknown node ", v); if ((int)p >= np) return mc::cat("part ", p, " beyond the number of parts"); if (where[f->second] >= 0 && where[f->second] != (int)p) return mc::cat("item ", f->second, " is split"); where[f->second] = p; got[f->second].push_back(v); }
  for (size_t k = 0; k < it.size(); ++k) if (got[k] != it[k]) return mc::cat("item ", k, " holds ", mc::str(got[k])); return "";
}
static void pack(Ctx &ctx, const DV &cost, const VI &sizes, int bins, const DV &start) {
  using namespace sym_lib; VV it = items(sizes), it0 = it, out(bins); DV c = cost, load = start; load.push_back(-77);
  worst_fit_bin_pack(it, c.data(), out, load.data(), 0, bins); ctx.call();
  auto bad = [&](const std::string &m) { ctx.fail("worst_fit_bin_pack", m); };
  if (load.back() != -77) bad("wrote past the bins"); load.pop_back(); if (c != cost || it != it0) bad("inputs modified");
  if ((int)out.size() != bins) { bad("number of bins changed"); return; }
  VI w; std::string e = whole(it, out, bins, w); if (!e.empty()) { bad(e); return; }
  DV sum = start; for (size_t k = 0; k < it.size(); ++k) if (w[k] >= 0) sum[w[k]] += cost[k]; bool zero = false; for (size_t k = 0; k < it.size(); ++k) if (w[k] < 0 && cost[k] != 0) zero = true; // an item without nodes leaves no trace of its bin
  if (!zero && sum != load) bad(mc::cat("reported costs ", mc::str(load), " contents ", mc::str(sum)));
  DV g = start, s = cost; std::sort(s.rbegin(), s.rend()); for (double x : s) *std::min_element(g.begin(), g.end()) += x; // the multiset of loads of worst fit decreasing is unique
  DV l = load; std::sort(l.begin(), l.end()); std::sort(g.begin(), g.end()); if (l != g) bad(mc::cat("loads ", mc::str(l), " worst fit gives ", mc::str(g)));
  // find_min on the final loads
  { int m = find_min(load.data(), bins); ctx.call(); if (m < 0 || m >= bins || load[m] != *std::min_element(load.begin(), load.end())) ctx.fail("find_min", mc::cat("bin ", m, " of ", mc::str(load))); }
  ctx.checked(mc::H().arr(l.data(), bins).h);
}
static void merge(Ctx &ctx, const VI &cost, const VI &sizes, int thr) {
  using namespace sym_lib; int n = cost.size(); VV it = items(sizes), out(n); VI c = cost, oc(n + 1, -9); int k = merge_inner_part(it, c.data(), out, oc.data(), thr); ctx.call();
  auto bad = [&](const std::string &m) { ctx.fail("merge_inner_part", m); };
  VI want; int q = 0; while (q < n) { int s = 0; while (q < n && s < thr) s += cost[q++]; want.push_back(s); }
  if (k < 0 || k > n) { bad(mc::cat("parts ", k)); return; } VI w; std::string e = whole(it, out, k, w); if (!e.empty()) { bad(e); return; }
  VI sum(k, 0); bool tr = true; for (int i = 0; i < n; ++i) if (w[i] >= 0) sum[w[i]] += cost[i]; else tr = false; VI got(oc.begin(), oc.begin() + k);
  if (tr && got != sum) bad(mc::cat("reported costs ", mc::str(got), " contents ", mc::str(sum))); if (oc[n] != -9) bad("wrote past the costs");
  for (int i = 0; tr && i + 1 < k; ++i) if (sum[i] < thr) bad(mc::cat("part ", i, " costs less than the threshold"));
  if (tr && sum != want) bad(mc::cat("parts cost ", mc::str(sum), " smallest parts reaching the threshold cost ", mc::str(want)));
  ctx.checked(mc::H().arr(oc.data(), k).h);
}
static void by_weight(Ctx &ctx, const DV &wt, const VI &set, int np, const DV *target) {
  using namespace sym_lib; int n = set.size(); VI s = set; DV w = wt, t = target ? *target : DV(); int *r = partition_by_weight(n, s.data(), w.data(), np, target ? t.data() : nullptr); ctx.call();
  auto bad = [&](const std::string &m) { ctx.fail("partition_by_weight", m + mc::cat(" result ", mc::str(r, np + 1))); };
  if (s != set || w != wt || (target && t != *target)) bad("inputs modified"); if (r[0] != 0) bad("first part does not start at 0"); if (r[np] != n) bad(mc::cat("parts hold ", r[np], " of ", n, " items"));
  double sum = 0; for (int v : set) sum += wt[v]; double even = std::ceil(sum / np);
  for (int p = 0; p < np; ++p) { if (r[p + 1] < r[p] || r[p + 1] > n) { bad("boundaries decrease"); break; } double tg = target ? t[p] : even, c = 0, last = 0; for (int k = r[p]; k < r[p + 1]; ++k) c += last = wt[set[k]];
    if (p + 1 < np && r[p + 1] < n && c < tg) bad(mc::cat("part ", p, " is below its target")); if (p + 1 < np && r[p + 1] > r[p] && c - last >= tg) bad(mc::cat("part ", p, " exceeds its target by more than its last item")); }
  ctx.checked(mc::H().arr(r, np + 1).h); delete[] r;
}
static void by_bfs(Ctx &ctx, const gr::G &g, bool diag, const DV &wt, int np, const DV *target) {
  using namespace sym_lib; int n = g.n; gr::Csc c = diag ? gr::csc_diag(g) : gr::csc_nodiag(g); c.i.resize(std::max<size_t>(c.i.size(), 1)); gr::Csc c0 = c; DV w = wt, t = target ? *target : DV();
  CSC A(n, n, c.p[n], c.p.data(), c.i.data(), 0); int L = -1, *lp = nullptr, *pp = nullptr, *np_ = nullptr; partition_by_bfs(n, &A, w.data(), L, lp, np, pp, np_, target ? t.data() : nullptr); ctx.call();
  auto bad = [&](const std::string &m) { ctx.fail("partition_by_bfs", m + mc::cat(" parts ", mc::str(pp, np + 1), " nodes ", mc::str(np_, n))); };
  if (c.p != c0.p || c.i != c0.i || w != wt || (target && t != *target)) bad("inputs modified"); if (L != 1 || lp[0] != 0 || lp[1] != np) bad("level pointer");
  std::string e; if (pp[0] != 0 || pp[np] != n) e = "parts do not cover the nodes"; VI s(np_, np_ + n); std::sort(s.begin(), s.end()); for (int v = 0; v < n; ++v) if (s[v] != v) e = "nodes lost or repeated"; if (!e.empty()) { bad(e); return; }
  double sum = 0; for (double x : wt) sum += x; double even = std::ceil(sum / np);
  for (int p = 0; p < np; ++p) { if (pp[p + 1] < pp[p]) { bad("boundaries decrease"); break; } double tg = target ? t[p] : even, k = 0, last = 0; for (int q = pp[p]; q < pp[p + 1]; ++q) k += last = wt[np_[q]]; if (p + 1 < np && pp[p + 1] < n && k < tg) bad(mc::cat("part ", p, " is below its target")); if (p + 1 < np && pp[p + 1] > pp[p] && k - last >= tg) bad(mc::cat("part ", p, " exceeds its target by more than its last node")); }
  ctx.checked(mc::H().arr(pp, np + 1).arr(np_, n).h); delete[] lp; delete[] pp; delete[] np_;
}
static void split(Ctx &ctx, const VI &par, const DV &cost, int parts) { // par: -2 not part of this forest, -1 root
  using namespace sym_lib; int n = par.size(); VI t = par, nc(n, 0), cp(n + 1, 0), cn(n, 0), n2p(n, -5); populate_children(n, t.data(), cp.data(), cn.data(), nc.data()); DV c = cost, oc(n + 1, 0); oc[n] = -3; int os = -1; VV pl; double tot = 0; for (double x : cost) tot += x;
  int r = post_order_spliting(n, t.data(), c.data(), cp.data(), cn.data(), nc.data(), (int)tot, parts, os, oc.data(), n2p.data(), pl); ctx.call();
  auto bad = [&](const std::string &m) { std::string s; for (auto &x : pl) s += mc::str(x); ctx.fail("post_order_spliting", m + " parts " + s); };
  if (t != par || c != cost) bad("inputs modified"); if (oc[n] != -3) bad("wrote past the costs"); if (r != os || os != (int)pl.size()) { bad(mc::cat("reports ", r, "/", os, " parts")); return; }
  VI at(n, -1), pos(n, -1); for (int p = 0; p < os; ++p) { double s = 0; if (pl[p].empty()) bad("empty part"); for (size_t k = 0; k < pl[p].size(); ++k) { int v = pl[p][k]; if (v < 0 || v >= n || at[v] >= 0) { bad(mc::cat("node ", v, " invalid or repeated")); return; } at[v] = p; pos[v] = k; s += cost[v]; if (n2p[v] != p) bad(mc::cat("node ", v, " mapped to part ", n2p[v])); } if (s != oc[p]) bad(mc::cat("cost of part ", p, " reported ", oc[p], " is ", s)); }
  for (int v = 0; v < n; ++v) { if ((at[v] >= 0) != (par[v] != -2)) bad(mc::cat("node ", v, at[v] < 0 ? " lost" : " invented")); else if (par[v] >= 0) { if (at[par[v]] != at[v]) bad(mc::cat("edge ", v, "->", par[v], " joins two parts")); else if (pos[par[v]] < pos[v]) bad(mc::cat("parent ", par[v], " before child ", v)); } }
  ctx.checked(mc::H().arr(at.data(), n).arr(pos.data(), n).h);
}
static void unique(Ctx &ctx, const VI &lab, const VI &list) { // one node per cluster, the smallest cluster, and the scratch array clean again
  using namespace sym_lib; int n = lab.size(); VI l = lab, li = list; bool ws[16] = {}; int m = make_unique(l.data(), li, n, ws); ctx.call(); std::set<int> cl, got; for (int v : list) cl.insert(lab[v]); std::string e;
  for (int v : li) { if (!got.insert(lab[v]).second) e = "cluster kept twice"; if (std::find(list.begin(), list.end(), v) == list.end()) e = "invented node"; } if (got != cl) e = "clusters lost"; if (!cl.empty() && m != *cl.begin()) e = mc::cat("smallest cluster reported as ", m); for (bool b : ws) if (b) e = "scratch array left dirty"; if (l != lab) e = "labels modified";
  if (!e.empty()) ctx.fail("make_unique", e + " kept " + mc::str(li)); ctx.checked(mc::H().arr(li.data(), li.size()).h);
}
static void product(int n, const std::vector<double> &al, const std::function<void(const DV &)> &f) { DV v(n); std::function<void(int)> r = [&](int k) { if (k == n) { f(v); return; } for (double a : al) { v[k] = a; r(k + 1); } }; r(0); }
static void body(Ctx &ctx) {
  bool T = ctx.thorough;
  for (int n = 0; n <= (T ? 6 : 5); ++n) { ctx.space = mc::cat("bin packing, items=", n); product(n, n > 4 ? std::vector<double>{0, 1, 2, 5, 4e9} : std::vector<double>{0, 1, 2, 3, 5, 7.5, 4e9}, [&](const DV &c) { for (int b = 1; b <= 4; ++b) for (int st = 0; st < (n < 5 ? 3 : 1); ++st) for (int sz = 0; sz < (n < 4 ? 3 : 1); ++sz) CASE(ctx, "costs=", mc::str(c), " bins=", b, " start=", st, " sizes=", sz) { VI s(n); for (int k = 0; k < n; ++k) s[k] = sz == 0 ? 1 : sz == 1 ? 1 + (k * 2) % 3 : k % 3; DV l(b, 0); for (int k = 0; k < b; ++k) l[k] = st == 0 ? 0 : st == 1 ? k * 2 : 3e9 + k; pack(ctx, c, s, b, l); } }); }
  ctx.space = "bin packing, many items"; for (int n : {8, 16, 17, 33, 100, 500}) for (int b = 1; b <= 9; ++b) for (int k = 0; k < 5; ++k) CASE(ctx, "n=", n, " bins=", b, " kind=", k) { DV c(n); for (int i = 0; i < n; ++i) c[i] = k == 0 ? 1 : k == 1 ? i + 1 : k == 2 ? (i * 37) % 11 : k == 3 ? 1 << (i % 20) : n - i; pack(ctx, c, VI(n, 2), b, DV(b, 0)); }
  for (int n = 0; n <= (T ? 7 : 6); ++n) { ctx.space = mc::cat("merging small parts, items=", n); product(n, {1, 2, 4}, [&](const DV &c) { for (int t = 1; t <= 9; ++t) for (int sz = 0; sz < 2; ++sz) CASE(ctx, "costs=", mc::str(c), " threshold=", t, " sizes=", sz) { VI s(n), ic(c.begin(), c.end()); for (int k = 0; k < n; ++k) s[k] = sz ? 1 + k % 3 : 1; merge(ctx, ic, s, t); } }); }
  for (int n = 1; n <= (T ? 6 : 5); ++n) { ctx.space = mc::cat("splitting by weight n=", n); product(n, n > 4 ? std::vector<double>{0, 1, 3} : std::vector<double>{0, 0.5, 1, 3}, [&](const DV &w) { for (int np = 1; np <= 4; ++np) for (int o = 0; o < 2; ++o) { VI s(n); for (int k = 0; k < n; ++k) s[k] = o ? n - 1 - k : k; CASE(ctx, "weights=", mc::str(w), " parts=", np, " reversed=", o) by_weight(ctx, w, s, np, nullptr); for (int t = 0; t < 3; ++t) CASE(ctx, "weights=", mc::str(w), " parts=", np, " reversed=", o, " targets=", t) { DV tg(np); for (int p = 0; p < np; ++p) tg[p] = t == 0 ? 1 : t == 1 ? p * 1.5 : 100; by_weight(ctx, w, s, np, &tg); } } }); }
  for (int n = 1; n <= (T ? 5 : 4); ++n) { ctx.space = mc::cat("growing by breadth first search n=", n); for (uint64_t m = 0; m < (1ull << gr::npairs(n)); ++m) for (int d = 0; d < 2; ++d) for (int np = 1; np <= 3; ++np) for (int wk = 0; wk < 4; ++wk) for (int t = 0; t < 4; ++t) CASE(ctx, "edges=", m, " diagonal=", d, " parts=", np, " weights=", wk, " targets=", t) { DV w(n), tg(np); for (int v = 0; v < n; ++v) w[v] = wk == 0 ? 1 : wk == 1 ? v + 1 : wk == 2 ? v % 2 * 3 : 0; for (int p = 0; p < np; ++p) tg[p] = t == 1 ? 1 : t == 2 ? p * 1.5 : 100; by_bfs(ctx, gr::lower(n, m), d, w, np, t ? &tg : nullptr); } }
  { int n = 3; ctx.space = "growing in any graph n=3"; for (uint64_t m = 0; m < 64; ++m) for (int np = 1; np <= 4; ++np) CASE(ctx, "edges=", m, " parts=", np) by_bfs(ctx, gr::digraph(n, m), false, DV{1, 2, 1}, np, nullptr); }
  ctx.space = "growing, families"; gr::families(T ? 80 : 30, [&](const std::string &nm, const gr::G &g) { if (g.n) for (int np = 1; np <= 5; np += 2) CASE(ctx, nm, " parts=", np) { DV w(g.n); for (int v = 0; v < g.n; ++v) w[v] = 1 + v * 7 % 5; by_bfs(ctx, g, true, w, np, nullptr); } });
  for (int n = 1; n <= (T ? 8 : 6); ++n) { ctx.space = mc::cat("splitting forests n=", n); gr::forests(n, [&](const VI &p) { for (int cut = 0; cut < (n <= 6 ? (1 << n) : 1); ++cut) for (int ck = 0; ck < 2; ++ck) CASE(ctx, "parents=", mc::str(p), " outside=", cut, " costs=", ck) { VI q = p; for (int v = 0; v < n; ++v) { if (cut >> v & 1) q[v] = -2; else if (q[v] >= 0 && (cut >> q[v] & 1)) q[v] = -1; } DV c(n); for (int v = 0; v < n; ++v) c[v] = ck ? 1 + v * 3 % 4 : 1; split(ctx, q, c, 1 + (cut + n) % 3); } }); }
  for (int n = 1; n <= 4; ++n) { ctx.space = mc::cat("one node per cluster n=", n); for (int x = 0; x < (int)std::pow(n, n); ++x) { VI lab(n); int y = x; for (int v = 0; v < n; ++v) lab[v] = y % n, y /= n; for (int k = 0; k <= 4; ++k) for (int z = 0; z < (int)std::pow(n, k); ++z) CASE(ctx, "labels=", mc::str(lab), " list=", k, "/", z) { VI li(k); int y2 = z; for (int i = 0; i < k; ++i) li[i] = y2 % n, y2 /= n; unique(ctx, lab, li); } } }
  ctx.space = "many items"; for (int n : {300, 70000}) { DV c(n); for (int i = 0; i < n; ++i) c[i] = (i * 37) % 11;
    for (int b : {1, 2, 7, 300}) CASE(ctx, "packing n=", n, " bins=", b) pack(ctx, c, VI(n, 1), b, DV(b, 0)); CASE(ctx, "packing large items n=", n) pack(ctx, DV{4, 3, 3}, VI{n, n / 2, 1}, 2, DV(2, 0));
    for (int t : {1, 5, 1000, 400000}) CASE(ctx, "merging n=", n, " threshold=", t) merge(ctx, VI(c.begin(), c.end()), VI(n, 1), t);
    VI s(n); for (int k = 0; k < n; ++k) s[k] = n - 1 - k; for (int np : {1, 2, 300, 40000}) for (int t = 0; t < 2; ++t) CASE(ctx, "splitting n=", n, " parts=", np, " targets=", t) { DV tg(np); for (int p = 0; p < np; ++p) tg[p] = p % 3; by_weight(ctx, c, s, np, t ? &tg : nullptr); } }
  auto huge = [&](const std::string &nm, const std::function<gr::G()> &mk) { for (int np : {1, 3, 300}) CASE(ctx, nm, " parts=", np) { gr::G g = mk(); DV w(g.n); for (int v = 0; v < g.n; ++v) w[v] = 1 + v * 7 % 5; by_bfs(ctx, g, true, w, np, nullptr); }
    if (nm.find("chain") && nm.find("instar") && nm.find("intree2") && nm.find("isolated")) return; for (int k = 0; k < 3; ++k) CASE(ctx, nm, " splitting forest ", k) { gr::G g = mk(); VI p(g.n, -1); for (int v = 0; v < g.n; ++v) for (int x : g.out[v]) p[v] = x; if (k) { for (int v = 0; v < g.n; ++v) if (v % (k == 1 ? 3 : 1000) == 1) p[v] = -2; for (int v = 0; v < g.n; ++v) if (p[v] >= 0 && p[p[v]] == -2) p[v] = -1; } DV c(g.n); for (int v = 0; v < g.n; ++v) c[v] = 1 + v % 4; split(ctx, p, c, k == 2 ? 300 : 2); } };
  ctx.space = "huge families"; gr::huge_families(34000, huge); gr::huge_chain(33000, huge);
}
MC_MAIN(body)
