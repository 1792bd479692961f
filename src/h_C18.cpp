// C18: costs count exactly the work of the kernel
#include "mat.hpp"
#ifndef FLAVOR_A
#include "omp/sched.hpp"
#endif
#include "graph.hpp"
#include <iostream>
#include "aggregation/hdagg.h"
#include "aggregation/sparse_utilities.h"
#include "aggregation/sparse_inspector.h"
#include "executor.h"
using namespace mat;
using mc::Ctx;
typedef std::vector<double> DV;
static void costs(Ctx &ctx, Cmp a, bool square_groups) { // a: columns; cost of every kernel, alone and grouped, output array in every state
  using namespace HDAGG; int n = a.nmaj; Cmp r = transposed(a);
  auto cl = [&](int j) { return a.p[j + 1] - a.p[j]; }; auto rl = [&](int j) { return r.p[j + 1] - r.p[j]; };
  const Kernel ks[] = {SpTrSv_LL, SpTrSv_RL, SpICh0_LL, SpICh0_RL, SpICh0_UL, SpILU0_UL, General};
  std::vector<DV> want;
  for (Kernel k : ks) { DV w(n, 0);
    for (int v = 0; v < n; ++v) { double c = 0;
      if (k == SpTrSv_LL) c = rl(v); else if (k == SpTrSv_RL) c = cl(v);
      else if (k == SpICh0_LL) for (int q = r.p[v]; q < r.p[v + 1]; ++q) c += cl(r.i[q]);
      else if (k == SpICh0_RL) for (int q = a.p[v]; q < a.p[v + 1]; ++q) c += cl(a.i[q]);
      else for (int q = r.p[v]; q < r.p[v + 1]; ++q) c += rl(r.i[q]);
      w[v] = c; }
    want.push_back(w); }
  Cmp a0 = a, r0 = r;
  for (int k = 0; k < 7; ++k) for (int st = 0; st < 4; ++st) {
    DV c = st == 0 ? DV() : st == 1 ? DV(n, 5.5) : st == 2 ? DV(n + 3, -1) : DV(1, 9);
    costComputation(n, a.pp(), a.ii(), r.pp(), r.ii(), ks[k], nullptr, nullptr, false, c); ctx.call();
    if (c != want[k]) ctx.fail("costComputation", mc::cat("kernel ", k, " output array state ", st, " got ", mc::str(c), " want ", mc::str(want[k]))); }
  if (square_groups && n <= 4) gr::partitions(n, [&](const VI &lab, int ng) { // groups listed in label order, members ascending or descending
    for (int rev = 0; rev < 2; ++rev) { VI gp(1, 0), gs; for (int g = 0; g < ng; ++g) { for (int q = 0; q < n; ++q) { int v = rev ? n - 1 - q : q; if (lab[v] == g) gs.push_back(v); } gp.push_back(gs.size()); }
      for (int k = 0; k < 7; ++k) { DV w(ng, 0); for (int v = 0; v < n; ++v) w[lab[v]] += want[k][v]; int st = (k + ng + rev) % 4; DV c = st == 0 ? DV() : st == 1 ? DV(ng, 5.5) : st == 2 ? DV(n + 3, -1) : DV(1, 9);
        costComputation(ng, a.pp(), a.ii(), r.pp(), r.ii(), ks[k], gp.data(), gs.data(), true, c); ctx.call();
        if (c != w) ctx.fail("costComputation", mc::cat("grouped kernel ", k, " groups ", mc::str(lab), " got ", mc::str(c), " want ", mc::str(w))); } } });
  if (!(a0 == a) || !(r0 == r)) ctx.fail("costComputation", "inputs modified");
  { auto *A = make<sym_lib::CSC>(a, 0); DV c(n + 1, -7); sym_lib::compute_nnz_per_col(A, c.data()); ctx.call(); for (int j = 0; j < n; ++j) if (c[j] != cl(j)) ctx.fail("compute_nnz_per_col", mc::cat("column ", j, " got ", c[j])); if (c[n] != -7) ctx.fail("compute_nnz_per_col", "wrote past the end"); delete A; }
  uint64_t h = 0; for (auto &w : want) for (double x : w) h = h * 1000003 + (uint64_t)x; ctx.checked(h);
}
static void stats(Ctx &ctx, const gr::G &g) { // lower triangular with diagonal: statistics of the serial kernels
  using namespace sym_lib; int n = g.n; gr::Csc R = gr::csr_diag(g), C = gr::csc_diag(g); R.i.resize(std::max<size_t>(R.i.size(), 1)); C.i.resize(std::max<size_t>(C.i.size(), 1));
  gr::Csc R0 = R, C0 = C; int f = -1, m = -1, u = -1;
  fs_csr_stat(n, R.p.data(), R.i.data(), f, m, u); ctx.call();
  int nz = R.p[n], off = nz - n, re = 0; for (int i = 1; i < n; ++i) re += std::count(g.out[i - 1].begin(), g.out[i - 1].end(), i);
  if (f != 2 * off + n || m != 3 * off + 2 * n || u != re) ctx.fail("fs_csr_stat", mc::cat("flops ", f, " accesses ", m, " reuse ", u, " want ", 2 * off + n, " ", 3 * off + 2 * n, " ", re));
  ic0_csc_stat(n, C.p.data(), C.i.data(), f, m, u); ctx.call();
  long wf = 0, wm = 0; for (int i = 0; i < n; ++i) { int d = C.p[i + 1] - C.p[i]; wf += d + 1; wm += d; // square root, divisions, then one multiply-add per entry updated
    for (int q = C.p[i] + 1; q < C.p[i + 1]; ++q) { int c = C.i[q]; std::set<int> col(C.i.begin() + C.p[c], C.i.begin() + C.p[c + 1]); wm += (long)(C.p[c + 1] - C.p[c]) * (C.p[i + 1] - q); for (int l = q; l < C.p[i + 1]; ++l) if (col.count(C.i[l])) { wf += 2; wm += 3; } } }
  if (f != wf || m != wm || u != 0) ctx.fail("ic0_csc_stat", mc::cat("flops ", f, " accesses ", m, " want ", wf, " ", wm));
  if (R0.p != R.p || R0.i != R.i || C0.p != C.p || C0.i != C.i) ctx.fail("statistics", "inputs modified");
  ctx.checked(mc::H().u(wf).u(wm).u(re).h);
}
// load imbalance of a level: largest difference between the costs of two threads; zero with one thread
static int balance(int which, const gr::G &g, int T, std::string &msg) {
  using namespace sym_lib; int n = g.n; gr::Csc R = gr::csr_diag(g); VI lev; int L = gr::levels(g, lev); VI lp(1, 0), ls, gp(n + 1), gs(n), pp(n + 1); for (int l = 0; l < L; ++l) { for (int v = 0; v < n; ++v) if (lev[v] == l) ls.push_back(v); lp.push_back(ls.size()); } std::iota(gp.begin(), gp.end(), 0); std::iota(gs.begin(), gs.end(), 0); std::iota(pp.begin(), pp.end(), 0);
  VI c(L + 1, -5); if (which == 0) fs_csr_levelset_stat(R.p.data(), R.i.data(), gp.data(), gs.data(), L, lp.data(), ls.data(), c.data()); else if (which == 1) sptrsv_csr_lbc_stat(n, R.p.data(), R.i.data(), L, lp.data(), pp.data(), ls.data(), c.data()); else sptrsv_csr_group_lbc_stat(n, R.p.data(), R.i.data(), L, lp.data(), pp.data(), ls.data(), gp.data(), gs.data(), c.data());
  for (int l = 0; l < L; ++l) { int tot = 0, mx = 0; for (int k = lp[l]; k < lp[l + 1]; ++k) { int d = R.p[ls[k] + 1] - R.p[ls[k]]; tot += d; mx = std::max(mx, d); } bool ok = T == 1 ? c[l] == 0 : c[l] >= 0 && c[l] <= tot && (lp[l + 1] - lp[l] > 1 || c[l] == tot); if (!ok) { msg = mc::cat("imbalance ", c[l], " of level ", l, " cost ", tot); return 1; } }
  if (c[L] != -5) { msg = "wrote past the end"; return 1; } return 0;
}
static const char *BAL[] = {"fs_csr_levelset_stat", "sptrsv_csr_lbc_stat", "sptrsv_csr_group_lbc_stat"};
static void tree(Ctx &ctx, const VI &par, const VI &w, bool etree) {
  using namespace sym_lib; int n = par.size(); VI p = par, wt = w, nc(n, 0); for (int v = 0; v < n; ++v) if (par[v] >= 0) nc[par[v]]++;
  VI d(n), dw(n); if (!etree) for (int v = 0; v < n; ++v) { int x = v, c = 0, s = w[v]; while (par[x] >= 0) { x = par[x]; ++c; s += w[x]; } d[v] = c; dw[v] = s; } else for (int v = n - 1; v >= 0; --v) { d[v] = par[v] < 0 ? 0 : d[par[v]] + 1; dw[v] = w[v] + (par[v] < 0 ? 0 : dw[par[v]]); }
  for (int v = 0; v < n; v += n > 5000 && v > 2 && v < n - 3 ? n / 7 : 1) { int a = get_node_depth(v, n, p.data()), b = get_node_depth(v, n, p.data(), wt.data()); ctx.call(2); if (a != d[v] || b != dw[v]) ctx.fail("get_node_depth", mc::cat("node ", v, " got ", a, " weighted ", b, " want ", d[v], " ", dw[v])); }
  int h = 0, hw = 0; for (int v = 0; v < n; ++v) { h = std::max(h, d[v]); hw = std::max(hw, dw[v]); }
  for (int q = 0; q < 2; ++q) { int *W = q ? wt.data() : nullptr, e = q ? hw : h; const char *t = q ? " weighted" : "";
    int x = get_tree_height_bruteforce(n, p.data(), W); if (x != e) ctx.fail("get_tree_height_bruteforce", mc::cat("got ", x, " want ", e, t));
    x = get_tree_height(n, p.data(), nc.data(), W); if (x != e) ctx.fail("get_tree_height", mc::cat("got ", x, " want ", e, t));
    x = get_tree_height_efficient(n, p.data(), nc.data(), W); if (x != e) ctx.fail("get_tree_height_efficient", mc::cat("got ", x, " want ", e, t)); ctx.call(3); }
  if (etree) { DV c(n), s(n, 0); for (int v = 0; v < n; ++v) c[v] = w[v] + 0.25 * v; for (int v = 0; v < n; ++v) { s[v] += c[v]; if (par[v] >= 0) s[par[v]] += s[v]; } DV c0 = c; double *r = compute_subtree_cost(n, p.data(), c.data()); ctx.call(); if (DV(r, r + n) != s) ctx.fail("compute_subtree_cost", mc::cat("got ", mc::str(r, n), " want ", mc::str(s))); if (c != c0) ctx.fail("compute_subtree_cost", "weights modified"); delete[] r;
    // the children lists used by the tree routines
    VI cp(n + 1, -3), cn(std::max(n, 1), -3), cc(n, 0), nn(n, -1); populate_children(n, p.data(), cp.data(), cn.data(), cc.data()); ctx.call(); std::vector<VI> kids(n); for (int x = 0; x < n; ++x) if (par[x] >= 0) kids[par[x]].push_back(x); for (int v = 0; v < n; ++v) { VI g(cn.begin() + cp[v], cn.begin() + cp[v + 1]), &e = kids[v]; std::sort(g.begin(), g.end()); if (g != e) ctx.fail("populate_children", mc::cat("children of ", v, " got ", mc::str(g), " want ", mc::str(e))); } }
  if (p != par || wt != w) ctx.fail("tree", "inputs modified"); ctx.checked(mc::H().u(h).u(hw).arr(d.data(), n).h);
}
static void body(Ctx &ctx) {
  bool T = ctx.thorough;
#ifdef FLAVOR_A
  ctx.space = "load imbalance without OpenMP"; for (int w = 0; w < 3; ++w) CASE(ctx, BAL[w], " of one row") { std::string m; int r = mc::in_child([&] { return balance(w, gr::lower(1, 0), 1, m); }); ctx.call(); ctx.checked(); if (r) ctx.fail(BAL[w], r < 0 ? "crash" : "wrong imbalance"); }
#else
  for (int th = 1; th <= 3; ++th) { for (int n = 1; n <= (T ? 5 : 4); ++n) { ctx.space = mc::cat("load imbalance, threads=", th, " n=", n); for (uint64_t k = 0; k < (1ull << gr::npairs(n)); ++k) CASE(ctx, "edges=", k) for (int w = 0; w < 3; ++w) { omps::set_threads(th); std::string m; if (balance(w, gr::lower(n, k), th, m)) ctx.fail(BAL[w], m); ctx.call(); ctx.checked(); } } }
  omps::set_threads(3);
#endif
  for (int n = 1; n <= 3; ++n) { ctx.space = mc::cat("kernel costs, all patterns n=", n); for (uint64_t k = 0; k < (1ull << (n * n)); ++k) CASE(ctx, "pattern=", k) costs(ctx, csc(n, n, k, 2), true); }
  { int n = 4; ctx.space = "kernel costs, patterns with diagonal n=4"; for (uint64_t k = 0; k < (1ull << 12); ++k) { uint64_t m = 0; int b = 0; for (int c = 0; c < n; ++c) for (int r = 0; r < n; ++r) if (r == c || (k >> b++ & 1)) m |= 1ull << (c * n + r); CASE(ctx, "pattern=", k) costs(ctx, csc(n, n, m, 2), true); } }
  if (T) { int n = 4; ctx.space = "kernel costs, all patterns n=4"; for (uint64_t m = 0; m < (1ull << 16); ++m) CASE(ctx, "pattern=", m) costs(ctx, csc(n, n, m, 2), true); }
  for (int n = 1; n <= (T ? 6 : 5); ++n) { ctx.space = mc::cat("lower triangular n=", n); for (uint64_t k = 0; k < (1ull << gr::npairs(n)); ++k) CASE(ctx, "edges=", k) { gr::G g = gr::lower(n, k); stats(ctx, g); gr::Csc c = gr::csc_diag(g); Cmp a; a.nmaj = a.nmin = n; a.val = false; a.p = c.p; a.i.assign(c.i.begin(), c.i.begin() + c.p[n]); costs(ctx, a, n == 4); } }
  ctx.space = "families"; gr::families(T ? 120 : 40, [&](const std::string &nm, const gr::G &g) { CASE(ctx, nm) { stats(ctx, g); gr::Csc c = gr::csc_diag(g); Cmp a; a.nmaj = a.nmin = g.n; a.val = false; a.p = c.p; a.i.assign(c.i.begin(), c.i.begin() + c.p[g.n]); costs(ctx, a, false); } });
  ctx.space = "large families"; gr::big_families(T ? VI{150, 1030, 2500} : VI{150, 1030}, [&](const std::string &nm, const gr::G &g) { CASE(ctx, nm) { stats(ctx, g); gr::Csc c = gr::csc_diag(g); Cmp a; a.nmaj = a.nmin = g.n; a.val = false; a.p = c.p; a.i.assign(c.i.begin(), c.i.begin() + c.p[g.n]); costs(ctx, a, false); } });
  ctx.space = "huge families"; auto huge = [&](const std::string &nm, const std::function<gr::G()> &mk) { CASE(ctx, nm) { gr::G g = mk(); if (nm.find("outstar") && nm.find("doublestar")) stats(ctx, g); gr::Csc c = gr::csc_diag(g); Cmp a; a.nmaj = a.nmin = g.n; a.val = false; a.p = c.p; a.i.assign(c.i.begin(), c.i.begin() + c.p[g.n]); costs(ctx, a, false); } }; gr::huge_families(70000, huge); gr::huge_chain(70000, huge);
  ctx.space = "huge trees"; auto hugetree = [&](const std::string &nm, const std::function<gr::G()> &mk) { if (nm.find("chain") && nm.find("instar") && nm.find("intree2") && nm.find("isolated")) return; for (int ws = 0; ws < 2; ++ws) CASE(ctx, nm, " weights=", ws) { gr::G g = mk(); VI p(g.n, -1), w(g.n); for (int v = 0; v < g.n; ++v) { for (int x : g.out[v]) p[v] = x; w[v] = ws ? v % 1000 : 1; } tree(ctx, p, w, true); } }; gr::huge_families(70000, hugetree); gr::huge_chain(33000, hugetree);
  for (int n = 1; n <= (T ? 8 : 7); ++n) { ctx.space = mc::cat("elimination forests n=", n); gr::forests(n, [&](const VI &p) { for (int ws = 0; ws < 3; ++ws) CASE(ctx, "parents=", mc::str(p), " weights=", ws) { VI w(n); for (int v = 0; v < n; ++v) w[v] = ws == 0 ? 1 : ws == 1 ? 1 << v : (v * 5 + 3) % 4; tree(ctx, p, w, true); } }); }
  for (int n = 1; n <= (T ? 7 : 6); ++n) { int base = n <= 4 ? 4 : n <= 5 ? 3 : 2, tot = 1; for (int v = 0; v < n; ++v) tot *= base; ctx.space = mc::cat("elimination forests x node weights from 0 to ", base - 1, " n=", n); gr::forests(n, [&](const VI &p) { for (int k = 0; k < tot; ++k) CASE(ctx, "parents=", mc::str(p), " weights no ", k) { VI w(n); for (int v = 0, z = k; v < n; ++v, z /= base) w[v] = z % base; tree(ctx, p, w, true); } }); }
  for (int n = 1; n <= (T ? 6 : 5); ++n) { ctx.space = mc::cat("labelled forests n=", n); VI p(n, -1); std::function<void(int)> rec = [&](int v) { if (v == n) { for (int x = 0; x < n; ++x) { int y = x, c = 0; while (y >= 0 && c <= n) y = p[y], ++c; if (c > n) return; } for (int ws = 0; ws < 3; ++ws) CASE(ctx, "parents=", mc::str(p), " weights=", ws) { VI w(n); for (int x = 0; x < n; ++x) w[x] = ws == 0 ? 1 : ws == 1 ? 1 << x : (x * 5 + 3) % 4; tree(ctx, p, w, false); } return; } for (p[v] = -1; p[v] < n; ++p[v]) rec(v + 1); p[v] = -1; }; rec(0); }
}
MC_MAIN(body)
