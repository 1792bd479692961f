// The inspection routines as operations on a common input: used for histories (C23) and interleavings (C12)
#pragma once
#include "hdagg_common.hpp"
#include "lbc_common.hpp"
#include "mat.hpp"
#include <cmath>
#include "aggregation/group.h"
#include "aggregation/group_utils.h"
#include "aggregation/lbc_utils.h"
#include "aggregation/lfactor_creation.h"
#include "aggregation/BCSCMatrix.h"
#include "aggregation/sparse_utilities.h"
#include "aggregation/utils.h"
namespace HDAGG { __attribute__((weak)) bool treeBasedGrouping_Aggressive(int n, std::vector<int> &DAG_ptr, std::vector<int> &DAG_set, int &ngroups,
                               std::vector<int> &group_ptr, std::vector<int> &group_set, bool apply_size_restriction); }
using mc::Ctx; using gr::G; using gr::Csc; typedef std::vector<int> VI; typedef std::vector<double> VD; typedef std::vector<VI> VV;
using hd::Quiet;
// outputs that survive from call to call
struct Box { VI a, b, c, d, e; VD x; std::vector<HDAGG::twoDIteration> it; int k = 5, m = -9; int *p = nullptr, *q = nullptr, *r = nullptr; };
struct In { // one problem: everything an operation reads
  G g; Csc col, nod, row; VI lev, lptr, lset, gp, gs, gi, par, sup; G q; gr::HS hs, hq; VD one, cost; Csc qc;
  explicit In(const G &g_) : g(g_), col(gr::csc_diag(g_)), nod(gr::csc_nodiag(g_)), row(gr::csr_diag(g_)) {
    int n = g.n; int L = gr::levels(g, lev); lptr = {0}; for (int l = 0; l < L; ++l) { for (int v = 0; v < n; ++v) if (lev[v] == l) lset.push_back(v); lptr.push_back(lset.size()); }
    gp = {0}; gi.resize(n); for (int v = 0; v < n; ++v) { gs.push_back(v); gi[v] = v / 2; if (v % 2 || v == n - 1) gp.push_back(v + 1); } sup = gp; int k = gp.size() - 1;
    q = G(k); for (int v = 0; v < n; ++v) for (int w : g.out[v]) if (gi[v] != gi[w]) q.edge(gi[v], gi[w]); q.norm(); qc = gr::csc_diag(q);
    par.assign(n, -1); for (int v = 0; v < n; ++v) if (!g.out[v].empty()) par[v] = g.out[v][0];
    auto sched = [](const G &h, const VI &lv, int LL) { gr::HS s; s.L = LL; s.lp = {0}; s.pp = {0}; for (int l = 0; l < LL; ++l) { for (int v = 0; v < h.n; ++v) if (lv[v] == l) { s.np.push_back(v); s.pp.push_back(s.np.size()); } s.lp.push_back(s.pp.size() - 1); } return s; };
    hs = sched(g, lev, L); VI ql; int Q = gr::levels(q, ql); hq = sched(q, ql, Q); one.assign(n, 1.0); for (int v = 0; v < n; ++v) cost.push_back(1 + (v * 5) % 7);
  }
};
// everything observable of a call
struct Dig { VI v; void i(int x) { v.push_back(x); } void arr(const VI &a) { v.push_back((int)a.size()); v.insert(v.end(), a.begin(), a.end()); } void arr(const int *a, int n) { v.push_back(n); for (int k = 0; k < n; ++k) v.push_back(a[k]); } void dbl(const VD &a) { v.push_back((int)a.size()); for (double x : a) { int t[2]; memcpy(t, &x, 8); v.push_back(t[0]); v.push_back(t[1]); } } };
struct Op { std::string name; std::function<void(In &, Box &, Dig &)> f; };
static int CORE_OPS = 0; // the operations before this one are the schedulers and their building blocks
static std::vector<Op> ops(bool all) {
  std::vector<Op> r; auto add = [&](std::string nm, std::function<void(In &, Box &, Dig &)> f) { r.push_back({nm, f}); };
  // the part of a schedule that its counts declare
  auto pre = [](Dig &d, const VI &v, int n) { if (n < 0 || (size_t)n > v.size()) { d.i(-555); d.arr(v); } else d.arr(v.data(), n); };
  auto hsched = [pre](Dig &d, const Box &b) { d.i(b.k); pre(d, b.a, b.k + 1); int P = b.k >= 0 && (size_t)b.k < b.a.size() ? b.a[b.k] : -2; pre(d, b.b, P + 1); int N = P >= 0 && (size_t)P < b.b.size() ? b.b[P] : -2; pre(d, b.c, N); };
  for (int alg = 0; alg < 2; ++alg) for (int o = 0; o < 4; ++o) for (int cores = 1; cores <= (all ? 3 : 2); ++cores) { if (!all && o % 2 == (cores - 1)) continue;
    add(mc::cat(alg ? "GLC_V2" : "HDAGG", " order=", o & 1, " pack=", o >> 1, " cores=", cores), [=](In &i, Box &b, Dig &d) { VI w = (alg ? HDAGG::GLC_V2 : HDAGG::HDAGG)(i.g.n, i.col.nnz(), i.col.p, i.col.i, i.cost, cores, b.k, b.a, b.b, b.c, false, o & 1, o >> 1); d.arr(w); hsched(d, b); }); }
  for (int cores = 1; cores <= 2; ++cores) add(mc::cat("build_coarsened_level_parallel cores=", cores), [=](In &i, Box &b, Dig &d) { d.i(HDAGG::build_coarsened_level_parallel(i.g.n, i.col.p.data(), i.col.i.data(), cores, b.k, b.a, b.b, b.c)); hsched(d, b); });
  add("computingLevelSet_CSC", [](In &i, Box &b, Dig &d) { sym_lib::computingLevelSet_CSC(i.g.n, i.col.p.data(), i.col.i.data(), b.a, b.b, b.k); d.i(b.k); d.arr(b.a.data(), b.k + 1); d.arr(b.b.data(), i.g.n); });
  add("computePostOrder", [](In &i, Box &b, Dig &d) { HDAGG::computePostOrder(i.g.n, i.col.p.data(), i.col.i.data(), b.c); d.arr(b.c); });
  add("computingNode2Level", [](In &i, Box &b, Dig &d) { HDAGG::computingNode2Level(i.lptr, i.lset, (int)i.lptr.size() - 1, i.g.n, b.a); d.arr(b.a); });
  for (int po = 0; po < 2; ++po) add(mc::cat("computeSchedule order=", po), [=](In &i, Box &b, Dig &d) { VI wm(i.lptr.size()); std::iota(wm.begin(), wm.end(), 0); std::vector<VI> ch; for (size_t l = 0; l + 1 < i.lptr.size(); ++l) { int w = i.lptr[l + 1] - i.lptr[l]; ch.push_back({0, w / 2, w}); } HDAGG::computeSchedule(2, i.g.n, i.col.p.data(), i.col.i.data(), i.lptr.data(), i.lset.data(), i.lev.data(), wm, ch, b.k, b.a, b.b, b.c, true, po); hsched(d, b); d.arr(wm); });
  for (int t = 0; t < (all ? 2 : 1); ++t) {
    add(mc::cat("treeBasedGrouping factor=", t), [=](In &i, Box &b, Dig &d) { d.i(HDAGG::treeBasedGrouping(i.g.n, i.col.p, i.col.i, b.k, b.a, b.b, t)); d.i(b.k); pre(d, b.a, b.k + 1); pre(d, b.b, i.g.n); });
    add(mc::cat("treeBasedGroupingBFS factor=", t), [=](In &i, Box &b, Dig &d) { d.i(HDAGG::treeBasedGroupingBFS(i.g.n, i.col.p, i.col.i, b.k, b.a, b.b, t)); d.i(b.k); pre(d, b.a, b.k + 1); pre(d, b.b, i.g.n); }); }
  add("computePostOrderAndGroup", [=](In &i, Box &b, Dig &d) { HDAGG::computePostOrderAndGroup(i.g.n, i.col.p.data(), i.col.i.data(), b.k, b.a, b.b, b.c, b.d); d.i(b.k); d.arr(b.a); d.arr(b.b); d.arr(b.c); d.arr(b.d); });
  add("chainGrouping", [=](In &i, Box &b, Dig &d) { d.i(HDAGG::chainGrouping(i.g.n, i.col.p, i.col.i, b.k, b.a, b.b)); d.i(b.k); pre(d, b.a, b.k + 1); pre(d, b.b, i.g.n); });
  add("buildGroupDAG", [](In &i, Box &b, Dig &d) { int n = i.g.n, k = i.gp.size() - 1; HDAGG::buildGroupDAG(n, k, i.gp.data(), i.gs.data(), i.col.p.data(), i.col.i.data(), b.a, b.b); d.arr(b.a); d.arr(b.b); });
  for (int m = 0; m < 3; ++m) add(mc::cat("ungroupingScheduleAndApplyOrdering mode=", m), [=](In &i, Box &b, Dig &d) { b.k = i.hq.L; b.a = i.hq.lp; b.b = i.hq.pp; b.c = i.hq.np; HDAGG::ungroupingScheduleAndApplyOrdering(i.g.n, b.k, b.a, b.b, b.c, i.gp, i.gs, i.col.p.data(), i.col.i.data(), m == 1, m == 2); hsched(d, b); });
  for (int c = 0; c < 2; ++c) add(mc::cat("partialSparsification cliques=", c), [=](In &i, Box &b, Dig &d) { HDAGG::partialSparsification(i.g.n, i.col.nnz(), i.col.p.data(), i.col.i.data(), b.a, b.b, c); d.arr(b.a); d.arr(b.b); });
  for (int k = 0; k < 7; ++k) { if (!all && k % 2) continue; add(mc::cat("costComputation kernel=", k), [=](In &i, Box &b, Dig &d) { b.x.assign(i.g.n, 0); HDAGG::costComputation(i.g.n, i.col.p.data(), i.col.i.data(), i.row.p.data(), i.row.i.data(), (HDAGG::Kernel)k, nullptr, nullptr, false, b.x); d.dbl(b.x); }); }
  add("costComputation grouped", [](In &i, Box &b, Dig &d) { int k = i.gp.size() - 1; b.x.assign(k, 0); HDAGG::costComputation(k, i.col.p.data(), i.col.i.data(), i.row.p.data(), i.row.i.data(), HDAGG::SpTrSv_LL, i.gp.data(), i.gs.data(), true, b.x); d.dbl(b.x); });
  for (int form = 0; form < 2; ++form) add(mc::cat("twoDReordering columns=", form), [=](In &i, Box &b, Dig &d) { Csc &c = form ? i.col : i.row; HDAGG::twoDReordering(i.g.n, c.nnz(), c.p.data(), c.i.data(), i.hs.L, i.hs.lp, i.hs.pp, i.hs.np, 1, b.a, b.it); d.arr(b.a); for (auto &t : b.it) d.i(t.i), d.i(t.k), d.i(t.j); });
  add("getFinalScheduleDAG", [=](In &i, Box &b, Dig &d) { HDAGG::getFinalScheduleDAG(i.g.n, i.hs.L, i.hs.lp.data(), i.hs.pp.data(), i.hs.np.data(), i.col.p.data(), i.col.i.data(), b.k, b.a, b.b, b.c, b.d); d.i(b.k); pre(d, b.a, b.k + 1); pre(d, b.b, i.g.n); d.arr(b.c); d.arr(b.d); });
  add("convertCNScheduleToSuperNode", [=](In &i, Box &b, Dig &d) { b.k = i.hq.L; b.a = i.hq.lp; b.b = i.hq.pp; b.c = i.hq.np; VI s(i.g.n + 1); std::iota(s.begin(), s.end(), 0); HDAGG::convertCNScheduleToSuperNode(i.g.n, i.g.n, i.gp.data(), i.gs.data(), s.data(), b.k, b.a, b.b, b.c); hsched(d, b); });
  add("computeParents and buildETree", [](In &i, Box &b, Dig &d) { int n = i.g.n; HDAGG::computeParents(n, i.row.p.data(), i.row.i.data(), b.d); d.arr(b.d); sym_lib::CSR A(n, n, i.row.nnz(), false); std::copy(i.row.p.begin(), i.row.p.end(), A.p); std::copy(i.row.i.begin(), i.row.i.begin() + i.row.nnz(), A.i); HDAGG::buildETree(&A, b.m, b.a, b.b); d.i(b.m); d.arr(b.a); d.arr(b.b); });
  // load balanced coarsening: arrays are allocated by the callee
  struct L { static void out(Box &b, Dig &d, int n) { d.i(b.k); d.arr(b.p, b.k + 1); d.arr(b.q, b.p[b.k] + 1); d.arr(b.r, n); } };
  auto lbc = [&](std::string nm, std::function<int(In &, Box &, int, int, int, double *)> f, bool quot) { for (int w = 1; w <= 3; w += 2) for (int dist = 0; dist < 2; ++dist) add(mc::cat(nm, " parts=", w, " dist=", dist), [=](In &i, Box &b, Dig &d) { int *p = b.p, *q = b.q, *r = b.r; VD c = i.cost; f(i, b, w, dist, 2, c.data()); if (c != i.cost) d.i(-4242); L::out(b, d, quot ? (int)i.gp.size() - 1 : i.g.n); if (p != b.p) delete[] p; if (q != b.q) delete[] q; if (r != b.r) delete[] r; }); };
  lbc("DAG_CSC", [](In &i, Box &b, int w, int s, int v, double *c) { return sym_lib::get_coarse_levelSet_DAG_CSC(i.g.n, i.col.p.data(), i.col.i.data(), b.k, b.p, b.m, b.q, b.r, w, s, v, c); }, false);
  lbc("DAG_CSC03", [](In &i, Box &b, int w, int s, int v, double *c) { return sym_lib::get_coarse_Level_set_DAG_CSC03(i.g.n, i.col.p.data(), i.col.i.data(), b.k, b.p, b.m, b.q, b.r, w, s, v, c); }, false);
  lbc("DAG_CSC03_parallel", [](In &i, Box &b, int w, int s, int v, double *c) { return sym_lib::get_coarse_Level_set_DAG_CSC03_parallel(i.g.n, i.col.p.data(), i.col.i.data(), b.k, b.p, b.m, b.q, b.r, w, s, v, c, 2); }, false);
  lbc("tree", [](In &i, Box &b, int w, int s, int v, double *c) { return sym_lib::get_coarse_levelSet_tree(i.g.n, i.par.data(), b.k, b.p, b.m, b.q, b.r, w, s, v, c); }, false);
  lbc("DAG_CSC_tree", [](In &i, Box &b, int w, int s, int v, double *c) { return sym_lib::get_coarse_levelSet_DAG_CSC_tree(i.g.n, i.col.p.data(), i.col.i.data(), -1, b.k, b.p, b.m, b.q, b.r, w, s, v, c); }, false);
  auto lv = [&](std::string nm, std::function<int(In &, int *&, int *&)> f, int mul) { add(nm, [=](In &i, Box &b, Dig &d) { int *p = b.p, *q = b.q; int n = f(i, b.p, b.q); d.i(n); d.arr(b.p, n + 1); d.arr(b.q, b.p[n]); (void)mul; if (p != b.p) delete[] p; if (q != b.q) delete[] q; }); };
  lv("build_levelSet_CSC", [](In &i, int *&p, int *&q) { return sym_lib::build_levelSet_CSC(i.g.n, i.col.p.data(), i.col.i.data(), p, q); }, 1);
  add("buildLevelSet_CSC_Queue", [](In &i, Box &b, Dig &d) { int n = i.g.n; if ((int)b.a.size() < n + 1) b.a.resize(n + 1, 6); if ((int)b.b.size() < n) b.b.resize(n, 6); int *p = b.a.data(), *q = b.b.data(); int L = sym_lib::buildLevelSet_CSC_Queue(n, i.col.nnz(), i.col.p.data(), i.col.i.data(), p, q); if (p != b.a.data() || q != b.b.data()) d.i(-77); d.i(L); d.arr(p, L + 1); d.arr(q, n); });
  for (int k = 1; k <= 2; ++k) lv(mc::cat("level_set_multi_graphs loops=", k), [=](In &i, int *&p, int *&q) { return sym_lib::level_set_multi_graphs(i.g.n, i.col.p.data(), i.col.i.data(), p, q, k); }, k);
  lv("level_set_bn", [](In &i, int *&p, int *&q) { VI s(i.g.n + 1); std::iota(s.begin(), s.end(), 0); return sym_lib::level_set_bn(i.g.n, i.col.p.data(), i.col.i.data(), p, q, s.data(), i.g.n, 1, true); }, 1);
  add("build_levelSet_CSC into arrays", [](In &i, Box &b, Dig &d) { int n = i.g.n; if ((int)b.a.size() < n + 1) b.a.resize(n + 1, 6); if ((int)b.b.size() < n) b.b.resize(n, 6); int L = sym_lib::build_levelSet_CSC(n, (const int *)i.col.p.data(), (const int *)i.col.i.data(), b.a.data(), b.b.data()); d.i(L); d.arr(b.a.data(), L + 1); d.arr(b.b.data(), n); });
  add("build_level_set_tree", [](In &i, Box &b, Dig &d) { int n = i.g.n; if ((int)b.a.size() < n + 1) b.a.resize(n + 1, 6); if ((int)b.b.size() < n) b.b.resize(n, 6); int L = sym_lib::build_level_set_tree(n, i.par.data(), b.a.data(), b.b.data()); d.i(L); d.arr(b.a.data(), L + 1); d.arr(b.b.data(), n); });
  add("compute_depth", [](In &i, Box &b, Dig &d) { int n = i.g.n; sym_lib::CSC A(n, n, i.col.nnz(), false); std::copy(i.col.p.begin(), i.col.p.end(), A.p); std::copy(i.col.i.begin(), i.col.i.begin() + i.col.nnz(), A.i); if ((int)b.a.size() < n) b.a.resize(n, 6); sym_lib::compute_depth(&A, b.a.data()); d.arr(b.a.data(), n); });
  add("compute_etree", [](In &i, Box &b, Dig &d) { int n = i.g.n; sym_lib::CSC A(n, n, i.row.nnz(), false); A.stype = 1; std::copy(i.row.p.begin(), i.row.p.end(), A.p); std::copy(i.row.i.begin(), i.row.i.begin() + i.row.nnz(), A.i); if ((int)b.a.size() < n) b.a.resize(n, 6); d.i(sym_lib::compute_etree(&A, b.a.data())); d.arr(b.a.data(), n); });
  // groups of rows or columns; one object used for several inspections
  for (int k = 0; k < 5; ++k) for (int twice = 0; twice < 1; ++twice) add(mc::cat("group inspection ", k), [=](In &i, Box &b, Dig &d) { int n = i.g.n; Csc &c = k < 2 ? i.row : i.col; for (VI *v : {&b.a, &b.b, &b.c}) if ((int)v->size() < n + 1) v->resize(n + 1, 3); sym_lib::group gg(n, c.p.data(), c.i.data()); int *p = b.a.data(), *s = b.b.data(), *v = b.c.data(); switch (k) { case 0: gg.inspection_sptrsvcsr_v1(p, s, b.k, v); break; case 1: gg.inspection_sptrsvcsr_v2(p, s, b.k, v); break; case 2: gg.inspection_spicocsc_v1(p, s, b.k, v); break; case 3: gg.inspection_spicocsc_v2(p, s, b.k, v); break; case 4: gg.NaiveGrouping(n, p, s, b.k, v, 2); } d.i(b.k); d.arr(p, b.k + 1); d.arr(s, n); d.arr(v, n); });
  add("fs_csr_inspector_dep", [](In &i, Box &, Dig &d) { VV g(i.g.n); sym_lib::fs_csr_inspector_dep(i.g.n, i.row.p.data(), i.row.i.data(), g); for (auto &v : g) d.arr(v); });
  add("grouped dependence inspection", [](In &i, Box &, Dig &d) { int k = i.gp.size() - 1; VV g(k), h(k); sym_lib::fs_csr_inspector_dep(k, i.gp.data(), i.gs.data(), i.gi.data(), i.row.p.data(), i.row.i.data(), g); sym_lib::fs_ic0csc_inspector_group(k, i.gp.data(), i.gs.data(), i.gi.data(), i.col.p.data(), i.col.i.data(), h); for (auto &v : g) d.arr(v); for (auto &v : h) d.arr(v); });
  CORE_OPS = r.size();
  // matrices: every result is digested and freed
  auto dig = [](Dig &d, sym_lib::CSC *A) { if (!A) { d.i(-99); return; } d.i(A->m); d.i(A->n); d.i(A->nnz); d.i(A->stype); d.arr(A->p, A->n + 1); d.arr(A->i, A->nnz); if (A->x) d.dbl(VD(A->x, A->x + A->nnz)); };
  auto digr = [](Dig &d, sym_lib::CSR *A) { if (!A) { d.i(-99); return; } d.i(A->m); d.i(A->n); d.i(A->nnz); d.i(A->stype); d.arr(A->p, A->m + 1); d.arr(A->i, A->nnz); if (A->x) d.dbl(VD(A->x, A->x + A->nnz)); };
  typedef sym_lib::CSC CSC; typedef sym_lib::CSR CSR;
  auto low = [](In &i) { CSC *A = new CSC(i.g.n, i.g.n, i.col.nnz()); A->stype = -1; std::copy(i.col.p.begin(), i.col.p.end(), A->p); for (int k = 0; k < i.col.nnz(); ++k) A->i[k] = i.col.i[k], A->x[k] = 1.5 + k; return A; };
  auto mat = [=](const std::string &nm, std::function<void(In &, CSC *, Box &, Dig &)> f) { add(nm, [=](In &i, Box &b, Dig &d) { CSC *A = low(i); Dig x, y; dig(x, A); f(i, A, b, d); dig(y, A); if (x.v != y.v) d.i(-4242); delete A; }); };
  mat("csc_to_csr and back", [=](In &, CSC *A, Box &, Dig &d) { CSR *R = sym_lib::csc_to_csr(A); digr(d, R); CSC *B = sym_lib::csr_to_csc(R); dig(d, B); delete R; delete B; });
  mat("transpose_general", [=](In &, CSC *A, Box &, Dig &d) { CSC *B = sym_lib::transpose_general(A); dig(d, B); delete B; });
  mat("transpose_symmetric permuted", [=](In &i, CSC *A, Box &, Dig &d) { VI p(i.g.n); for (int v = 0; v < i.g.n; ++v) p[v] = (v * 2 + 1) % i.g.n; VI u = p; std::sort(u.begin(), u.end()); for (int v = 0; v < i.g.n; ++v) if (u[v] != v) { for (int w = 0; w < i.g.n; ++w) p[w] = i.g.n - 1 - w; break; } CSC *B = sym_lib::transpose_symmetric(A, p.data()); dig(d, B); delete B; CSC *C = sym_lib::transpose_symmetric(A, nullptr); dig(d, C); delete C; });
  mat("make_full and make_half", [=](In &, CSC *A, Box &, Dig &d) { CSC *B = sym_lib::make_full(A); dig(d, B); CSC *C = sym_lib::make_half(B->n, B->p, B->i, B->x, false); dig(d, C); delete B; delete C; });
  mat("copy_sparse", [=](In &, CSC *A, Box &, Dig &d) { CSC *B = sym_lib::copy_sparse(A); dig(d, B); delete B; });
  mat("coarsen_k_times", [=](In &i, CSC *A, Box &, Dig &d) { for (int k = 1; k <= 2; ++k) { CSC *B = sym_lib::coarsen_k_times(i.g.n, A->nnz, A->p, A->i, A->stype, k); dig(d, B); delete B; } });
  mat("compute_nnz_per_col", [](In &i, CSC *A, Box &b, Dig &d) { b.x.assign(i.g.n, 3); sym_lib::compute_nnz_per_col(A, b.x.data()); d.dbl(b.x); });
  mat("supernodes and blocked storage", [=](In &i, CSC *A, Box &, Dig &d) { sym_lib::BCSCMatrix M(A); sym_lib::BCSC *B = M.getBCSC(); d.i(B->nodes); d.arr(B->supernodes, B->nodes + 1); d.arr(B->i, B->nnz); d.dbl(VD(B->x, B->x + B->nnz)); CSC *Q = M.compressed_BCSC_to_CSC(); dig(d, Q); delete Q; (void)i; });
  mat("symbolic factorisation", [=](In &i, CSC *A, Box &, Dig &d) { sym_lib::LFactorSymbolicInfo *f = sym_lib::build_symbolic_simplicial_lfactor(A); int n = i.g.n; d.arr(f->col_counts, n); d.arr(f->row_counts, n); d.arr(f->post, n); d.arr(f->parent, n); d.dbl(VD(f->accessed_nnz_per_col, f->accessed_nnz_per_col + n)); dig(d, f->L); delete f; });
  add("tree queries", [=](In &i, Box &, Dig &d) { int n = i.g.n; VI cp(n + 1, 0), cn(n, 0), nc(n, 0); sym_lib::populate_children(n, i.par.data(), cp.data(), cn.data(), nc.data()); d.arr(cp); d.arr(nc); d.i(sym_lib::get_tree_height(n, i.par.data(), nc.data())); d.i(sym_lib::get_tree_height_bruteforce(n, i.par.data())); double *s = sym_lib::compute_subtree_cost(n, i.par.data(), i.cost.data()); d.dbl(VD(s, s + n)); delete[] s; VI t = i.par, post(n); d.i(sym_lib::tree_post_order(t.data(), n, nullptr, post.data())); d.arr(post); CSC *T = sym_lib::tree_to_csc(n, t.data()); dig(d, T); delete T; });
  add("merge_graph", [=](In &i, Box &, Dig &d) { int *P[2] = {i.col.p.data(), i.nod.p.data()}, *I[2] = {i.col.i.data(), i.nod.i.data()}; CSC *A = sym_lib::merge_graph(2, i.g.n, P, I); dig(d, A); delete A; });
  add("partition_by_weight and by breadth first search", [](In &i, Box &, Dig &d) { int n = i.g.n; VI s(n); std::iota(s.begin(), s.end(), 0); int *r = sym_lib::partition_by_weight(n, s.data(), i.cost.data(), 3, nullptr); d.arr(r, 4); delete[] r; CSC A(n, n, i.col.nnz(), i.col.p.data(), i.col.i.data(), 0); int L = -1, *lp = nullptr, *pp = nullptr, *np = nullptr; sym_lib::partition_by_bfs(n, &A, i.cost.data(), L, lp, 3, pp, np, nullptr); d.i(L); d.arr(pp, 4); d.arr(np, n); delete[] lp; delete[] pp; delete[] np; });
  add("blocked levels and blocked coarsening", [](In &i, Box &, Dig &d) { // blocks of one column
    int n = i.g.n; VI s(n + 1); std::iota(s.begin(), s.end(), 0); std::vector<size_t> lp(n + 1), lip(n + 1); for (int v = 0; v <= n; ++v) lp[v] = lip[v] = i.col.p[v]; VI rows = i.col.i;
    int *q = nullptr; size_t *z = nullptr; int r = sym_lib::build_levelSet_BCSC(n, i.col.nnz(), lp.data(), lip.data(), rows.data(), n, s.data(), s.data(), q, z); d.i(r); d.arr(q, r + 1); for (int k = 0; k < n; ++k) d.i(z[k]); delete[] q; delete[] z;
    int L = -1, *fl = nullptr, *pl = nullptr, P = -1, *pp = nullptr, *np = nullptr; VD c = i.cost; sym_lib::getCoarseLevelSet_DAG_BCSC02(n, lp.data(), lip.data(), rows.data(), s.data(), s.data(), L, fl, pl, P, pp, np, 2, 1, 2, c.data()); d.i(L); d.arr(fl, L + 1); d.arr(pp, fl[L] + 1); d.arr(np, n); delete[] fl; delete[] pl; delete[] pp; delete[] np; if (c != i.cost || rows != i.col.i) d.i(-4242); });
  for (int t = 0; t < 2; ++t) add(mc::cat("treeBasedGrouping_Aggressive factor=", t), [=](In &i, Box &b, Dig &d) { if (!&HDAGG::treeBasedGrouping_Aggressive) return; d.i(HDAGG::treeBasedGrouping_Aggressive(i.g.n, i.col.p, i.col.i, b.k, b.a, b.b, t)); d.i(b.k); pre(d, b.a, b.k + 1); pre(d, b.b, i.g.n); });
  return r;
}
