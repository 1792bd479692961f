// C21: merged graphs contain exactly the edges of their parts
#include "mat.hpp"
#include "graph.hpp"
#include <iostream>
#include <cmath>
#include "aggregation/sparse_utilities.h"
#include "aggregation/sparse_inspector.h"
#include "aggregation/BCSCMatrix.h"
using namespace mat; using namespace sym_lib;
using mc::Ctx;
typedef std::multiset<std::pair<int, int>> ES;
struct Arr { VI p, i; Arr(const gr::Csc &c) : p(c.p), i(c.i) { i.resize(std::max<size_t>(1, i.size())); } Arr(const Cmp &c) : p(c.p), i(c.i) { i.resize(std::max<size_t>(1, i.size())); } int nnz() const { return p.back(); } };
static void put(ES &e, const Arr &a, int from, int to) { for (size_t c = 0; c + 1 < a.p.size(); ++c) for (int k = a.p[c]; k < a.p[c + 1]; ++k) e.insert({(int)c + from, a.i[k] + to}); }
static std::string cmp(const ES &want, int n, const int *p, const int *i) {
  if (p[0] != 0) return "pointer array does not start at 0"; ES g; for (int c = 0; c < n; ++c) { if (p[c + 1] < p[c]) return "pointer array decreases"; for (int k = p[c]; k < p[c + 1]; ++k) { if (i[k] < 0 || i[k] >= n) return mc::cat("index ", i[k], " out of range in column ", c); g.insert({c, i[k]}); } }
  for (auto &e : want) if (g.count(e) < want.count(e)) return mc::cat("edge ", e.first, "->", e.second, " lost"); for (auto &e : g) if (g.count(e) > want.count(e)) return mc::cat("edge ", e.first, "->", e.second, " invented or repeated"); return "";
}
static void chain(Ctx &ctx, std::vector<Arr> gs, int n) { // one to one dependence between consecutive graphs
  int m = gs.size(); std::vector<Arr> g0 = gs; std::vector<int *> P, I; for (auto &g : gs) P.push_back(g.p.data()), I.push_back(g.i.data());
  ES w; for (int k = 0; k < m; ++k) { put(w, gs[k], k * n, k * n); if (k + 1 < m) for (int j = 0; j < n; ++j) w.insert({k * n + j, (k + 1) * n + j}); }
  int *p = nullptr, *i = nullptr; merge_graph(m, n, P.data(), I.data(), p, i); ctx.call(); std::string e = cmp(w, m * n, p, i); if (!e.empty()) ctx.fail("merge_graph", e); uint64_t h = mc::H().arr(p, m * n + 1).h; delete[] p; delete[] i;
  CSC *A = merge_graph(m, n, P.data(), I.data()); ctx.call(); e = (int)A->n != m * n || (int)A->m != m * n || (int)A->nnz != (int)w.size() ? mc::cat("size ", A->n, " count ", A->nnz) : cmp(w, m * n, A->p, A->i); if (!e.empty()) ctx.fail("merge_graph (matrix)", e); delete A;
  for (int k = 0; k < m; ++k) if (gs[k].p != g0[k].p || gs[k].i != g0[k].i) ctx.fail("merge_graph", "inputs modified"); ctx.checked(h);
}
static void partial(Ctx &ctx, std::vector<Arr> gs, std::vector<Arr> ds, int n) { // given dependence between consecutive graphs
  int m = gs.size(); std::vector<Arr> g0 = gs, d0 = ds; std::vector<int *> P, I, DP, DI; for (auto &g : gs) P.push_back(g.p.data()), I.push_back(g.i.data()); for (auto &g : ds) DP.push_back(g.p.data()), DI.push_back(g.i.data());
  ES w; for (int k = 0; k < m; ++k) { put(w, gs[k], k * n, k * n); if (k + 1 < m) put(w, ds[k], k * n, (k + 1) * n); }
  CSC *A = merge_DAGs_with_partial_order(m, n, P.data(), I.data(), m - 1, DP.data(), DI.data()); ctx.call(); std::string e = (int)A->n != m * n || (int)A->m != m * n || (int)A->nnz != (int)w.size() ? mc::cat("size ", A->n, " count ", A->nnz, " of ", w.size()) : cmp(w, m * n, A->p, A->i); if (!e.empty()) ctx.fail("merge_DAGs_with_partial_order", e); uint64_t h = mc::H().arr(A->p, m * n + 1).arr(A->i, A->p[m * n]).h; delete A;
  for (int k = 0; k < m; ++k) if (gs[k].p != g0[k].p || gs[k].i != g0[k].i) ctx.fail("merge_DAGs_with_partial_order", "inputs modified"); for (int k = 0; k + 1 < m; ++k) if (ds[k].p != d0[k].p || ds[k].i != d0[k].i) ctx.fail("merge_DAGs_with_partial_order", "inputs modified"); ctx.checked(h);
}
static Cmp lowtri(const gr::G &g) { gr::Csc c = gr::csc_diag(g); Cmp a; a.nmaj = a.nmin = g.n; a.val = true; a.p = c.p; a.i.assign(c.i.begin(), c.i.begin() + c.p[g.n]); a.x.assign(a.i.size(), 2.0); return a; }
static void fused(Ctx &ctx, const Cmp &a, const Cmp &b, const Cmp &c, const VI &sup) { // solve, multiply, solve on a common supernode partition
  int n = a.nmaj, N = sup.size() - 1; VI of(n); for (int s = 0; s < N; ++s) for (int j = sup[s]; j < sup[s + 1]; ++j) of[j] = s;
  auto quot = [&](const Cmp &m) { std::set<std::pair<int, int>> q; for (int j = 0; j < n; ++j) for (int k = m.p[j]; k < m.p[j + 1]; ++k) q.insert({of[j], of[m.i[k]]}); return q; };
  auto qa = quot(a), qb = quot(b), qc = quot(c); VI s = sup; uint64_t h = 3;
  CSC *A = make<CSC>(a, -1), *B = make<CSC>(b, 0), *C = make<CSC>(c, -1);
  { BCSCMatrix ba(A, N, s.data()), bc(C, N, s.data()); CSC *M = merge_graphs(ba.getBCSC(), B, bc.getBCSC()); ctx.call();
    ES w; for (auto &e : qa) w.insert(e); for (int j = 0; j < N; ++j) w.insert({j, j + N}), w.insert({j + N, j + N}); for (auto &e : qb) w.insert({e.first + N, e.second + 2 * N}); for (auto &e : qc) w.insert({e.first + 2 * N, e.second + 2 * N});
    std::string e = (int)M->n != 3 * N || (int)M->m != 3 * N || (int)M->nnz != (int)w.size() ? mc::cat("size ", M->n, " count ", M->nnz, " of ", w.size()) : cmp(w, 3 * N, M->p, M->i); if (!e.empty()) ctx.fail("merge_graphs", e + " supernodes " + mc::str(sup)); h = mc::H().arr(M->p, 3 * N + 1).arr(M->i, M->p[3 * N]).h; delete M; }
  bool ok = true; for (const Cmp *m : {&a, &c}) for (int t = 0; t < N && ok; ++t) { std::set<int> f(m->i.begin() + m->p[sup[t]], m->i.begin() + m->p[sup[t] + 1]); for (int j = sup[t]; j < sup[t + 1]; ++j) { if (!f.count(j)) ok = false; for (int k = m->p[j]; k < m->p[j + 1]; ++k) if (!f.count(m->i[k])) ok = false; } }
  if (ok) { // the first column of a supernode stands for all its columns
    int *lp = nullptr, *ls = nullptr; int L = bcsc_csc_bcsc_levelset(A, B, C, lp, ls, N, s.data()); ctx.call(); auto bad = [&](const std::string &m) { ctx.fail("bcsc_csc_bcsc_levelset", m + " levels " + (lp ? mc::str(lp, L + 1) : "") + " set " + mc::str(ls, 2 * N) + " supernodes " + mc::str(sup)); };
    if (L < 0 || L > 2 * N || lp[0] != 0 || lp[L] != 2 * N) bad(mc::cat("levels hold ", L >= 0 ? lp[L] : -1, " of ", 2 * N, " iterations"));
    else { VI lev(2 * n, -1); bool rep = false; for (int l = 0; l < L; ++l) for (int k = lp[l]; k < lp[l + 1]; ++k) { if (ls[k] < 0 || ls[k] >= 2 * n || lev[ls[k]] >= 0 || sup[of[ls[k] % n]] != ls[k] % n) rep = true; else lev[ls[k]] = l; } if (rep) bad("iteration repeated or not a supernode");
      else { auto dep = [&](int x, int y) { if (lev[x] >= lev[y]) bad(mc::cat("iteration ", y, " does not wait for ", x)); }; for (auto &e : qa) if (e.first != e.second) dep(sup[e.first], sup[e.second]); for (auto &e : qb) dep(sup[e.first], sup[e.second] + n); for (auto &e : qc) if (e.first != e.second) dep(sup[e.first] + n, sup[e.second] + n);
        int *sn = nullptr; sup2node_gen(n, 2 * N, ls, N, s.data(), sn); ctx.call(); for (int k = 0; k < 2 * N; ++k) if (sn[k] != of[ls[k] % n]) { ctx.fail("sup2node_gen", mc::cat("column ", ls[k], " mapped to supernode ", sn[k])); break; } delete[] sn; } }
    h = h * 31 + mc::H().arr(ls, 2 * N).h; delete[] lp; delete[] ls; }
  for (auto *q : {&a, &b, &c}) { CSC *m = q == &a ? A : q == &b ? B : C; std::string e = same(*q, m); if (!e.empty()) ctx.fail("fused graphs", "inputs modified: " + e); } if (s != sup) ctx.fail("fused graphs", "supernodes modified");
  delete A; delete B; delete C; ctx.checked(h);
}
static std::vector<VI> blocks(int n) { std::vector<VI> r; for (int m = 0; m < (1 << (n - 1)); ++m) { VI s{0}; for (int k = 1; k < n; ++k) if (m >> (k - 1) & 1) s.push_back(k); s.push_back(n); r.push_back(s); } return r; }
static void body(Ctx &ctx) {
  bool T = ctx.thorough;
  auto arr = [](int n, uint64_t m, int d) { gr::G g = gr::lower(n, m); return Arr(d ? gr::csc_diag(g) : gr::csc_nodiag(g)); };
  for (int n = 1; n <= (T ? 5 : 4); ++n) { ctx.space = mc::cat("chains of graphs n=", n); uint64_t M = 1ull << gr::npairs(n); for (int d = 0; d < 2; ++d) { for (uint64_t a = 0; a < M; ++a) CASE(ctx, "diagonal=", d, " graph=", a) chain(ctx, {arr(n, a, d)}, n); for (uint64_t a = 0; a < M; ++a) for (uint64_t b = 0; b < M; ++b) CASE(ctx, "diagonal=", d, " graphs=", a, ",", b) chain(ctx, {arr(n, a, d), arr(n, b, d)}, n);
    if (n <= 3) for (uint64_t a = 0; a < M; ++a) for (uint64_t b = 0; b < M; ++b) for (uint64_t c = 0; c < M; ++c) { CASE(ctx, "diagonal=", d, " graphs=", a, ",", b, ",", c) chain(ctx, {arr(n, a, d), arr(n, b, !d), arr(n, c, d)}, n); if (n < 3) for (uint64_t e = 0; e < M; ++e) CASE(ctx, "diagonal=", d, " graphs=", a, ",", b, ",", c, ",", e) chain(ctx, {arr(n, a, d), arr(n, b, d), arr(n, c, d), arr(n, e, d)}, n); } } }
  { ctx.space = "chains of any graphs n=3"; for (uint64_t a = 0; a < 64; ++a) for (uint64_t b = 0; b < 64; ++b) CASE(ctx, "graphs=", a, ",", b) chain(ctx, {Arr(gr::csc_nodiag(gr::digraph(3, a))), Arr(gr::csc_nodiag(gr::digraph(3, b)))}, 3); }
  for (int n = 1; n <= 3; ++n) { ctx.space = mc::cat("two graphs and a dependence n=", n); uint64_t M = 1ull << gr::npairs(n); for (int d = 0; d < 2; ++d) for (uint64_t a = 0; a < M; ++a) for (uint64_t b = 0; b < M; ++b) for (uint64_t x = 0; x < (1ull << (n * n)); ++x) { if (!T && n == 3 && d && x % 2) continue; CASE(ctx, "diagonal=", d, " graphs=", a, ",", b, " dependence=", x) partial(ctx, {arr(n, a, d), arr(n, b, d)}, {Arr(csc(n, n, x, 2))}, n); } }
  { int n = 2; ctx.space = "three and four graphs with dependences n=2"; for (int d = 0; d < 2; ++d) for (int g = 0; g < 8; ++g) for (uint64_t x = 0; x < 16; ++x) for (uint64_t y = 0; y < 16; ++y) { CASE(ctx, "diagonal=", d, " graphs=", g, " dependences=", x, ",", y) partial(ctx, {arr(n, g & 1, d), arr(n, g >> 1 & 1, d), arr(n, g >> 2, d)}, {Arr(csc(n, n, x, 2)), Arr(csc(n, n, y, 2))}, n); for (uint64_t z = 0; z < 16; z += T ? 1 : 5) CASE(ctx, "diagonal=", d, " graphs=", g, " dependences=", x, ",", y, ",", z) partial(ctx, {arr(n, g & 1, d), arr(n, g >> 1 & 1, d), arr(n, g >> 2, d), arr(n, g & 1, !d)}, {Arr(csc(n, n, x, 2)), Arr(csc(n, n, y, 2)), Arr(csc(n, n, z, 2))}, n); } }
  { ctx.space = "one graph alone"; for (uint64_t a = 0; a < 64; ++a) CASE(ctx, "graph=", a) partial(ctx, {arr(4, a, 1)}, {}, 4); }
  for (int n = 1; n <= 3; ++n) { ctx.space = mc::cat("fused supernodal graphs n=", n); uint64_t M = 1ull << gr::npairs(n); for (auto &s : blocks(n)) for (uint64_t a = 0; a < M; ++a) for (uint64_t c = 0; c < M; ++c) for (uint64_t b = 0; b < (1ull << (n * n)); ++b) CASE(ctx, "supernodes=", mc::str(s), " graphs=", a, ",", c, " middle=", b) fused(ctx, lowtri(gr::lower(n, a)), csc(n, n, b, 0), lowtri(gr::lower(n, c)), s); }
  { int n = 4; ctx.space = "fused supernodal graphs n=4"; for (auto &s : blocks(n)) for (uint64_t a = 0; a < 64; ++a) for (uint64_t b = 0; b < 64; ++b) for (int k = 0; k < 2; ++k) CASE(ctx, "supernodes=", mc::str(s), " graph=", a, " middle=", b, " transposed=", k) { Cmp m = lowtri(gr::lower(n, b)); fused(ctx, lowtri(gr::lower(n, a)), k ? transposed(m) : m, lowtri(gr::lower(n, a)), s); } }
  ctx.space = "families"; gr::families(T ? 60 : 20, [&](const std::string &nm, const gr::G &g) { if (g.n) CASE(ctx, nm) { int n = g.n; chain(ctx, {Arr(gr::csc_diag(g)), Arr(gr::csc_diag(g)), Arr(gr::csc_diag(g))}, n); Cmp l = lowtri(g); partial(ctx, {Arr(gr::csc_diag(g)), Arr(gr::csc_diag(g))}, {Arr(l)}, n); VI one(n + 1); std::iota(one.begin(), one.end(), 0); fused(ctx, l, transposed(l), l, one); VI three; for (int k = 0; k < n; k += 3) three.push_back(k); three.push_back(n); fused(ctx, l, l, l, three); for (int w : {7, 20}) { // wide supernodes, their columns filled so that the first stands for all
      if (n > 20) continue; gr::G d(n); VI s; for (int k = 0; k < n; k += w) s.push_back(k); s.push_back(n); for (size_t q = 0; q + 1 < s.size(); ++q) { std::set<int> r; for (int j = s[q]; j < s[q + 1]; ++j) { r.insert(j); for (int x : g.out[j]) r.insert(x); } for (int j = s[q]; j < s[q + 1]; ++j) for (int x : r) if (x > j) d.edge(j, x); } d.norm(); Cmp f = lowtri(d); fused(ctx, f, transposed(l), f, s); } } });
  ctx.space = "huge families"; auto huge = [&](const std::string &nm, const std::function<gr::G()> &mk) { CASE(ctx, nm, " merged") { gr::G g = mk(); int n = g.n; chain(ctx, {Arr(gr::csc_diag(g)), Arr(gr::csc_nodiag(g)), Arr(gr::csc_diag(g))}, n); Cmp l = lowtri(g); partial(ctx, {Arr(gr::csc_diag(g)), Arr(gr::csc_diag(g))}, {Arr(transposed(l))}, n); } for (int w : {1, 300}) CASE(ctx, nm, " fused, supernodes of ", w) { gr::G g = mk(); Cmp l = lowtri(g); VI s; for (int k = 0; k < g.n; k += w) s.push_back(k); s.push_back(g.n); fused(ctx, l, transposed(l), l, s); } }; gr::huge_families(34000, huge); gr::huge_chain(34000, huge);
}
MC_MAIN(body)
