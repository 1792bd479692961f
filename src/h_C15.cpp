// C15: elimination trees, post orders, counts and symbolic factors
#include "mat.hpp"
#include "graph.hpp"
#include "aggregation/sparse_utilities.h"
#include "aggregation/sparse_inspector.h"
#include "aggregation/lfactor_creation.h"
#include "aggregation/hdagg.h"
using namespace mat;
using namespace sym_lib;
using mc::Ctx;

// Symbolic elimination of a symmetric pattern with full diagonal: adj[j] = rows below j
struct Ref { int n; std::vector<std::set<int>> L; VI par, cc, rc, lev; };
static Ref eliminate(int n, const std::vector<std::set<int>> &low) {
  Ref r; r.n = n; r.L = low; r.par.assign(n, -1); r.cc.assign(n, 0); r.rc.assign(n, 1); r.lev.assign(n, 0);
  for (int j = 0; j < n; ++j) { auto &c = r.L[j]; if (c.empty()) { r.cc[j] = 1; continue; } int p = *c.begin(); r.par[j] = p; for (int x : c) { r.rc[x]++; if (n <= 500) { for (int y : c) if (y > x) r.L[x].insert(y); } else if (x != p) r.L[p].insert(x); } r.cc[j] = c.size() + 1; }
  for (int j = n - 1; j >= 0; --j) r.lev[j] = r.par[j] < 0 ? 0 : r.lev[r.par[j]] + 1;
  return r;
}
static Cmp tri(int n, const std::vector<std::set<int>> &low, int kind) { // 0 lower columns, 1 upper columns, 2 both
  Cmp a; a.nmaj = a.nmin = n; a.val = true; std::vector<VI> c(n);
  for (int j = 0; j < n; ++j) { c[j].push_back(j); for (int x : low[j]) { if (kind != 1) c[j].push_back(x); if (kind != 0) c[x].push_back(j); } }
  for (int j = 0; j < n; ++j) { std::sort(c[j].begin(), c[j].end()); for (int x : c[j]) { a.i.push_back(x); a.x.push_back(1 + std::min(x, j) * 0.25 + std::max(x, j)); } a.p.push_back(a.i.size()); }
  return a;
}
static std::string postok(int n, const VI &par, const VI &post, const VI *w) {
  VI pos(n, -1), size(n, 1), par2 = par; if ((int)post.size() != n) return "size";
  for (int k = 0; k < n; ++k) { if (post[k] < 0 || post[k] >= n || pos[post[k]] >= 0) return "not a permutation " + mc::str(post); pos[post[k]] = k; }
  for (int k = 0; k < n; ++k) { int v = post[k]; if (par[v] >= 0) { if (pos[par[v]] <= k) return "child after parent " + mc::str(post); size[par[v]] += size[v]; } }
  VI first = pos; for (int k = 0; k < n; ++k) { int v = post[k]; if (par[v] >= 0) first[par[v]] = std::min(first[par[v]], first[v]); }
  for (int v = 0; v < n; ++v) if (pos[v] - first[v] + 1 != size[v]) return "subtree not contiguous " + mc::str(post);
  VI last(n + 1, -1); // siblings
  for (int k = 0; k < n; ++k) { int v = post[k], p = par[v] < 0 ? n : par[v]; if (p < n && last[p] >= 0) { int u = last[p]; if (w ? (*w)[u] > (*w)[v] : u > v) return "sibling order " + mc::str(post); } last[p] = v; }
  return "";
}
static void pattern(Ctx &ctx, int n, const std::vector<std::set<int>> &low) {
  Ref r = eliminate(n, low); mc::H h; auto bad = [&](const char *nm, const std::string &m) { ctx.fail(nm, m); };
  Cmp lo = tri(n, low, 0), up = tri(n, low, 1), fu = tri(n, low, 2);
  CSC *U = make<CSC>(up, 1), *Lw = make<CSC>(lo, -1), *F = make<CSC>(fu, 0);
  VI par(n, -9); if (!compute_etree(U, par.data())) bad("compute_etree", "failed"); if (par != r.par) bad("compute_etree", mc::str(par) + " expected " + mc::str(r.par)); ctx.call();
  VI pn(n, -9); if (compute_etree(Lw, pn.data())) bad("compute_etree", "lower half is not supported but reported as done");
  int nn = n; std::vector<int> pv = {5, 5, 5}; HDAGG::computeParents(nn, up.pp(), up.ii(), pv); if (pv != r.par) bad("computeParents", mc::str(pv) + " expected " + mc::str(r.par)); ctx.call();
  std::vector<int> pf; HDAGG::computeParents(nn, fu.pp(), fu.ii(), pf); if (pf != r.par) bad("computeParents of the full matrix", mc::str(pf) + " expected " + mc::str(r.par)); ctx.call();
  { CSR *R = make<CSR>(up, -1); int ne = -1; std::vector<int> tp = {1}, ts = {2}; HDAGG::buildETree(R, ne, tp, ts); ctx.call(); std::vector<int> ep = {0}, es; for (int i = 0; i < n; ++i) { es.push_back(i); if (r.par[i] >= 0) es.push_back(r.par[i]); ep.push_back(es.size()); } if (tp != ep || ts != es || ne != (int)es.size()) bad("buildETree", mc::str(tp) + mc::str(ts) + " expected " + mc::str(ep) + mc::str(es)); delete R; }
  VI post(n, -1); int k = tree_post_order(par.data(), n, nullptr, post.data()); ctx.call(); if (k != n) bad("tree_post_order", mc::cat("returned ", k)); std::string e = postok(n, r.par, post, nullptr); if (!e.empty()) bad("tree_post_order", e);
  VI rc(n), cc(n), fi(n), lv(n); size_t fl = 77; double ef = 0; for (int x : r.cc) ef += (double)x * x;
  if (!row_col_counts_symmetric(Lw, par.data(), post.data(), rc.data(), cc.data(), fi.data(), lv.data(), fl)) bad("row_col_counts", "failed"); ctx.call();
  VI pos(n), first(n); for (int i = 0; i < n; ++i) pos[post[i]] = i; first = pos; for (int i = 0; i < n; ++i) if (r.par[post[i]] >= 0) { int p = r.par[post[i]]; first[p] = std::min(first[p], first[post[i]]); }
  if (cc != r.cc) bad("row_col_counts", "columns " + mc::str(cc) + " expected " + mc::str(r.cc)); if (rc != r.rc) bad("row_col_counts", "rows " + mc::str(rc) + " expected " + mc::str(r.rc));
  if (lv != r.lev) bad("row_col_counts", "levels " + mc::str(lv) + " expected " + mc::str(r.lev)); if (fi != first) bad("row_col_counts", "first descendants " + mc::str(fi) + " expected " + mc::str(first)); if (fl != (size_t)ef) bad("row_col_counts", mc::cat("flops ", fl, " expected ", ef));
  VI c2(n); if (!row_col_counts_symmetric(Lw, par.data(), post.data(), nullptr, c2.data(), fi.data(), lv.data(), fl) || c2 != r.cc) bad("row_col_counts without rows", mc::str(c2)); ctx.call();
  if (row_col_counts_symmetric(U, par.data(), post.data(), rc.data(), c2.data(), fi.data(), lv.data(), fl)) bad("row_col_counts", "upper half accepted");
  // row patterns of the factor
  std::vector<VI> rows(n); for (int j = 0; j < n; ++j) for (int x : r.L[j]) rows[x].push_back(j); VI at(n, -1); auto full = [&](int v) { return n <= 500 || v % (n / 16 + 1) == 0 || v == n - 1; };
  Cmp fr = fu; for (int j = 0; j < n; ++j) std::reverse(fr.i.begin() + fr.p[j], fr.i.begin() + fr.p[j + 1]);
  if (n <= 60) { std::vector<int> pr; HDAGG::computeParents(nn, fr.pp(), fr.ii(), pr); if (pr != r.par) bad("computeParents, rows in descending order", mc::str(pr) + " expected " + mc::str(r.par)); CSC *R = make<CSC>(fr, 1); VI pz(n, -9); if (!compute_etree(R, pz.data()) || pz != r.par) bad("compute_etree, full matrix, rows in descending order", mc::str(pz)); delete R; ctx.call(2); }
  VI s(n, 1 << 28), w(n, 0); VI s2(n, 1 << 28); std::vector<bool> mk(n, false);
  for (int v = 0; v < n; ++v) {
    const VI &want = rows[v];
    int top = ereach(n, up.pp(), up.ii(), v, par.data(), s.data(), w.data()); ctx.call();
    auto chk = [&](const char *nm, int a, int b, const VI &z) { VI got; for (int i = a; i < b; ++i) { int x = z[i]; if (x < 0 || x >= n || at[x] >= 0) { bad(nm, "duplicate or out of range"); break; } at[x] = i; got.push_back(x); if (r.par[x] >= 0 && at[r.par[x]] >= 0) bad(nm, "parent before child"); } for (int x : got) at[x] = -1; std::sort(got.begin(), got.end()); if (got != want) bad(nm, mc::cat("row ", v, " pattern ", mc::str(VI(z.begin() + a, z.begin() + b)))); };
    chk("ereach", top, n, s); if (full(v)) for (int i = 0; i < n; ++i) if (w[i] != 0) bad("ereach", "marks not restored");
    if (n <= 60) { top = ereach(n, fr.pp(), fr.ii(), v, par.data(), s.data(), w.data()); ctx.call(); chk("ereach, full matrix, rows in descending order", top, n, s); }
    int t2 = HDAGG::computeNoneZeroPatternOfRowK(n, up.pp(), up.ii(), v, par.data(), s2.data(), mk); ctx.call();
    chk("computeNoneZeroPatternOfRowK", t2, n - 1, s2); if (s2[n - 1] != v) bad("computeNoneZeroPatternOfRowK", "row itself missing"); if (full(v)) for (int i = 0; i < n; ++i) if (mk[i]) bad("computeNoneZeroPatternOfRowK", "marks not restored");
  }
  Cmp el; el.nmaj = el.nmin = n; el.val = false; for (int j = 0; j < n; ++j) { el.i.push_back(j); for (int x : r.L[j]) el.i.push_back(x); el.p.push_back(el.i.size()); }
  auto accesses = [&](const Ref &q, const Cmp &u) { VD t(n); for (int v = 0; v < n; ++v) t[v] = u.p[v + 1] - u.p[v]; for (int j = 0; j < n; ++j) for (int x : q.L[j]) t[x] += u.p[j + 1] - u.p[j]; return t; };
  { VD acc(n, -3); CSC *L = build_L_pattern_from_col_counts(n, U, cc.data(), par.data(), acc.data()); ctx.call(); std::string z = raw(el, L->p, L->i, nullptr); if ((int)L->nnz != el.nnz()) z = "nnz"; if (!z.empty()) bad("build_L_pattern", z); if (acc != accesses(r, up)) bad("build_L_pattern", "accessed nonzeros " + mc::str(acc)); delete L; }
  { LFactorSymbolicInfo *q = build_symbolic_simplicial_lfactor(Lw); ctx.call(); VI p(q->perm, q->perm + n), ip(q->iperm, q->iperm + n), po(q->post, q->post + n), ipo(q->ipost, q->ipost + n);
    std::vector<int> seen(n, 0); bool ok = true; for (int v : p) if (v < 0 || v >= n || seen[v]++) ok = false;
    if (!ok) bad("symbolic factor", "not a permutation " + mc::str(p));
    else { for (int i = 0; i < n; ++i) if (ip[p[i]] != i || po[i] < 0 || po[i] >= n || ipo[po[i]] != i) { bad("symbolic factor", "inverse permutations " + mc::str(p) + mc::str(ip)); break; }
      std::vector<std::set<int>> pl(n); for (int j = 0; j < n; ++j) for (int x : low[j]) { int a = ip[j], b = ip[x]; pl[std::min(a, b)].insert(std::max(a, b)); }
      Ref z = eliminate(n, pl); Cmp zu = tri(n, pl, 1), zl; zl.nmaj = zl.nmin = n; zl.val = false; for (int j = 0; j < n; ++j) { zl.i.push_back(j); for (int x : z.L[j]) zl.i.push_back(x); zl.p.push_back(zl.i.size()); }
      if (VI(q->parent, q->parent + n) != z.par) bad("symbolic factor", "tree " + mc::str(q->parent, n) + " expected " + mc::str(z.par)); if (VI(q->col_counts, q->col_counts + n) != z.cc) bad("symbolic factor", "column counts " + mc::str(q->col_counts, n));
      VI idn(n); std::iota(idn.begin(), idn.end(), 0); for (int j = 0; j < n; ++j) if (z.par[j] >= 0 && z.par[j] <= j) bad("symbolic factor", "tree not in post order");
      std::string y = (int)q->L->nnz != zl.nnz() ? mc::cat("nnz ", q->L->nnz, " expected ", zl.nnz()) : raw(zl, q->L->p, q->L->i, nullptr); if (!y.empty()) bad("symbolic factor", "factor " + y); double f = 0; for (int x : z.cc) f += (double)x * x; if (q->flops != (size_t)f) bad("symbolic factor", mc::cat("flops ", q->flops, " expected ", f));
      if (VD(q->accessed_nnz_per_col, q->accessed_nnz_per_col + n) != accesses(z, zu)) bad("symbolic factor", "accessed nonzeros"); }
    h.arr(p.data(), n); delete q; }
  std::string z = same(up, U) + same(lo, Lw); if (!z.empty()) bad("input", "modified " + z); if (par != r.par) bad("input", "tree modified");
  delete U; delete Lw; delete F; ctx.checked(h.arr(r.par.data(), n).arr(r.cc.data(), n).h);
}
static void rect(Ctx &ctx, int m, int n, uint64_t k, int order) {
  Cmp a = csc(m, n, k, 2, order); std::vector<std::set<int>> low(n), col(n); for (int c = 0; c < n; ++c) col[c] = std::set<int>(a.i.begin() + a.p[c], a.i.begin() + a.p[c + 1]);
  for (int c = 0; c < n; ++c) for (int d = c + 1; d < n; ++d) for (int x : col[c]) if (col[d].count(x)) { low[c].insert(d); break; }
  Ref r = eliminate(n, low); CSC *A = make<CSC>(a, 0); VI p(n, -9); if (!compute_etree(A, p.data()) || p != r.par) ctx.fail("compute_etree of A'A", mc::str(p) + " expected " + mc::str(r.par)); ctx.call(); std::string e = same(a, A); if (!e.empty()) ctx.fail("compute_etree of A'A", e); delete A; ctx.checked(mc::H().arr(p.data(), n).h);
}
static void body(Ctx &ctx) {
  bool T = ctx.thorough;
  for (int n = 1; n <= (T ? 7 : 6); ++n) {
    ctx.space = mc::cat("symmetric patterns n=", n);
    for (uint64_t m = 0; m < (1ull << gr::npairs(n)); ++m) CASE(ctx, "mask=", m) { gr::G g = gr::lower(n, m); std::vector<std::set<int>> low(n); for (int u = 0; u < n; ++u) low[u] = std::set<int>(g.out[u].begin(), g.out[u].end()); pattern(ctx, n, low); }
  }
  ctx.space = "families";
  gr::families(T ? 300 : 90, [&](const std::string &nm, const gr::G &g) { CASE(ctx, nm) { int n = g.n; std::vector<std::set<int>> low(n); for (int u = 0; u < n; ++u) for (int x : g.out[u]) low[std::min(u, x)].insert(std::max(u, x)); pattern(ctx, n, low); } });
  ctx.space = "large families";
  gr::big_families(T ? VI{150, 400} : VI{150}, [&](const std::string &nm, const gr::G &g) { CASE(ctx, nm) { int n = g.n; std::vector<std::set<int>> low(n); for (int u = 0; u < n; ++u) for (int x : g.out[u]) low[std::min(u, x)].insert(std::max(u, x)); pattern(ctx, n, low); } });
  ctx.space = "huge families";
  auto huge = [&](const std::string &nm, const std::function<gr::G()> &mk) { if (nm.find("outstar") == 0 || nm.find("doublestar") == 0 || nm.find("wide") == 0) return; CASE(ctx, nm) { gr::G g = mk(); int n = g.n; std::vector<std::set<int>> low(n); for (int u = 0; u < n; ++u) for (int x : g.out[u]) low[std::min(u, x)].insert(std::max(u, x)); pattern(ctx, n, low); } };
  gr::huge_families(70000, huge); gr::huge_chain(33000, huge);
  for (int n : {300, 1900}) gr::huge_families(n, [&](const std::string &nm, const std::function<gr::G()> &mk) { if (n == 300 || nm.find("outstar") == 0) CASE(ctx, nm) { gr::G g = mk(); int n = g.n; std::vector<std::set<int>> low(n); for (int u = 0; u < n; ++u) low[u] = std::set<int>(g.out[u].begin(), g.out[u].end()); pattern(ctx, n, low); } });
  for (int n : {1300, 40000}) for (int k : {1, 2, 3}) for (int d = 0; d < 2; ++d) CASE(ctx, "caterpillar n=", n, " legs=", k, " deep first=", d) { // deep trees whose deep nodes have several children
    std::vector<std::set<int>> low(n); int w = k + 1; for (int v = 0; v < n; ++v) { int p = d ? (v % w == k ? v + w : v - v % w + k) : (v / w + 1) * w; if (p < n && p > v) low[v].insert(p); } pattern(ctx, n, low); }
  for (int m = 1; m <= 5; ++m) for (int n = 1; n <= 5; ++n) { if (m * n > (T ? 20 : 16)) continue; ctx.space = mc::cat("columns tree ", m, "x", n); for (uint64_t k = 0; k < (1ull << (m * n)); ++k) CASE(ctx, "pattern=", k) rect(ctx, m, n, k, k % 3); }
  for (int n = 1; n <= (T ? 6 : 5); ++n) { // every rooted forest on labelled nodes x every sibling weight in {0,1,n}
    ctx.space = mc::cat("post orders n=", n); uint64_t tot = 1; for (int i = 0; i < n; ++i) tot *= n + 1; uint64_t wt = 1; for (int i = 0; i < n; ++i) wt *= 3;
    for (uint64_t k = 0; k < tot; ++k) { VI p(n); uint64_t z = k; for (int i = 0; i < n; ++i) { p[i] = (int)(z % (n + 1)) - 1; z /= n + 1; } bool ok = true; for (int i = 0; i < n && ok; ++i) { int u = i, c = 0; while (u >= 0 && c <= n) { u = p[u]; ++c; } ok = u < 0; } if (!ok) continue;
      CASE(ctx, mc::str(p)) { VI q = p, post(n, -1); int r = tree_post_order(q.data(), n, nullptr, post.data()); ctx.call(); std::string e = r != n ? "count" : postok(n, p, post, nullptr); if (!e.empty()) ctx.fail("tree_post_order", e);
        for (uint64_t x = 0; x < wt; ++x) { VI w(n); uint64_t y = x; for (int i = 0; i < n; ++i) { w[i] = (y % 3) == 2 ? n - 1 : (int)(y % 3); y /= 3; } VI w0 = w; r = tree_post_order(q.data(), n, w.data(), post.data()); ctx.call(); e = r != n ? "count" : postok(n, p, post, &w0); if (!e.empty()) ctx.fail("tree_post_order weighted", e + " weights " + mc::str(w0)); if (w != w0 || q != p) ctx.fail("tree_post_order", "input modified"); }
        ctx.checked(mc::H().arr(post.data(), n).h); } }
  }
}
MC_MAIN(body)
