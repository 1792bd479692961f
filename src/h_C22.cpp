// C22: blocked storage and supernode detection preserve the matrix
#include "mat.hpp"
#include "graph.hpp"
#include "io_common.hpp"
#include <cmath>
#include "aggregation/BCSCMatrix.h"
#include "aggregation/sparse_io.h"
using namespace mat; using namespace sym_lib;
using mc::Ctx;
static VI rows(const Cmp &a, int j) { return VI(a.i.begin() + a.p[j], a.i.begin() + a.p[j + 1]); }
static double val(int r, int c, int vs) { return vs == 1 && (r + c) % 2 ? 0.0 : (r + 1) + 0.1 * (c % 9 + 1) * (vs == 1 ? -1 : 1); }
static Cmp tri(const gr::G &g, int vs) { gr::Csc c = gr::csc_diag(g); Cmp a; a.nmaj = a.nmin = g.n; a.p = c.p; a.i.assign(c.i.begin(), c.i.begin() + c.p[g.n]); for (int j = 0; j < g.n; ++j) for (int k = a.p[j]; k < a.p[j + 1]; ++k) a.x.push_back(val(a.i[k], j, vs)); return a; }
// columns j-1 and j have the same structure below the block
static bool joined(const Cmp &a, int j) { VI u = rows(a, j - 1), v = rows(a, j); u.erase(u.begin()); return u == v; }
static VI want_lower(const Cmp &a, int limit) { int n = a.nmaj; VI s; if (!limit) limit = n; for (int j = 0; j < n; ++j) if (!j || !joined(a, j) || j - s.back() > limit) s.push_back(j); s.push_back(n); return s; }
static bool ujoined(const Cmp &a, int j) { VI u = rows(a, j + 1), v = rows(a, j); u.pop_back(); return u == v; }
static VI want_upper(const Cmp &a, int limit) { int n = a.nmaj; VI s; if (!limit) limit = n; for (int j = n - 1; j >= 0; --j) if (j == n - 1 || !ujoined(a, j) || s.back() - j > limit) s.push_back(j); s.push_back(-1); return s; }
static void detect(Ctx &ctx, const Cmp &a, int limit, bool lower) {
  int n = a.nmaj; CSC *A = make<CSC>(a, lower ? -1 : 1); VI one{0, 0}; uint64_t h = 1;
  { BCSCMatrix b(A); delete[] b.getBCSC()->supernodes; b.getBCSC()->supernodes = nullptr; int N = b.supernodes(A, limit, lower); ctx.call(); VI w = lower ? want_lower(a, limit) : want_upper(a, limit); VI g(b.getBCSC()->supernodes, b.getBCSC()->supernodes + std::max(0, N) + 1);
    if (g != w) ctx.fail("supernodes", mc::cat(lower ? "lower" : "upper", " limit ", limit, " gives ", mc::str(g), " expected ", mc::str(w))); h = mc::H().arr(g.data(), g.size()).h; }
  std::string e = same(a, A); if (!e.empty()) ctx.fail("supernodes", "input modified: " + e); delete A; ctx.checked(h);
}
static std::string blocked(const Cmp &a, const VI &s, const BCSC *b) {
  int n = a.nmaj, N = s.size() - 1; if ((int)b->n != n || (int)b->m != a.nmin || (int)b->nodes != N) return mc::cat("size ", b->m, "x", b->n, " nodes ", b->nodes, " expected ", N);
  if (VI(b->supernodes, b->supernodes + N + 1) != s) return "supernodes " + mc::str(b->supernodes, N + 1) + " expected " + mc::str(s);
  int pos = 0; for (int k = 0; k < N; ++k) { std::set<int> u; for (int j = s[k]; j < s[k + 1]; ++j) for (int r : rows(a, j)) u.insert(r); if (b->p[k] != pos) return mc::cat("block ", k, " starts at ", b->p[k], " expected ", pos); if (b->nrows[k] != (int)u.size()) return mc::cat("block ", k, " has ", b->nrows[k], " rows, expected ", u.size()); pos += u.size() * (s[k + 1] - s[k]); }
  if (b->p[N] != pos || (int)b->nnz != pos) return mc::cat("block storage ends at ", b->p[N], " count ", b->nnz, " expected ", pos);
  pos = 0; for (int k = 0; k < N; ++k) { std::set<int> u; for (int j = s[k]; j < s[k + 1]; ++j) for (int r : rows(a, j)) u.insert(r);
    for (int j = s[k]; j < s[k + 1]; ++j) for (int r : u) { if (b->i[pos] != r) return mc::cat("block ", k, " position ", pos, " row ", b->i[pos], " expected ", r); double w = 0; for (int q = a.p[j]; q < a.p[j + 1]; ++q) if (a.i[q] == r) w = a.x[q]; if (!(b->x[pos] == w)) return mc::cat("entry ", r, ",", j, " is ", b->x[pos], " expected ", w); ++pos; } }
  return "";
}
static void store(Ctx &ctx, const Cmp &a, const VI *sup, bool io) {
  int n = a.nmaj; CSC *A = make<CSC>(a, -1); VI s = sup ? *sup : want_lower(a, 0); VI s0 = s; uint64_t h = 2; int N = s.size() - 1;
  { BCSCMatrix b = sup ? BCSCMatrix(A, N, s0.data()) : BCSCMatrix(A); ctx.call(); BCSC *M = b.getBCSC(); std::string e = blocked(a, s, M); const char *who = sup ? "given supernodes" : "found supernodes"; if (!e.empty()) { ctx.fail(who, e + " supernodes " + mc::str(s)); delete A; return; }
    if (s0 != s) ctx.fail(who, "supernodes modified"); h = mc::H().arr(M->p, N + 1).arr(M->i, M->nnz).arr(M->x, M->nnz).h;
    VI of(n); for (int k = 0; k < N; ++k) for (int j = s[k]; j < s[k + 1]; ++j) of[j] = k; std::set<std::pair<int, int>> q, g; for (int j = 0; j < n; ++j) for (int r : rows(a, j)) q.insert({of[j], of[r]});
    CSC *C = b.compressed_BCSC_to_CSC(); ctx.call(); if ((int)C->n != N || (int)C->m != N || (int)C->nnz != (int)q.size() || C->p[0] != 0 || C->p[N] != (int)q.size()) ctx.fail("supernodal graph", mc::cat("size ", C->m, "x", C->n, " count ", C->nnz, " ends at ", C->p[N], " expected ", q.size())); else { bool bad = false; for (int k = 0; k < N && !bad; ++k) { if (C->p[k + 1] < C->p[k]) bad = true; for (int t = C->p[k]; t < C->p[k + 1] && !bad; ++t) if (!g.insert({k, C->i[t]}).second) bad = true; } if (bad || g != q) ctx.fail("supernodal graph", "wrong edges p=" + mc::str(C->p, N + 1) + " i=" + mc::str(C->i, C->nnz) + " supernodes " + mc::str(s)); } delete C;
    if (io) { std::string f = io::path(ctx, "b.mtx"); BCSC_to_mtx(f, M); ctx.call(); io::Want w = io::meaning(io::get(f)); std::map<std::pair<int, int>, double> m; bool bad = w.array || w.sym || w.a.nmin != a.nmin || w.a.nmaj != n || w.a.nnz() != (int)M->nnz; for (int j = 0; j < w.a.nmaj && !bad; ++j) for (int t = w.a.p[j]; t < w.a.p[j + 1]; ++t) if (!m.insert({{w.a.i[t], j}, w.a.x[t]}).second) bad = true;
      for (int k = 0; k < N && !bad; ++k) { std::set<int> u; for (int j = s[k]; j < s[k + 1]; ++j) for (int r : rows(a, j)) u.insert(r); for (int j = s[k]; j < s[k + 1]; ++j) for (int r : u) { double v = 0; for (int t = a.p[j]; t < a.p[j + 1]; ++t) if (a.i[t] == r) v = a.x[t]; auto it = m.find({r, j}); if (it == m.end() || std::fabs(it->second - v) > (n > 90 ? 0.0051 * std::fabs(v) : 1e-9)) bad = true; } } if (bad) ctx.fail("BCSC_to_mtx", "file does not hold the blocked matrix: " + io::get(f)); } }
  std::string e = same(a, A); if (!e.empty()) ctx.fail("blocked storage", "input modified: " + e); delete A; ctx.checked(h);
}
static std::vector<VI> blocks(int n) { std::vector<VI> r; for (int m = 0; m < (1 << (n - 1)); ++m) { VI s{0}; for (int k = 1; k < n; ++k) if (m >> (k - 1) & 1) s.push_back(k); s.push_back(n); r.push_back(s); } return r; }
static void body(Ctx &ctx) {
  bool T = ctx.thorough;
  for (int n = 1; n <= (T ? 6 : 5); ++n) { uint64_t M = 1ull << gr::npairs(n);
    ctx.space = mc::cat("supernode detection n=", n); for (uint64_t m = 0; m < M; ++m) { gr::G g = gr::lower(n, m); for (int l = 0; l <= n + 1; ++l) for (int up = 0; up < 2; ++up) CASE(ctx, "graph=", m, " limit=", l, " upper=", up) { Cmp a = tri(g, 0); detect(ctx, up ? sorted(transposed(a)) : a, l, !up); } }
    ctx.space = mc::cat("blocked storage n=", n); for (uint64_t m = 0; m < M; ++m) { gr::G g = gr::lower(n, m); for (int v = 0; v < 2; ++v) { CASE(ctx, "graph=", m, " values=", v, " found supernodes") store(ctx, tri(g, v), nullptr, n <= 4); if (n <= 5 || !v) for (auto &s : blocks(n)) CASE(ctx, "graph=", m, " values=", v, " supernodes=", mc::str(s)) store(ctx, tri(g, v), &s, n <= 3); } } }
  for (int n = 1; n <= (T ? 4 : 3); ++n) { ctx.space = mc::cat("blocked storage of any square matrix n=", n); for (uint64_t m = 0; m < (1ull << (n * n)); ++m) for (auto &s : blocks(n)) CASE(ctx, "pattern=", m, " supernodes=", mc::str(s)) { Cmp a = csc(n, n, m, 0); for (int j = 0; j < n; ++j) for (int k = a.p[j]; k < a.p[j + 1]; ++k) a.x[k] = val(a.i[k], j, 0); store(ctx, a, &s, true); } }
  ctx.space = "families"; gr::families(T ? 60 : 24, [&](const std::string &nm, const gr::G &g) { if (g.n) for (int l : {0, 1, 2, 3, 5, 8, g.n}) CASE(ctx, nm, " limit=", l) { Cmp a = tri(g, 0); detect(ctx, a, l, true); detect(ctx, sorted(transposed(a)), l, false); store(ctx, a, nullptr, false); VI s; for (int k = 0; k < g.n; k += l + 1) s.push_back(k); s.push_back(g.n); store(ctx, a, &s, true); } });
  // dense blocks on a chain: supernodes of every width
  ctx.space = "supernodes of every width"; for (int n = 1; n <= (T ? 10 : 8); ++n) for (auto &s : blocks(n)) for (int deep = 0; deep < 2; ++deep) CASE(ctx, "n=", n, " supernodes=", mc::str(s), " nested=", deep) { gr::G g(n); for (size_t k = 0; k + 1 < s.size(); ++k) for (int j = s[k]; j < s[k + 1]; ++j) for (int r = j + 1; r < n; ++r) if (r < s[k + 1] || (deep ? k + 2 < s.size() && r == s[k + 2] - 1 : r == n - 1)) g.edge(j, r); Cmp a = tri(g, 0); for (int l = 0; l <= n; ++l) detect(ctx, a, l, true), detect(ctx, sorted(transposed(a)), l, false); store(ctx, a, nullptr, false); store(ctx, a, &s, false); }
  // two columns with as many entries whose patterns part at one place only
  ctx.space = "columns parting at one entry"; for (int L : {1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 33, 64, 65, 130, 300}) for (int at = 0; at < L; ++at) CASE(ctx, "entries=", L, " at=", at) { int n = 2 * L + 3; gr::G g(n); g.edge(0, 1); for (int t = 0; t < L; ++t) { g.edge(0, 2 + 2 * t); g.edge(1, 2 + 2 * t + (t == at)); } Cmp a = tri(g, 0); for (int l : {0, 1}) { detect(ctx, a, l, true);
    gr::G u(n); u.edge(n - 2, n - 1); for (int t = 0; t < L; ++t) { u.edge(n - 3 - 2 * t, n - 1); u.edge(n - 3 - 2 * t - (t == at), n - 2); } Cmp b = tri(u, 0); detect(ctx, sorted(transposed(b)), l, false); } VI s{0, 2}; for (int k = 2; k < n; ++k) s.push_back(k + 1); store(ctx, a, nullptr, false); store(ctx, a, &s, L < 9); }
  ctx.space = "huge families"; auto huge = [&](const std::string &nm, const std::function<gr::G()> &mk) { for (int l : {0, 300}) CASE(ctx, nm, " limit=", l) { Cmp a = tri(mk(), 0); detect(ctx, a, l, true); detect(ctx, sorted(transposed(a)), l, false); } if (nm.find("outstar") && nm.find("doublestar")) CASE(ctx, nm, " stored") { Cmp a = tri(mk(), 0); store(ctx, a, nullptr, false); } };
  gr::huge_families(70000, huge); gr::huge_chain(70000, huge);
  ctx.space = "wide supernodes"; for (int n : {257, 400}) for (int w : {1, 129, 256, n}) for (int l : {0, 1, 255, 256, 300}) CASE(ctx, "n=", n, " width=", w, " limit=", l) { gr::G g(n); for (int j = 0; j < n; ++j) for (int r = j + 1; r < n; ++r) if (r / w == j / w || r == n - 1) g.edge(j, r); Cmp a = tri(g, 0); detect(ctx, a, l, true); detect(ctx, sorted(transposed(a)), l, false); if (!l && w < n) store(ctx, a, nullptr, w > 1); }
}
MC_MAIN(body)
