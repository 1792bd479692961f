// C20: partitioner wrappers. METIS is interposed: every argument is checked, and for small graphs every possible answer is explored.
#include "mat.hpp"
#include "graph.hpp"
#include <iostream>
#include <dlfcn.h>
#include <metis.h>
#include "aggregation/metis_interface.h"
#include "aggregation/sparse_utilities.h"
#include "aggregation/FusionDemo.h"
using namespace mat; using namespace sym_lib;
using mc::Ctx;
struct Seen { bool nd; int n, k; std::vector<VI> adj; std::string err; VI out; };
static std::vector<Seen> calls; static std::vector<VI> script; static size_t at;
static Seen look(bool nd, idx_t *n, idx_t *x, idx_t *a, idx_t *w) {
  Seen s; s.nd = nd; s.n = *n; s.k = 0; s.adj.resize(std::max(*n, 0)); if (x[0] != 0) s.err = "pointer array does not start at 0";
  for (int v = 0; v < *n; ++v) { if (x[v + 1] < x[v]) { s.err = "pointer array decreases"; break; } for (int e = x[v]; e < x[v + 1]; ++e) { if (a[e] < 0 || a[e] >= *n) s.err = mc::cat("neighbour ", a[e], " of ", v, " out of range"); s.adj[v].push_back(a[e]); } std::sort(s.adj[v].begin(), s.adj[v].end()); if (w && w[v] <= 0) s.err = "vertex weight not positive"; }
  return s;
}
extern "C" int METIS_NodeND(idx_t *n, idx_t *x, idx_t *a, idx_t *w, idx_t *o, idx_t *p, idx_t *ip) {
  calls.push_back(look(true, n, x, a, w)); Seen &s = calls.back();
  if (at < script.size()) { VI &r = script[at++]; for (int v = 0; v < *n; ++v) p[v] = r[v], ip[r[v]] = v; }
  else { if (!s.err.empty()) { for (int v = 0; v < *n; ++v) p[v] = ip[v] = v; } else { static auto f = (decltype(&METIS_NodeND))dlsym(RTLD_NEXT, "METIS_NodeND"); int q = f(n, x, a, w, o, p, ip); if (q != METIS_OK) s.err = mc::cat("METIS status ", q); } }
  s.out.assign(p, p + *n); return METIS_OK;
}
extern "C" int METIS_PartGraphKway(idx_t *n, idx_t *nc, idx_t *x, idx_t *a, idx_t *w, idx_t *vs, idx_t *aw, idx_t *k, real_t *tp, real_t *ub, idx_t *o, idx_t *obj, idx_t *part) {
  calls.push_back(look(false, n, x, a, w)); Seen &s = calls.back(); s.k = *k; if (*nc != 1) s.err = "number of constraints";
  if (at < script.size()) { VI &r = script[at++]; for (int v = 0; v < *n; ++v) part[v] = r[v]; }
  else { if (!s.err.empty()) { for (int v = 0; v < *n; ++v) part[v] = 0; } else { static auto f = (decltype(&METIS_PartGraphKway))dlsym(RTLD_NEXT, "METIS_PartGraphKway"); int q = f(n, nc, x, a, w, vs, aw, k, tp, ub, o, obj, part); if (q != METIS_OK) s.err = mc::cat("METIS status ", q); } }
  s.out.assign(part, part + *n); return METIS_OK;
}
static Cmp full(const gr::G &g) { int n = g.n; std::vector<std::set<int>> c(n); for (int v = 0; v < n; ++v) { c[v].insert(v); for (int x : g.out[v]) c[v].insert(x), c[x].insert(v); } Cmp a; a.nmaj = a.nmin = n; a.val = true; for (int v = 0; v < n; ++v) { for (int x : c[v]) { a.i.push_back(x); a.x.push_back(1 + std::min(x, v) * 10 + std::max(x, v)); } a.p.push_back(a.i.size()); } return a; }
static Cmp half(const Cmp &f, bool lower) { Cmp a; a.nmaj = a.nmin = f.nmaj; a.val = f.val; for (int c = 0; c < f.nmaj; ++c) { for (int k = f.p[c]; k < f.p[c + 1]; ++k) if (lower ? f.i[k] >= c : f.i[k] <= c) { a.i.push_back(f.i[k]); a.x.push_back(f.x[k]); } a.p.push_back(a.i.size()); } return a; }
static Cmp patt(Cmp a) { a.val = false; a.x.clear(); return a; }
static std::vector<VI> adj(const Cmp &f) { std::vector<VI> r(f.nmaj); for (int c = 0; c < f.nmaj; ++c) for (int k = f.p[c]; k < f.p[c + 1]; ++k) if (f.i[k] != c) r[c].push_back(f.i[k]); return r; }
static std::string as(const std::vector<VI> &a) { std::string s; for (auto &x : a) s += mc::str(x); return s; }
static Cmp reordered(const Cmp &f, const VI &p) { // entry (r,c) of the result is (p[r],p[c]) of f
  int n = f.nmaj; VI ip(n); for (int k = 0; k < n; ++k) ip[p[k]] = k; Cmp b; b.nmaj = b.nmin = n; b.val = f.val;
  for (int c = 0; c < n; ++c) { for (int t = f.p[p[c]]; t < f.p[p[c] + 1]; ++t) { b.i.push_back(ip[f.i[t]]); if (f.val) b.x.push_back(f.x[t]); } b.p.push_back(b.i.size()); }
  return sorted(b);
}
struct Run {
  Ctx &ctx; const char *nm; Run(Ctx &c, const char *n, std::vector<VI> sc) : ctx(c), nm(n) { calls.clear(); script = sc; at = 0; }
  void bad(const std::string &m) { ctx.fail(nm, m); }
  bool graph(size_t k, bool nd, const std::vector<VI> &want, int parts) {
    ctx.call(); if (calls.size() <= k && !nd && parts == 1) { Seen z; z.nd = false; z.n = want.size(); z.k = 1; z.adj = want; z.out.assign(want.size(), 0); while (calls.size() <= k) calls.push_back(z); } // one part needs no partitioner
    if (calls.size() <= k) { bad("partitioner not called"); return false; } Seen &s = calls[k];
    if (s.nd != nd) { bad("wrong partitioner routine"); return false; } if (!s.err.empty()) { bad("partitioner received: " + s.err + " graph " + as(s.adj)); return false; }
    if (s.adj != want) { bad("partitioner received graph " + as(s.adj) + " matrix graph " + as(want)); return false; } if (!nd && s.k != parts) { bad(mc::cat("partitioner asked for ", s.k, " parts")); return false; } return true; }
  void perm(int *p, int n, const VI &want) { if (!p) { bad("no permutation"); return; } VI g(p, p + n), s = g; std::sort(s.begin(), s.end()); for (int v = 0; v < n; ++v) if (s[v] != v) { bad("not a permutation " + mc::str(g)); return; } if (g != want) bad("permutation " + mc::str(g) + " partitioner said " + mc::str(want)); }
  void parts(int *p, int n, int k, const VI &said, const std::function<int(int)> &of) { if (!p) { bad("no partition"); return; } VI g(p, p + n); std::map<int, int> to, fro; for (int v = 0; v < n; ++v) { if (g[v] < 0 || g[v] >= k) { bad("part out of range " + mc::str(g)); return; } int s = said[of(v)]; if ((to.count(s) && to[s] != g[v]) || (fro.count(g[v]) && fro[g[v]] != s)) { bad("partition " + mc::str(g) + " partitioner said " + mc::str(said)); return; } to[s] = g[v]; fro[g[v]] = s; } }
};
static void same_in(Run &r, const Cmp &a, CSC *A, int st) { std::string e = same(a, A); if (e.empty() && A->stype != st) e = "storage type"; if (!e.empty()) r.bad("input modified: " + e); }
// script empty: the real library answers
static void orders(Ctx &ctx, const Cmp &f, const std::vector<VI> &sc) {
  int n = f.nmaj; auto want = adj(f); uint64_t h = 7;
  for (int t = 0; t < 3; ++t) { int st = t == 0 ? -1 : t == 1 ? 1 : 0; const char *nm = st ? "metis_perm_symmetric" : "metis_perm_general"; Cmp a = st ? half(f, st < 0) : f; for (int pat = 0; pat < 2; ++pat) { Cmp b = pat ? patt(a) : a; CSC *A = make<CSC>(b, st); Run r(ctx, nm, sc); int *p = nullptr; int q = st ? metis_perm_symmetric(A, p) : metis_perm_general(A, p); if (q != METIS_OK) r.bad(mc::cat("status ", q)); if (r.graph(0, true, want, 0)) { r.perm(p, n, calls[0].out); h = h * 31 + mc::H().arr(p, n).h; } same_in(r, b, A, st); delete[] p; delete A; } }
  ctx.checked(h);
}
// the demo pipeline: reordered lower half by rows, reordered full matrix by columns and by rows
static void pipeline(Ctx &ctx, const Cmp &f, const std::vector<VI> &sc) {
  int n = f.nmaj; Cmp a = half(f, true); CSC *A = make<CSC>(a, -1), *B = nullptr; CSR *L = nullptr, *Br = nullptr; Run r(ctx, "generate_matrices_from_mtx", sc);
  generate_matrices_from_mtx(A, L, B, Br); if (r.graph(0, true, adj(f), 0)) { VI &p = calls[0].out; Cmp w = reordered(f, p);
    std::string e; if (!L || !B || !Br) e = "a matrix is missing"; if (e.empty() && !(e = same(w, B)).empty()) e = "full matrix by columns: " + e; if (e.empty() && !(e = same(w, Br)).empty()) e = "full matrix by rows: " + e; if (e.empty() && !(e = same(half(w, false), L)).empty()) e = "lower half by rows: " + e; if (!e.empty()) r.bad(e); ctx.checked(mc::H().arr(p.data(), n).h); }
  same_in(r, a, A, -1); delete A; delete B; delete L; delete Br;
}
static void kway(Ctx &ctx, const Cmp &f, int k, const std::vector<VI> &sc) {
  int n = f.nmaj; auto want = adj(f); uint64_t h = 7;
  for (int t = 0; t < 3; ++t) { int st = t == 0 ? -1 : t == 1 ? 1 : 0; const char *nm = st ? "metis_partition_symmetric" : "metis_partition_general"; Cmp a = st ? half(f, st < 0) : f; for (int pat = 0; pat < 2; ++pat) { Cmp b = pat ? patt(a) : a; CSC *A = make<CSC>(b, st); Run r(ctx, nm, sc); int *p = nullptr; int q = st ? metis_partition_symmetric(A, p, k) : metis_partition_general(A, p, k); if (q != 0 && q != METIS_OK) r.bad(mc::cat("status ", q)); if (r.graph(0, false, want, k)) { r.parts(p, n, k, calls[0].out, [](int v) { return v; }); h = h * 31 + mc::H().arr(p, n).h; } same_in(r, b, A, st); delete[] p; delete A; } }
  ctx.checked(h);
}
static void coarse(Ctx &ctx, const Cmp &f, int k, int c, const std::vector<VI> &sc) {
  int n = f.nmaj, m = (n + c - 1) / c; std::vector<std::set<int>> q(m); for (int v = 0; v < n; ++v) for (int e = f.p[v]; e < f.p[v + 1]; ++e) if (f.i[e] / c != v / c) q[v / c].insert(f.i[e] / c); std::vector<VI> want(m); for (int v = 0; v < m; ++v) want[v].assign(q[v].begin(), q[v].end()); uint64_t h = 7;
  for (int t = 0; t < 3; ++t) { int st = t == 0 ? -1 : t == 1 ? 1 : 0; Cmp a = st ? half(f, st < 0) : f; CSC *A = make<CSC>(a, st); Run r(ctx, "metis_partition_coarsened", sc); int *p = nullptr; int s = metis_partition_coarsened(A, p, k, c); if (s != 0 && s != METIS_OK) r.bad(mc::cat("status ", s)); if (r.graph(0, false, want, k)) { r.parts(p, n, k, calls[0].out, [c](int v) { return v / c; }); h = h * 31 + mc::H().arr(p, n).h; } same_in(r, a, A, st); delete[] p;
    CSC *B = coarsen_k_times(n, A->nnz, A->p, A->i, st, c); ctx.call(); std::string e; if ((int)B->n != m || (int)B->m != m || B->stype != st || (int)B->nnz != B->p[m] || B->p[0] != 0) e = "shape, storage type or count";
    for (int v = 0; e.empty() && v < m; ++v) { VI g(B->i + B->p[v], B->i + B->p[v + 1]), w; std::set<int> x; for (int u = v * c; u < std::min(n, v * c + c); ++u) for (int z = a.p[u]; z < a.p[u + 1]; ++z) x.insert(a.i[z] / c); w.assign(x.begin(), x.end()); std::sort(g.begin(), g.end()); if (g != w) e = mc::cat("column ", v, " holds ", mc::str(g), " quotient ", mc::str(w)); }
    if (!e.empty()) ctx.fail("coarsen_k_times", e); delete B; delete A; }
  ctx.checked(h);
}
static void whole(Ctx &ctx, const Cmp &f, int k, const std::vector<VI> &sc) { // ordering and partitioning together
  int n = f.nmaj; uint64_t h = 7;
  for (int t = 0; t < 3; ++t) { int st = t == 0 ? -1 : t == 1 ? 1 : 0; Cmp a = st ? patt(half(f, st < 0)) : f; CSC *A = make<CSC>(a, st); Run r(ctx, "metis_partitioning", sc); int *p = nullptr; CSC *B = metis_partitioning(A, k, p); ctx.call(); VI id(n); std::iota(id.begin(), id.end(), 0); VI pm = st && !calls.empty() ? calls[0].out : id;
    Cmp e = reordered(st ? patt(f) : f, pm);
    bool ok = r.graph(0, true, adj(f), 0) && r.graph(1, false, adj(e), k); if (ok) { r.parts(p, n, k, calls[1].out, [](int v) { return v; }); std::string q = same_any_order(e, B); if (!q.empty()) r.bad("returned matrix: " + q); h = h * 31 + mc::H().arr(p, n).h; } same_in(r, a, A, st); delete[] p; if (B != A) delete B; delete A; }
  ctx.checked(h);
}
static void huge(Ctx &ctx, const std::string &nm, const std::function<gr::G()> &mk, bool real) {
  auto sc = [&](int n) { VI p(n); for (int v = 0; v < n; ++v) p[v] = (v * 7LL + 3) % n; if (n % 7 == 0) for (int v = 0; v < n; ++v) p[v] = n - 1 - v; return p; };
  auto pt = [&](int n, int k) { VI p(n); for (int v = 0; v < n; ++v) p[v] = (v / 3) % k; return p; };
  CASE(ctx, nm, " ordering") { Cmp f = full(mk()); orders(ctx, f, real ? std::vector<VI>{} : std::vector<VI>{sc(f.nmaj)}); } CASE(ctx, nm, " pipeline") { Cmp f = full(mk()); pipeline(ctx, f, real ? std::vector<VI>{} : std::vector<VI>{sc(f.nmaj)}); }
  for (int k : {2, 300}) { CASE(ctx, nm, " parts=", k) { Cmp f = full(mk()); kway(ctx, f, k, real ? std::vector<VI>{} : std::vector<VI>{pt(f.nmaj, k)}); } for (int c : {2, 1000}) CASE(ctx, nm, " parts=", k, " coarsen=", c) { Cmp f = full(mk()); coarse(ctx, f, k, c, real ? std::vector<VI>{} : std::vector<VI>{pt((f.nmaj + c - 1) / c, k)}); } }
  if (!real) CASE(ctx, nm, " both") { Cmp f = full(mk()); whole(ctx, f, 300, {sc(f.nmaj), pt(f.nmaj, 300)}); }
}
static void tuples(int n, int k, const std::function<void(const VI &)> &f) { VI v(n, 0); for (;;) { f(v); int i = 0; while (i < n && ++v[i] == k) v[i++] = 0; if (i == n) return; } }
static void body(Ctx &ctx) {
  bool T = ctx.thorough;
  for (int n = 1; n <= 4; ++n) { auto ps = perms(n);
    ctx.space = mc::cat("every ordering answer n=", n); for (uint64_t m = 0; m < (1ull << gr::npairs(n)); ++m) { Cmp f = full(gr::lower(n, m)); for (auto &p : ps) CASE(ctx, "edges=", m, " answer=", mc::str(p)) { orders(ctx, f, {p}); pipeline(ctx, f, {p}); } }
    ctx.space = mc::cat("every partition answer n=", n); for (uint64_t m = 0; m < (1ull << gr::npairs(n)); ++m) { Cmp f = full(gr::lower(n, m)); for (int k = 1; k <= 3; ++k) tuples(n, k, [&](const VI &a) { CASE(ctx, "edges=", m, " parts=", k, " answer=", mc::str(a)) kway(ctx, f, k, {a}); }); }
    ctx.space = mc::cat("every coarsened partition answer n=", n + 1); if (n < 4 || T) for (uint64_t m = 0; m < (1ull << gr::npairs(n + 1)); ++m) { Cmp f = full(gr::lower(n + 1, m)); for (int c = 1; c <= n + 2; ++c) for (int k = 1; k <= 3; ++k) tuples((n + c) / c, k, [&](const VI &a) { CASE(ctx, "edges=", m, " coarsen=", c, " parts=", k, " answer=", mc::str(a)) coarse(ctx, f, k, c, {a}); }); }
    if (n < 4) { ctx.space = mc::cat("every pair of answers n=", n); for (uint64_t m = 0; m < (1ull << gr::npairs(n)); ++m) { Cmp f = full(gr::lower(n, m)); for (auto &p : ps) for (int k = 1; k <= 3; ++k) tuples(n, k, [&](const VI &a) { CASE(ctx, "edges=", m, " ordering=", mc::str(p), " parts=", mc::str(a)) { // the general path asks for the ordering too
      whole(ctx, f, k, {p, a}); } }); } } }
  { int n = 5; ctx.space = "coarsening n=5,6"; for (n = 5; n <= (T ? 6 : 5); ++n) for (uint64_t m = 0; m < (1ull << gr::npairs(n)); ++m) for (int c = 2; c <= 3; ++c) CASE(ctx, "n=", n, " edges=", m, " coarsen=", c) { Cmp f = full(gr::lower(n, m)); VI a((n + c - 1) / c); for (size_t k = 0; k < a.size(); ++k) a[k] = k % 2; coarse(ctx, f, 2, c, {a}); } }
  for (int n = 1; n <= (T ? 6 : 5); ++n) { ctx.space = mc::cat("real library n=", n); for (uint64_t m = 0; m < (1ull << gr::npairs(n)); ++m) { CASE(ctx, "edges=", m) { Cmp f = full(gr::lower(n, m)); orders(ctx, f, {}); pipeline(ctx, f, {}); for (int k = 1; k <= 3; ++k) { kway(ctx, f, k, {}); whole(ctx, f, k, {}); coarse(ctx, f, k, 2, {}); } } } }
  ctx.space = "real library, families"; gr::families(T ? 200 : 60, [&](const std::string &nm, const gr::G &g) { if (g.n) CASE(ctx, nm) { Cmp f = full(g); orders(ctx, f, {}); pipeline(ctx, f, {}); for (int k : {1, 2, 3, 8}) { kway(ctx, f, k, {}); whole(ctx, f, k, {}); for (int c : {1, 2, 3, 7}) coarse(ctx, f, k, c, {}); } } });
  ctx.space = "huge families"; auto scripted = [&](const std::string &nm, const std::function<gr::G()> &mk) { huge(ctx, nm, mk, false); }; gr::huge_families(70000, scripted); gr::huge_chain(70000, scripted);
  ctx.space = "real library, large families"; gr::huge_chain(5000, [&](const std::string &nm, const std::function<gr::G()> &mk) { huge(ctx, nm, mk, true); }); gr::huge_families(5000, [&](const std::string &nm, const std::function<gr::G()> &mk) { huge(ctx, nm, mk, true); });
}
MC_MAIN(body)
