// C24: the bundled minimum degree ordering
#include "mat.hpp"
#include "graph.hpp"
#include <cmath>
#include <climits>
#include "aggregation/amd.h"
#include <cstdarg>
#include <cstring>
#include "aggregation/SuiteSparse_config_s.h"
using mc::Ctx; typedef std::vector<int> VI; typedef std::vector<double> VD;
static long live = 0, asked = 0, failat = -1;
static void *mal(size_t n) { if (asked++ == failat) return nullptr; ++live; return malloc(n); }
static void fre(void *p) { if (p) --live; free(p); }
struct Pat { int n; VI p, i; };
struct Want { int status; std::set<std::pair<int, int>> e; };
static Want model(const Pat &a) {
  Want w; w.status = AMD_OK; if (a.p[0] != 0 || a.p[a.n] < 0) { w.status = AMD_INVALID; return w; }
  for (int j = 0; j < a.n; ++j) { if (a.p[j] > a.p[j + 1]) { w.status = AMD_INVALID; return w; } int last = -1; for (int k = a.p[j]; k < a.p[j + 1]; ++k) { int r = a.i[k]; if (r < 0 || r >= a.n) { w.status = AMD_INVALID; return w; } if (r <= last) w.status = AMD_OK_BUT_JUMBLED; last = r; w.e.insert({r, j}); } }
  return w;
}
static void order(Ctx &ctx, const Pat &a, double dense, double aggr, bool ctrl, bool info, long fail = -1) {
  int n = a.n; Pat b = a; Want w = model(a); VI P(n + 2, -99); VD C(AMD_CONTROL, 0), I(AMD_INFO, -7); if (ctrl) { amd_defaults(C.data()); C[AMD_DENSE] = dense; C[AMD_AGGRESSIVE] = aggr; } VD C0 = C; std::string cfg = mc::cat(" n=", n, " p=", mc::str(a.p), " i=", mc::str(a.i), " dense=", dense, " aggressive=", aggr, " control=", ctrl, " fail=", fail);
  SuiteSparse_config1.malloc_func = mal; SuiteSparse_config1.free_func = fre; live = 0; asked = 0; failat = fail; int *pi = b.i.empty() ? (int *)malloc(1) : b.i.data();
  int st = amd_order(n, b.p.data(), pi, P.data(), ctrl ? C.data() : nullptr, info ? I.data() : nullptr); ctx.call(); auto bad = [&](const std::string &m) { ctx.fail("amd_order", m + cfg + " status " + std::to_string(st)); }; if (b.i.empty()) free(pi);
  if (live != 0) bad(mc::cat(live, " blocks not released")); if (b.p != a.p || b.i != a.i || C != C0) bad("input modified"); if (P[n] != -99 || P[n + 1] != -99) bad("wrote past the permutation");
  if (info && I[AMD_N] != n) bad(mc::cat("size in the statistics is ", I[AMD_N])); if (info && I[AMD_STATUS] != st) bad(mc::cat("status in the statistics is ", I[AMD_STATUS]));
  if (fail >= 0 && asked > fail) { if (st != AMD_OUT_OF_MEMORY) bad("failed allocation not reported"); ctx.checked(asked); return; }
  if (st != w.status) { bad(mc::cat("expected status ", w.status)); return; }
  if (st == AMD_INVALID) { for (int k = 0; k < n; ++k) if (P[k] != -99) { bad("output written for invalid input"); break; } ctx.checked(1); return; }
  VI inv(n, -1); for (int k = 0; k < n; ++k) { if (P[k] < 0 || P[k] >= n || inv[P[k]] >= 0) { bad("not a permutation " + mc::str(P.data(), n)); return; } inv[P[k]] = k; }
  // symbolic elimination in the returned order
  std::vector<std::set<int>> adj(n); int diag = 0, off = 0, matched = 0; for (auto &x : w.e) { if (x.first == x.second) { ++diag; continue; } ++off; if (w.e.count({x.second, x.first})) ++matched; adj[x.first].insert(x.second); adj[x.second].insert(x.first); }
  int aat = 0, nd = 0; double dl = !ctrl ? 10 : dense; int thr = dl < 0 ? n - 2 : (int)(dl * std::sqrt((double)n)); thr = std::min(n, std::max(16, thr)); std::set<int> ds; for (int v = 0; v < n; ++v) { aat += adj[v].size(); if ((int)adj[v].size() > thr) ++nd, ds.insert(v); }
  bool forest = true; { VI root(n); std::iota(root.begin(), root.end(), 0); std::function<int(int)> f = [&](int v) { return root[v] == v ? v : root[v] = f(root[v]); }; for (int v = 0; v < n; ++v) for (int x : adj[v]) if (v < x) { int p = f(v), q = f(x); if (p == q) forest = false; root[p] = q; } }
  double lnz = 0, ldl = 0, lu = 0, dmax = 1; auto el = adj; for (int k = 0; k < n; ++k) { int v = P[k]; double c = el[v].size(); lnz += c; ldl += c * (c + 1) / 2; lu += c * c; dmax = std::max(dmax, c + 1); for (int x : el[v]) { el[x].erase(v); for (int y : el[v]) if (x != y) el[x].insert(y); } }
  if (info && n > 0) { auto eq = [&](int f, double x, const char *nm) { if (!(I[f] == x)) bad(mc::cat(nm, " reported ", I[f], " is ", x)); }; auto ge = [&](int f, double x, const char *nm) { if (!(I[f] >= x)) bad(mc::cat(nm, " reported ", I[f], " below ", x)); };
    eq(AMD_N, n, "size"); eq(AMD_NZ, w.e.size(), "nonzeros"); eq(AMD_NZDIAG, diag, "diagonal entries"); eq(AMD_NZ_A_PLUS_AT, aat, "nonzeros of A+A'"); if (std::fabs(I[AMD_SYMMETRY] - (off ? (double)matched / off : 1)) > 1e-12) bad(mc::cat("symmetry ", I[AMD_SYMMETRY])); eq(AMD_NDENSE, nd, "dense rows"); ge(AMD_LNZ, lnz, "nonzeros of L"); ge(AMD_NDIV, lnz, "divisions"); ge(AMD_NMULTSUBS_LDL, ldl, "LDL operations"); ge(AMD_NMULTSUBS_LU, lu, "LU operations"); ge(AMD_DMAX, dmax, "largest column"); if (!(I[AMD_LNZ] <= 0.5 * n * (n - 1))) bad(mc::cat("nonzeros of L reported ", I[AMD_LNZ], " of at most ", 0.5 * n * (n - 1))); 
    if (!nd && forest && I[AMD_LNZ] != aat / 2) bad(mc::cat("fill reported for a forest: ", I[AMD_LNZ])); }
  for (int v : ds) if (inv[v] < n - nd) { bad(mc::cat("dense row ", v, " not ordered last")); break; }
  if (!nd && forest && lnz != aat / 2) bad("forest ordered with fill " + mc::str(P.data(), n));
  if (info && !nd && lnz > I[AMD_LNZ]) bad("fill"); ctx.checked(mc::H().arr(P.data(), n).u((uint64_t)lnz).h);
}
static Pat from(int n, uint64_t m, int ord = 0) { mat::Cmp c = mat::csc(n, n, m, 2, ord); return {n, c.p, c.i}; }
static Pat sym(int n, uint64_t m, bool full, bool diag) { Pat a; a.n = n; a.p = {0}; std::vector<std::set<int>> c(n); int k = 0; for (int j = 0; j < n; ++j) for (int i = j + 1; i < n; ++i, ++k) if (m >> k & 1) { c[j].insert(i); if (full) c[i].insert(j); } for (int j = 0; j < n; ++j) { if (diag) c[j].insert(j); for (int r : c[j]) a.i.push_back(r); a.p.push_back(a.i.size()); } return a; }
static std::string printed; static int cap(const char *f, ...) { char b[4096]; va_list a; va_start(a, f); int n = vsnprintf(b, sizeof b, f, a); va_end(a); printed += b; return n; }
// the printed statistics and settings are those of the ordering; the support routines
static void support(Ctx &ctx) {
  auto has = [&](const char *label, const std::string &v) { size_t at = printed.find(label); if (at == std::string::npos) return false; size_t e = printed.find('\n', at); std::istringstream l(printed.substr(at + strlen(label), e - at - strlen(label))); std::string w, last; while (l >> w) last = w; return last == v; };
  auto fmt = [](double v) { char b[64]; snprintf(b, 64, "%.20g", v); return std::string(b); };
  SuiteSparse_config1.printf_func = cap;
  for (int n = 1; n <= 3; ++n) for (uint64_t m = 0; m < (1ull << (n * n)); ++m) CASE(ctx, "statistics n=", n, " pattern=", m) { mat::Cmp c = mat::csc(n, n, m, 2, m % 2); VI P(n), i = c.i; i.push_back(0); VD I(AMD_INFO, -7); SuiteSparse_config1.malloc_func = malloc; SuiteSparse_config1.free_func = free; int st = amd_order(n, c.p.data(), i.data(), P.data(), nullptr, I.data()); VD I0 = I; printed.clear(); amd_info(I.data()); ctx.call(2); if (I != I0) ctx.fail("amd_info", "changed the statistics");
    struct { const char *l; double v; } row[] = {{"n, dimension of A:", I[AMD_N]}, {"nz, number of nonzeros in A:", I[AMD_NZ]}, {"number of nonzeros on diagonal:", I[AMD_NZDIAG]}, {"nonzeros in pattern of A+A' (excl. diagonal):", I[AMD_NZ_A_PLUS_AT]}, {"# dense rows/columns of A+A':", I[AMD_NDENSE]}, {"memory used, in bytes:", I[AMD_MEMORY]}, {"# of memory compactions:", I[AMD_NCMPA]}, {"nonzeros in L (excluding diagonal):", I[AMD_LNZ]}, {"nonzeros in L (including diagonal):", I[AMD_LNZ] + n}, {"# divide operations for LDL' or LU:", I[AMD_NDIV]}, {"# multiply-subtract operations for LDL':", I[AMD_NMULTSUBS_LDL]}, {"# multiply-subtract operations for LU:", I[AMD_NMULTSUBS_LU]}, {"max nz. in any column of L (incl. diagonal):", I[AMD_DMAX]}, {"chol flop count for real A, sqrt counted as 1 flop:", n + I[AMD_NDIV] + 2 * I[AMD_NMULTSUBS_LDL]}, {"LDL' flop count for real A:", I[AMD_NDIV] + 2 * I[AMD_NMULTSUBS_LDL]}, {"LDL' flop count for complex A:", 9 * I[AMD_NDIV] + 8 * I[AMD_NMULTSUBS_LDL]}, {"LU flop count for real A (with no pivoting):", I[AMD_NDIV] + 2 * I[AMD_NMULTSUBS_LU]}, {"LU flop count for complex A (with no pivoting):", 9 * I[AMD_NDIV] + 8 * I[AMD_NMULTSUBS_LU]}};
    for (auto &r : row) if (!has(r.l, fmt(r.v))) ctx.fail("amd_info", mc::cat(r.l, " is not ", r.v, " in ", printed)); char b[32]; snprintf(b, 32, "%.4f", I[AMD_SYMMETRY]); if (!has("symmetry of A:", b)) ctx.fail("amd_info", "symmetry in " + printed); if (!has("status:", st == AMD_OK ? "OK" : "jumbled")) ctx.fail("amd_info", "status in " + printed); ctx.checked(mc::H().u(n).u(m).h); }
  for (double d : {-1.0, 0.0, 2.5, 10.0}) for (double a : {0.0, 1.0, 3.0}) CASE(ctx, "settings ", d, " ", a) { VD C(AMD_CONTROL, 0); C[AMD_DENSE] = d; C[AMD_AGGRESSIVE] = a; VD C0 = C; printed.clear(); amd_control(C.data()); ctx.call(); char b[32]; snprintf(b, 32, "%g", d); if (C != C0 || !has("dense row parameter:", b) || !has("aggressive absorption:", a ? "yes" : "no") || (d < 0) != (printed.find("no rows treated as dense") != std::string::npos)) ctx.fail("amd_control", printed); ctx.checked((long)(d * 10 + a)); }
  for (int st : {AMD_OK, AMD_OUT_OF_MEMORY, AMD_INVALID, AMD_OK_BUT_JUMBLED, 77}) CASE(ctx, "status ", st) { VD I(AMD_INFO, -1); I[AMD_STATUS] = st; printed.clear(); amd_info(I.data()); amd_info(nullptr); ctx.call(2); const char *w = st == AMD_OK ? "OK" : st == AMD_OUT_OF_MEMORY ? "memory" : st == AMD_INVALID ? "matrix" : st == 77 ? "unknown" : "jumbled"; if (!has("status:", w) || printed.find("dimension") != std::string::npos) ctx.fail("amd_info", printed); ctx.checked(st); }
  SuiteSparse_config1.printf_func = nullptr; CASE(ctx, "no printing") { VD I(AMD_INFO, 1); amd_info(I.data()); amd_control(nullptr); ctx.call(2); ctx.checked(1); }
  CASE(ctx, "default settings printed") { SuiteSparse_config1.printf_func = cap; printed.clear(); amd_control(nullptr); SuiteSparse_config1.printf_func = nullptr; if (!has("dense row parameter:", "10") || !has("aggressive absorption:", "yes")) ctx.fail("amd_control", printed); ctx.checked(2); }
  static size_t got; SuiteSparse_config1.malloc_func = [](size_t n) -> void * { got = n; return malloc(n); }; SuiteSparse_config1.free_func = free;
  const size_t M = ~(size_t)0;
  for (size_t n : {(size_t)0, (size_t)1, (size_t)2, (size_t)7, (size_t)1000, (size_t)1 << 40, M / 8, M / 8 + 1, M / 4, M / 2 + 1, M}) for (size_t z : {(size_t)0, (size_t)1, (size_t)4, (size_t)8, (size_t)1 << 33}) CASE(ctx, "block of ", n, " x ", z) { long double want = (long double)std::max<size_t>(n, 1) * std::max<size_t>(z, 1); got = 0; if (want > 1e6 && want < 1.8446744073709551616e19L) continue; void *p = SuiteSparse_malloc1(n, z); ctx.call(); if (want >= 1.8446744073709551616e19L ? p != nullptr || got : !p || got != (size_t)want) ctx.fail("SuiteSparse_malloc1", mc::cat("asked for ", got, " bytes for ", n, " x ", z)); if (p) memset(p, 1, (size_t)want); if (SuiteSparse_free1(p)) ctx.fail("SuiteSparse_free1", "not null");
    int ok = 7; void *q = SuiteSparse_realloc1(n, 1, z, nullptr, &ok); if ((q != nullptr) != (ok == 1) || (q != nullptr) != (want < 1.8446744073709551616e19L)) ctx.fail("SuiteSparse_realloc1", mc::cat("fresh block ok=", ok)); if (q) memset(q, 1, (size_t)want); SuiteSparse_free1(q); ctx.call(2); ctx.checked(mc::H().u(n).u(z).h); }
  for (size_t a = 0; a <= 5; ++a) for (size_t b = 0; b <= 6; ++b) for (size_t z = 1; z <= 8; z *= 2) CASE(ctx, "resize ", a, " to ", b, " of ", z) { unsigned char *p = (unsigned char *)SuiteSparse_malloc1(a, z); for (size_t k = 0; k < a * z; ++k) p[k] = k + 1; int ok = 7; p = (unsigned char *)SuiteSparse_realloc1(b, a, z, p, &ok); bool good = ok == 1 && p; for (size_t k = 0; good && k < std::min(a, b) * z; ++k) good = p[k] == k + 1; if (good) memset(p, 9, b * z); else ctx.fail("SuiteSparse_realloc1", "block lost"); unsigned char *q = (unsigned char *)SuiteSparse_realloc1(M / 2, b, 8, p, &ok); if (ok != 0 || q != p) ctx.fail("SuiteSparse_realloc1", "impossible size accepted"); SuiteSparse_free1(p); ctx.call(3); ctx.checked(mc::H().u(a * 10 + b).u(z).h); }
  VD vs = {0, 1, -1, 3, -4, 0.1, 1e-8, -1e8, 1e150, -1e-150, 1e300, 7e-300, 5.5, 1e16};
  for (double x : vs) for (double y : vs) CASE(ctx, "hypot ", x, " ", y) { double h = SuiteSparse_hypot1(x, y); long double e = hypotl(x, y); ctx.call(); if (std::fabs(h - (double)e) > 4e-16 * (double)e) ctx.fail("SuiteSparse_hypot1", mc::cat(h, " for ", x, " ", y)); ctx.checked(mc::H().u((uint64_t)&x).h); }
  VD ds = {0, 1, -1, 3, -4, 0.1, 1e-8, -1e8, 5.5}; for (double ar : ds) for (double ai : ds) for (double br : ds) CASE(ctx, "division ", ar, " ", ai, " ", br) for (double bi : ds) for (int alias = 0; alias < 3; ++alias) { double c = ar, d = ai, *pc = &c, *pd = &d, e = br, f = bi; if (alias == 1) pc = &e, pd = &f; if (alias == 2) std::swap(pc, pd); int rc = SuiteSparse_divcomplex1(alias == 2 ? d : c, alias == 2 ? c : d, e, f, pc, pd); ctx.call(); long double den = (long double)br * br + (long double)bi * bi, A = alias == 2 ? ai : ar, B = alias == 2 ? ar : ai; bool zero = br == 0 && bi == 0; if (!zero && rc != 0) ctx.fail("SuiteSparse_divcomplex1", "reported a zero denominator"); if (zero) continue; long double re = (A * br + B * bi) / den, im = (B * br - A * bi) / den, mag = sqrtl(re * re + im * im); if (fabsl(*pc - re) > 1e-14L * mag || fabsl(*pd - im) > 1e-14L * mag) ctx.fail("SuiteSparse_divcomplex1", mc::cat(*pc, " ", *pd, " of ", ar, " ", ai, " ", br, " ", bi)); ctx.checked(0); }
}
static void body(Ctx &ctx) {
  bool T = ctx.thorough;
  ctx.space = "printed statistics and support routines"; support(ctx);
  ctx.space = "bad arguments"; CASE(ctx, "missing arrays and negative sizes") { int p[2] = {0, 1}, i[1] = {0}, P[1] = {-9}; double I[AMD_INFO]; for (int k = 0; k < 5; ++k) { I[0] = 77; int st = amd_order(k == 3 ? -1 : k == 4 ? INT_MIN : 1, k == 0 ? nullptr : p, k == 1 ? nullptr : i, k == 2 ? nullptr : P, nullptr, I); ctx.call(); if (st != AMD_INVALID || I[AMD_STATUS] != AMD_INVALID || I[AMD_N] != (k == 3 ? -1 : k == 4 ? INT_MIN : 1) || P[0] != -9) ctx.fail("amd_order", mc::cat("bad argument ", k, " gives ", st)); st = amd_order(k == 3 ? -1 : k == 4 ? INT_MIN : 1, k == 0 ? nullptr : p, k == 1 ? nullptr : i, k == 2 ? nullptr : P, nullptr, nullptr); if (st != AMD_INVALID) ctx.fail("amd_order", mc::cat("bad argument ", k, " without statistics gives ", st)); ctx.checked(k); } int p0[1] = {0}; double I0[AMD_INFO]; I0[AMD_STATUS] = I0[AMD_N] = 77; if (amd_order(0, p0, i, P, nullptr, I0) != AMD_OK || I0[AMD_STATUS] != AMD_OK || I0[AMD_N] != 0 || amd_order(0, p0, i, P, nullptr, nullptr) != AMD_OK || amd_valid(0, 0, p0, i) != AMD_OK) ctx.fail("amd_order", "empty matrix refused");
    double C[AMD_CONTROL]; amd_defaults(C); if (C[AMD_DENSE] != AMD_DEFAULT_DENSE || C[AMD_AGGRESSIVE] != AMD_DEFAULT_AGGRESSIVE) ctx.fail("amd_defaults", "defaults"); amd_defaults(nullptr); }
  for (int n = 1; n <= 4; ++n) { ctx.space = mc::cat("every pattern n=", n); for (uint64_t m = 0; m < (1ull << (n * n)); ++m) CASE(ctx, "pattern=", m) { order(ctx, from(n, m), 10, 1, false, true); order(ctx, from(n, m, 1 + m % 2), 10, m % 3 != 0, true, true); } }
  { ctx.space = "unsorted and repeated entries n=3"; std::vector<VI> cs; for (int l = 0; l <= (T ? 4 : 3); ++l) { int t = std::pow(3, l) + .5; for (int c = 0; c < t; ++c) { VI v; for (int k = 0, x = c; k < l; ++k, x /= 3) v.push_back(x % 3); cs.push_back(v); } } for (size_t a = 0; a < cs.size(); ++a) for (size_t b = 0; b < cs.size(); ++b) CASE(ctx, "columns ", mc::str(cs[a]), mc::str(cs[b])) for (size_t c = 0; c < cs.size(); c += T ? 3 : 1) { Pat p{3, {0}, {}}; for (const VI *v : {&cs[a], &cs[b], &cs[c]}) { p.i.insert(p.i.end(), v->begin(), v->end()); p.p.push_back(p.i.size()); } order(ctx, p, 10, 1, false, true); } }
  { ctx.space = "every array content n=2"; for (int a = -1; a <= 3; ++a) for (int b = -1; b <= 3; ++b) for (int c = -1; c <= 3; ++c) CASE(ctx, "pointers ", a, ",", b, ",", c) for (int x = -1; x <= 2; ++x) for (int y = -1; y <= 2; ++y) for (int z = -1; z <= 2; ++z) { Pat p{2, {a, b, c}, {x, y, z}}; int mx = std::max({a, b, c}); if (mx <= 3) order(ctx, p, 10, 1, false, true); } }
  { ctx.space = "one corrupted field n=3,4"; for (int n = 3; n <= 4; ++n) for (uint64_t m = n == 3 ? 0 : 1; m < (1ull << (n * n)); m += n == 3 ? 1 : 97) CASE(ctx, "n=", n, " pattern=", m) { Pat a = from(n, m); for (size_t f = 0; f < a.p.size(); ++f) for (int v : {-1, INT_MIN, 0, 1, n}) if (v <= (int)a.i.size()) { Pat q = a; q.p[f] = v; bool safe = true; for (int x : q.p) if (x > (int)q.i.size()) safe = false; if (safe) order(ctx, q, 10, 1, false, v & 1); } for (size_t f = 0; f < a.i.size(); ++f) for (int v : {-1, INT_MIN, n, n + 1, INT_MAX}) { Pat q = a; q.i[f] = v; order(ctx, q, 10, 1, false, true); } 
      for (int nr = 0; nr <= n + 1; ++nr) { int want = AMD_OK; for (int x : a.i) if (x >= nr) want = AMD_INVALID; VI i = a.i; i.push_back(0); if (amd_valid(nr, n, a.p.data(), i.data()) != want) ctx.fail("amd_valid", mc::cat("rows ", nr, " of ", n, " pattern ", m)); ctx.call(); } } }
  for (int n = 5; n <= (T ? 7 : 6); ++n) { ctx.space = mc::cat("every undirected graph n=", n); for (uint64_t m = 0; m < (1ull << gr::npairs(n)); ++m) CASE(ctx, "graph=", m) { order(ctx, sym(n, m, m % 2, m % 3), 10, 1, false, true); order(ctx, sym(n, m, m % 3, m % 2), -1, 0, true, true); } }
  { ctx.space = "every forest"; for (int n = 1; n <= (T ? 9 : 7); ++n) gr::forests(n, [&](const VI &par) { CASE(ctx, "parents ", mc::str(par)) { Pat a{n, {0}, {}}; for (int j = 0; j < n; ++j) { a.i.push_back(j); if (par[j] >= 0) a.i.push_back(par[j]); std::sort(a.i.begin() + a.p[j], a.i.end()); a.p.push_back(a.i.size()); } order(ctx, a, 10, 1, false, true); order(ctx, a, 10, 0, true, true); } }); }
  { ctx.space = "every allocation failure"; for (int n = 1; n <= 3; ++n) for (uint64_t m = 0; m < (1ull << (n * n)); ++m) for (int ord = 0; ord < 2; ++ord) CASE(ctx, "n=", n, " pattern=", m, " order=", ord) for (int f = 0; f < 6; ++f) order(ctx, from(n, m, ord), 10, 1, false, f % 2, f); }
  { ctx.space = "families x dense threshold x absorption"; gr::families(T ? 120 : 48, [&](const std::string &nm, const gr::G &g) { if (g.n) for (int k = 0; k < 2; ++k) CASE(ctx, nm, " diagonal=", k) { gr::Csc c = k ? gr::csc_diag(g) : gr::csc_nodiag(g); Pat a{g.n, c.p, VI(c.i.begin(), c.i.begin() + c.p[g.n])}; for (double d : {10.0, -1.0, 0.0, 1.0, 2.5}) for (double ag : {0.0, 1.0}) order(ctx, a, d, ag, true, true); order(ctx, a, 10, 1, false, false); } });
    for (int n : {18, 20, 24, 40}) for (int hubs = 0; hubs <= 6; ++hubs) for (int band = 0; band < 4; ++band) CASE(ctx, "hubs n=", n, " hubs=", hubs, " band=", band) { std::vector<std::set<int>> c(n); for (int h = 0; h < hubs; ++h) { int v = (h * 7 + 3) % n; for (int x = 0; x < n - h; ++x) if (x != v) c[x].insert(v); } for (int v = 0; v < n; ++v) for (int k = 1; k <= band && v + k < n; ++k) c[v].insert(v + k); Pat a{n, {0}, {}}; for (auto &s : c) { a.i.insert(a.i.end(), s.begin(), s.end()); a.p.push_back(a.i.size()); } for (double d : {10.0, -1.0, 0.0, 1.0, 3.0, 5.0}) for (double ag : {0.0, 1.0}) order(ctx, a, d, ag, true, true); } }
  { ctx.space = "huge families"; auto sp = [&](const gr::G &g, int k) { gr::Csc c = k ? gr::csc_diag(g) : gr::csc_nodiag(g); return Pat{g.n, c.p, VI(c.i.begin(), c.i.begin() + c.p[g.n])}; };
    auto huge = [&](const std::string &nm, const std::function<gr::G()> &mk) { for (int k = 0; k < 2; ++k) CASE(ctx, nm, " diagonal=", k) { Pat a = sp(mk(), k); order(ctx, a, 10, 1, false, true); order(ctx, a, -1, 0, true, true); } };
    auto tree = [&](const std::string &nm, const std::function<gr::G()> &mk) { if (nm.find("wide") && nm.find("doublestar")) huge(nm, mk); }; gr::huge_families(70000, tree); gr::huge_chain(33000, huge); gr::huge_families(1000, huge);
    gr::big_families(T ? VI{150, 700} : VI{150, 400}, [&](const std::string &nm, const gr::G &g) { for (int d = 0; d < 2; ++d) CASE(ctx, nm, " dense=", d) order(ctx, sp(g, d), d ? 10 : 1.5, d, true, true); });
    for (int n : {33000, 70000}) for (int bad = 0; bad < 4; ++bad) CASE(ctx, "n=", n, " corruption ", bad) { gr::G g(n); for (int i = 0; i + 1 < n; ++i) g.edge(i, i + 1); g.norm(); Pat a = sp(g, 1); if (bad == 0) a.i.back() = n; if (bad == 1) a.i[a.p[n / 2]] = -1; if (bad == 2) a.p[n - 1] = 0; if (bad == 3) std::swap(a.i[a.p[n - 2]], a.i[a.p[n - 2] + 1]); order(ctx, a, 10, 1, false, true); } }
}
MC_MAIN(body)
