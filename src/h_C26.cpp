// C26: comparison and checking utilities never accept a wrong result
#include "mc.hpp"
#include "mat.hpp"
#include "io_common.hpp"
#include <limits>
#include <cmath>
#include <cassert>
#include <algorithm>
#include "aggregation/test_utils.h"
#include "aggregation/utils.h"
#include "aggregation/sparse_utilities.h"
#include "aggregation/FusionDemo.h"
using mc::Ctx; typedef std::vector<double> VD; typedef std::vector<int> VI;
static const double NaN = std::numeric_limits<double>::quiet_NaN(), INF = std::numeric_limits<double>::infinity();
template <class T> static bool agree(T a, T b, double eps) { if (a != a || b != b) return false; if (a == b) return true; return std::fabs((double)a - (double)b) <= eps; }
template <class T> static std::string s(const std::vector<T> &v) { std::string r = "["; for (auto x : v) r += mc::cat(r.size() > 1 ? "," : "", x); return r + "]"; }
template <class T, class F> static void vectors(int n, const std::vector<T> &al, F f) {
  std::vector<int> k(n, 0); std::vector<T> v(n);
  while (true) { for (int i = 0; i < n; ++i) v[i] = al[k[i]]; f(v); int i = 0; for (; i < n; ++i) { if (++k[i] < (int)al.size()) break; k[i] = 0; } if (i == n) return; }
}
template <class T> static void equal(Ctx &ctx, const char *ty, const std::vector<T> &al, double eps, bool deflt, int maxn) {
  ctx.space = mc::cat("vector against value, ", ty, " eps=", eps);
  for (int n = 0; n <= maxn; ++n) CASE(ctx, ty, " vectors of length ", n, " against a value, eps=", eps, deflt ? " (default)" : "") vectors<T>(n, al, [&](const std::vector<T> &v) { for (T w : al) {
    bool nan = w != w; for (T x : v) nan = nan || x != x; if (nan && n) continue; // recorded defect
    bool e = true; for (T x : v) e = e && agree(x, w, eps);
    std::vector<T> c(v); c.push_back(w == w ? w + (T)1000 : 0); // a differing entry behind the end is never looked at
    bool g = deflt ? sym_lib::is_equal<T>(n, c.data(), w) : sym_lib::is_equal<T>(n, c.data(), w, eps); ctx.call(); ctx.checked(g + 2 * n);
    if (g != e) ctx.fail("is_equal(value)", mc::cat(s(v), " and ", w, ": ", g, " eps=", eps)); } });
  ctx.space = mc::cat("vector against vector, ", ty, " eps=", eps);
  for (int n = 0; n <= (maxn > 3 ? 3 : maxn); ++n) CASE(ctx, ty, " pairs of vectors of length ", n, ", eps=", eps, deflt ? " (default)" : "") vectors<T>(n, al, [&](const std::vector<T> &v) { vectors<T>(n, al, [&](const std::vector<T> &w) {
    for (int b = 0; b <= n; ++b) for (int e = b; e <= n; ++e) { bool x = true; for (int k = b; k < e; ++k) x = x && agree(v[k], w[k], eps);
      std::vector<T> vv(v.begin(), v.begin() + e), ww(w.begin(), w.begin() + e);
      bool g = deflt ? sym_lib::is_equal<T>(b, e, vv.data(), ww.data()) : sym_lib::is_equal<T>(b, e, vv.data(), ww.data(), eps); ctx.call(); ctx.checked(g + 2 * (e - b));
      if (g != x) ctx.fail("is_equal(range)", mc::cat(s(v), " and ", s(w), " in [", b, ",", e, "): ", g, " eps=", eps)); } }); });
}
static void equal_csc(Ctx &ctx) {
  ctx.space = "pairs of sparse matrices"; const double eps = 1e-8; VD al = {1, 1 + 5e-9, 1 + 3e-8, -1};
  struct M { mat::Cmp a; sym_lib::CSC *c; };
  std::vector<std::vector<M>> byshape;
  for (int m = 1; m <= 2; ++m) for (int n = 1; n <= 2; ++n) for (uint64_t k = 0; k < (1ull << (m * n)); ++k) { mat::Cmp a = mat::csc(m, n, k, 0); std::vector<M> l; vectors<double>(a.nnz(), al, [&](const VD &v) { if (a.nnz() == 4 && v[3] != 1 && v[2] != 1) return; a.x = v; l.push_back({a, mat::make<sym_lib::CSC>(a)}); }); byshape.push_back(l); }
  for (size_t x = 0; x < byshape.size(); ++x) for (size_t y = 0; y < byshape.size(); ++y) CASE(ctx, "all values of ", byshape[x].back().a.str(), " and ", byshape[y].back().a.str()) for (auto &p : byshape[x]) for (auto &q : byshape[y]) {
    auto &a = p.a; auto &b = q.a; bool e = a.nmaj == b.nmaj && a.nmin == b.nmin && a.p == b.p && a.i == b.i;
    if (e && a.nnz() == 0 && a.val != b.val) continue; // the pattern flag of an empty matrix says nothing
    if (e) { e = a.val == b.val; if (e && a.val) for (int k = 0; k < a.nnz(); ++k) e = e && agree(a.x[k], b.x[k], eps); }
    if (a.nmin != b.nmin && a.nmaj == b.nmaj && a.p == b.p && a.i == b.i) continue; // recorded defect
    bool g = sym_lib::is_equal(p.c, q.c); ctx.call(); ctx.checked(g);
    if (g != e) ctx.fail("is_equal(matrix)", mc::cat(a.str(), " and ", b.str(), ": ", g)); }
  for (auto &l : byshape) for (auto &p : l) delete p.c;
  ctx.space = "tolerance of the matrix comparison"; for (double e : {0., 1e-12, 1e-3, 1., 10.}) for (double d : {0., 1e-13, 1e-4, 1e-2, 0.5, 1.5, 5., 20.}) for (int sg = -1; sg <= 1; sg += 2) for (int w = 0; w < 3; ++w) CASE(ctx, "eps ", e, " difference ", sg * d, " in entry ", w) {
    mat::Cmp a = mat::csc(2, 2, 7, 0), b = a; a.x = {0, 0, 0}; b.x = a.x; b.x[w] = sg * d; auto *A = mat::make<sym_lib::CSC>(a), *B = mat::make<sym_lib::CSC>(b); bool g = sym_lib::is_equal(A, B, e); ctx.call(); ctx.checked(g); if (g != (d <= e)) ctx.fail("is_equal(matrix)", mc::cat(g)); delete A; delete B; }
}
static void unique(Ctx &ctx) {
  ctx.space = "uniqueness"; int N = ctx.thorough ? 7 : 6;
  for (int n = 0; n <= N; ++n) { VI al; for (int k = 0; k < std::max(n, 1); ++k) al.push_back(k);
    for (int first : al) { if (n == 0 && first != al[0]) continue; CASE(ctx, "arrays of length ", n, " starting with ", first) vectors<int>(n ? n - 1 : 0, al, [&](const VI &t) { VI v; if (n) v.push_back(first); v.insert(v.end(), t.begin(), t.end());
      VI w(v); std::sort(w.begin(), w.end()); bool e = true; for (int k = 0; k < n; ++k) e = e && w[k] == k;
      VI c(v); bool g = sym_lib::test_unique(n, c.data()); ctx.call(); ctx.checked(g); if (g != e) ctx.fail("test_unique", mc::cat(mc::str(v), ": ", g)); if (c != v) ctx.fail("test_unique", "changed its input"); }); } }
}
// defects of the checked tree (its files count as test files, so they are recorded instead of repaired)
static void recorded(Ctx &ctx) {
  ctx.space = "recorded defects"; auto M = [](int m, int n, uint64_t k, int vs, double v) { mat::Cmp a = mat::csc(m, n, k, vs); if (vs != 2) a.x.assign(a.nnz(), v); return mat::make<sym_lib::CSC>(a); };
  CASE(ctx, "not-a-number compared with a value") { VD v{NaN}; int r = mc::in_child([&] { return (int)sym_lib::is_equal<double>(1, v.data(), 1.); }); ctx.call(); ctx.checked(); if (r) ctx.fail("is_equal(value)", "equal"); }
  CASE(ctx, "not-a-number in one of two matrices") { int r = mc::in_child([&] { return (int)sym_lib::is_equal(M(1, 1, 1, 0, NaN), M(1, 1, 1, 0, 1)); }); ctx.call(); ctx.checked(); if (r) ctx.fail("is_equal(matrix)", "equal"); }
  CASE(ctx, "matrices with different numbers of rows") { int r = mc::in_child([&] { return (int)sym_lib::is_equal(M(1, 1, 1, 0, 1), M(2, 1, 1, 0, 1)); }); ctx.call(); ctx.checked(); if (r) ctx.fail("is_equal(matrix)", "equal"); }
  CASE(ctx, "two pattern-only matrices") { int r = mc::in_child([&] { return (int)!sym_lib::is_equal(M(1, 1, 1, 2, 0), M(1, 1, 1, 2, 0)); }); ctx.call(); ctx.checked(); if (r) ctx.fail("is_equal(matrix)", r < 0 ? "crash" : "different"); }
  CASE(ctx, "negative value") { int v[] = {0, -1}; int r = mc::in_child([&] { return (int)sym_lib::test_unique(2, v); }); ctx.call(); ctx.checked(); if (r) ctx.fail("test_unique", r < 0 ? "crash" : "accepted"); }
  CASE(ctx, "value out of range") { int v[] = {0, 1, 3}; int r = mc::in_child([&] { return (int)sym_lib::test_unique(3, v); }); ctx.call(); ctx.checked(); if (r) ctx.fail("test_unique", r < 0 ? "crash" : "accepted"); }
}
static void norms(Ctx &ctx) {
  ctx.space = "norms"; VD al = {0., 1, -1, 2.5, -3, 1e300, NaN, INF, -INF};
  for (int n = 0; n <= 4; ++n) CASE(ctx, "norm of vectors of length ", n) vectors<double>(n, al, [&](const VD &v) { double e = 0; for (double x : v) { if (x != x) e = NaN; else if (e == e) e = std::max(e, std::fabs(x)); } VD c(v); double g = sym_lib::norm(n, c.data()); ctx.call(); ctx.checked(mc::H().arr(&e, 1).h); if (!(g == e || (g != g && e != e))) ctx.fail("norm", mc::cat(s(v), ": ", g)); });
  for (int n = 0; n <= 3; ++n) CASE(ctx, "difference of vectors of length ", n) vectors<double>(n, al, [&](const VD &v) { vectors<double>(n, al, [&](const VD &w) { for (int b = 0; b <= n; ++b) for (int f = b; f <= n; ++f) { double e = 0; bool amb = false; for (int k = b; k < f; ++k) { if (std::isinf(v[k]) && v[k] == w[k]) amb = true; double d = std::fabs(v[k] - w[k]); if (d != d) e = NaN; else if (e == e) e = std::max(e, d); } if (amb) continue;
    double g = sym_lib::residual(b, f, v.data(), w.data()); ctx.call(); ctx.checked(mc::H().arr(&e, 1).h); if (!(g == e || (g != g && e != e))) ctx.fail("residual", mc::cat(s(v), " and ", s(w), " in [", b, ",", f, "): ", g)); } }); });
}
static void rhs(Ctx &ctx) {
  ctx.space = "right-hand sides"; int N = 3;
  for (int n = 0; n <= N; ++n) for (int vs = 0; vs < 2; ++vs) for (int o = 0; o < 3; ++o) for (uint64_t k = 0; k < (1ull << (n * n)); ++k) CASE(ctx, "rhs_init n=", n, " mask=", k, " values=", vs, " order=", o) {
    mat::Cmp a = mat::csc(n, n, k, vs, o); VD b(n, 77), e(n, 0); for (int c = 0; c < n; ++c) for (int q = a.p[c]; q < a.p[c + 1]; ++q) e[a.i[q]] += a.x[q]; mat::Cmp old = a;
    sym_lib::rhs_init(n, a.pp(), a.ii(), a.xx(), b.data()); ctx.call(); ctx.checked(mc::H().arr(b.data(), n).h); if (b != e) ctx.fail("rhs_init", mc::cat(a.str(), ": ", s(b))); if (!(a == old)) ctx.fail("rhs_init", "changed its input"); }
  ctx.space = "blocked right-hand sides"; int NB = ctx.thorough ? 5 : 4; // all block partitions x all row sets below each block; every column of a block stores the rows of the block
  for (int n = 1; n <= NB; ++n) for (int cut = 0; cut < (1 << (n - 1)); ++cut) { VI st{0}; for (int k = 1; k < n; ++k) if (cut >> (k - 1) & 1) st.push_back(k); st.push_back(n); int B = st.size() - 1; int bits = 0; for (int b = 0; b < B; ++b) bits += n - st[b + 1];
    for (int m = 0; m < (1 << bits); ++m) CASE(ctx, "rhs_init_blocked n=", n, " starts=", mc::str(st), " rows=", m) { std::vector<size_t> p{0}, ip; VI idx; VD x, e(n, 0), b(n, 5); int sh = 0;
      for (int q = 0; q < B; ++q) { size_t at = idx.size(); for (int r = st[q]; r < st[q + 1]; ++r) idx.push_back(r); for (int r = st[q + 1]; r < n; ++r) if (m >> sh++ & 1) idx.push_back(r);
        for (int c = st[q]; c < st[q + 1]; ++c) { ip.push_back(at); for (size_t k = at; k < idx.size(); ++k) { double v = idx[k] < c ? 0 : 1 + idx[k] * 3 + 0.25 * c; x.push_back(v); e[idx[k]] += v; } p.push_back(x.size()); } }
      sym_lib::rhs_init_blocked(n, B, p.data(), idx.data(), ip.data(), x.data(), b.data()); ctx.call(); ctx.checked(mc::H().arr(b.data(), n).h); if (b != e) ctx.fail("rhs_init_blocked", s(b)); } }
}
static void generators(Ctx &ctx) {
  ctx.space = "distinct random numbers";
  for (int n = 0; n <= 8; ++n) for (int m = 0; m <= n; ++m) CASE(ctx, m, " numbers out of ", n) for (unsigned seed = 0; seed < 60; ++seed) for (int pre = 0; pre < 2; ++pre) { VI v(pre, -9), w; sym_lib::generate_uniq_rand_vector(m, n, v, seed); sym_lib::generate_uniq_rand_vector(m, n, w, seed); ctx.call(2); if ((int)v.size() != m + pre || (pre && v[0] != -9)) { ctx.fail("generate_uniq_rand_vector", mc::str(v)); continue; } v.erase(v.begin(), v.begin() + pre); if (seed && v != w) ctx.fail("generate_uniq_rand_vector", "not reproducible"); ctx.checked(mc::H().arr(v.data(), v.size()).h); std::set<int> d(v.begin(), v.end()); if ((int)d.size() != m || (m && (*d.begin() < 0 || *d.rbegin() >= n))) ctx.fail("generate_uniq_rand_vector", mc::str(v)); }
  ctx.space = "random matrices"; int N = ctx.thorough ? 16 : 10;
  for (int n = 1; n <= N; ++n) for (double d : {0., 0.01, 0.1, 0.25, 0.5, 0.75, 0.99, 1.}) for (double mx : {1e4, 1., 0.}) CASE(ctx, "n=", n, " density=", d, " max=", mx) for (unsigned seed = 0; seed < 20; ++seed) {
    auto *A = sym_lib::random_square_sparse(n, d, mx, seed), *B = sym_lib::random_square_sparse(n, d, mx, seed); ctx.call(2); std::string e; int per = std::min(n, (int)(d * n + 1));
    if (!A || !B) e = "no matrix"; else if ((int)A->n != n || (int)A->m != n || (int)A->nnz != n * per || A->p[0] != 0 || A->p[n] != (int)A->nnz) e = "wrong shape"; else for (int c = 0; c < n && e.empty(); ++c) { if (A->p[c + 1] - A->p[c] != per) { e = "wrong column size"; break; } bool dg = false; for (int k = A->p[c]; k < A->p[c + 1]; ++k) { dg |= A->i[k] == c; if (A->i[k] < 0 || A->i[k] >= n || (k > A->p[c] && A->i[k] <= A->i[k - 1])) e = "rows not ascending in range"; if (!(A->x[k] >= 0 && A->x[k] <= mx)) e = "value out of range"; } if (!dg) e = "diagonal missing"; }
    if (e.empty() && seed) { for (int k = 0; k <= n; ++k) if (A->p[k] != B->p[k]) e = "pattern not reproducible"; for (int k = 0; k < (int)A->nnz && e.empty(); ++k) if (A->i[k] != B->i[k]) e = "pattern not reproducible"; }
    if (!e.empty()) ctx.fail("random_square_sparse", mc::cat(e, " seed=", seed)); else ctx.checked(mc::H().arr(A->i, A->nnz).h); delete A; delete B; }
  ctx.space = "random numbers"; for (double a : {-2., 0., 1.}) for (double w : {0., 1., 1e6}) CASE(ctx, "between ", a, " and ", a + w) for (int k = 0; k < 2000; ++k) { double g = sym_lib::double_rand(a, a + w); ctx.call(); ctx.checked(0); if (!(g >= a && g <= a + w)) ctx.fail("double_rand", mc::cat(g)); }
}
static void sizes(Ctx &ctx) {
  typedef unsigned __int128 U; const size_t MX = SIZE_MAX; std::set<size_t> al; for (size_t k = 0; k <= 20; ++k) { al.insert(k); al.insert(MX - k); }
  for (int b = 4; b < 64; ++b) for (int d = -2; d <= 2; ++d) al.insert((size_t(1) << b) + d); for (size_t k = 2; k < 40; ++k) for (int d = -1; d <= 1; ++d) al.insert(MX / k + d);
  for (size_t k : {0xFFFFFFFFull, 0xAAAAAAAAAAAAAAAAull, 0x5555555555555555ull, 1000003ull}) al.insert(k);
  ctx.space = "overflow-checked sizes"; for (size_t a : al) CASE(ctx, "sizes ", a, " with every size of the menu") for (size_t b : al) for (int in : {0, 1, 7}) {
    int ok = in; size_t g = sym_lib::mult_size_t(a, b, &ok); U p = (U)a * b; bool fits = in && p <= MX; ctx.call(); ctx.checked(fits); if ((ok != 0) != fits || g != (fits ? (size_t)p : 0)) ctx.fail("mult_size_t", mc::cat(a, " * ", b, " ok=", in, ": ", g, " ok=", ok));
    ok = in; g = sym_lib::add_size_t(a, b, &ok); p = (U)a + b; fits = in && p <= MX; ctx.call(); ctx.checked(fits + 2); if ((ok != 0) != fits || g != (fits ? (size_t)p : 0)) ctx.fail("add_size_t", mc::cat(a, " + ", b, " ok=", in, ": ", g, " ok=", ok)); }
}
static void times(Ctx &ctx) {
  ctx.space = "median time"; for (int n = 0; n <= (ctx.thorough ? 7 : 6); ++n) CASE(ctx, "time lists of length ", n) vectors<double>(n, {3., 1., 2., 0.5, 7.}, [&](const VD &v) { std::vector<sym_lib::timing_measurement> t(n); for (int k = 0; k < n; ++k) t[k].elapsed_time = v[k]; double g = sym_lib::time_median(t).elapsed_time; VD w(v); std::sort(w.begin(), w.end()); ctx.call(); ctx.checked(mc::H().arr(&g, 1).h); bool ok = n == 0 ? g == -1 : g == w[n / 2]; if (!ok) ctx.fail("time_median", mc::cat(s(v), ": ", g)); });
  ctx.space = "sums"; for (int n = 0; n <= 5; ++n) CASE(ctx, "sums of length ", n) { vectors<double>(n, {3., -1., 0.5, 0.}, [&](const VD &v) { VD c(v); double e = 0; for (double x : v) e += x; double g = sym_lib::sum_vector(n, c.data()); ctx.call(); ctx.checked(mc::H().arr(&e, 1).h); if (g != e) ctx.fail("sum_vector", mc::cat(s(v), ": ", g)); }); vectors<int>(n, {3, -1, 1 << 20}, [&](const VI &v) { VI c(v); int e = 0; for (int x : v) e += x; int g = sym_lib::sum_vector(n, c.data()); ctx.call(); ctx.checked(e); if (g != e) ctx.fail("sum_vector", mc::cat(mc::str(v), ": ", g)); }); }
}
static void strings(Ctx &ctx) {
  ctx.space = "strings"; for (int n = 0; n <= (ctx.thorough ? 8 : 7); ++n) CASE(ctx, "strings of length ", n) { vectors<char>(n, {'a', ' ', '\t', '\n'}, [&](const std::vector<char> &v) { std::string t(v.begin(), v.end()), e = t, g = t; while (!e.empty() && e[0] != 'a') e.erase(0, 1); while (!e.empty() && e.back() != 'a') e.pop_back(); sym_lib::trim(g); ctx.call(); ctx.checked(g.size()); if (g != e) ctx.fail("trim", mc::jesc(t) + " became " + mc::jesc(g)); });
    vectors<char>(n, {'a', 'b', '.', '/'}, [&](const std::vector<char> &v) { std::string t(v.begin(), v.end()), e = t; size_t q = e.rfind('/'); if (q != std::string::npos) e = e.substr(q + 1); q = e.rfind('.'); if (q != std::string::npos) e = e.substr(0, q); std::string g = sym_lib::strip_name(t); ctx.call(); ctx.checked(g.size()); if (g != e) ctx.fail("strip_name", t + " gave " + g + " instead of " + e); }); }
}
// the demo driver: inspects once, runs the code the requested number of times on fresh vectors, reports the median and says so when the answer is wrong
struct Demo : sym_lib::FusionDemo {
  VD ans, tm; int runs = 0, built = 0; bool fresh = true;
  Demo(int n, double *correct, const VD &a, const VD &t) : FusionDemo(n, "demo"), ans(a), tm(t) { correct_x_ = correct; set_num_test(t.size()); }
  void build_set() override { ++built; }
  sym_lib::timing_measurement fused_code() override { for (int k = 0; k < n_; ++k) { fresh = fresh && x_in_[k] == 1 && x_[k] == 0; x_in_[k] = 9; x_[k] = ans[k]; } sym_lib::timing_measurement t; t.elapsed_time = tm[runs++]; return t; }
};
static void demo(Ctx &ctx) {
  ctx.space = "demo driver"; for (int n = 1; n <= 3; ++n) for (int nt = 1; nt <= 3; ++nt) for (int has = 0; has < 2; ++has) CASE(ctx, "unknowns=", n, " runs=", nt, " reference=", has) vectors<double>(n, {1., 1 + 5e-7, 1 + 5e-6, NaN, INF}, [&](const VD &a) { vectors<double>(nt, {1., 2., 3.}, [&](const VD &t) {
    VD ref(n, 1.); Demo d(n, has ? ref.data() : nullptr, a, t); std::ostringstream o; auto *sb = std::cout.rdbuf(o.rdbuf()); double g = d.evaluate().elapsed_time; std::cout.rdbuf(sb); VD w(t); std::sort(w.begin(), w.end()); bool wrong = false; for (double x : a) wrong = wrong || !agree(x, 1., 1e-6); wrong = wrong && has; ctx.call(); ctx.checked(wrong);
    if (d.built != 1 || d.runs != nt || !d.fresh || g != w[nt / 2]) ctx.fail("evaluate", mc::cat("inspected ", d.built, " times, ran ", d.runs, " times, vectors ", d.fresh ? "fresh" : "reused", ", time ", g));
    if ((o.str().find("!=") != std::string::npos) != wrong) ctx.fail("testing", mc::cat(wrong ? "did not report " : "reported ", s(a))); for (int k = 0; k < n; ++k) if (!(d.solution()[k] == a[k] || a[k] != a[k])) ctx.fail("evaluate", "solution lost"); }); });
  ctx.space = "long answers"; for (int n : {5, 8, 16, 17, 31, 32, 33, 64, 65, 100, 128, 257, 1000, 1001, 1025, 32769, 65537, 70001}) CASE(ctx, "unknowns=", n) { std::set<int> at{-1, 0, 1, n / 2, n - 2, n - 1}; for (int k = 3; k < n; k = n <= 65 ? k + 1 : 2 * k) at.insert(k), at.insert(k - 1); for (int k : at) for (double v : {1 + 5e-6, NaN}) { VD a(n, 1.), ref(n, 1.); if (k >= 0) a[k] = v; Demo d(n, ref.data(), a, {2., 1., 3.}); std::ostringstream o; auto *sb = std::cout.rdbuf(o.rdbuf()); double g = d.evaluate().elapsed_time; std::cout.rdbuf(sb); ctx.call(); if (d.built != 1 || d.runs != 3 || !d.fresh || g != 2) ctx.fail("evaluate", mc::cat("long answers n=", n)); if ((o.str().find("!=") != std::string::npos) != (k >= 0)) ctx.fail("testing", mc::cat("entry ", k, " of ", n, " is ", v)); } ctx.checked(n); }
  ctx.space = "many runs"; for (int nt = 0; nt <= 300; nt < 40 ? ++nt : nt += 65) CASE(ctx, "runs=", nt) { VD t, a(2, 1.); for (int k = 0; k < nt; ++k) t.push_back((k * 37) % nt); VD w(t); std::sort(w.begin(), w.end()); Demo d(2, a.data(), a, t); double g = d.evaluate().elapsed_time; ctx.call(); ctx.checked(nt); if (d.runs != nt || !d.fresh || d.built != 1 || g != (nt ? w[nt / 2] : -1)) ctx.fail("evaluate", mc::cat(d.runs, " of ", nt, " runs, time ", g)); }
}
// lengths around every unrolling and counter width; the only difference at every position that matters
static void longer(Ctx &ctx) {
  ctx.space = "long vectors"; std::set<int> len; for (int k = 5; k <= 40; ++k) len.insert(k); for (int b : {64, 100, 128, 256, 1000, 1024, 32768, 65536, 70000}) for (int d = -1; d <= 1; ++d) len.insert(b + d);
  for (int n : len) { std::set<int> at{0, 1, n / 2, n - 2, n - 1}; if (n <= 40) for (int k = 0; k < n; ++k) at.insert(k); else for (int k : {15, 16, 31, 32, 63, 64, 255, 256, 32767, 32768, 65535, 65536}) if (k < n) at.insert(k);
    CASE(ctx, "one entry of ", n, " differs") { VD a(n, 2), b(n, 2); auto bad = [&](const char *f, int k, double v) { ctx.fail(f, mc::cat("entry ", k, " is ", v)); }; if (!sym_lib::is_equal<double>(n, a.data(), 2.) || !sym_lib::is_equal<double>(0, n, a.data(), b.data())) bad("is_equal", -1, 2); if (sym_lib::norm(n, a.data()) != 2 || sym_lib::residual(0, n, a.data(), b.data()) != 0 || sym_lib::sum_vector(n, a.data()) != 2. * n) bad("norm", -1, 2);
      for (int k : at) for (double v : {3., 1., -2., 2 + 1e-6, 2 + 1e-10, INF, -INF, NaN}) { double o = a[k]; a[k] = v; bool e = agree(v, 2., 1e-8); if (v == v && sym_lib::is_equal<double>(n, a.data(), 2.) != e) bad("is_equal(value)", k, v); if (sym_lib::is_equal<double>(0, n, a.data(), b.data()) != e || sym_lib::is_equal<double>(0, n, b.data(), a.data()) != e || sym_lib::is_equal<double>(k, n, a.data(), b.data()) != e || !sym_lib::is_equal<double>(0, k, a.data(), b.data()) || !sym_lib::is_equal<double>(k + 1, n, a.data(), b.data())) bad("is_equal(range)", k, v);
        double g = sym_lib::norm(n, a.data()), w = v != v ? NaN : std::max(2., std::fabs(v)); if (!(g == w || (g != g && w != w))) bad("norm", k, v); g = sym_lib::residual(0, n, a.data(), b.data()); w = std::fabs(v - 2); if (!(g == w || (g != g && w != w))) bad("residual", k, v); if (v == 3 && sym_lib::sum_vector(n, a.data()) != 2. * n + 1) bad("sum_vector", k, v); ctx.call(8); a[k] = o; }
      ctx.checked(n); }
    CASE(ctx, "permutations of ", n) { VI v(n); for (int k = 0; k < n; ++k) v[k] = n - 1 - k; auto t = [&](bool e, int k) { VI c(v); if (sym_lib::test_unique(n, c.data()) != e) ctx.fail("test_unique", mc::cat("entry ", k)); ctx.call(); }; t(true, -1); for (int k : at) { int o = v[k]; v[k] = k ? n - 1 : 0; t(false, k); v[k] = o; int z = n - 1 - k; std::swap(v[k], v[z]); t(true, k); std::swap(v[k], v[z]); } ctx.checked(n); }
    CASE(ctx, "times of ", n) { std::vector<sym_lib::timing_measurement> t(n); for (int k = 0; k < n; ++k) t[k].elapsed_time = (k * 7919LL) % n; VD w; for (auto &x : t) w.push_back(x.elapsed_time); std::sort(w.begin(), w.end()); double g = sym_lib::time_median(t).elapsed_time; ctx.call(); if (g != w[n / 2]) ctx.fail("time_median", mc::cat(g)); ctx.checked(n); } }
  ctx.space = "large matrices"; mat::large(false, [&](const std::string &nm, const std::function<mat::Cmp(int)> &mk) { CASE(ctx, nm) { mat::Cmp a = mk(0); auto *A = mat::make<sym_lib::CSC>(a), *B = mat::make<sym_lib::CSC>(a); int z = a.nnz(); auto t = [&](bool e, const char *w, int k) { if (sym_lib::is_equal(A, B) != e || sym_lib::is_equal(B, A) != e) ctx.fail("is_equal(matrix)", mc::cat(w, " ", k)); ctx.call(2); }; t(true, "same", 0);
    for (int k : {0, 1, z / 2, z - 2, z - 1, 32768, 65536}) if (k >= 0 && k < z) { double o = B->x[k]; B->x[k] = o + 1; t(false, "value", k); B->x[k] = o + 1e-10; t(std::fabs(B->x[k] - A->x[k]) <= 1e-8, "close value", k); B->x[k] = o; int i = B->i[k]; B->i[k] = i ? i - 1 : a.nmin - 1; if (B->i[k] != i) t(false, "row", k); B->i[k] = i; }
    for (int k : {1, a.nmaj / 2, a.nmaj - 1, 32768, 65536}) if (k > 0 && k < a.nmaj) { int o = B->p[k]; B->p[k] = o > 0 ? o - 1 : o + (z > 0); if (B->p[k] != o) t(false, "pointer", k); B->p[k] = o; }
    if (a.nmin == a.nmaj) { int n = a.nmaj; VD e(n, 0), b(n, 9); for (int k = 0; k < z; ++k) e[a.i[k]] += a.x[k]; sym_lib::rhs_init(n, a.pp(), a.ii(), a.xx(), b.data()); ctx.call(); if (b != e) ctx.fail("rhs_init", "wrong sums"); }
    delete A; delete B; ctx.checked(mat::hash(a)); } });
  ctx.space = "large random matrices"; for (int n : {257, 1000, 3000}) for (double d : {0.001, 0.05, 0.3}) CASE(ctx, "n=", n, " density=", d) { auto *A = sym_lib::random_square_sparse(n, d, 10, 7); ctx.call(); int per = std::min(n, (int)(d * n + 1)); bool bad = !A || (int)A->n != n || (int)A->nnz != n * per || A->p[n] != n * per; for (int c = 0; c < n && !bad; ++c) { bool dg = false; bad = A->p[c + 1] - A->p[c] != per; for (int k = A->p[c]; k < A->p[c + 1] && !bad; ++k) { dg |= A->i[k] == c; bad = A->i[k] < 0 || A->i[k] >= n || (k > A->p[c] && A->i[k] <= A->i[k - 1]); } bad = bad || !dg; } if (bad) ctx.fail("random_square_sparse", "not the promised pattern"); delete A; ctx.checked(n); }
  ctx.space = "long strings"; for (int n : {30, 255, 256, 300, 70000}) CASE(ctx, "length ", n) { std::string core(n, 'x'); core[n / 2] = ' '; for (std::string pre : {"", " ", "\t\n "}) for (std::string post : {"", " ", " \n\t"}) for (int m : {1, 300}) { std::string t; for (int k = 0; k < m; ++k) t += pre; t += core; for (int k = 0; k < m; ++k) t += post; sym_lib::trim(t); ctx.call(); if (t != core) ctx.fail("trim", "wrong result"); } std::string f = std::string(n, 'd') + "/" + std::string(n, 'e') + ".a." + std::string(n, 'f'); std::string g = sym_lib::strip_name(f); ctx.call(); if (g != std::string(n, 'e') + ".a") ctx.fail("strip_name", "wrong result"); ctx.checked(n); }
}
static void run(Ctx &ctx) {
  VD al = {1, 1 + 5e-9, 1 + 3e-8, -1, 0, NaN, INF, -INF};
  equal<double>(ctx, "double", al, 1e-8, true, 4); equal<double>(ctx, "double", {0, 0.4, 0.6, -0.4, 1e300, -1e300, NaN, INF}, 0.5, false, 3); equal<double>(ctx, "double", {0, 1e-300, -1e-300, NaN}, 0., false, 4);
  equal<float>(ctx, "float", {0.f, 0.25f, 1.f, -1.f, (float)NaN, (float)INF}, 0.5, false, 3); equal<int>(ctx, "int", {0, 1, 2, -1, 1000000}, 1e-8, true, 4); equal<int>(ctx, "int", {0, 1, 3, -1}, 1.5, false, 4);
  equal_csc(ctx); unique(ctx); recorded(ctx); norms(ctx); rhs(ctx); generators(ctx); sizes(ctx); times(ctx); strings(ctx); demo(ctx); longer(ctx);
}
MC_MAIN(run)
