// C27: text output (schedules, vectors, sections, statistics rows) contains exactly the data it was given
#include "graph.hpp"
#include "io_common.hpp"
#include <iomanip>
#include "aggregation/sparse_utilities.h"
#include "aggregation/FusionDemo.h"
using namespace sym_lib; using mc::Ctx; typedef std::vector<int> VI; typedef std::vector<double> VD;
// what a call prints on the standard output stream, which it leaves as it was
template <class F> static std::string printed(Ctx &ctx, const char *nm, F f) { std::stringbuf b; auto *old = std::cout.rdbuf(&b); std::cout.clear(); f(); if (std::cout.rdbuf() != &b || !std::cout) ctx.fail(nm, "standard output is left redirected or failed"); std::cout.rdbuf(old); ctx.call(); return b.str(); }
template <class F> static std::string written(Ctx &ctx, F f) { std::string p = ctx.scratch + "/p"; FILE *o = fopen(p.c_str(), "w"); if (!o) abort(); f(fileno(o)); fclose(o); ctx.call(); return io::get(p); }
static bool numbers(std::string s, VI &r) { for (char &c : s) if (c == ',' || c == ';') c = ' '; std::istringstream i(s); std::string t; while (i >> t) { long v; if (!io::strict_int(t, v)) return false; r.push_back(v); } return true; }
static std::vector<std::string> lines(const std::string &s) { std::vector<std::string> r; std::istringstream i(s); std::string l; while (std::getline(i, l)) r.push_back(l); return r; }
static const std::string HD = "head\n";
static std::string body_of(Ctx &ctx, const char *nm, const std::string &s) { if (s.compare(0, HD.size(), HD)) { ctx.fail(nm, "does not start with its header: " + mc::jesc(s)); return ""; } return s.substr(HD.size()); }
// one line per level holding its members
static void level(Ctx &ctx, const VI &p, VI s) {
  int L = p.size() - 1; VI q = p, t = s; std::string o = printed(ctx, "print_level_set", [&] { print_level_set(HD, L, q.data(), t.data()); }), b = body_of(ctx, "print_level_set", o);
  auto l = lines(b); if ((int)l.size() != L) { ctx.fail("print_level_set", mc::cat(l.size(), " lines for ", L, " levels: ", mc::jesc(o))); return; }
  for (int k = 0; k < L; ++k) { VI v; if (!numbers(l[k], v) || v != VI(s.begin() + p[k], s.begin() + p[k + 1])) { ctx.fail("print_level_set", mc::cat("level ", k, " printed as ", mc::jesc(l[k]), " of ", mc::str(p), mc::str(s))); return; } }
  if (q != p || t != s) ctx.fail("print_level_set", "changed its input"); ctx.checked(std::hash<std::string>()(o));
}
// partitions end with ';', levels with a blank line
static void hlevel(Ctx &ctx, const VI &lp, const VI &pp, VI np) {
  int L = lp.size() - 1; VI t = np; std::string o = printed(ctx, "print_hlevel_set", [&] { print_hlevel_set(HD, L, lp.data(), pp.data(), t.data()); }), b = body_of(ctx, "print_hlevel_set", o);
  std::vector<std::vector<VI>> got(1); VI cur; std::string tok; bool ok = true; auto num = [&] { VI v; if (!numbers(tok, v)) ok = false; cur.insert(cur.end(), v.begin(), v.end()); tok.clear(); };
  int nl = 0; for (char c : b) { if (c == '\n') { if (++nl == 2) { num(); if (!cur.empty()) ok = false; cur.clear(); got.push_back({}); nl = got.back().empty() ? 0 : 0; } continue; } if (c == ' ') continue; nl = 0; if (c == ';') { num(); got.back().push_back(cur); cur.clear(); } else tok += c == ',' ? ' ' : c; }
  (void)nl; if (got.back().empty()) got.pop_back(); std::vector<std::vector<VI>> want(L); for (int l = 0; l < L; ++l) for (int k = lp[l]; k < lp[l + 1]; ++k) want[l].push_back(VI(np.begin() + pp[k], np.begin() + pp[k + 1]));
  if (!ok || !tok.empty() || got != want) ctx.fail("print_hlevel_set", "printed " + mc::jesc(o) + " for " + mc::str(lp) + mc::str(pp) + mc::str(np)); if (t != np) ctx.fail("print_hlevel_set", "changed its input"); ctx.checked(std::hash<std::string>()(o));
}
static void vec(Ctx &ctx, const VD &v) {
  int n = v.size(); VD c = v; for (int b = 0; b <= n; ++b) for (int e = b; e <= n; ++e) {
    std::string o = printed(ctx, "print_vec", [&] { print_vec(HD, b, e, c.data()); }), s = body_of(ctx, "print_vec", o); for (char &ch : s) if (ch == ',') ch = ' '; std::istringstream i(s); VD g; double x; while (i >> x) g.push_back(x); VD w; for (int k = b; k < e; ++k) { char z[64]; snprintf(z, 64, "%.15g", v[k]); w.push_back(atof(z)); } if (g != w || lines(s).size() != 1) ctx.fail("print_vec", mc::cat("range ", b, "..", e, " of ", mc::str(v), " printed as ", mc::jesc(o)));
    VD d(n + 1, -7), w2(n + 1, -7); for (int k = b; k < e; ++k) w2[k] = v[k]; copy_vector(b, e, c.data(), d.data()); if (d != w2) ctx.fail("copy_vector", mc::str(d) + " expected " + mc::str(w2)); ctx.call(); }
  std::string p = ctx.scratch + "/v"; save_vector(&p[0], c.data(), n); ctx.call(); auto l = lines(io::get(p)); bool ok = (int)l.size() == n; for (int k = 0; ok && k < n; ++k) { char z[400]; snprintf(z, 400, "%f", v[k]); ok = atof(l[k].c_str()) == atof(z); } if (!ok) ctx.fail("save_vector", mc::jesc(io::get(p)) + " for " + mc::str(v));
  if (c != v) ctx.fail("vectors", "input changed"); mc::H h; for (double x : v) h.u((int64_t)(x * 64)); ctx.checked(h.u(n).h);
}
static void dense(Ctx &ctx, int m, int n, const VD &v) {
  Dense D(m, n, 1); std::copy(v.begin(), v.end(), D.a); auto l = lines(written(ctx, [&](int fd) { print_dense(fd, &D); })); bool ok = (int)l.size() == m; for (int r = 0; ok && r < m; ++r) { std::istringstream i(l[r]); VD g; double x; while (i >> x) g.push_back(x); VD w; for (int c = 0; c < n; ++c) w.push_back(v[r + c * m]); ok = g == w; }
  if (!ok) ctx.fail("print_dense", mc::cat(m, "x", n, " ", mc::str(v))); ctx.checked(mc::H().u(m).u(n).h);
}
// indented sections: each is read back, whatever follows it
static void section(Ctx &ctx, const std::vector<std::string> &secs, const std::string &tail) {
  std::string f = ctx.scratch + "/s"; { std::ofstream o(f); for (auto &s : secs) { o << "name:\n"; printed(ctx, "print_string", [&] { print_string(s, o.rdbuf(), "  "); }); } o << tail; }
  std::ifstream in(f); for (size_t k = 0; k < secs.size(); ++k) { std::string l, got, want; std::getline(in, l); if (l != "name:") { ctx.fail("read_string", mc::cat("section ", k, " does not start where the one before it ends, found ", mc::jesc(l))); return; } { io::Quiet q; read_string(in, got, "  "); } ctx.call(); for (auto &x : lines(secs[k])) want += x + "\n"; if (got != want) { ctx.fail("read_string", mc::cat("section ", k, " read back as ", mc::jesc(got), " instead of ", mc::jesc(want), " file ", mc::jesc(io::get(f)))); return; } }
  ctx.checked(std::hash<std::string>()(io::get(f)));
}
static void stats(Ctx &ctx, int m, int nz, int lz, int threads) { // lz < 0: no factor
  CSC B(m, m, nz), L(m, m, std::max(lz, 0)); auto cells = [](const std::string &s) { std::vector<std::string> r; std::string t; for (char c : s) if (c == ',') { r.push_back(t); t.clear(); } else t += c; if (!t.empty()) r.push_back(t); return r; };
  auto h = cells(printed(ctx, "print_common_header", [] { print_common_header(); })), r = cells(printed(ctx, "print_common", [&] { print_common("mat", "var", "str", &B, lz < 0 ? nullptr : &L, threads); }));
  std::vector<std::string> w = {"mat", mc::cat(m), mc::cat(nz), mc::cat(std::max(lz, 0)), "var", "str", "Metis", mc::cat(threads)}; if (h.size() != w.size()) ctx.fail("print_common_header", mc::cat(h.size(), " columns")); if (r != w) ctx.fail("print_common", "row " + mc::str(r)); ctx.checked(mc::H().u(m).u(nz).u(lz).u(threads).h);
}
static void body(Ctx &ctx) {
  bool T = ctx.thorough; int N = T ? 7 : 6;
  ctx.space = "level sets: every split of n iterations into levels, with empty levels";
  for (int n = 0; n <= N; ++n) for (int L = 0; L <= 4; ++L) { VI p(L + 1, 0); std::function<void(int)> rec = [&](int k) { if (k >= L) { if (L && p[L - 1] > n) return; if (L) p[L] = n; CASE(ctx, "n=", n, " ", mc::str(p)) { VI s(n); for (int v = 0; v < n; ++v) s[v] = (v * 11 + 7) % 13; level(ctx, L || !n ? p : p, s); } return; } for (int x = k ? p[k - 1] : 0; x <= n; ++x) { p[k] = x; if (!k) { p[0] = 0; rec(1); break; } rec(k + 1); } }; if (L == 0) { CASE(ctx, "no level n=", n) level(ctx, VI{0}, VI(n)); } else rec(0); }
  ctx.space = "coarsened level sets: every split into levels, partitions and iterations";
  for (int P = 0; P <= (T ? 5 : 4); ++P) for (int n = 0; n <= (T ? 5 : 4); ++n) for (int L = 1; L <= 3; ++L) { int a = 1; for (int k = 0; k < L - 1; ++k) a *= P + 1; int b = 1; for (int k = 0; k < P - 1; ++k) b *= n + 1; for (int x = 0; x < a; ++x) { VI lp(L + 1, 0); int y = x; for (int k = 1; k < L; ++k) lp[k] = y % (P + 1), y /= P + 1; lp[L] = P; if (!std::is_sorted(lp.begin(), lp.end())) continue; if (P == 0 && n) continue; for (int u = 0; u < b; ++u) { VI pp(P + 1, 0); int w = u; for (int k = 1; k < P; ++k) pp[k] = w % (n + 1), w /= n + 1; pp[P] = n; if (!std::is_sorted(pp.begin(), pp.end())) continue;
          // a level without partitions cannot be told from the blank line that ends a level
          bool gap = false; for (int k = 0; k < L; ++k) gap |= lp[k] == lp[k + 1]; if (gap) continue; CASE(ctx, "n=", n, " ", mc::str(lp), mc::str(pp)) { VI s(n); for (int v = 0; v < n; ++v) s[v] = (v * 5 + 3) % 17; hlevel(ctx, lp, pp, s); } } } }
  ctx.space = "vectors over an alphabet"; { const VD al = {0, 1, -2.5, 1e-5, 123456789.25, 1.0 / 3}; for (int n = 0; n <= (T ? 4 : 3); ++n) { long k = 1; for (int i = 0; i < n; ++i) k *= al.size(); for (long x = 0; x < k; ++x) CASE(ctx, "n=", n, " word ", x) { VD v; long y = x; for (int i = 0; i < n; ++i) v.push_back(al[y % al.size()]), y /= al.size(); vec(ctx, v); } } }
  ctx.space = "dense matrices"; for (int m = 1; m <= 4; ++m) for (int n = 1; n <= 4; ++n) for (int k = 0; k < 4; ++k) CASE(ctx, m, "x", n, " values ", k) { VD v; for (int i = 0; i < m * n; ++i) v.push_back(k == 0 ? i + 1 : k == 1 ? -0.5 * i : k == 2 ? (i % 2 ? 1e6 + i : 0) : i * 0.125); dense(ctx, m, n, v); }
  ctx.space = "sections of text"; { const std::string al = "a-\n:1"; std::vector<std::string> t; for (int n = 0; n <= (T ? 5 : 4); ++n) { long k = 1; for (int i = 0; i < n; ++i) k *= al.size(); for (long x = 0; x < k; ++x) { std::string s; long y = x; for (int i = 0; i < n; ++i) s += al[y % al.size()], y /= al.size(); t.push_back(s); } }
    for (auto &s : t) for (const char *tail : {"", "next: 4\n", "name:\n  more\n"}) CASE(ctx, mc::jesc(s), " then ", mc::jesc(tail)) section(ctx, {s}, tail); for (size_t i = 0; i < t.size() && t[i].size() < 4; ++i) for (size_t j = 0; j < t.size() && t[j].size() < 4; ++j) CASE(ctx, mc::jesc(t[i]), " and ", mc::jesc(t[j])) section(ctx, {t[i], t[j]}, ""); }
  ctx.space = "statistics rows"; for (int m = 0; m <= 3; ++m) for (int nz = 0; nz <= 4; ++nz) for (int lz = -1; lz <= 4; ++lz) for (int t = 1; t <= 3; ++t) CASE(ctx, "m=", m, " nnz=", nz, " L=", lz, " threads=", t) stats(ctx, m, nz, lz, t);
  ctx.space = "large data"; for (int n : {255, 256, 257, 70000}) { CASE(ctx, "level sets n=", n) { VI s(n); for (int v = 0; v < n; ++v) s[v] = (v * 7LL + 3) % 100003; level(ctx, {0, n}, s); VI p(n + 1); std::iota(p.begin(), p.end(), 0); level(ctx, p, s); level(ctx, {0, 1, 1, n / 2, n}, s); VI one{0, n / 3, n}; hlevel(ctx, {0, 1, 2}, one, s); hlevel(ctx, {0, n}, p, s); hlevel(ctx, p, p, s); }
    CASE(ctx, "vector n=", n) { VD v(n); for (int k = 0; k < n; ++k) v[k] = (k * 37 % 1001) / 8.0 - 3; auto pr = [&](int b, int e) { std::string o = printed(ctx, "print_vec", [&] { print_vec(HD, b, e, v.data()); }), t = body_of(ctx, "print_vec", o); for (char &c : t) if (c == ',') c = ' '; std::istringstream i(t); VD g; double x; while (i >> x) g.push_back(x); if (g != VD(v.begin() + b, v.begin() + e)) ctx.fail("print_vec", mc::cat("range ", b, "..", e)); VD d(n + 1, -7), w(n + 1, -7); std::copy(v.begin() + b, v.begin() + e, w.begin() + b); copy_vector(b, e, v.data(), d.data()); if (d != w) ctx.fail("copy_vector", mc::cat("range ", b, "..", e)); ctx.call(); }; pr(0, n); pr(1, n - 1); pr(n - 1, n); pr(n / 2, n);
      std::string f = ctx.scratch + "/v"; save_vector(&f[0], v.data(), n); auto l = lines(io::get(f)); bool ok = (int)l.size() == n; for (int k = 0; ok && k < n; ++k) ok = atof(l[k].c_str()) == v[k]; if (!ok) ctx.fail("save_vector", "wrong lines"); ctx.checked(n); }
    for (auto &d : std::vector<std::pair<int, int>>{{n, 1}, {1, n}, {n, 3}, {3, n}}) CASE(ctx, "dense ", d.first, "x", d.second) { VD v((size_t)d.first * d.second); for (size_t k = 0; k < v.size(); ++k) v[k] = k % 1000 * 0.5; dense(ctx, d.first, d.second, v); }
    CASE(ctx, "sections of ", n) { std::string many, wide(n, 'w'); for (int k = 0; k < n; ++k) many += mc::cat("l", k, "\n"); section(ctx, {many, wide, many + wide}, "end\n"); } CASE(ctx, "statistics ", n) stats(ctx, n, n + 1, n + 2, n + 3); }
}
MC_MAIN(body)
