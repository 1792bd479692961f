// C14: operations on symmetric matrices
#include "mat.hpp"
#include "aggregation/sparse_utilities.h"
using namespace mat;
using namespace sym_lib;
using mc::Ctx;
namespace sym_lib { __attribute__((weak)) CSC *add(CSC *A, CSC *B, double alpha, double beta, bool sort); }

static double symval(int r, int c, int vs) { if (r < c) std::swap(r, c); return value(r, c, vs); }
// mask over pairs r>=c in column order of the lower half
static uint64_t half_mask(int n, uint64_t k, bool up) { uint64_t m = 0; int b = 0; for (int c = 0; c < n; ++c) for (int r = c; r < n; ++r, ++b) if (k >> b & 1) m |= 1ull << (up ? r * n + c : c * n + r); return m; }
static Cmp half(int n, uint64_t k, bool up, int vs) { Cmp a = csc(n, n, half_mask(n, k, up), vs); if (a.val) for (int c = 0; c < n; ++c) for (int t = a.p[c]; t < a.p[c + 1]; ++t) a.x[t] = symval(a.i[t], c, vs); return a; }
static Cmp full(int n, uint64_t k, int vs) { Cmp a = csc(n, n, half_mask(n, k, 0) | half_mask(n, k, 1), vs); if (a.val) for (int c = 0; c < n; ++c) for (int t = a.p[c]; t < a.p[c + 1]; ++t) a.x[t] = symval(a.i[t], c, vs); return a; }
static Cmp filter(const Cmp &a, bool low) { Cmp b; b.nmaj = a.nmaj; b.nmin = a.nmin; b.val = a.val; for (int c = 0; c < a.nmaj; ++c) { for (int t = a.p[c]; t < a.p[c + 1]; ++t) if (low ? a.i[t] >= c : a.i[t] <= c) { b.i.push_back(a.i[t]); if (a.val) b.x.push_back(a.x[t]); } b.p.push_back(b.i.size()); } return b; }
static Cmp from_dense(int n, const std::vector<VI> &pat, const std::vector<VD> &v, bool val, int lo) { // lo: 0 all, -1 lower, 1 upper
  Cmp b; b.nmaj = b.nmin = n; b.val = val;
  for (int c = 0; c < n; ++c) { for (int r = 0; r < n; ++r) if (pat[r][c] && (lo == 0 || (lo < 0 ? r >= c : r <= c))) { b.i.push_back(r); if (val) b.x.push_back(v[r][c]); } b.p.push_back(b.i.size()); }
  return b;
}
static void dense(const Cmp &a, std::vector<VI> &pat, std::vector<VD> &v) { pat.assign(a.nmin, VI(a.nmaj, 0)); v.assign(a.nmin, VD(a.nmaj, 0)); for (int c = 0; c < a.nmaj; ++c) for (int t = a.p[c]; t < a.p[c + 1]; ++t) { pat[a.i[t]][c] = 1; if (a.val) v[a.i[t]][c] = a.x[t]; } }
struct Chk { Ctx &ctx; void operator()(const std::string &nm, const std::string &e) { if (!e.empty()) ctx.fail(nm, e); ctx.call(); } };
static void st(Ctx &ctx, const std::string &nm, CSC *A, int s) { if (A && A->stype != s) ctx.fail(nm, mc::cat("stype ", A->stype, " expected ", s)); }

static void symmetric(Ctx &ctx, int n, uint64_t k, int vs) {
  Chk chk{ctx}; Cmp f = full(n, k, vs);
  std::vector<VI> pat; std::vector<VD> v; dense(f, pat, v); mc::H h;
  for (int up = 0; up < 2; ++up) {
    std::string u = up ? " (upper)" : " (lower)"; Cmp a = half(n, k, up, vs), o = half(n, k, !up, vs); int s = up ? 1 : -1;
    CSC *A = make<CSC>(a, s);
    CSC *F = make_full(A); chk("make_full" + u, same(f, F)); st(ctx, "make_full" + u, F, 0); chk("make_full input" + u, same(a, A));
    CSC *H = make_half(n, F->p, F->i, F->x, !up); chk("make_half of make_full" + u, same(a, H)); st(ctx, "make_half" + u, H, s); chk("make_half input" + u, same(f, F));
    delete H;
    CSC *Tr = transpose_symmetric(A, nullptr); chk("transpose_symmetric" + u, same(o, Tr)); st(ctx, "transpose_symmetric" + u, Tr, -s); chk("transpose_symmetric input" + u, same(a, A));
    CSC *T2 = transpose_symmetric(Tr, nullptr); chk("transpose_symmetric twice" + u, same(a, T2)); st(ctx, "transpose_symmetric twice" + u, T2, s);
    delete T2; delete Tr;
    for (int low = 0; low < 2; ++low) {
      CSC *S = make_symmetric(A, low); chk(mc::cat("make_symmetric to ", low ? "lower" : "upper", u), same(low == up ? o : a, S)); st(ctx, "make_symmetric" + u, S, low ? -1 : 1); chk("make_symmetric input" + u, same(a, A));
      if (S != A) delete S;
    }
    for (auto &p : perms(n)) {
      std::vector<VI> pp(n, VI(n)); std::vector<VD> pv(n, VD(n)); for (int r = 0; r < n; ++r) for (int c = 0; c < n; ++c) { pp[r][c] = pat[p[r]][p[c]]; pv[r][c] = v[p[r]][p[c]]; }
      VI q = p; CSC *P = transpose_symmetric(A, q.data()); std::string d = u + " p=" + mc::str(p);
      std::string e = same_any_order(from_dense(n, pp, pv, f.val, -s), P);
      if (!e.empty()) ctx.fail("transpose_symmetric permuted" + d, e); st(ctx, "transpose_symmetric permuted" + d, P, -s); if (q != p) ctx.fail("transpose_symmetric", "permutation modified");
      CSC *B = transpose_symmetric(P, nullptr); e = same(from_dense(n, pp, pv, f.val, s), B);
      if (!e.empty()) ctx.fail("permuted and transposed back" + d, e); st(ctx, "permuted and transposed back" + d, B, s);
      VI ip(n); inv_perm(n, q.data(), ip.data()); CSC *C = transpose_symmetric(P, ip.data());
      e = same_any_order(a, C); if (!e.empty()) ctx.fail("permutation and its inverse" + d, e);
      e = same(a, A); if (!e.empty()) ctx.fail("transpose_symmetric input" + d, e);
      ctx.call(3); h.u(P->p[n / 2]); delete P; delete B; delete C;
    }
    delete F; delete A;
  }
  CSC *G = make<CSC>(f, 0);
  { std::streambuf *b = std::cerr.rdbuf(nullptr); CSC *N = make_full(G); std::cerr.rdbuf(b); std::cerr.clear(); if (N) ctx.fail("make_full", "accepted a matrix that is not a symmetric half"); if (transpose_symmetric(G, nullptr)) ctx.fail("transpose_symmetric", "accepted a matrix that is not a symmetric half"); ctx.call(2); }
  delete G; ctx.checked(h.u(hash(f)).h);
}
static void badperms(Ctx &ctx, int n, const VI &p) {
  bool ok = true; VI seen(n, 0); for (int x : p) if (x < 0 || x >= n || seen[x]++) { ok = false; break; }
  if (ok) return;
  for (int s = -1; s < 2; s += 2) { CSC *A = make<CSC>(half(n, (1u << (n * (n + 1) / 2)) - 1, s > 0, 0), s); VI q = p; if (transpose_symmetric(A, q.data())) ctx.fail("transpose_symmetric", "accepted " + mc::str(p)); delete A; ctx.call(); }
  ctx.checked(1);
}
static void general(Ctx &ctx, int n, uint64_t k, int vs, int order) {
  Chk chk{ctx}; Cmp a = csc(n, n, k, vs, order); std::vector<VI> pat; std::vector<VD> v; dense(a, pat, v);
  CSC *A = make<CSC>(a, 0);
  for (int low = 0; low < 2; ++low) {
    CSC *H = make_half(n, A->p, A->i, A->x, low); chk(mc::cat("make_half ", low), same(filter(a, low), H)); st(ctx, mc::cat("make_half ", low), H, low ? -1 : 1); delete H;
    std::vector<VI> sp(n, VI(n)); std::vector<VD> sv(n, VD(n)); for (int r = 0; r < n; ++r) for (int c = 0; c < n; ++c) { sp[r][c] = pat[r][c] || pat[c][r]; sv[r][c] = 0.5 * v[r][c] + 0.5 * v[c][r]; }
    CSC *S = make_symmetric(A, low); chk(mc::cat("make_symmetric ", low), same(from_dense(n, sp, sv, a.val, low ? -1 : 1), S)); st(ctx, mc::cat("make_symmetric ", low), S, low ? -1 : 1);
    if (S != A) delete S;
  }
  chk("input", same(a, A)); delete A; ctx.checked(hash(a));
}
static void sums(Ctx &ctx, int m, int n, uint64_t ka, uint64_t kb, int va, int vb) {
  if (!sym_lib::add) return; // declared in no header: a library that keeps it private is not asked
  Cmp a = csc(m, n, ka, va, ka % 3), b = csc(m, n, kb, vb, kb % 2); std::vector<VI> pa, pb; std::vector<VD> xa, xb; dense(a, pa, xa); dense(b, pb, xb);
  CSC *A = make<CSC>(a), *B = make<CSC>(b); bool val = a.val && b.val;
  for (int t = 0; t < 3; ++t) for (int so = 0; so < 2; ++so) {
    double al = t == 0 ? 1 : t == 1 ? 0.5 : 2, be = t == 2 ? -1 : al; Cmp e; e.nmin = m; e.nmaj = n; e.val = val;
    for (int c = 0; c < n; ++c) { for (int r = 0; r < m; ++r) if (pa[r][c] || pb[r][c]) { e.i.push_back(r); if (val) e.x.push_back(al * xa[r][c] + be * xb[r][c]); } e.p.push_back(e.i.size()); }
    CSC *C = add(A, B, al, be, so); std::string r = so ? same(e, C) : same_any_order(e, C); if (!r.empty()) ctx.fail(mc::cat("add alpha=", al, " beta=", be, " sort=", so), r); delete C; ctx.call();
  }
  std::string r = same(a, A) + same(b, B); if (!r.empty()) ctx.fail("add", "input modified " + r);
  B->stype = 1; if (add(A, B, 1, 1, true)) ctx.fail("add", "mixed storage types accepted");
  delete A; delete B; ctx.checked(hash(a) ^ hash(b) * 3);
}
// the same oracles without dense arrays, for large shapes
static Cmp permuted(const Cmp &f, const VI &p) { // entry (r,c) of the result is (p[r],p[c]) of f; columns ascending
  int n = f.nmaj; VI ip(n); for (int k = 0; k < n; ++k) ip[p[k]] = k; Cmp b; b.nmaj = b.nmin = n; b.val = f.val;
  for (int c = 0; c < n; ++c) { for (int t = f.p[p[c]]; t < f.p[p[c] + 1]; ++t) { b.i.push_back(ip[f.i[t]]); if (f.val) b.x.push_back(f.x[t]); } b.p.push_back(b.i.size()); }
  return sorted(b);
}
static Cmp sum(const Cmp &a, const Cmp &b, double al, double be) {
  Cmp e; e.nmaj = a.nmaj; e.nmin = a.nmin; e.val = a.val && b.val; std::map<int, double> c;
  for (int j = 0; j < a.nmaj; ++j) { c.clear(); for (int t = a.p[j]; t < a.p[j + 1]; ++t) c[a.i[t]] += e.val ? al * a.x[t] : 0; for (int t = b.p[j]; t < b.p[j + 1]; ++t) c[b.i[t]] += e.val ? be * b.x[t] : 0; for (auto &q : c) { e.i.push_back(q.first); if (e.val) e.x.push_back(q.second); } e.p.push_back(e.i.size()); }
  return e;
}
static void large_square(Ctx &ctx, const Cmp &g) {
  Chk chk{ctx}; int n = g.nmaj; Cmp t = transposed(g), f = sum(g, t, 1, 1), lo = filter(f, true), up = filter(f, false);
  VI rev(n), rot(n); for (int k = 0; k < n; ++k) { rev[k] = n - 1 - k; rot[k] = (k + n / 3) % n; }
  for (int u = 0; u < 2; ++u) {
    const Cmp &a = u ? up : lo, &o = u ? lo : up; int s = u ? 1 : -1; std::string d = u ? " (upper)" : " (lower)"; CSC *A = make<CSC>(a, s);
    CSC *F = make_full(A); chk("make_full" + d, same(f, F)); CSC *H = make_half(n, F->p, F->i, F->x, !u); chk("make_half of make_full" + d, same(a, H)); st(ctx, "make_half" + d, H, s); delete H;
    CSC *Tr = transpose_symmetric(A, nullptr); chk("transpose_symmetric" + d, same(o, Tr)); delete Tr;
    for (int low = 0; low < 2; ++low) { CSC *S = make_symmetric(A, low); chk("make_symmetric" + d, same(low == u ? o : a, S)); if (S != A) delete S; }
    for (VI *p : {&rev, &rot}) { Cmp w = permuted(f, *p); CSC *P = transpose_symmetric(A, p->data()); chk("transpose_symmetric permuted" + d, same_any_order(filter(w, s > 0), P)); CSC *B = transpose_symmetric(P, nullptr); chk("permuted and transposed back" + d, same(filter(w, s < 0), B)); delete P; delete B; }
    chk("input" + d, same(a, A)); delete A; delete F;
  }
  CSC *G = make<CSC>(g, 0), *Gt = make<CSC>(t, 0);
  for (int low = 0; low < 2; ++low) { CSC *S = make_symmetric(G, low); chk("make_symmetric", same(filter(sum(g, t, 0.5, 0.5), low), S)); if (S != G) delete S; CSC *H = make_half(n, G->p, G->i, G->x, low); chk("make_half", same(filter(g, low), H)); delete H; }
  if (sym_lib::add) { CSC *C = add(G, Gt, 2, -1, true); chk("add", same(sum(g, t, 2, -1), C)); delete C; } chk("input", same(g, G)); delete G; delete Gt; ctx.checked(hash(g));
}
static void body(Ctx &ctx) {
  bool T = ctx.thorough;
  for (int n = 1; n <= (T ? 5 : 4); ++n) {
    ctx.space = mc::cat("symmetric n=", n);
    for (uint64_t k = 0; k < (1ull << (n * (n + 1) / 2)); ++k) for (int vs = 0; vs < (n < 5 ? 3 : 1); ++vs) CASE(ctx, "half=", k, " values=", vs) symmetric(ctx, n, k, vs);
  }
  for (int n = 1; n <= 4; ++n) {
    ctx.space = mc::cat("invalid permutations n=", n); uint64_t tot = 1; for (int i = 0; i < n; ++i) tot *= n + 2;
    for (uint64_t k = 0; k < tot; ++k) { VI p; uint64_t z = k; for (int i = 0; i < n; ++i) { p.push_back((int)(z % (n + 2)) - 1); z /= n + 2; } CASE(ctx, mc::str(p)) badperms(ctx, n, p); }
  }
  for (int n = 1; n <= 4; ++n) {
    ctx.space = mc::cat("general n=", n);
    for (uint64_t k = 0; k < (1ull << (n * n)); ++k) for (int vs = 0; vs < (n < 4 ? 3 : 1); ++vs) for (int o = 0; o < (n < 4 ? 3 : 1); ++o) CASE(ctx, "pattern=", k, " values=", vs, " order=", o) general(ctx, n, k, vs, o);
  }
  for (int m = 1; m <= 3; ++m) for (int n = 1; n <= 3; ++n) {
    if (m * n > (T ? 9 : 6)) continue;
    ctx.space = mc::cat("sums ", m, "x", n);
    for (uint64_t a = 0; a < (1ull << (m * n)); ++a) for (uint64_t b = 0; b < (1ull << (m * n)); ++b) for (int va = 0; va < 3; ++va) for (int vb = 0; vb < 3; ++vb) { if (m * n > 6 && (va || vb)) continue;
      CASE(ctx, "a=", a, " b=", b, " values=", va, vb) sums(ctx, m, n, a, b, va, vb); }
  }
  ctx.space = "symmetric families";
  for (int n : {8, 15, 33, 64}) for (int d : {1, 2, 5}) for (int vs = 0; vs < 3; ++vs) CASE(ctx, "band n=", n, " width=", d, " values=", vs) {
    std::vector<VI> pat(n, VI(n, 0)); std::vector<VD> v(n, VD(n, 0)); for (int r = 0; r < n; ++r) for (int c = 0; c < n; ++c) if (std::abs(r - c) <= d || std::abs(r - c) == n / 2) { pat[r][c] = 1; v[r][c] = symval(r, c, vs); }
    Cmp f = from_dense(n, pat, v, vs != 2, 0), lo = from_dense(n, pat, v, vs != 2, -1); VI p(n); for (int i = 0; i < n; ++i) p[i] = (i * 7 + 3) % n; if (n % 7 == 0) continue;
    CSC *A = make<CSC>(lo, -1), *F = make_full(A); Chk chk{ctx}; chk("make_full", same(f, F)); CSC *P = transpose_symmetric(A, p.data()), *B = transpose_symmetric(P, nullptr);
    std::vector<VI> pp(n, VI(n)); std::vector<VD> pv(n, VD(n)); for (int r = 0; r < n; ++r) for (int c = 0; c < n; ++c) { pp[r][c] = pat[p[r]][p[c]]; pv[r][c] = v[p[r]][p[c]]; }
    chk("permuted", same(from_dense(n, pp, pv, vs != 2, -1), B)); CSC *S = make_symmetric(F, true); chk("make_symmetric", same(lo, S));
    delete A; delete F; delete P; delete B; delete S; ctx.checked(hash(f));
  }
  ctx.space = "large shapes";
  mat::large(true, [&](const std::string &nm, const std::function<Cmp(int)> &mk) { for (int vs = 0; vs < 3; vs += 2) CASE(ctx, nm, " values=", vs) large_square(ctx, mk(vs)); });
  mat::large(false, [&](const std::string &nm, const std::function<Cmp(int)> &mk) { for (int vs = 0; vs < 3; ++vs) for (int o = 0; o < 2 && sym_lib::add; ++o) CASE(ctx, nm, " sum values=", vs, " sorted=", o) { Cmp a = mk(vs), b = a; for (auto &x : b.x) x = 3 * x - 1; b.i.clear(); b.x.clear(); b.p = {0}; for (int c = 0; c < a.nmaj; ++c) { if (c % 3 != 1) for (int t = a.p[c]; t < a.p[c + 1]; ++t) if (t % 5 != 2) { b.i.push_back((a.i[t] + 1) % a.nmin); if (a.val) b.x.push_back(2 - a.x[t]); } b.p.push_back(b.i.size()); } CSC *A = make<CSC>(a), *B = make<CSC>(b), *C = add(A, B, 0.5, 2, o); Chk{ctx}("add", o ? same(sum(a, b, 0.5, 2), C) : same_any_order(sum(a, b, 0.5, 2), C)); Chk{ctx}("add input", same(a, A) + same(b, B)); delete A; delete B; delete C; ctx.checked(hash(a)); } });
}
MC_MAIN(body)
