// C13: format conversions keep the matrix
#include "mat.hpp"
#include "aggregation/sparse_utilities.h"
#include "aggregation/sparse_io.h"
using namespace mat;
using namespace sym_lib;
using mc::Ctx;
namespace sym_lib { __attribute__((weak)) CSC *permute_general(const CSC *A, const int *pinv, const int *q); }

// a general matrix stays one
static int g_st = 0;
template <class T> static std::string gsame(const Cmp &a, T *A) { std::string e = same(a, A); return e.empty() && g_st == 0 && A->stype != 0 ? mc::cat("storage type ", A->stype, " of a general matrix") : e; }
template <class T> static void kept(Ctx &ctx, const char *nm, const Cmp &a, T *A) { std::string e = gsame(a, A); if (!e.empty()) ctx.fail(nm, "input modified: " + e); }
static void conv(Ctx &ctx, const Cmp &a, const Cmp &at, int st) {
  g_st = st;
  auto chk = [&](const char *nm, const std::string &e) { if (!e.empty()) ctx.fail(nm, e); ctx.call(); };
  int m = a.nmin, n = a.nmaj;
  { // column -> row and back
    CSC *A = make<CSC>(a, st);
    CSR *R = csc_to_csr(A);
    chk("csc_to_csr", gsame(at, R)); kept(ctx, "csc_to_csr", a, A);
    CSC *B = csr_to_csc(R);
    chk("csr_to_csc", gsame(sorted(a), B)); if (R->stype != st || B->stype != st) ctx.fail("conversions", mc::cat("storage type ", st, " became ", R->stype, " in rows and ", B->stype, " in columns again")); kept(ctx, "csr_to_csc", at, R);
    delete B; delete R;
    CSC *T = transpose_general(A);
    chk("transpose_general", gsame(at, T)); kept(ctx, "transpose_general", a, A);
    CSC *TT = transpose_general(T);
    chk("transpose_general twice", gsame(sorted(a), TT));
    delete TT; delete T;
    CSC *C = copy_sparse(A);
    chk("copy_sparse", gsame(a, C)); kept(ctx, "copy_sparse", a, A);
    if (C->stype != st) ctx.fail("copy_sparse", "stype not copied");
    if (C == A || (A->p && C->p == A->p) || (A->i && C->i == A->i) || (A->x && C->x == A->x)) ctx.fail("copy_sparse", "shares storage");
    delete C;
    CSC *D = new CSC(m, n, a.nnz(), !a.val); copy_from_to(A, D);
    chk("copy_from_to (columns)", gsame(a, D)); kept(ctx, "copy_from_to (columns)", a, A); delete D;
    CSC *O = convert_to_one_based(A);
    if ((int)O->m != m || (int)O->n != n || (int)O->nnz != a.nnz() || O->is_pattern == a.val) chk("convert_to_one_based", "dimensions");
    if (O->p[0] != 0) chk("convert_to_one_based", "pointer of index 0");
    for (int k = 0; k <= n; ++k) if (O->p[k + 1] != a.p[k]) chk("convert_to_one_based", "pointer " + mc::str(O->p, n + 2));
    for (int k = 0; k < a.nnz(); ++k) { if (O->i[k] != a.i[k] + 1) chk("convert_to_one_based", "index " + mc::str(O->i, a.nnz())); if (a.val && O->x[k] != a.x[k]) chk("convert_to_one_based", "values " + mc::str(O->x, a.nnz())); }
    if (O->stype != st) ctx.fail("convert_to_one_based", mc::cat("storage type ", O->stype, " instead of ", st));
    ctx.call(); kept(ctx, "convert_to_one_based", a, A);
    if (a.val && (double)m * n < 200000) {
      VD d(m * n, -77), e(m * n, 0);
      CSC *G = make<CSC>(a, 0); sparse2dense(G, d.data());
      for (int c = 0; c < n; ++c) for (int k = a.p[c]; k < a.p[c + 1]; ++k) e[c * m + a.i[k]] = a.x[k];
      if (d != e) ctx.fail("sparse2dense", mc::str(d) + " expected " + mc::str(e));
      ctx.call(); kept(ctx, "sparse2dense", a, G); delete G;
      // dense -> columns drops the zeros
      std::vector<VD> rows(m, VD(n, 0)); std::vector<double *> rp; Cmp z; z.nmaj = n; z.nmin = m;
      for (int r = 0; r < m; ++r) for (int c = 0; c < n; ++c) rows[r][c] = e[c * m + r];
      for (auto &r : rows) rp.push_back(r.data());
      for (int c = 0; c < n; ++c) { for (int r = 0; r < m; ++r) if (e[c * m + r] != 0) { z.i.push_back(r); z.x.push_back(e[c * m + r]); } z.p.push_back(z.i.size()); }
      CSC *Z = dense_to_csc(m, n, rp.data()); chk("dense_to_csc", gsame(z, Z)); delete Z;
      for (int r = 0; r < m; ++r) for (int c = 0; c < n; ++c) if (rows[r][c] != e[c * m + r]) ctx.fail("dense_to_csc", "input modified");
    }
    int ec = 0; for (int c = 0; c < n; ++c) ec += a.p[c] == a.p[c + 1];
    if (number_empty_col(A) != ec) chk("number_empty_col", mc::cat(number_empty_col(A), " expected ", ec));
    if (m == n) {
      bool ok = true; VI pos(n, -1); bool full = true;
      for (int c = 0; c < n; ++c) { if (!(a.p[c] < a.p[c + 1] && a.i[a.p[c]] == c)) ok = false; for (int k = a.p[c]; k < a.p[c + 1]; ++k) if (a.i[k] == c) pos[c] = k; if (pos[c] < 0) full = false; }
      if (verify_csc_diagonal(A) != ok) chk("verify_csc_diagonal", ok ? "rejected" : "accepted");
      if (full) { int *d = extract_diagonals(n, A->p, A->i); if (VI(d, d + n) != pos) chk("extract_diagonals", mc::str(d, n)); delete[] d; }
      ctx.call(2);
    }
    delete O; delete A;
  }
  { // row storage as the input
    CSR *R = make<CSR>(a, st); CSC *C = csr_to_csc(R);
    chk("csr_to_csc of rows", gsame(at, C)); kept(ctx, "csr_to_csc of rows", a, R);
    CSR *B = csc_to_csr(C); chk("csc_to_csr of that", gsame(sorted(a), B)); delete B; delete C;
    CSR *D = new CSR(R->m, R->n, R->nnz, !a.val); copy_from_to(R, D);
    chk("copy_from_to (rows)", gsame(a, D)); kept(ctx, "copy_from_to (rows)", a, R); delete D; delete R;
  }
  if (a.val) { // raw forms
    Cmp b = a; int *p, *i; double *x;
    csc_to_csr(m, n, b.pp(), b.ii(), b.xx(), p, i, x); chk("csc_to_csr raw", raw(at, p, i, x)); if (!(b == a)) ctx.fail("csc_to_csr raw", "input modified");
    delete[] p; delete[] i; delete[] x;
    csr_to_csc(n, m, b.ii(), b.pp(), b.xx(), p, i, x); chk("csr_to_csc raw", raw(at, p, i, x)); if (!(b == a)) ctx.fail("csr_to_csc raw", "input modified");
    delete[] p; delete[] i; delete[] x;
  }
  ctx.checked(hash(at));
}
static void permuted(Ctx &ctx, const Cmp &a) {
  if (!permute_general) return; // declared in no header: a library that keeps it private is not asked
  CSC *A = make<CSC>(a);
  auto pr = perms(a.nmin), qc = perms(a.nmaj); pr.push_back({}); qc.push_back({}); uint64_t k = 0;
  for (auto &pi : pr) for (auto &q : qc) {
    Cmp e; e.nmaj = a.nmaj; e.nmin = a.nmin; e.val = a.val;
    for (int c = 0; c < a.nmaj; ++c) { int s = q.empty() ? c : q[c]; for (int t = a.p[s]; t < a.p[s + 1]; ++t) { e.i.push_back(pi.empty() ? a.i[t] : pi[a.i[t]]); if (a.val) e.x.push_back(a.x[t]); } e.p.push_back(e.i.size()); }
    CSC *C = permute_general(A, pi.empty() ? nullptr : pi.data(), q.empty() ? nullptr : q.data());
    std::string r = same_any_order(e, C); if (!r.empty()) ctx.fail("permute_general", r + " pinv=" + mc::str(pi) + " q=" + mc::str(q));
    ctx.call(); delete C; ++k;
  }
  kept(ctx, "permute_general", a, A); delete A; ctx.checked(k);
}
// A matrix object holds what its constructor is told, whatever its memory held before
static void object(Ctx &ctx, int m, int n, int nz, int st, int fill) {
  alignas(16) unsigned char mem[sizeof(CSC) + sizeof(CSR)]; VI p(std::max(m, n) + 1), i(nz + 1, 1); VD x(nz + 1, 2.5); for (size_t k = 0; k < p.size(); ++k) p[k] = 5 + k; VI p0 = p, i0 = i; VD x0 = x; mc::H h;
  auto test = [&](const char *nm, auto make, bool rows, int own, bool pat, int want) {
    memset(mem, fill, sizeof mem); auto *A = make(mem); ctx.call(); typedef typename std::remove_pointer<decltype(A)>::type M; std::string e; int maj = rows ? m : n;
    if ((int)A->m != m || (int)A->n != n || (int)A->nnz != nz) e = "size"; else if (A->stype != want) e = mc::cat("storage type ", A->stype, " instead of ", want); else if (A->is_pattern != pat) e = "pattern flag"; else if (A->pre_alloc != !own) e = "ownership flag";
    else if (!own) { if (A->p != p.data() || A->i != i.data() || A->x != (pat ? nullptr : x.data())) e = "arrays"; }
    else { if (maj > 0) { for (int k = 0; k <= maj; ++k) if (A->p[k]) e = "pointers not cleared"; } else if (A->p) e = "pointer array of nothing"; if (nz) { for (int k = 0; k < nz; ++k) if (A->i[k] || (!pat && A->x[k] != 0)) e = "entries not cleared"; if (pat && A->x) e = "values of a pattern"; } else if (A->i || A->x) e = "arrays of no entries"; }
    if (!e.empty()) ctx.fail(nm, e); h.u(e.empty()); A->~M(); if (p != p0 || i != i0 || x != x0) ctx.fail(nm, "arrays changed"); };
  test("CSC of sizes", [&](void *b) { return new (b) CSC(m, n, nz); }, false, 1, false, 0);
  test("CSR of sizes", [&](void *b) { return new (b) CSR(m, n, nz); }, true, 1, false, 0);
  for (int ip = 0; ip < 2; ++ip) { test("CSC of sizes and kind", [&](void *b) { return new (b) CSC(m, n, nz, (bool)ip); }, false, 1, ip, 0); test("CSR of sizes and kind", [&](void *b) { return new (b) CSR(m, n, nz, (bool)ip); }, true, 1, ip, 0); test("CSC of sizes, kind and storage type", [&](void *b) { return new (b) CSC(m, n, nz, (bool)ip, st); }, false, 1, ip, st); }
  test("CSC over arrays", [&](void *b) { return new (b) CSC(m, n, nz, p.data(), i.data(), x.data()); }, false, 0, false, 0);
  test("CSC over a pattern", [&](void *b) { return new (b) CSC(m, n, nz, p.data(), i.data(), st); }, false, 0, true, st);
  test("CSR over a pattern", [&](void *b) { return new (b) CSR(m, n, nz, p.data(), i.data(), st); }, true, 0, true, st);
  ctx.checked(h.u(m * 100 + n * 10 + nz).u(st).h);
}
static void body(Ctx &ctx) {
  bool T = ctx.thorough;
  int mx = T ? 16 : 12;
  for (int m = 1; m <= 5; ++m) for (int n = 1; n <= 5; ++n) {
    if (m * n > mx) continue;
    ctx.space = "matrix objects"; for (int m = 0; m <= 3; ++m) for (int n = 0; n <= 3; ++n) for (int nz = 0; nz <= m * n; ++nz) for (int st = -1; st <= 1; ++st) for (int fill : {0, 1, 0xbe, 0xff}) CASE(ctx, m, "x", n, " entries=", nz, " storage type=", st, " memory=", fill) object(ctx, m, n, nz, st, fill);
  ctx.space = mc::cat("conversions ", m, "x", n);
    for (uint64_t k = 0; k < (1ull << (m * n)); ++k) for (int vs = 0; vs < (m * n > 9 ? 3 : 4); ++vs) for (int o = 0; o < (m * n > 9 ? 2 : 3); ++o)
      CASE(ctx, "pattern=", k, " values=", vs, " order=", o, " ", csc(m, n, k, vs, o).str()) { Cmp a = csc(m, n, k, vs, o); conv(ctx, a, transposed(a), (int)(k % 3) - 1); }
  }
  ctx.space = "large matrices";
  large(false, [&](const std::string &nm, const std::function<Cmp(int)> &mk) { for (int vs = 0; vs < 4; ++vs) CASE(ctx, nm, " values=", vs) { Cmp a = mk(vs); conv(ctx, a, transposed(a), 0);
    // one reversal of rows and columns
    g_st = 0; CSC *A = make<CSC>(a); VI pi(a.nmin), q(a.nmaj); for (int k = 0; k < a.nmin; ++k) pi[k] = a.nmin - 1 - k; for (int k = 0; k < a.nmaj; ++k) q[k] = a.nmaj - 1 - k;
    Cmp e; e.nmaj = a.nmaj; e.nmin = a.nmin; e.val = a.val; for (int c = 0; c < a.nmaj; ++c) { int t0 = q[c]; for (int t = a.p[t0]; t < a.p[t0 + 1]; ++t) { e.i.push_back(pi[a.i[t]]); if (a.val) e.x.push_back(a.x[t]); } e.p.push_back(e.i.size()); }
    if (permute_general) { CSC *C = permute_general(A, pi.data(), q.data()); std::string r = same_any_order(e, C); if (!r.empty()) ctx.fail("permute_general", r.substr(0, 400)); ctx.call(); delete C; } delete A; } });
  for (int n : {40000, 70000}) { CASE(ctx, "generated n=", n) { CSC *A = diagonal(n, 2.5); Cmp e; e.nmaj = e.nmin = n; for (int i = 0; i < n; ++i) { e.i.push_back(i); e.x.push_back(2.5); e.p.push_back(i + 1); } std::string r = gsame(e, A); if (!r.empty()) ctx.fail("diagonal", r.substr(0, 300)); delete A;
    for (int kind = 0; kind < 3; ++kind) { VI t(n, -1); for (int v = 0; v + 1 < n; ++v) t[v] = kind == 0 ? v + 1 : kind == 1 ? n - 1 : std::min(n - 1, v + 1 + v % 5); Cmp f; f.nmaj = f.nmin = n; f.val = false; std::vector<VI> ch(n); for (int v = 0; v < n; ++v) if (t[v] >= 0) ch[t[v]].push_back(v); for (auto &c : ch) { f.i.insert(f.i.end(), c.begin(), c.end()); f.p.push_back(f.i.size()); }
      CSC *B = tree_to_csc(n, t.data()); r = gsame(f, B); if (!r.empty()) ctx.fail("tree_to_csc", r.substr(0, 300)); ctx.call(2); if (B->pre_alloc) { delete[] B->p; delete[] B->i; } delete B; } ctx.checked(n); } }
  g_st = 0;
  for (int m = 1; m <= 3; ++m) for (int n = 1; n <= (T ? 4 : 3); ++n) {
    ctx.space = mc::cat("general permutations ", m, "x", n);
    for (uint64_t k = 0; k < (1ull << (m * n)); ++k) for (int vs = 0; vs < 3; vs += 2) CASE(ctx, "pattern=", k, " values=", vs) permuted(ctx, csc(m, n, k, vs, k % 3));
  }
  ctx.space = "symmetric half to dense"; g_st = 1;
  for (int n = 1; n <= (T ? 5 : 4); ++n) for (uint64_t k = 0; k < (1ull << (n * (n + 1) / 2)); ++k) for (int up = 0; up < 2; ++up) CASE(ctx, "n=", n, " half=", k, " upper=", up) {
    uint64_t mask = 0; int b = 0; for (int c = 0; c < n; ++c) for (int r = c; r < n; ++r, ++b) if (k >> b & 1) mask |= 1ull << (up ? r * n + c : c * n + r);
    Cmp a = csc(n, n, mask, 0); CSC *A = make<CSC>(a, up ? 1 : -1); VD d(n * n, 9), e(n * n, 0);
    for (int c = 0; c < n; ++c) for (int t = a.p[c]; t < a.p[c + 1]; ++t) e[c * n + a.i[t]] = e[a.i[t] * n + c] = a.x[t];
    sparse2dense(A, d.data()); ctx.call(); if (d != e) ctx.fail("sparse2dense symmetric", mc::str(d) + " expected " + mc::str(e));
    kept(ctx, "sparse2dense symmetric", a, A); delete A; ctx.checked(hash(a));
  }
  ctx.space = "trees"; g_st = 0;
  for (int n = 1; n <= (T ? 8 : 7); ++n) { // every parent array with parent > child or none
    uint64_t tot = 1; for (int i = 0; i < n; ++i) tot *= n - i;
    for (uint64_t c = 0; c < tot; ++c) CASE(ctx, "n=", n, " code=", c) {
      VI t(n); uint64_t z = c; for (int i = 0; i < n; ++i) { int k = z % (n - i); z /= n - i; t[i] = k == 0 ? -1 : i + k; }
      Cmp e; e.nmaj = e.nmin = n; e.val = false; for (int p = 0; p < n; ++p) { for (int k = 0; k < n; ++k) if (t[k] == p) e.i.push_back(k); e.p.push_back(e.i.size()); }
      VI t0 = t; CSC *A = tree_to_csc(n, t.data()); ctx.call();
      std::string r = gsame(e, A); if (!r.empty()) ctx.fail("tree_to_csc", r); if (t != t0) ctx.fail("tree_to_csc", "input modified");
      VI cp(n + 1), cn(n + 1), nc(n, 0); populate_children(n, t.data(), cp.data(), cn.data(), nc.data()); ctx.call();
      for (int v = 0; v < n; ++v) if (nc[v] != e.p[v + 1] - e.p[v]) ctx.fail("populate_children", "child counts " + mc::str(nc));
      if (cp != e.p || VI(cn.begin(), cn.begin() + e.nnz()) != e.i) ctx.fail("populate_children", mc::str(cp) + mc::str(cn));
      if (A->pre_alloc) { delete[] A->p; delete[] A->i; } delete A; ctx.checked(hash(e));
    }
  }
  ctx.space = "generated";
  for (int n : {1, 2, 5, 33, 65, 130, 300, 1100}) for (int kind = 0; kind < 3; ++kind) CASE(ctx, "one odd column n=", n, " kind=", kind) { // wherever the column without an entry, without a diagonal or with a late diagonal is
    for (int c = -1; c < n; c += n > 300 && c > 20 && c < n - 40 ? 17 : 1) {
      Cmp a; a.nmaj = a.nmin = n; VI pos(n, -1); bool full = true, lead = true; int empty = 0;
      for (int j = 0; j < n; ++j) { bool odd = j == c; if (!odd || kind == 2) { if (odd && j > 0) { a.i.push_back(j - 1); lead = false; } pos[j] = a.i.size(); a.i.push_back(j); } else full = lead = false; if (!(odd && kind == 0) && j + 1 < n) a.i.push_back(j + 1); a.p.push_back(a.i.size()); empty += a.p[j + 1] == a.p[j]; }
      a.x.assign(a.i.size(), 1.5); CSC *A = make<CSC>(a, 0);
      if (number_empty_col(A) != empty) ctx.fail("number_empty_col", mc::cat(number_empty_col(A), " expected ", empty, ", odd column ", c)); if (verify_csc_diagonal(A) != lead) ctx.fail("verify_csc_diagonal", mc::cat(lead ? "rejected" : "accepted", ", odd column ", c));
      if (full) { int *d = extract_diagonals(n, A->p, A->i); if (VI(d, d + n) != pos) ctx.fail("extract_diagonals", mc::cat("odd column ", c)); delete[] d; } ctx.call(3); delete A; ctx.checked(mc::H().arr(pos.data(), n).h); } }
  VI sizes; for (int n = 1; n <= 40; ++n) sizes.push_back(n); for (int n : {300, 1100, 33000, 70000}) sizes.push_back(n);
  for (int n : sizes) {
    CASE(ctx, "diagonal n=", n) { CSC *A = diagonal(n, 2.5); Cmp e; e.nmaj = e.nmin = n; for (int i = 0; i < n; ++i) { e.i.push_back(i); e.x.push_back(2.5); e.p.push_back(i + 1); } std::string r = same(e, A); if (!r.empty()) ctx.fail("diagonal", r); ctx.call(); delete A; ctx.checked(n); }
    CASE(ctx, "tridiag n=", n) {
      CSC *A = tridiag(n, -3, 7, 5); Cmp e; e.nmaj = e.nmin = n;
      for (int c = 0; c < n; ++c) { for (int r = std::max(0, c - 1); r <= std::min(n - 1, c + 1); ++r) { e.i.push_back(r); e.x.push_back(r < c ? -3 : r == c ? 7 : 5); } e.p.push_back(e.i.size()); }
      std::string r = same(e, A); if (!r.empty()) ctx.fail("tridiag", r);
      if (A->stype != 0) ctx.fail("tridiag", "both halves stored but flagged as a symmetric half");
      ctx.call(); delete A; ctx.checked(n);
    }
  }
  ctx.space = "permutation arrays";
  for (int n = 1; n <= (T ? 8 : 7); ++n) { auto ps = perms(n); for (size_t z = 0; z < ps.size(); ++z) CASE(ctx, "n=", n, " p=", mc::str(ps[z])) {
    VI p = ps[z], q(n, -5), r(n, -5), w(n), arr(n), e(n); for (int i = 0; i < n; ++i) arr[i] = 100 + i * i;
    inv_perm(n, p.data(), q.data()); int *u = compute_inv_perm(n, p.data(), r.data()); ctx.call(3);
    for (int i = 0; i < n; ++i) { if (q[p[i]] != i || p[q[i]] != i) ctx.fail("inv_perm", mc::str(q)); e[i] = arr[p[i]]; }
    if (r != q || u != r.data()) ctx.fail("compute_inv_perm", mc::str(r)); if (p != ps[z]) ctx.fail("permutation arrays", "input modified");
    reorder_array(n, arr.data(), p.data(), w.data()); if (arr != e) ctx.fail("reorder_array", mc::str(arr) + " expected " + mc::str(e));
    VD s(n), d(n, -1); for (int i = 0; i < n; ++i) s[i] = i + .5; copy_vector_dense(z % n, n, s.data(), d.data()); for (int i = 0; i < n; ++i) if (d[i] != (i < (int)(z % n) ? -1 : s[i])) ctx.fail("copy_vector_dense", mc::str(d));
    ctx.checked(mc::H().arr(q.data(), n).h);
  } }
}
MC_MAIN(body)
