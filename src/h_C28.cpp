// C28: the heap after an operation whose results have been released; ownership of matrix objects
#include "ops.hpp"
#include "io_common.hpp"
#include "aggregation/metis_interface.h"
#include "aggregation/FusionDemo.h"
#include "aggregation/csv_utils.h"
#include "aggregation/amd.h"
using namespace sym_lib; using mat::Cmp;
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static size_t heap() { return __sanitizer_get_current_allocated_bytes(); }
// Runs f twice (the first call may set up lasting state of the runtime) and compares the heap around the second call
template <class F> static void net(Ctx &ctx, const std::string &nm, F f) {
  { io::Quiet q; f(); } size_t a, b; { io::Quiet q; a = heap(); f(); b = heap(); } ctx.call(2);
  if (b != a) { { io::Quiet q; a = heap(); f(); b = heap(); } } // memory that is kept once is not lost
  if (b != a) ctx.fail(nm, mc::cat("the heap differs by ", (long)(b - a), " bytes after the results were released"));
}
static std::vector<std::pair<std::string, std::function<void(const Cmp &)>>> matrix_ops() {
  std::vector<std::pair<std::string, std::function<void(const Cmp &)>>> r; auto add = [&](const std::string &n, std::function<void(CSC *)> f) { r.push_back({n, [f](const Cmp &A) { CSC *M = mat::make<CSC>(A); f(M); delete M; }}); };
  add("construct and delete", [](CSC *) {});
  add("csc_to_csr and csr_to_csc", [](CSC *A) { CSR *R = csc_to_csr(A); if (R) { CSC *B = csr_to_csc(R); delete B; } delete R; });
  add("csc_to_csr arrays", [](CSC *A) { int *p = nullptr, *i = nullptr; double *x = nullptr; csc_to_csr(A->m, A->n, A->p, A->i, A->x, p, i, x); int *p2 = nullptr, *i2 = nullptr; double *x2 = nullptr; csr_to_csc(A->m, A->n, i, p, x, p2, i2, x2); delete[] p; delete[] i; delete[] x; delete[] p2; delete[] i2; delete[] x2; });
  add("transpose_general", [](CSC *A) { delete transpose_general(A); });
  add("copy_sparse", [](CSC *A) { delete copy_sparse(A); });
  add("copy_from_to", [](CSC *A) { CSC B(A->m, A->n, A->nnz, A->is_pattern); copy_from_to(A, &B); });
  add("convert_to_one_based", [](CSC *A) { delete convert_to_one_based(A); });
  add("dense_to_csc", [](CSC *A) { std::vector<VD> d(A->m, VD(A->n, 0)); std::vector<double *> v; for (size_t c = 0; c < A->n; ++c) for (int k = A->p[c]; k < A->p[c + 1]; ++k) d[A->i[k]][c] = 2; for (auto &x : d) v.push_back(x.data()); delete dense_to_csc(A->m, A->n, v.data()); });
  add("sparse2dense", [](CSC *A) { VD d(A->m * A->n); if (A->x) sparse2dense(A, d.data()); });
  add("CSC_to_mtx", [](CSC *A) { if (A->x) CSC_to_mtx(mc::gctx()->scratch + "/o.mtx", A); });
  add("print_csc", [](CSC *A) { print_csc(1, "x", A); print_csc(1, "x", A->n, A->p, A->i, A->x); });
  return r;
}
static std::vector<std::pair<std::string, std::function<void(const Cmp &)>>> square_ops() { // pattern of a square matrix with a full diagonal
  std::vector<std::pair<std::string, std::function<void(const Cmp &)>>> r;
  auto add = [&](const std::string &n, int st, std::function<void(CSC *)> f) { r.push_back({n, [f, st](const Cmp &F) { Cmp H; if (st) { H.nmaj = H.nmin = F.nmaj; H.val = F.val; for (int c = 0; c < F.nmaj; ++c) { for (int k = F.p[c]; k < F.p[c + 1]; ++k) if (st < 0 ? F.i[k] >= c : F.i[k] <= c) { H.i.push_back(F.i[k]); if (F.val) H.x.push_back(F.x[k]); } H.p.push_back(H.i.size()); } } CSC *M = mat::make<CSC>(st ? H : F, st); f(M); delete M; }}); };
  for (int st = -1; st <= 1; ++st) { std::string h = st ? st < 0 ? " of a lower half" : " of an upper half" : " of a full matrix";
    add("make_symmetric" + h, st, [](CSC *A) { for (int l = 0; l < 2; ++l) { CSC *B = make_symmetric(A, l); if (B != A) delete B; } });
    add("metis_partition_general" + h, st, [st](CSC *A) { if (st) return; for (int k = 1; k <= 2; ++k) { int *p = nullptr; metis_partition_general(A, p, k); delete[] p; } int *p = nullptr; metis_perm_general(A, p); delete[] p; });
    add("metis_partition_coarsened" + h, st, [st](CSC *A) { if (st) return; for (int c = 1; c <= 2; ++c) { int *p = nullptr; metis_partition_coarsened(A, p, 2, c); delete[] p; } });
    add("coarsen_k_times" + h, st, [](CSC *A) { for (int k = 1; k <= 2; ++k) delete coarsen_k_times(A->n, A->nnz, A->p, A->i, A->stype, k); });
    if (!st) add("make_half" + h, st, [](CSC *A) { for (int l = 0; l < 2; ++l) delete make_half(A->n, A->p, A->i, A->x, l); });
    if (!st) add("metis_partitioning of valued matrix", st, [](CSC *A) { if (A->is_pattern) return; for (int k = 1; k <= 2; ++k) { int *p = nullptr; CSC *B = metis_partitioning(A, k, p); delete[] p; delete B; } });
    if (!st) add("amd_order", st, [](CSC *A) { VI P(A->n); amd_order(A->n, A->p, A->i, P.data(), nullptr, nullptr); });
    if (!st) continue;
    add("make_full" + h, st, [](CSC *A) { delete make_full(A); });
    add("transpose_symmetric" + h, st, [](CSC *A) { delete transpose_symmetric(A, nullptr); VI p(A->n); for (size_t v = 0; v < A->n; ++v) p[v] = A->n - 1 - v; delete transpose_symmetric(A, p.data()); });
    add("transpose_symmetric refusing" + h, st, [](CSC *A) { int n = A->n; for (int bad : {-1, n, 0}) { VI p(n); for (int v = 0; v < n; ++v) p[v] = v; p[n - 1] = bad; CSC *B = transpose_symmetric(A, p.data()); delete B; } int z = A->nnz; A->nnz = z > 1 ? z - 1 : z; delete transpose_symmetric(A, nullptr); A->nnz = z; });
    add("compute_etree" + h, st, [](CSC *A) { VI p(A->n); compute_etree(A, p.data()); });
    add("metis_perm_symmetric and metis_partition_symmetric" + h, st, [](CSC *A) { int *p = nullptr; metis_perm_symmetric(A, p); delete[] p; for (int k = 1; k <= 2; ++k) { p = nullptr; metis_partition_symmetric(A, p, k); delete[] p; } });
    if (st < 0) add("metis_partitioning of pattern", st, [](CSC *A) { if (!A->is_pattern) return; for (int k = 1; k <= 2; ++k) { int *p = nullptr; CSC *B = metis_partitioning(A, k, p); delete[] p; delete B; } });
    if (st < 0) add("row_col_counts_symmetric", st, [](CSC *A) { int n = A->n; CSC *U = transpose_symmetric(A, nullptr); VI p(n), q(n), r(n), c(n), f(n), l(n); size_t fl; compute_etree(U, p.data()); tree_post_order(p.data(), n, nullptr, q.data()); row_col_counts_symmetric(A, p.data(), q.data(), r.data(), c.data(), f.data(), l.data(), fl); delete U; });
    if (st < 0) add("generate_matrices_from_mtx", st, [](CSC *A) { if (A->is_pattern) return; CSR *l = nullptr, *br = nullptr; CSC *b = nullptr; generate_matrices_from_mtx(A, l, b, br); delete l; delete b; delete br; });
    if (st < 0) add("BCSCMatrix", st, [](CSC *A) { if (A->is_pattern) return; for (int v = 0; v < 2; ++v) { BCSCMatrix M(A); if (v) delete M.compressed_BCSC_to_CSC(); } });
    if (st < 0) add("get_coarse_levelSet_DAG_CSC_tree", st, [](CSC *A) { int n = A->n; for (int s : {-1}) { VD c(n, 1); int L = 0, P = 0, *lp = nullptr, *pp = nullptr, *np = nullptr; get_coarse_levelSet_DAG_CSC_tree(n, A->p, A->i, s, L, lp, P, pp, np, 2, 1, 2, c.data()); delete[] lp; delete[] pp; delete[] np; } });
  }
  return r;
}
struct Demo : FusionDemo { Demo(int n) : FusionDemo(n, "x") {} Demo(int n, int z) : FusionDemo(n, z, "x") {} Demo() {} timing_measurement fused_code() override { timing_measurement t; t.start_timer(); t.measure_elapsed_time(); return t; } };
static void file(Ctx &ctx, const std::string &t) {
  std::string f = io::path(ctx); io::put(f, t);
  net(ctx, "read_mtx", [&] { CSC *A = nullptr; try { A = read_mtx(f); } catch (const std::runtime_error &) {} delete A; });
  for (int d = 0; d < 2; ++d) net(ctx, "read_mtx_csc_real", [&] { CSC *A = nullptr; std::ifstream in(f); try { read_mtx_csc_real(in, A, d); } catch (const std::runtime_error &) {} delete A; });
  net(ctx, "load_mtx_array_real", [&] { Dense *D = nullptr; std::string g = f; try { load_mtx_array_real(g, D); } catch (const std::runtime_error &) {} delete D; });
  { io::Mute mute; if (mm_read_mtx_crd) net(ctx, "mm_read_mtx_crd", [&] { int M, N, z, *I = nullptr, *J = nullptr; double *v = nullptr; MM_typecode c; std::string g = f; if (mm_read_mtx_crd(&g[0], &M, &N, &z, &I, &J, &v, &c) == 0) { g += "w"; mm_write_mtx_crd(&g[0], M, N, z, I, J, v, c); free(I); free(J); free(v); } });
    net(ctx, "mm_read_unsymmetric_sparse", [&] { int M, N, z, *I = nullptr, *J = nullptr; double *v = nullptr; if (mm_read_unsymmetric_sparse(f.c_str(), &M, &N, &z, &v, &I, &J) == 0) { free(I); free(J); free(v); } }); }
  ctx.checked(std::hash<std::string>()(t));
}
// an object built on arrays of the caller: they survive it unchanged
static void borrowed(Ctx &ctx, const Cmp &A) {
  int *p = new int[A.p.size()], *i = new int[A.nnz() + 1]; double *x = new double[A.nnz() + 1]; std::copy(A.p.begin(), A.p.end(), p); std::copy(A.i.begin(), A.i.end(), i); for (int k = 0; k < A.nnz(); ++k) x[k] = k + 0.5;
  auto intact = [&](const char *nm) { for (size_t k = 0; k < A.p.size(); ++k) if (p[k] != A.p[k]) { ctx.fail(nm, "changed the pointer array lent to it"); return; } for (int k = 0; k < A.nnz(); ++k) if (i[k] != A.i[k] || x[k] != k + 0.5) { ctx.fail(nm, "changed an array lent to it"); return; } };
  net(ctx, "CSC on arrays of the caller", [&] { CSC B(A.nmin, A.nmaj, A.nnz(), p, i, x); CSC C(A.nmin, A.nmaj, A.nnz(), p, i, -1); if (B.p != p || B.i != i || B.x != x || C.p != p || C.i != i || C.x || !C.is_pattern || B.is_pattern || C.stype != -1) ctx.fail("CSC on arrays of the caller", "does not refer to them"); }); intact("CSC on arrays of the caller");
  net(ctx, "CSR on arrays of the caller", [&] { CSR B(A.nmaj, A.nmin, A.nnz(), p, i, 1); if (B.p != p || B.i != i || B.x || !B.is_pattern || B.stype != 1) ctx.fail("CSR on arrays of the caller", "does not refer to them"); }); intact("CSR on arrays of the caller");
  delete[] p; delete[] i; delete[] x;
}
static void body(Ctx &ctx) {
  bool T = ctx.thorough; std::vector<Op> O = ops(true);
  auto run = [&](const Op &o, In &in) { Box b; { Dig d; o.f(in, b, d); } delete[] b.p; delete[] b.q; delete[] b.r; };
  auto all = [&](const std::string &nm, const G &g) { for (auto &o : O) CASE(ctx, o.name, " on ", nm) { In in(g); net(ctx, o.name, [&] { run(o, in); }); ctx.checked(mc::H().arr(in.col.i.data(), in.col.i.size()).u(g.n).h); } };
  for (int n = 1; n <= (T ? 6 : 5); ++n) { ctx.space = mc::cat("every inspection routine, graphs n=", n); for (uint64_t m = 0; m < (1ull << gr::npairs(n)); ++m) all(mc::cat("mask=", m), gr::lower(n, m)); }
  ctx.space = "every inspection routine, families"; gr::families(T ? 40 : 20, [&](const std::string &nm, const G &g) { all(nm, g); });
  auto mo = matrix_ops(); for (int m = 1; m <= 3; ++m) for (int n = 1; n <= 3; ++n) { ctx.space = mc::cat("matrix operations, all ", m, "x", n); for (uint64_t b = 0; b < (1ull << (m * n)); ++b) for (int vs = 1; vs <= 2; ++vs) { Cmp A = mat::csc(m, n, b, vs); for (auto &o : mo) CASE(ctx, o.first, " mask=", b, " values ", vs) { net(ctx, o.first, [&] { o.second(A); }); ctx.checked(mat::hash(A) + vs); } CASE(ctx, "arrays of the caller, mask=", b, " values ", vs) { borrowed(ctx, A); ctx.checked(mat::hash(A)); } } }
  auto so = square_ops(); for (int n = 1; n <= (T ? 6 : 5); ++n) { ctx.space = mc::cat("operations on symmetric matrices n=", n); for (uint64_t k = 0; k < (1ull << gr::npairs(n)); ++k) { G g = gr::lower(n, k); std::vector<std::set<int>> c(n); for (int v = 0; v < n; ++v) { c[v].insert(v); for (int x : g.out[v]) c[v].insert(x), c[x].insert(v); } Cmp F; F.nmaj = F.nmin = n; for (int v = 0; v < n; ++v) { for (int x : c[v]) F.i.push_back(x), F.x.push_back(x == v ? n + 1 : -1); F.p.push_back(F.i.size()); }
      for (int val = 0; val < 2; ++val) { Cmp B = F; B.val = val; if (!val) B.x.clear(); for (auto &o : so) CASE(ctx, o.first, " mask=", k, " valued ", val) { net(ctx, o.first, [&] { o.second(B); }); ctx.checked(mat::hash(B)); } } } }
  ctx.space = "large matrices"; mat::large(false, [&](const std::string &nm, const std::function<Cmp(int)> &mk) { for (auto &o : mo) if (o.first != "dense_to_csc" && o.first != "sparse2dense") CASE(ctx, o.first, " on ", nm) { Cmp A = mk(0); net(ctx, o.first, [&] { o.second(A); }); ctx.checked(mat::hash(A)); } });
  ctx.space = "larger graphs"; for (int n : {300, 2500}) gr::huge_chain(n, [&](const std::string &nm, const std::function<G()> &mk) { G g = mk(); if (n == 300) all(nm, g); });  gr::huge_families(300, [&](const std::string &nm, const std::function<G()> &mk) { all(nm, mk()); });
  auto level = [&](const std::string &nm, const G &g) { // the builders report a cycle; what they took meanwhile goes back
    CASE(ctx, nm) { Csc c = gr::csc_diag(g); int n = g.n, r[4];
      net(ctx, "build_levelSet_CSC", [&] { int *lp = nullptr, *ls = nullptr; r[0] = build_levelSet_CSC((size_t)n, c.p.data(), c.i.data(), lp, ls); delete[] lp; delete[] ls; });
      net(ctx, "build_levelSet_CSC into given arrays", [&] { VI lp(n + 1), ls(n); r[1] = build_levelSet_CSC((size_t)n, (const int *)c.p.data(), (const int *)c.i.data(), lp.data(), ls.data()); });
      net(ctx, "build_levelSet_CSC with node levels", [&] { VI lp(n + 1), ls(n), nl(n); r[2] = HDAGG::build_levelSet_CSC((size_t)n, c.p.data(), c.i.data(), lp.data(), ls.data(), nl.data()); });
      net(ctx, "computingLevelSet_CSC", [&] { VI lp, ls; sym_lib::computingLevelSet_CSC(n, c.p.data(), c.i.data(), lp, ls, r[3]); });
      ctx.checked(mc::H().arr(r, 4).arr(c.i.data(), c.i.size()).h); } };
  for (int n = 1; n <= (T ? 5 : 4); ++n) { ctx.space = mc::cat("level sets of directed graphs with and without cycles, n=", n); for (uint64_t m = 0; m < (1ull << (n * (n - 1))); ++m) level(mc::cat("mask=", m), gr::digraph(n, m)); }
  ctx.space = "builders and objects"; for (int n = 1; n <= 6; ++n) { CASE(ctx, "diagonal n=", n) net(ctx, "diagonal", [&] { delete diagonal(n, 2); }); CASE(ctx, "tridiag n=", n) net(ctx, "tridiag", [&] { delete tridiag(n, 1, 2, 3); }); CASE(ctx, "demo n=", n) { net(ctx, "FusionDemo", [&] { Demo d(n), e(n, 3), f; d.set_num_test(2); d.evaluate(); }); } CASE(ctx, "permutation n=", n) net(ctx, "compute_inv_perm", [&] { VI p(n), q(n); std::iota(p.begin(), p.end(), 0); compute_inv_perm(n, p.data(), q.data()); reorder_array(n, p.data(), q.data(), VI(n).data()); });
    CASE(ctx, "diagonals n=", n) net(ctx, "extract_diagonals", [&] { Csc c = gr::csc_diag(gr::lower(n, 5)); delete[] extract_diagonals(n, c.p.data(), c.i.data()); });
    CASE(ctx, "objects n=", n) net(ctx, "matrix objects", [&] { for (int z = 0; z <= n; ++z) { CSC a(n, n, z), b(n, n, z, true), c(n, n, z, false, -1), d(0, 0, 0); CSR e(n, n, z), f(n, n, z, true), g(0, 0, 0); Dense h(n, z, 1), i(z, n, n), k(z, 0, 1), l(0, n, 1); } });
    CASE(ctx, "partial order n=", n) net(ctx, "merge_DAGs_with_partial_order", [&] { Csc c = gr::csc_diag(gr::lower(n, 5)), d = gr::csc_diag(gr::lower(n, 2)); int *P[2] = {c.p.data(), d.p.data()}, *I[2] = {c.i.data(), d.i.data()}; VI ip(n + 1, 0), ii(1, 0); int *p = nullptr, *i = nullptr; merge_graph(2, n, P, I, p, i); delete[] p; delete[] i; }); }
  ctx.space = "result table"; for (int cols = 1; cols <= 2; ++cols) for (int w = 0; w < 16; ++w) CASE(ctx, "columns ", cols, " script ", w) { std::string f = ctx.scratch + "/t"; net(ctx, "CSVManager", [&] { unlink((f + ".csv").c_str()); std::vector<std::string> nm; for (int k = 0; k < cols; ++k) nm.push_back(mc::cat("c", k)); profiling_utils::CSVManager c(f, ctx.scratch, nm, w & 1); for (int k = 1; k < 4; ++k) if (w >> k & 1) c.addElementToRecord(k, nm[k % cols]); else c.addRecord(); }); }
  const std::string M = "%%MatrixMarket matrix "; std::vector<std::string> base = { M + "coordinate real general\n2 3 3\n1 1 1.5\n2 2 -2\n1 3 4e-1\n", M + "coordinate real symmetric\n% note\n3 3 4\n1 1 2\n3 1 -1\n2 2 5\n3 3 7", M + "coordinate pattern general\n3 2 3\n3 1\n1 2\n2 2\n", M + "array real general\n2 2\n1\n-2.5\n3e1\n0\n", M + "coordinate real general\n1 1 0\n", M + "coordinate complex general\n2 2 2\n2 1 3 -1\n1 2 4 2.5\n", M + "coordinate integer general\n2 2 1\n2 1 3\n" };
  ctx.space = "files, whole and cut anywhere"; for (auto &b : base) for (size_t k = 0; k <= b.size(); ++k) CASE(ctx, "text ", mc::jesc(b), " first ", k) file(ctx, b.substr(0, k));
  ctx.space = "files with a replaced character"; for (auto &b : base) for (size_t k = M.size(); k < b.size(); ++k) for (char ch : std::string("09-x \n%.")) CASE(ctx, "text ", mc::jesc(b), " at ", k, " ", (int)ch) { std::string t = b; t[k] = ch; file(ctx, t); }
}
MC_MAIN(body)
