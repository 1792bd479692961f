// C16: Matrix Market files are read as the matrix they describe, and round trip
#include "io_common.hpp"
using namespace io;
using namespace sym_lib;
using mc::Ctx;
// layout: 0 plain, 1 comments, 2 blank lines and indentation, 3 no final newline, upper case, CR LF
static std::string layout(const std::string &banner, const std::vector<std::string> &body, int lay) {
  std::string b = banner, s; const char *nl = lay == 3 ? "\r\n" : "\n";
  if (lay == 3) for (auto &c : b) c = toupper((unsigned char)c);
  s = (lay == 2 ? "  " : "") + b + nl;
  if (lay == 1) s += "% a comment\n%\n%%another 3 3 3\n";
  if (lay == 2) s += "\n   % indented comment\n\n";
  for (size_t k = 0; k < body.size(); ++k) { if (lay == 2) s += k % 2 ? "\t " : "   "; std::string l = body[k]; if (lay == 2) for (size_t i = 0; i < l.size(); ++i) if (l[i] == ' ') { l.insert(i, "  "); i += 2; } s += l; if (lay == 2) s += "  \n\n"; else if (!(lay == 3 && k + 1 == body.size())) s += nl; }
  return s;
}
static std::string num(double v) { std::ostringstream o; o << std::setprecision(17) << v; return o.str(); }
static void coordinate(Ctx &ctx, const Cmp &a, int field, bool sym, const VI &order, int lay) {
  std::vector<std::string> e, body; Cmp w = a; w.val = true; w.x.clear();
  for (int c = 0; c < a.nmaj; ++c) for (int k = a.p[c]; k < a.p[c + 1]; ++k) {
    double v = field == 0 ? value(a.i[k], c, (a.i[k] + c) % 2) * (c == 1 ? 1e-7 / 3 : 1) : field == 1 ? (a.i[k] + 1) * 100 - 77 * c : 1; w.x.push_back(v);
    e.push_back(mc::cat(a.i[k] + 1, " ", c + 1, field == 2 ? "" : " " + num(v))); }
  body.push_back(mc::cat(a.nmin, " ", a.nmaj, " ", a.nnz())); for (int k : order) body.push_back(e[k]);
  const char *fn[] = {"real", "integer", "pattern"};
  std::string t = layout(mc::cat("%%MatrixMarket matrix coordinate ", fn[field], sym ? " symmetric" : " general"), body, lay), f = path(ctx);
  put(f, t); Want x = meaning(t);
  if (x.kind != 1 || !(x.a == w) || x.sym != sym) { fprintf(stderr, "reference reader disagrees with the generated file\n"); abort(); }
  readers(ctx, f, x, t); ctx.checked(mc::H().u(hash(w)).u(sym).h);
}
static void orders(int n, bool many, const std::function<void(const VI &)> &cb) {
  VI o(n); std::iota(o.begin(), o.end(), 0);
  if (n <= (many ? 4 : 3)) { do cb(o); while (std::next_permutation(o.begin(), o.end())); return; }
  cb(o); std::reverse(o.begin(), o.end()); cb(o); for (int k = 0; k < n; ++k) o[k] = (k * 2) % (n | 1) % n; VI s = o; std::sort(s.begin(), s.end()); bool p = true; for (int k = 0; k < n; ++k) p = p && s[k] == k; if (p) cb(o);
}
static void write(Ctx &ctx, Cmp a, int st, int exact) {
  if (a.val) for (size_t k = 0; k < a.x.size(); ++k) a.x[k] = exact ? (double)((int)(k * 37 % 199) - 99) / (k % 3 == 0 ? 4 : 8) * 8 : (a.x[k] + 1.0 / 3) * (k % 2 ? 1e6 : 1e-6);
  CSC *A = make<CSC>(a, st); std::string f = path(ctx);
  Cmp e = st > 0 ? transposed(a) : a; e.val = true; if (!a.val) e.x.assign(a.nnz(), 1.0);
  auto cmp = [&](const char *nm, const Cmp &want, CSC *B, double tol, int est) {
    if (!B) { ctx.fail(nm, "written file is not readable: " + get(f)); return; }
    Cmp g = want; if (tol > 0 && (int)B->nnz == want.nnz()) for (int k = 0; k < want.nnz(); ++k) { double d = std::abs(B->x[k] - want.x[k]); if (d <= tol * std::abs(want.x[k])) g.x[k] = B->x[k]; }
    std::string r = same(g, B); if (r.empty() && B->stype != est) r = mc::cat("storage type ", B->stype); if (!r.empty()) ctx.fail(nm, r + " file " + get(f)); };
  CSC_to_mtx(f, A); { Want w = meaning(get(f)); if (w.kind != 1) ctx.fail("CSC_to_mtx", "file is not well formed: " + get(f)); Quiet q; CSC *B = read_mtx(f); cmp("CSC_to_mtx", e, B, a.val && !exact ? 0.0051 : 0, st ? -1 : 0); delete B; } ctx.call(2);
  std::string k = same(a, A); if (!k.empty()) ctx.fail("CSC_to_mtx", "input modified " + k);
  if (st <= 0 && a.val) { // full precision writer
    { std::ofstream o(f); print_csc_templated(a.nmin, a.nmaj, A->p, A->i, A->x, o.rdbuf(), exact ? "  " : "", st ? "%%MatrixMarket matrix coordinate real symmetric" : "%%MatrixMarket matrix coordinate real general"); }
    { Quiet q; CSC *B = read_mtx(f); cmp("print_csc_templated", e, B, 0, st); delete B; } ctx.call(2);
    if (a.nmin == a.nmaj) { FILE *o = fopen(f.c_str(), "w"); print_csc(fileno(o), "%%MatrixMarket matrix coordinate real general", A); fclose(o); Quiet q; CSC *B = read_mtx(f); Cmp z = a; if (!exact) for (auto &v : z.x) { char b[64]; snprintf(b, 64, "%.12f", v); v = atof(b); } cmp("print_csc", z, B, 0, 0); delete B;
      o = fopen(f.c_str(), "w"); Cmp tr = transposed(a); print_csr(fileno(o), "%%MatrixMarket matrix coordinate real general", a.nmin, tr.pp(), tr.ii(), tr.xx()); fclose(o); B = read_mtx(f); cmp("print_csr", z, B, 0, 0); delete B; ctx.call(4); } }
  delete A; ctx.checked(hash(a) + st);
}
static void array(Ctx &ctx, int m, int n, int vs, int lay) {
  VD v; std::vector<std::string> body = {mc::cat(m, " ", n)}; for (int c = 0; c < n; ++c) for (int r = 0; r < m; ++r) { double x = value(r, c, vs) / 3; v.push_back(x); body.push_back(num(x)); }
  std::string t = layout("%%MatrixMarket matrix array real general", body, lay), f = path(ctx); put(f, t); Want w = meaning(t);
  if (w.kind != 1 || w.dense != v) { fprintf(stderr, "reference reader disagrees\n"); abort(); }
  readers(ctx, f, w, t);
  for (int lda : {1, m}) { { std::ofstream o(f); print_dense(m, n, lda, v.data(), o.rdbuf(), "  ", "%%MatrixMarket matrix array real general"); } Want x = meaning(get(f)); if (x.kind != 1 || x.dense != v) ctx.fail("print_dense", get(f)); else readers(ctx, f, x, get(f)); ctx.call(); }
  { std::ofstream o(f); print_constant(v[m * n - 1], o.rdbuf(), "  "); } { std::ifstream i(f); double x = 0; read_real_constant(i, x); if (x != v[m * n - 1]) ctx.fail("print_constant", get(f)); } ctx.call(2);
  ctx.checked(mc::H().u(m * 10 + n).u(vs).h);
}
// triplets: read as listed, and what is written is read back entry for entry
static void triple(Ctx &ctx, const Cmp &a, int field, int symm, const VI &order, int lay) {
  Trip w; w.m = a.nmin; w.n = a.nmaj; w.nz = order.size(); const char *F = "RCIP", *S = "GSHK"; w.code = std::string("MC") + F[field] + S[symm]; w.general = !symm; w.kind = (field == 0 || field == 2) && symm == 2 ? 3 : field == 3 && symm > 1 ? 0 : 1; if (field == 0 && symm == 2) w.kind = 0; if (symm && a.nmin != a.nmaj) w.kind = w.kind == 0 ? 0 : 3; w.why = "type";
  VI r, c; for (int j = 0; j < a.nmaj; ++j) for (int k = a.p[j]; k < a.p[j + 1]; ++k) r.push_back(a.i[k] + 1), c.push_back(j + 1);
  std::vector<std::string> b = {mc::cat(w.m, " ", w.n, " ", w.nz)};
  for (int k : order) { w.r.push_back(r[k]); w.c.push_back(c[k]); std::string e = mc::cat(r[k], " ", c[k]); for (int q = 0; q < (field == 3 ? 0 : field == 1 ? 2 : 1); ++q) { double v = field == 2 ? (k + 1) * 100 - 77 * c[k] : (value(r[k], c[k], (k + q) % 2) + q) / (k % 3 + 1) * (c[k] == 1 ? 1e-7 : 1); w.v.push_back(v); e += " " + num(v); } b.push_back(e); }
  std::string t = layout(mc::cat("%%MatrixMarket matrix coordinate ", trip_field(field), " ", trip_sym(symm)), b, lay), f = path(ctx); if (lay == 3) t.replace(0, 14, "%%MatrixMarket"); put(f, t);
  Trip x = triplet_meaning(t); if (x.kind != w.kind || (x.kind == 1 && (x.code != w.code || x.r != w.r || x.c != w.c || x.v != w.v || x.m != w.m || x.n != w.n))) { fprintf(stderr, "reference triplet reader disagrees on %s: %d %d\n", t.c_str(), x.kind, w.kind); abort(); }
  triplets(ctx, f, x, t);
  if (w.kind == 1 && lay == 0) { MM_typecode tc; memcpy(tc, w.code.data(), 4); VI I = w.r, J = w.c; VD v = w.v; std::string g = path(ctx, "w.mtx"); I.push_back(0); J.push_back(0); v.push_back(0);
    int rc = mm_write_mtx_crd(&g[0], w.m, w.n, w.nz, I.data(), J.data(), v.data(), tc); if (rc) ctx.fail("mm_write_mtx_crd", mc::cat("returned ", rc)); else { std::string u = get(g); Trip y = triplet_meaning(u); if (y.kind != 1 || y.code != w.code || y.r != w.r || y.c != w.c || y.v != w.v || y.m != w.m || y.n != w.n) ctx.fail("mm_write_mtx_crd", "wrote " + u + " for " + t); else { triplets(ctx, g, y, u); if (field != 1 && symm < 2) { Want z = meaning(u); if (z.kind == 1) readers(ctx, g, z, u); } } }
    FILE *h = fopen(g.c_str(), "w"); int a1 = mm_write_banner(h, tc), a2 = mm_write_mtx_crd_size(h, w.m, w.n, w.nz); fclose(h); std::string hd = mc::cat("%%MatrixMarket matrix coordinate ", trip_field(field), " ", trip_sym(symm)), got = get(g); auto lw = words(got), lx = words(hd + " " + b[0]); if (a1 || a2) ctx.fail("mm_write_banner and size", mc::cat("returned ", a1, " ", a2)); if (lw != lx) ctx.fail("mm_write_banner and size", "wrote " + got); ctx.call(3); }
  ctx.checked(mc::H().u(hash(a)).u(field * 8 + symm).u(lay).h);
}
static void triplet_types(Ctx &ctx) {
  for (char o : std::string("MX ")) for (char fm : std::string("CA ")) for (char fd : std::string("RCPI ")) for (char sy : std::string("GSHK ")) CASE(ctx, "code ", o, fm, fd, sy) {
    MM_typecode t = {o, fm, fd, sy}; bool known = o == 'M' && fm != ' ' && fd != ' ' && sy != ' ', valid = o == 'M' && !(fm == 'A' && fd == 'P') && !(fd == 'R' && sy == 'H') && !(fd == 'P' && (sy == 'H' || sy == 'K'));
    std::string want = known ? mc::cat("matrix ", fm == 'C' ? "coordinate" : "array", " ", fd == 'R' ? "real" : fd == 'C' ? "complex" : fd == 'P' ? "pattern" : "integer", " ", sy == 'G' ? "general" : sy == 'S' ? "symmetric" : sy == 'H' ? "hermitian" : "skew-symmetric") : "", f = path(ctx);
    char *s = mm_typecode_to_str(t); if ((s != nullptr) != known || (s && want != s)) ctx.fail("mm_typecode_to_str", s ? s : "null"); free(s); if ((mm_is_valid(t) != 0) != valid) ctx.fail("mm_is_valid", "wrong"); ctx.call(2);
    FILE *h = fopen(f.c_str(), "w"); int rc = mm_write_banner(h, t), rc2 = mm_write_mtx_array_size(h, 3, 70000); fclose(h); if ((rc == 0) != known || rc2) ctx.fail("mm_write_banner", mc::cat("returned ", rc, " ", rc2)); ctx.call(2);
    if (known) { MM_typecode u; int M = 0, N = 0; h = fopen(f.c_str(), "r"); int r1 = mm_read_banner(h, &u), r2 = mm_read_mtx_array_size(h, &M, &N); fclose(h); if (r1 || r2 || memcmp(t, u, 4) || M != 3 || N != 70000) ctx.fail("mm_read_banner", "did not read back what was written: " + get(f)); ctx.call(2); }
    ctx.checked(mc::H().u(o).u(fm).u(fd).u(sy).h); }
}
static void body(Ctx &ctx) {
  bool T = ctx.thorough;
  ctx.space = "triplet types"; triplet_types(ctx);
  for (int m = 1; m <= 3; ++m) for (int n = 1; n <= 3; ++n) { if (m * n > 6 && !T) continue; ctx.space = mc::cat("triplets ", m, "x", n);
    for (uint64_t k = 0; k < (1ull << (m * n)); ++k) for (int fd = 0; fd < 4; ++fd) for (int sy = 0; sy < 4; ++sy) { Cmp a = csc(m, n, k, 2); orders(a.nnz(), false, [&](const VI &o) { for (int l = 0; l < 4; ++l) { if (m * n > 4 && l != (int)((k + fd + sy) % 4)) continue; CASE(ctx, "pattern=", k, " field=", fd, " symmetry=", sy, " order=", mc::str(o), " layout=", l) triple(ctx, a, fd, sy, o, l); } }); } }
  ctx.space = "large triplets"; mat::large(false, [&](const std::string &nm, const std::function<Cmp(int)> &mk) { for (int fd = 0; fd < 4; ++fd) CASE(ctx, nm, " field=", fd) { Cmp a = mk(2); VI o(a.nnz()); for (int k = 0; k < a.nnz(); ++k) o[k] = k; std::reverse(o.begin(), o.end()); triple(ctx, a, fd, 0, o, 0); } });
  for (int m = 1; m <= 4; ++m) for (int n = 1; n <= 4; ++n) { if (m * n > (T ? 9 : 8)) continue;
    ctx.space = mc::cat("coordinate general ", m, "x", n);
    for (uint64_t k = 0; k < (1ull << (m * n)); ++k) for (int fd = 0; fd < 3; ++fd) { Cmp a = csc(m, n, k, 2); orders(a.nnz(), T, [&](const VI &o) { for (int l = 0; l < (T || m * n < 5 ? 4 : 1); ++l) { int lay = m * n < 5 || T ? l : (int)(k % 4); CASE(ctx, "pattern=", k, " field=", fd, " order=", mc::str(o), " layout=", lay) coordinate(ctx, a, fd, false, o, lay); } }); } }
  for (int n = 1; n <= (T ? 4 : 3); ++n) { ctx.space = mc::cat("coordinate symmetric ", n);
    for (uint64_t k = 0; k < (1ull << (n * (n + 1) / 2)); ++k) { uint64_t mask = 0; int b = 0; for (int c = 0; c < n; ++c) for (int r = c; r < n; ++r, ++b) if (k >> b & 1) mask |= 1ull << (c * n + r);
      for (int fd = 0; fd < 3; ++fd) { Cmp a = csc(n, n, mask, 2); orders(a.nnz(), false, [&](const VI &o) { for (int l = 0; l < (n < 4 ? 4 : 1); ++l) { int lay = n < 4 ? l : (int)(k % 4); CASE(ctx, "half=", k, " field=", fd, " order=", mc::str(o), " layout=", lay) coordinate(ctx, a, fd, true, o, lay); } }); } } }
  for (int m = 1; m <= 3; ++m) for (int n = 1; n <= 3; ++n) { ctx.space = mc::cat("written and read back ", m, "x", n);
    for (uint64_t k = 0; k < (1ull << (m * n)); ++k) for (int vs = 0; vs < 3; ++vs) for (int ex = 0; ex < 2; ++ex) CASE(ctx, "pattern=", k, " values=", vs, " exact=", ex) write(ctx, csc(m, n, k, vs), 0, ex);
    if (m == n) for (uint64_t k = 0; k < (1ull << (n * (n + 1) / 2)); ++k) for (int up = 0; up < 2; ++up) for (int vs = 0; vs < 3; vs += 2) for (int ex = 0; ex < 2; ++ex) { uint64_t mask = 0; int b = 0; for (int c = 0; c < n; ++c) for (int r = c; r < n; ++r, ++b) if (k >> b & 1) mask |= 1ull << (up ? r * n + c : c * n + r);
      CASE(ctx, "half=", k, " upper=", up, " values=", vs, " exact=", ex) write(ctx, csc(n, n, mask, vs), up ? 1 : -1, ex); } }
  ctx.space = "array files";
  for (int m = 1; m <= 5; ++m) for (int n = 1; n <= 5; ++n) for (int vs = 0; vs < 2; ++vs) for (int l = 0; l < 4; ++l) CASE(ctx, m, "x", n, " values=", vs, " layout=", l) array(ctx, m, n, vs, l);
  for (auto &d : std::vector<std::pair<int, int>>{{7, 45}, {45, 7}, {64, 64}, {1, 300}, {300, 1}, {130, 260}, {257, 256}}) for (int vs = 0; vs < 2; ++vs) CASE(ctx, d.first, "x", d.second, " values=", vs) array(ctx, d.first, d.second, vs, 0);
  ctx.space = "large files";
  for (int n : {50, 400}) for (int fd = 0; fd < 3; ++fd) for (int s = 0; s < 2; ++s) for (int l = 0; l < 4; ++l) CASE(ctx, "n=", n, " field=", fd, " symmetric=", s, " layout=", l) { Cmp a; a.nmaj = n; a.nmin = s ? n : n + 7; a.val = false; for (int c = 0; c < n; ++c) { for (int r = s ? c : 0; r < a.nmin; ++r) if ((r * 7 + c * 13) % 11 == 0 && c % 5 != 3) a.i.push_back(r); a.p.push_back(a.i.size()); } VI o(a.nnz()); for (int k = 0; k < a.nnz(); ++k) o[k] = k; std::reverse(o.begin(), o.end()); for (int k = 0; k + 5 < a.nnz(); k += 5) std::swap(o[k], o[k + 4]); coordinate(ctx, a, fd, s, o, l); }
  ctx.space = "very large files"; mat::large(false, [&](const std::string &nm, const std::function<Cmp(int)> &mk) { for (int fd = 0; fd < 3; fd += 2) CASE(ctx, nm, " field=", fd) { Cmp a = mk(2); VI o(a.nnz()); for (int k = 0; k < a.nnz(); ++k) o[k] = k; std::reverse(o.begin(), o.end()); coordinate(ctx, a, fd, false, o, fd ? 1 : 0); } CASE(ctx, nm, " written") write(ctx, mk(0), 0, 1); });
  ctx.space = "long lines"; for (int len : {1, 255, 256, 1023, 1024, 1025, 1026, 4095, 4096, 70000}) for (int w = 0; w < 3; ++w) CASE(ctx, w == 0 ? "comment" : w == 1 ? "padded entry" : "padded size line", " of ", len) { std::string pad(len, w ? ' ' : 'x'), t = "%%MatrixMarket matrix coordinate real general\n"; if (!w) t += "%" + pad + " 9 9 9\n"; t += std::string("2 3 ") + (w == 2 ? pad : "") + "2\n1 3 " + (w == 1 ? pad : "") + "4.5\n2 1 -7" + (w == 1 ? pad : "") + "\n"; std::string f = path(ctx); put(f, t); Want x = meaning(t); if (x.kind != 1 || x.a.nnz() != 2) abort(); readers(ctx, f, x, t); triplets(ctx, f, triplet_meaning(t), t); ctx.checked(len * 3 + w); }
}
MC_MAIN(body)
