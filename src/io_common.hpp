// Matrix Market files: independent reference reader, file helpers
#pragma once
#include "mat.hpp"
#include <iostream>
#include <fstream>
#include <vector>
#include <cassert>
#include "aggregation/sparse_io.h"
#include "aggregation/exceptions.h"
#include "aggregation/mmio.h"
namespace sym_lib { __attribute__((weak)) int mm_read_mtx_crd(char *fname, int *M, int *N, int *nz, int **I, int **J, double **val, MM_typecode *matcode); }
namespace io {
using namespace mat;
struct Quiet { std::streambuf *a, *b; Quiet() : a(std::cout.rdbuf(nullptr)), b(std::cerr.rdbuf(nullptr)) {} ~Quiet() { std::cout.rdbuf(a); std::cerr.rdbuf(b); std::cout.clear(); std::cerr.clear(); } };
inline std::string path(mc::Ctx &ctx, const char *nm = "m.mtx") { return ctx.scratch + "/" + nm; }
inline void put(const std::string &f, const std::string &s) { FILE *o = fopen(f.c_str(), "w"); if (!o) abort(); fwrite(s.data(), 1, s.size(), o); fclose(o); }
inline std::string get(const std::string &f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
// What a file means. kind 0: malformed, must be rejected. 1: well formed, must be read as given.
// 2: outside the format's promises (may be rejected, or read as given). 3: anything but memory errors and hangs.
struct Want { int kind = 0; bool array = false; bool sym = false; Cmp a; VD dense; int m = 0, n = 0; std::string why; };
inline bool strict_int(const std::string &t, long &v) {
  size_t k = (!t.empty() && (t[0] == '+' || t[0] == '-')) ? 1 : 0; if (k == t.size() || t.size() > 18) return false;
  for (size_t i = k; i < t.size(); ++i) if (!isdigit((unsigned char)t[i])) return false;
  v = atol(t.c_str()); return true;
}
inline int strict_double(const std::string &t, double &v) { // 0 no, 1 yes, 2 unusual
  size_t i = (t[0] == '+' || t[0] == '-') ? 1 : 0; int d = 0, e = 0;
  while (i < t.size() && isdigit((unsigned char)t[i])) ++i, ++d;
  if (i < t.size() && t[i] == '.') { ++i; while (i < t.size() && isdigit((unsigned char)t[i])) ++i, ++d; }
  bool ok = d > 0;
  if (ok && i < t.size() && (t[i] == 'e' || t[i] == 'E')) { ++i; if (i < t.size() && (t[i] == '+' || t[i] == '-')) ++i; while (i < t.size() && isdigit((unsigned char)t[i])) ++i, ++e; ok = e > 0; }
  char *end; errno = 0; v = strtod(t.c_str(), &end);
  if (ok && i == t.size()) return errno == ERANGE ? 2 : 1;
  return *end == 0 ? 2 : 0; // nan, inf, hexadecimal
}
inline std::vector<std::string> words(const std::string &s) { std::istringstream i(s); std::vector<std::string> r; std::string t; while (i >> t) r.push_back(t); return r; }
inline Want meaning(const std::string &text) {
  Want w; auto rej = [&](const char *y) { Want z; z.why = y; return z; };
  std::vector<std::string> lines; { std::string l; std::istringstream i(text); while (std::getline(i, l)) lines.push_back(l); }
  if (lines.empty()) return rej("empty");
  std::string h = lines[0]; for (auto &c : h) c = tolower((unsigned char)c);
  auto t = words(h); bool odd = false;
  if (t.size() < 5) return rej("banner"); if (t.size() > 5) odd = true;
  if (t[0] != "%%matrixmarket" || t[1] != "matrix") return rej("banner");
  if (t[2] == "array") w.array = true; else if (t[2] != "coordinate") return rej("format");
  bool pat = false;
  if (t[3] == "pattern") { pat = true; if (w.array) return rej("array pattern"); } else if (t[3] != "real" && t[3] != "integer") return rej("field");
  if (w.array && t[3] == "integer") odd = true; // supported by none of the readers, harmless if it were
  if (t[4] == "symmetric") w.sym = true; else if (t[4] != "general") return rej("symmetry");
  if (w.array && w.sym) return rej("packed symmetric array");
  size_t k = 1; std::vector<std::string> s;
  for (;; ++k) { if (k >= lines.size()) return rej("no size"); s = words(lines[k]); if (s.empty()) continue; if (s[0][0] == '%') continue; break; }
  long m, n, z = 0; size_t ns = w.array ? 2 : 3;
  if (s.size() < ns || !strict_int(s[0], m) || !strict_int(s[1], n) || (!w.array && !strict_int(s[2], z))) return rej("size line");
  if (s.size() > ns) return rej("size line has more numbers");
  if (m < 0 || n < 0 || z < 0 || m > INT32_MAX || n > INT32_MAX || z > INT32_MAX) return rej("size out of range");
  if (m == 0 || n == 0) { w.kind = 3; return w; }
  if (w.sym && m != n) return rej("symmetric but not square");
  std::vector<std::vector<std::string>> rows; std::vector<std::string> all;
  for (++k; k < lines.size(); ++k) { auto x = words(lines[k]); if (x.empty()) continue; rows.push_back(x); all.insert(all.end(), x.begin(), x.end()); }
  w.m = m; w.n = n;
  if (w.array) {
    if ((long)all.size() != m * n) return rej("number of values");
    for (auto &x : all) { double v; int q = strict_double(x, v); if (!q) return rej("value"); if (q == 2) odd = true; w.dense.push_back(v); }
    w.kind = odd ? 2 : 1; if (odd && t[3] != "integer") w.kind = 3; return w;
  }
  size_t per = pat ? 2 : 3;
  if (all.size() < per * z) return rej("entries missing");
  if (all.size() > per * z) { for (long i = 0; i < z; ++i) if (rows[i].size() != per) return rej("entries malformed"); odd = true; }
  else for (auto &x : rows) if (x.size() != per) odd = true; // entries not one per line
  std::vector<std::tuple<int, int, double>> e; std::set<std::pair<int, int>> seen; bool dup = false, weird = false;
  for (long i = 0; i < z; ++i) {
    long r, c; double v = 1; if (!strict_int(all[per * i], r) || !strict_int(all[per * i + 1], c)) return rej("index"); if (!pat) { int q = strict_double(all[per * i + 2], v); if (!q) return rej("value"); if (q == 2) weird = true; if (t[3] == "integer") { long iv; if (!strict_int(all[per * i + 2], iv)) weird = true; } }
    if (r < 1 || r > m || c < 1 || c > n) return rej("index out of range");
    if (!seen.insert({r, c}).second) dup = true; if (w.sym && r < c) weird = true;
    e.emplace_back(c - 1, r - 1, v);
  }
  std::sort(e.begin(), e.end(), [](auto &a, auto &b) { return std::get<0>(a) < std::get<0>(b) || (std::get<0>(a) == std::get<0>(b) && std::get<1>(a) < std::get<1>(b)); });
  w.a.nmaj = n; w.a.nmin = m; w.a.p.assign(1, 0); size_t q = 0;
  if (n > 100000) { w.kind = 3; return w; }
  for (int c = 0; c < n; ++c) { for (; q < e.size() && std::get<0>(e[q]) == c; ++q) { w.a.i.push_back(std::get<1>(e[q])); w.a.x.push_back(std::get<2>(e[q])); } w.a.p.push_back(w.a.i.size()); }
  w.kind = dup || weird ? 3 : odd ? 2 : 1;
  return w;
}
inline Cmp with_diag(const Cmp &a) { Cmp b; b.nmaj = a.nmaj; b.nmin = a.nmin; for (int c = 0; c < a.nmaj; ++c) { if (a.p[c] == a.p[c + 1] && c < a.nmin) { b.i.push_back(c); b.x.push_back(0); } for (int k = a.p[c]; k < a.p[c + 1]; ++k) { b.i.push_back(a.i[k]); b.x.push_back(a.x[k]); } b.p.push_back(b.i.size()); } return b; }
// Runs every reader on the file and compares with what it means
inline void readers(mc::Ctx &ctx, const std::string &f, const Want &w, const std::string &text) {
  using namespace sym_lib;
  auto bad = [&](const char *nm, const std::string &m) { ctx.fail(nm, m + " of file " + mc::jesc(text)); };
  auto judge = [&](const char *nm, CSC *A, bool diag) {
    if (w.array) { if (A) bad(nm, "accepted an array file"); return; }
    if (!A) { if (w.kind == 1) bad(nm, "rejected a well formed file"); return; }
    if (w.kind == 0) { bad(nm, "accepted a malformed file (" + w.why + ")"); return; }
    if (w.kind == 3) return;
    std::string e = same(diag ? with_diag(w.a) : w.a, A); if (!e.empty()) bad(nm, e);
    if (A->stype != (w.sym ? -1 : 0)) bad(nm, mc::cat("storage type ", A->stype));
  };
  Quiet q;
  { CSC *A = nullptr; try { A = read_mtx(f); } catch (const std::runtime_error &) { A = nullptr; } judge("read_mtx", A, false); delete A; ctx.call(); }
  for (int d = 0; d < 2; ++d) { CSC *A = nullptr; std::ifstream in(f); bool thrown = false; try { read_mtx_csc_real(in, A, d); } catch (const std::runtime_error &) { thrown = true; } if (thrown && A) { bad("read_mtx_csc_real", "result of a rejected file"); A = nullptr; } judge(d ? "read_mtx_csc_real with diagonals" : "read_mtx_csc_real", A, d); delete A; ctx.call(); }
  { Dense *D = nullptr; std::string g = f; bool thrown = false; try { load_mtx_array_real(g, D); } catch (const std::runtime_error &) { thrown = true; } ctx.call();
    if (!w.array) { if (D) bad("load_mtx_array_real", "accepted a coordinate file"); }
    else if (thrown || !D) { if (w.kind == 1) bad("load_mtx_array_real", "rejected a well formed file"); }
    else if (w.kind == 0) bad("load_mtx_array_real", "accepted a malformed file (" + w.why + ")");
    else if (w.kind < 3) { if ((int)D->row != w.m || (int)D->col != w.n) bad("load_mtx_array_real", "size"); else if (VD(D->a, D->a + w.m * w.n) != w.dense) bad("load_mtx_array_real", "values " + mc::str(D->a, w.m * w.n)); }
    delete D; }
}
// ---- triplet files (utils/external/mmio.cpp): entries as listed, four fields, four symmetries
struct Trip { int kind = 0; std::string why, code; int m = 0, n = 0, nz = 0; VI r, c; VD v; bool array = false, general = false; };
inline Trip triplet_meaning(const std::string &text) {
  Trip w; auto rej = [&](const char *y) { Trip z; z.kind = text.find('\0') == std::string::npos ? 0 : 3; z.why = y; return z; };
  bool any = text.find('\0') != std::string::npos, odd = false;
  std::vector<std::string> lines; { std::string l; std::istringstream i(text); while (std::getline(i, l)) lines.push_back(l); }
  if (lines.empty()) return rej("empty");
  auto t = words(lines[0]); if (t.size() < 5) return rej("banner"); if (t.size() > 5 || lines[0].size() > 1000) odd = true;
  for (auto &x : t) for (auto &ch : x) ch = tolower((unsigned char)ch);
  if (t[0].compare(0, 14, "%%matrixmarket")) return rej("banner"); if (words(lines[0])[0] != "%%MatrixMarket") any = true;
  if (t[1] != "matrix") return rej("object"); w.code = "M";
  if (t[2] == "coordinate") w.code += 'C'; else if (t[2] == "array") w.code += 'A', w.array = true; else return rej("format");
  if (t[3] == "real") w.code += 'R'; else if (t[3] == "complex") w.code += 'C'; else if (t[3] == "integer") w.code += 'I'; else if (t[3] == "pattern") w.code += 'P'; else return rej("field");
  if (t[4] == "general") w.code += 'G'; else if (t[4] == "symmetric") w.code += 'S'; else if (t[4] == "hermitian") w.code += 'H'; else if (t[4] == "skew-symmetric") w.code += 'K'; else return rej("symmetry");
  w.general = t[4] == "general"; char f = w.code[2], y = w.code[3]; if (w.array && f == 'P') return rej("array pattern"); if (f == 'R' && y == 'H') return rej("real hermitian"); if (f == 'P' && (y == 'H' || y == 'K')) return rej("pattern symmetry"); if (f == 'I' && y == 'H') any = true;
  size_t k = 1; std::vector<std::string> s; for (;; ++k) { if (k >= lines.size()) return rej("no size"); s = words(lines[k]); if (s.empty()) continue; if (s[0][0] == '%') continue; break; }
  long m, n, z = 0; size_t ns = w.array ? 2 : 3; if (s.size() != ns || !strict_int(s[0], m) || !strict_int(s[1], n) || (!w.array && !strict_int(s[2], z))) return rej("size line");
  if (lines[k].size() > 1000) odd = true; if (m < 0 || n < 0 || z < 0 || m > INT32_MAX || n > INT32_MAX || z > INT32_MAX) return rej("size out of range");
  w.m = m; w.n = n; w.nz = z; if (m == 0 || n == 0) any = true; if (!w.general && m != n) any = true;
  if (w.array) { w.kind = any ? 3 : odd ? 2 : 1; return w; }
  size_t per = 2 + (f == 'P' ? 0 : f == 'C' ? 2 : 1); std::vector<std::string> all;
  for (++k; k < lines.size(); ++k) { auto x = words(lines[k]); if (!x.empty() && x.size() != per) any = true; all.insert(all.end(), x.begin(), x.end()); }
  if (all.size() / per < (size_t)z) return rej("entries missing"); if (all.size() > per * z) odd = true;
  for (long e = 0; e < z; ++e) { long r, c; auto *x = &all[per * e]; if (!strict_int(x[0], r) || !strict_int(x[1], c)) return rej("index"); if (r < 1 || r > m || c < 1 || c > n) return rej("index out of range"); w.r.push_back(r); w.c.push_back(c);
    for (size_t q = 2; q < per; ++q) { double v; int d = strict_double(x[q], v); if (!d) return rej("value"); if (d == 2 || x[q].size() > 1000) any = true; long iv; if (f == 'I' && !strict_int(x[q], iv)) any = true; w.v.push_back(v); } }
  w.kind = any ? 3 : odd ? 2 : 1; return w;
}
struct Mute { FILE *o, *e, *n; Mute() : o(stdout), e(stderr) { static FILE *z = fopen("/dev/null", "w"); n = z; stdout = z; stderr = z; } ~Mute() { stdout = o; stderr = e; } };
inline void triplets(mc::Ctx &ctx, const std::string &f, const Trip &w, const std::string &text) {
  using namespace sym_lib;
  auto bad = [&](const char *nm, const std::string &m) { ctx.fail(nm, m + " of file " + mc::jesc(text)); };
  auto judge = [&](const char *nm, bool ok, const std::function<std::string()> &diff, bool support) { if (!support) { if (ok) bad(nm, "accepted an unsupported type"); return; } if (!ok) { if (w.kind == 1) bad(nm, "rejected a well formed file"); return; } if (w.kind == 0) { bad(nm, "accepted a malformed file (" + w.why + ")"); return; } if (w.kind == 3) return; std::string d = diff(); if (!d.empty()) bad(nm, d); };
  auto differs = [&](int M, int N, int nz, const int *I, const int *J, const double *v, int base) -> std::string { if (M != w.m || N != w.n || nz != w.nz) return mc::cat("size ", M, " ", N, " ", nz); for (int k = 0; k < nz; ++k) if (I[k] != w.r[k] - base || J[k] != w.c[k] - base) return mc::cat("entry ", k, " is ", I[k], ",", J[k]); if (w.v.empty() != !(v && nz && w.code[2] != 'P')) return "values"; for (size_t k = 0; k < w.v.size(); ++k) if (v[k] != w.v[k]) return mc::cat("value ", k, " is ", v[k]); return ""; };
  std::string g = f; Mute mute; bool crd = !w.array;
  if (mm_read_mtx_crd) { int M = -7, N = -7, nz = -7, *I = nullptr, *J = nullptr; double *v = nullptr; MM_typecode t = {0, 0, 0, 0}; int rc = mm_read_mtx_crd(&g[0], &M, &N, &nz, &I, &J, &v, &t); ctx.call();
    judge("mm_read_mtx_crd", rc == 0, [&] { return std::string(t, 4) != w.code ? "type " + std::string(t, 4) : differs(M, N, nz, I, J, v, 0); }, crd || w.kind == 0);
    if (rc == 0) { free(I); free(J); free(v); } }
  { int M = -7, N = -7, nz = -7, *I = nullptr, *J = nullptr; double *v = nullptr; int rc = mm_read_unsymmetric_sparse(g.c_str(), &M, &N, &nz, &v, &I, &J); ctx.call();
    if (!(rc != 0 && w.kind == 1 && !w.general) && w.why != "real hermitian") judge("mm_read_unsymmetric_sparse", rc == 0, [&] { return differs(M, N, nz, I, J, v, 1); }, w.kind == 0 || w.kind == 3 || (crd && w.code[2] == 'R'));
    if (rc == 0) { free(I); free(J); free(v); } }
  if (FILE *h = fopen(g.c_str(), "r")) { int M = -7, N = -7, nz = 0; MM_typecode t; int rc = mm_read_banner(h, &t); VI I, J; VD v; bool arr = rc == 0 && mm_is_array(t); if (rc == 0 && !mm_is_valid(t)) rc = -1;
    if (rc == 0) rc = arr ? mm_read_mtx_array_size(h, &M, &N) : mm_read_mtx_crd_size(h, &M, &N, &nz);
    if (rc == 0 && nz <= 1000000) for (int k = 0; k < nz && rc == 0; ++k) { int a = -7, b = -7; double x = 0, y = 0; rc = mm_read_mtx_crd_entry(h, &a, &b, &x, &y, t); I.push_back(a); J.push_back(b); if (!mm_is_pattern(t)) v.push_back(x); if (mm_is_complex(t)) v.push_back(y); }
    fclose(h); ctx.call(2); if (w.kind == 0 && w.why == "index out of range") return; // one entry is read without the sizes
    if (rc == 0 && !arr && nz <= 1000000 && w.kind == 0) bad("reading entry by entry", "accepted a malformed file (" + w.why + ")"); else if (arr || (nz <= 1000000)) judge("reading entry by entry", rc == 0, [&] { return std::string(t, 4) != w.code ? "type " + std::string(t, 4) : differs(M, N, nz, I.data(), J.data(), v.data(), 0); }, true); }
}
inline const char *trip_field(int f) { static const char *n[] = {"real", "complex", "integer", "pattern"}; return n[f]; }
inline const char *trip_sym(int s) { static const char *n[] = {"general", "symmetric", "hermitian", "skew-symmetric"}; return n[s]; }
} // namespace io
