// Small matrices: reference representation, enumeration and comparison
#pragma once
#include "mc.hpp"
#include <cmath>
#include "aggregation/def.h"
namespace mat {
using VI = std::vector<int>;
using VD = std::vector<double>;
// compressed storage of nmaj vectors (columns or rows) over nmin indices
struct Cmp {
  int nmaj = 0, nmin = 0; VI p{0}, i; VD x; bool val = true;
  int nnz() const { return (int)i.size(); }
  int *pp() { return p.data(); } int *ii() { return i.data(); } double *xx() { return val ? x.data() : nullptr; }
  std::string str() const { return mc::cat(nmin, "x", nmaj, " p=", mc::str(p), " i=", mc::str(i), val ? " x=" + mc::str(x) : std::string(" pattern")); }
  bool operator==(const Cmp &o) const { return nmaj == o.nmaj && nmin == o.nmin && p == o.p && i == o.i && val == o.val && (!val || x == o.x); }
};
inline double value(int r, int c, int vs) {
  if (vs == 1) return ((r + 2 * c) % 3 == 1) ? 0.0 : -(r + 1) - 0.5 * c;   // explicit zeros, negatives
  if (vs == 3) { static const double v[] = {INFINITY, -INFINITY, 5e-324, -1.7e308, 1e-300, 16777217, 4294967297., -3}; return v[(r * 3 + c * 5) & 7]; }
  return 1 + r * 7 + c * 0.125;
}
// bit r*nmaj... bit (c*m+r) of mask set: entry (r,c). order: 0 ascending, 1 descending, 2 rotated
inline Cmp csc(int m, int n, uint64_t mask, int vs, int order = 0) {
  Cmp A; A.nmaj = n; A.nmin = m; A.val = vs != 2;
  for (int c = 0; c < n; ++c) {
    VI r; for (int k = 0; k < m; ++k) if (mask >> (c * m + k) & 1) r.push_back(k);
    if (order == 1) std::reverse(r.begin(), r.end());
    if (order == 2 && r.size() > 1) std::rotate(r.begin(), r.begin() + 1, r.end());
    for (int k : r) { A.i.push_back(k); if (A.val) A.x.push_back(value(k, c, vs)); }
    A.p.push_back(A.i.size());
  }
  return A;
}
// column c holds the rows r with keep(r, c), given as a list
inline Cmp build(int m, int n, int vs, const std::function<void(int, VI &)> &col) {
  Cmp A; A.nmaj = n; A.nmin = m; A.val = vs != 2; VI r;
  for (int c = 0; c < n; ++c) { r.clear(); col(c, r); for (int k : r) { A.i.push_back(k); if (A.val) A.x.push_back(value(k % 1000, c % 1000, vs)); } A.p.push_back(A.i.size()); }
  return A;
}
// shapes whose dimensions, entries or entries per row or column do not fit small counters
inline void large(bool square_only, const std::function<void(const std::string &, const std::function<Cmp(int)> &)> &f) {
  auto emit = [&](const char *nm, int m, int n, std::function<void(int, VI &)> col) { if (!square_only || m == n) f(mc::cat(nm, " ", m, "x", n), [=](int vs) { return build(m, n, vs, col); }); };
  int N = 70000;
  emit("full", N, 1, [=](int, VI &r) { for (int k = 0; k < N; ++k) r.push_back(k); });
  emit("full", 1, N, [](int, VI &r) { r.push_back(0); });
  emit("tall", N, 3, [=](int c, VI &r) { for (int k = c; k < N; k += 2 + c) r.push_back(k); });
  emit("wide", 3, N, [](int c, VI &r) { for (int k = 0; k < 3; ++k) if ((c + k) % 4) r.push_back(k); });
  emit("last corner", N, N, [=](int c, VI &r) { if (c == N - 1) r.push_back(N - 1); });
  emit("diagonal", N, N, [](int c, VI &r) { r.push_back(c); });
  emit("arrow", N, N, [=](int c, VI &r) { if (c == 0) for (int k = 0; k < N; ++k) r.push_back(k); else { r.push_back(0); r.push_back(c); } });
  emit("band", N, N, [=](int c, VI &r) { for (int k = std::max(0, c - 2); k <= std::min(N - 1, c + 2); ++k) r.push_back(k); });
  emit("dense", 300, 300, [](int, VI &r) { for (int k = 0; k < 300; ++k) r.push_back(k); });
  emit("dense", 270, 31, [](int, VI &r) { for (int k = 0; k < 270; ++k) r.push_back(k); });
  emit("scattered", 1000, 1000, [](int c, VI &r) { for (int k = 0; k < 1000; ++k) if ((k * 7 + c * 13 + (k ^ c)) % 61 == 0 || k == c) r.push_back(k); });
  emit("scattered", 700, 1500, [](int c, VI &r) { for (int k = 0; k < 700; ++k) if ((k * 7 + c * 13 + (k ^ c)) % 61 == 0) r.push_back(k); });
}
inline Cmp transposed(const Cmp &A) {
  Cmp B; B.nmaj = A.nmin; B.nmin = A.nmaj; B.val = A.val;
  std::vector<std::vector<std::pair<int, double>>> rows(A.nmin);
  for (int c = 0; c < A.nmaj; ++c) for (int k = A.p[c]; k < A.p[c + 1]; ++k) rows[A.i[k]].push_back({c, A.val ? A.x[k] : 0});
  for (auto &r : rows) { for (auto &e : r) { B.i.push_back(e.first); if (A.val) B.x.push_back(e.second); } B.p.push_back(B.i.size()); }
  return B;
}
inline Cmp sorted(const Cmp &A) { return transposed(transposed(A)); }
template <class T> inline T *make(const Cmp &A, int stype = 0);
template <> inline sym_lib::CSC *make<sym_lib::CSC>(const Cmp &A, int st) {
  auto *B = new sym_lib::CSC(A.nmin, A.nmaj, A.nnz(), !A.val);
  B->stype = st;
  for (int k = 0; k <= A.nmaj && B->p; ++k) B->p[k] = A.p[k];
  for (int k = 0; k < A.nnz(); ++k) { B->i[k] = A.i[k]; if (A.val) B->x[k] = A.x[k]; }
  return B;
}
template <> inline sym_lib::CSR *make<sym_lib::CSR>(const Cmp &A, int st) {
  auto *B = new sym_lib::CSR(A.nmaj, A.nmin, A.nnz(), !A.val);
  B->stype = st;
  for (int k = 0; k <= A.nmaj && B->p; ++k) B->p[k] = A.p[k];
  for (int k = 0; k < A.nnz(); ++k) { B->i[k] = A.i[k]; if (A.val) B->x[k] = A.x[k]; }
  return B;
}
inline std::string raw(const Cmp &A, const int *p, const int *i, const double *x) {
  if (A.nmaj > 0 || p) for (int k = 0; k <= A.nmaj; ++k) if (p[k] != A.p[k]) return mc::cat("pointer ", mc::str(p, A.nmaj + 1), " expected ", A.str());
  for (int k = 0; k < A.nnz(); ++k) if (i[k] != A.i[k]) return mc::cat("index ", mc::str(i, A.nnz()), " expected ", A.str());
  if (A.val) for (int k = 0; k < A.nnz(); ++k) if (x[k] != A.x[k]) return mc::cat("values ", mc::str(x, A.nnz()), " expected ", A.str());
  return "";
}
inline std::string same(const Cmp &A, sym_lib::CSC *B) {
  if (!B) return "null result";
  if ((int)B->m != A.nmin || (int)B->n != A.nmaj) return mc::cat("dimensions ", B->m, "x", B->n, " expected ", A.str());
  if ((int)B->nnz != A.nnz()) return mc::cat("nnz ", B->nnz, " expected ", A.str());
  if (A.nnz() && B->is_pattern == A.val) return mc::cat("is_pattern ", B->is_pattern);
  if (!A.val && B->x) return "pattern with values";
  return raw(A, B->p, B->i, B->x);
}
inline std::string same(const Cmp &A, sym_lib::CSR *B) {
  if (!B) return "null result";
  if ((int)B->m != A.nmaj || (int)B->n != A.nmin) return mc::cat("dimensions ", B->m, "x", B->n, " expected ", A.str());
  if ((int)B->nnz != A.nnz()) return mc::cat("nnz ", B->nnz, " expected ", A.str());
  if (A.nnz() && B->is_pattern == A.val) return mc::cat("is_pattern ", B->is_pattern);
  if (!A.val && B->x) return "pattern with values";
  return raw(A, B->p, B->i, B->x);
}
// every column with its entries sorted (for results whose entry order is not promised)
inline std::string same_any_order(const Cmp &A, sym_lib::CSC *B) {
  if (!B) return "null result";
  if ((int)B->m != A.nmin || (int)B->n != A.nmaj) return mc::cat("dimensions ", B->m, "x", B->n, " expected ", A.str());
  if ((int)B->nnz != A.nnz()) return mc::cat("nnz ", B->nnz, " expected ", A.str());
  if (A.nnz() && B->is_pattern == A.val) return mc::cat("is_pattern ", B->is_pattern);
  Cmp C; C.nmaj = A.nmaj; C.nmin = A.nmin; C.val = A.val; C.p.assign(B->p, B->p + A.nmaj + 1);
  if (C.p[0] != 0) return "pointer does not start at 0";
  for (int k = 0; k < A.nmaj; ++k) if (C.p[k] > C.p[k + 1]) return "pointer not monotone " + mc::str(C.p);
  if (C.p[A.nmaj] != A.nnz()) return mc::cat("pointer ", mc::str(C.p), " expected ", A.str());
  for (int k = 0; k < A.nnz(); ++k) { if (B->i[k] < 0 || B->i[k] >= A.nmin) return "index out of range"; C.i.push_back(B->i[k]); if (A.val) C.x.push_back(B->x[k]); }
  Cmp S = sorted(C), E = sorted(A);
  if (!(S == E)) return "got " + S.str() + " expected " + E.str();
  return "";
}
inline uint64_t hash(const Cmp &A) { mc::H h; h.arr(A.p.data(), A.p.size()).arr(A.i.data(), A.i.size()); for (double v : A.x) h.u((int64_t)(v * 1024)); return h.h; }
inline std::vector<VI> perms(int n) { VI p(n); std::iota(p.begin(), p.end(), 0); std::vector<VI> r; do r.push_back(p); while (std::next_permutation(p.begin(), p.end())); return r; }
} // namespace mat
