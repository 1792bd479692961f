// Triangular systems with exactly representable values and their reference solution
#pragma once
#include "graph.hpp"
#include "aggregation/def.h"
#include "sptrsv.h"
#include "executor.h"
namespace tr {
using namespace gr;
struct Sys {
  int n; Csc r; std::vector<double> x, b, sol; // rows: columns ascending, diagonal last
};
inline double off(int i, int j, int vs) { static const double v[] = {1, -1, 2, -2, 3, 0.5, -3}; return vs == 2 ? (((i * 5 + j * 3) % 7) - 3) * 0.125 : v[(i * 3 + j * 5 + vs) % 7]; }
inline double dia(int i, int vs) { static const double v[] = {2, 1, -1, 0.5, -2, 4}; return vs == 2 ? 1.0 + (i % 4) : v[(i * 2 + vs + i / 3) % 6]; }
// vs 0/1: exact for small systems, 2: well conditioned for large ones
inline Sys make(const G &g, int vs) {
  Sys s; s.n = g.n; s.r = csr_diag(g); s.x.resize(s.r.nnz()); s.b.resize(g.n); s.sol.resize(g.n);
  for (int i = 0; i < g.n; ++i) {
    s.b[i] = vs == 2 ? 1 + i % 5 : (i * 7 + 3) % 11 - 4;
    int e = s.r.p[i + 1] - 1; double t = s.b[i], scale = vs == 2 ? 1.0 / (e - s.r.p[i] + 1) : 1;
    for (int k = s.r.p[i]; k < e; ++k) { s.x[k] = off(i, s.r.i[k], vs) * scale; t -= s.x[k] * s.sol[s.r.i[k]]; }
    s.x[e] = dia(i, vs); s.sol[i] = t / s.x[e];
  }
  return s;
}
inline std::string diff(const Sys &s, const double *x, bool exact) {
  for (int i = 0; i < s.n; ++i) {
    double d = std::abs(x[i] - s.sol[i]);
    if (exact ? !(x[i] == s.sol[i]) : !(d <= 1e-9 * (1 + std::abs(s.sol[i])))) return mc::cat("x[", i, "]=", x[i], " instead of ", s.sol[i]);
  }
  return "";
}
}
