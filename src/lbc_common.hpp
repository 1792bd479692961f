#pragma once
#include "graph.hpp"
#include "aggregation/def.h"
#include "aggregation/lbc.h"
#include "aggregation/sparse_inspector.h"
#include "aggregation/sparse_utilities.h"
namespace lbc {
using namespace gr;
struct Sched { int L = -777; int *lp = nullptr, *pp = nullptr, *np = nullptr; int P = -777;
  ~Sched() { delete[] lp; delete[] pp; delete[] np; } };
// Cost models: 0 = unit, 1 = increasing, 2 = few heavy, 3 = equal pairs decreasing
inline std::vector<double> costs(int n, int kind) {
  std::vector<double> c(n, 1.0);
  for (int i = 0; i < n; ++i) { if (kind == 1) c[i] = i + 1; if (kind == 2) c[i] = i % 3 == 0 ? 50.5 : 0.25; if (kind == 3) c[i] = (n - i) / 2 + 1; if (kind == 4) c[i] = 3e9; }
  return c;
}
struct Par { int w, first, step; };
}
