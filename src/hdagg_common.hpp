#pragma once
#include "graph.hpp"
#include "aggregation/def.h"
#include "aggregation/hdagg.h"
#include "aggregation/sparse_utilities.h"
namespace hd {
using namespace gr;
struct S { int L = -777; VI lp, pp, np; };
// silences the library's chatter on std::cout / std::cerr
struct Quiet { std::streambuf *a, *b; Quiet() : a(std::cout.rdbuf(nullptr)), b(std::cerr.rdbuf(nullptr)) {} ~Quiet() { std::cout.rdbuf(a); std::cerr.rdbuf(b); std::cout.clear(); std::cerr.clear(); } };
inline std::string sizes(const S &s) {
  if (s.L < 0) return mc::cat("level count ", s.L);
  if ((int)s.lp.size() < s.L + 1) return mc::cat("level_ptr has ", s.lp.size(), " entries for ", s.L, " levels");
  for (int l = 0; l <= s.L; ++l) if (s.lp[l] < 0 || (size_t)s.lp[l] >= s.pp.size()) return mc::cat("level_ptr[", l, "]=", s.lp[l], " but part_ptr has ", s.pp.size(), " entries");
  for (int k = 0; k <= s.lp[s.L]; ++k) if (s.pp[k] < 0 || (size_t)s.pp[k] > s.np.size()) return mc::cat("part_ptr[", k, "]=", s.pp[k], " but node_ptr has ", s.np.size(), " entries");
  return "";
}
inline std::string valid(const G &g, const S &s, bool order_inside = true) {
  std::string e = sizes(s);
  if (e.empty()) e = check_hsched(g, s.L, s.lp.data(), s.pp.data(), s.np.data(), order_inside);
  return e;
}
inline std::string str(const S &s) { return sizes(s).empty() ? hstr(s.L, s.lp.data(), s.pp.data(), s.np.data()) : "malformed"; }
// node costs: non-negative, not all zero unless kind 5
inline std::vector<double> costs(const G &g, int kind) {
  int n = g.n; std::vector<double> c(n, 1.0);
  for (int i = 0; i < n; ++i) switch (kind) {
    case 1: c[i] = 1 + g.out[i].size(); break;
    case 2: c[i] = 0.1 * (i + 1); break;
    case 3: c[i] = i % 3 == 0 ? 1000 : 1; break;
    case 4: c[i] = i % 2 ? 0 : 3; break;
    case 5: c[i] = 0; break;
    case 6: c[i] = n - i; break;
    case 7: c[i] = i == n - 1 ? 7 : 0; break;
    case 8: c[i] = i == 0 ? 7 : 0; break;
    case 9: c[i] = 1.0 / (3 + i); break;
    case 10: c[i] = i == n - 1 ? 1e-30 : 1e15; break;
  }
  return c;
}
const int NCOST = 11;
}
