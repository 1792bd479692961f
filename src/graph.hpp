// Graph spaces and reference models.
#pragma once
#include "mc.hpp"
namespace gr {
using std::vector;
typedef vector<int> VI;

// Directed graph on 0..n-1, out-adjacency sorted ascending (no self loops here).
struct G {
  int n = 0;
  vector<VI> out;
  explicit G(int n_ = 0) : n(n_), out(n_) {}
  void edge(int a, int b) { out[a].push_back(b); }
  void norm() { for (auto &v : out) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); } }
  int m() const { int s = 0; for (auto &v : out) s += v.size(); return s; }
  std::string str() const {
    std::ostringstream o; o << "n" << n << "{";
    bool f = true;
    for (int i = 0; i < n; ++i) for (int j : out[i]) { if (!f) o << " "; o << i << ">" << j; f = false; }
    o << "}"; return o.str();
  }
};

inline int npairs(int n) { return n * (n - 1) / 2; }
// Lower triangular pattern from a bit mask: bit k = k-th pair (j,i), j<i, column-major.
inline G lower(int n, uint64_t mask) {
  G g(n); int k = 0;
  for (int j = 0; j < n; ++j) for (int i = j + 1; i < n; ++i, ++k) if (mask >> k & 1) g.out[j].push_back(i);
  return g;
}
// General directed graph from a mask over ordered pairs.
inline G digraph(int n, uint64_t mask) {
  G g(n); int k = 0;
  for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) if (i != j) { if (mask >> k & 1) g.out[j].push_back(i); ++k; }
  return g;
}

// CSC with the diagonal first in each column (the convention of the library).
struct Csc { int n; VI p, i; int nnz() const { return p[n]; } };
inline Csc csc_diag(const G &g) {
  Csc c; c.n = g.n; c.p.assign(g.n + 1, 0);
  for (int j = 0; j < g.n; ++j) { c.i.push_back(j); for (int x : g.out[j]) c.i.push_back(x); c.p[j + 1] = c.i.size(); }
  return c;
}
inline Csc csc_nodiag(const G &g) {
  Csc c; c.n = g.n; c.p.assign(g.n + 1, 0);
  for (int j = 0; j < g.n; ++j) { for (int x : g.out[j]) c.i.push_back(x); c.p[j + 1] = c.i.size(); }
  return c;
}
// Row form of the lower triangular matrix: columns ascending, diagonal last.
inline Csc csr_diag(const G &g) {
  Csc c; c.n = g.n; c.p.assign(g.n + 1, 0);
  vector<VI> in(g.n);
  for (int j = 0; j < g.n; ++j) for (int x : g.out[j]) in[x].push_back(j);
  for (int r = 0; r < g.n; ++r) { for (int x : in[r]) c.i.push_back(x); c.i.push_back(r); c.p[r + 1] = c.i.size(); }
  return c;
}
inline G transpose(const G &g) { G t(g.n); for (int j = 0; j < g.n; ++j) for (int x : g.out[j]) t.out[x].push_back(j); return t; }

// Longest-path level of every node; returns number of levels or -1 if cyclic.
inline int levels(const G &g, VI &lev) {
  VI deg(g.n, 0), q; lev.assign(g.n, 0);
  for (auto &v : g.out) for (int x : v) deg[x]++;
  for (int i = 0; i < g.n; ++i) if (!deg[i]) q.push_back(i);
  int mx = g.n ? 0 : -1;
  for (size_t h = 0; h < q.size(); ++h) {
    int u = q[h]; mx = std::max(mx, lev[u]);
    for (int x : g.out[u]) { lev[x] = std::max(lev[x], lev[u] + 1); if (!--deg[x]) q.push_back(x); }
  }
  if ((int)q.size() < g.n) return -1;
  return mx + 1;
}
// Reachability closure (n<=64 per row, bitset words)
struct Bits {
  int w; vector<uint64_t> b;
  Bits(int n, int m) : w((m + 63) / 64), b((size_t)n * ((m + 63) / 64), 0) {}
  bool get(int i, int j) const { return b[(size_t)i * w + j / 64] >> (j % 64) & 1; }
  void set(int i, int j) { b[(size_t)i * w + j / 64] |= 1ull << (j % 64); }
  void orr(int i, int k) { for (int x = 0; x < w; ++x) b[(size_t)i * w + x] |= b[(size_t)k * w + x]; }
};
inline Bits closure(const G &g) { // acyclic only
  Bits r(g.n, g.n); VI lev; levels(g, lev);
  VI ord(g.n); std::iota(ord.begin(), ord.end(), 0);
  std::stable_sort(ord.begin(), ord.end(), [&](int a, int b) { return lev[a] > lev[b]; });
  for (int u : ord) for (int x : g.out[u]) { r.set(u, x); r.orr(u, x); }
  return r;
}
inline bool acyclic(const G &g) { VI l; return g.n == 0 || levels(g, l) >= 0; }

// Relabel: node v becomes perm[v].
inline G relabel(const G &g, const VI &perm) {
  G t(g.n);
  for (int j = 0; j < g.n; ++j) for (int x : g.out[j]) t.out[perm[j]].push_back(perm[x]);
  t.norm(); return t;
}

// Three-level schedule check. Returns "" if valid.
//  level_ptr[0..L], part_ptr[0..P], nodes[0..n).
inline std::string check_hsched(const G &g, int L, const int *lp, const int *pp, const int *np, bool order_inside = true) {
  std::ostringstream o;
  int n = g.n;
  if (L < (n > 0 ? 1 : 0) ) { o << "level count " << L; return o.str(); }
  if (L > n + 0 && n > 0 && L > 4 * n + 4) { o << "level count " << L << " for n=" << n; return o.str(); }
  if (lp[0] != 0) { o << "level_ptr[0]=" << lp[0]; return o.str(); }
  for (int l = 0; l < L; ++l) if (lp[l + 1] < lp[l]) { o << "level_ptr not monotone at " << l << ": " << lp[l] << ">" << lp[l + 1]; return o.str(); }
  int P = lp[L];
  if (P < 0 || P > 64 * n + 64) { o << "part count " << P; return o.str(); }
  if (pp[0] != 0) { o << "part_ptr[0]=" << pp[0]; return o.str(); }
  for (int k = 0; k < P; ++k) if (pp[k + 1] < pp[k] || pp[k + 1] > n) { o << "part_ptr[" << k + 1 << "]=" << pp[k + 1] << " after " << pp[k]; return o.str(); }
  if (pp[P] != n) { o << "schedule covers " << pp[P] << " of " << n << " nodes"; return o.str(); }
  VI lev(n, -1), part(n, -1), pos(n, -1);
  for (int l = 0; l < L; ++l) for (int k = lp[l]; k < lp[l + 1]; ++k) for (int q = pp[k]; q < pp[k + 1]; ++q) {
    int v = np[q];
    if (v < 0 || v >= n) { o << "node " << v << " out of range"; return o.str(); }
    if (lev[v] >= 0) { o << "node " << v << " scheduled twice"; return o.str(); }
    lev[v] = l; part[v] = k; pos[v] = q;
  }
  for (int u = 0; u < n; ++u) for (int x : g.out[u]) {
    if (lev[x] < lev[u]) { o << "dependence " << u << "->" << x << " goes from level " << lev[u] << " back to level " << lev[x]; return o.str(); }
    if (lev[x] == lev[u] && part[x] != part[u]) { o << "dependence " << u << "->" << x << " joins two concurrent partitions of level " << lev[u]; return o.str(); }
    if (lev[x] == lev[u] && order_inside && pos[x] < pos[u]) { o << "dependence " << u << "->" << x << " is reversed inside a partition"; return o.str(); }
  }
  return "";
}
inline std::string hstr(int L, const int *lp, const int *pp, const int *np) {
  std::ostringstream o;
  for (int l = 0; l < L && l < 50; ++l) { o << "L" << l << "("; for (int k = lp[l]; k < lp[l + 1] && k < 500; ++k) { o << "["; for (int q = pp[k]; q < pp[k + 1] && q < 2000; ++q) o << (q > pp[k] ? " " : "") << np[q]; o << "]"; } o << ")"; }
  return o.str();
}

// Parametric families of lower triangular DAGs: exhaustively swept in their parameters.
struct Named { std::string name; G g; };
inline void families(int maxn, const std::function<void(const std::string &, const G &)> &f) {
  auto emit = [&](const std::string &nm, G g) { g.norm(); f(nm, g); };
  for (int n = 1; n <= maxn; ++n) {
    if (n > 12 && n % 7 && n != maxn && (n & (n - 1))) continue; // all sizes to 12, then multiples of 7 and powers of two
    { G g(n); emit(mc::cat("isolated:", n), g); }
    { G g(n); for (int i = 0; i + 1 < n; ++i) g.edge(i, i + 1); emit(mc::cat("chain:", n), g); }
    { G g(n); for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) g.edge(i, j); emit(mc::cat("dense:", n), g); }
    { G g(n); for (int j = 1; j < n; ++j) g.edge(0, j); emit(mc::cat("outstar:", n), g); }
    { G g(n); for (int j = 0; j + 1 < n; ++j) g.edge(j, n - 1); emit(mc::cat("instar:", n), g); }
    { G g(n); for (int j = 0; j + 1 < n; ++j) { g.edge(j, n - 1); if (j) g.edge(0, j); } emit(mc::cat("diamond:", n), g); }
    for (int a = 2; a <= 4; ++a) { // complete a-ary in-tree (leaves first) and out-tree
      G g(n), h(n);
      for (int v = 1; v < n; ++v) { h.edge((v - 1) / a, v); g.edge(n - 1 - v, n - 1 - (v - 1) / a); }
      emit(mc::cat("intree", a, ":", n), g); emit(mc::cat("outtree", a, ":", n), h);
    }
    for (int s = 2; s <= 5; ++s) if (n > s) { // s interleaved chains
      G g(n); for (int i = 0; i + s < n; ++i) g.edge(i, i + s); emit(mc::cat("stride", s, ":", n), g);
      G h(n); for (int i = 0; i + s < n; ++i) { g.edge(i, i + s); } for (int i = 0; i < n; ++i) for (int d = 1; d <= s && i + d < n; ++d) h.edge(i, i + d);
      emit(mc::cat("band", s, ":", n), h);
    }
    for (int s = 2; s <= 5; ++s) if (n >= 2 * s) { // s contiguous chains joined at the last node; and disjoint
      G g(n), h(n); int len = (n - 1) / s;
      for (int i = 0; i + 1 < n; ++i) { if ((i + 1) % len != 0) { g.edge(i, i + 1); h.edge(i, i + 1); } else if (i + 1 != n - 1) g.edge(i, n - 1); }
      emit(mc::cat("forkchains", s, ":", n), g); emit(mc::cat("chains", s, ":", n), h);
    }
    for (int w = 2; w <= 6; ++w) if (n >= 2 * w) { // grid (5-point stencil), layered complete
      G g(n); for (int v = 0; v < n; ++v) { if (v % w != w - 1 && v + 1 < n) g.edge(v, v + 1); if (v + w < n) g.edge(v, v + w); }
      emit(mc::cat("grid", w, ":", n), g);
      G h(n); for (int v = 0; v < n; ++v) for (int x = 0; x < n; ++x) if (x / w == v / w + 1) h.edge(v, x);
      emit(mc::cat("layers", w, ":", n), h);
      G k(n); for (int v = 0; v < n; ++v) { if (v % w == 0 && v + w < n) k.edge(v, v + w); if (v % w && v + 1 < n) k.edge(v - v % w, v); } // comb
      emit(mc::cat("comb", w, ":", n), k);
      G r(n); for (int v = 0; v + 1 < n; ++v) { int x = v - v % w + w; if (x < n) r.edge(v, x); } // reverse comb: leaves join next spine node
      emit(mc::cat("joincomb", w, ":", n), r);
      G q(n); // arithmetic pattern, irregular but deterministic
      for (int v = 0; v < n; ++v) for (int x = v + 1; x < n; ++x) if ((v * 7 + x * 13 + v * x) % (w + 3) == 0) q.edge(v, x);
      emit(mc::cat("arith", w, ":", n), q);
    }
  }
}
// The same shapes at sizes that only size dependent code paths can tell from the small ones.
inline void big_families(const VI &sizes, const std::function<void(const std::string &, const G &)> &f, bool dense = false) {
  auto emit = [&](const std::string &nm, G g) { g.norm(); f(nm, g); };
  for (int n : sizes) {
    { G g(n); emit(mc::cat("isolated:", n), g); }
    { G g(n); for (int i = 0; i + 1 < n; ++i) g.edge(i, i + 1); emit(mc::cat("chain:", n), g); }
    { G g(n); for (int j = 1; j < n; ++j) g.edge(0, j); emit(mc::cat("outstar:", n), g); }
    { G g(n); for (int j = 0; j + 1 < n; ++j) g.edge(j, n - 1); emit(mc::cat("instar:", n), g); }
    { G g(n), h(n); for (int v = 1; v < n; ++v) { h.edge((v - 1) / 2, v); g.edge(n - 1 - v, n - 1 - (v - 1) / 2); } emit(mc::cat("intree2:", n), g); emit(mc::cat("outtree2:", n), h); }
    for (int s : {2, 7, 40}) { G g(n); for (int i = 0; i + s < n; ++i) g.edge(i, i + s); emit(mc::cat("stride", s, ":", n), g); }
    { G h(n); for (int i = 0; i < n; ++i) for (int d = 1; d <= 3 && i + d < n; ++d) h.edge(i, i + d); emit(mc::cat("band3:", n), h); }
    // 10 and 100 entries per column are where the coarsening parameters change
    if (dense) for (int w : {14, 125}) if (n >= 4 * w) { G h(n); for (int i = 0; i < n; ++i) for (int d = 1; d <= w && i + d < n; ++d) h.edge(i, i + d); emit(mc::cat("band", w, ":", n), h); G k(n); for (int i = 0; i < n; ++i) for (int b = (i / w + 1) * w, j = b; j < std::min(n, b + w); ++j) k.edge(i, j); emit(mc::cat("layers", w, ":", n), k); }
    for (int s : {3, 25}) { // contiguous chains joined at the last node; and disjoint
      G g(n), h(n); int len = (n - 1) / s;
      for (int i = 0; i + 1 < n; ++i) { if ((i + 1) % len != 0) { g.edge(i, i + 1); h.edge(i, i + 1); } else if (i + 1 != n - 1) g.edge(i, n - 1); }
      emit(mc::cat("forkchains", s, ":", n), g); emit(mc::cat("chains", s, ":", n), h);
    }
    for (int w : {4, 30}) {
      G g(n); for (int v = 0; v < n; ++v) { if (v % w != w - 1 && v + 1 < n) g.edge(v, v + 1); if (v + w < n) g.edge(v, v + w); }
      emit(mc::cat("grid", w, ":", n), g);
      G k(n); for (int v = 0; v < n; ++v) { if (v % w == 0 && v + w < n) k.edge(v, v + w); if (v % w && v + 1 < n) k.edge(v - v % w, v); }
      emit(mc::cat("comb", w, ":", n), k);
      G r(n); for (int v = 0; v + 1 < n; ++v) { int x = v - v % w + w; if (x < n) r.edge(v, x); }
      emit(mc::cat("joincomb", w, ":", n), r);
      G q(n); for (int v = 0; v < n; ++v) for (int t = 1; t <= 3; ++t) { int x = v + 1 + (v * 7 + t * 13 + v * t) % (w * t * 2 + 3); if (x < n) q.edge(v, x); }
      emit(mc::cat("scatter", w, ":", n), q);
    }
    { G g(n); for (int b = 0; b < n; b += 24) for (int i = b; i < std::min(n, b + 24); ++i) { for (int j = i + 1; j < std::min(n, b + 24); ++j) g.edge(i, j); if (i % 5 == 0 && i + 24 < n) g.edge(i, i + 24); } emit(mc::cat("cliques24:", n), g); }
  }
}
// More nodes, and more neighbours of one node, than 16 bits count; edges linear in n.
inline void huge_families(int n, const std::function<void(const std::string &, const std::function<G()> &)> &f) {
  auto emit = [&](const char *nm, std::function<void(G &)> b) { f(mc::cat(nm, ":", n), [=]() { G g(n); b(g); g.norm(); return g; }); };
  emit("isolated", [](G &) {});
  emit("outstar", [n](G &g) { for (int j = 1; j < n; ++j) g.edge(0, j); });
  emit("instar", [n](G &g) { for (int j = 0; j + 1 < n; ++j) g.edge(j, n - 1); });
  emit("doublestar", [n](G &g) { for (int j = 1; j + 1 < n; ++j) { g.edge(0, j); g.edge(j, n - 1); } });
  emit("intree2", [n](G &g) { for (int v = 1; v < n; ++v) g.edge(n - 1 - v, n - 1 - (v - 1) / 2); });
  emit("wide levels", [n](G &g) { int w = n / 3; for (int v = 0; v + w < n; ++v) { g.edge(v, v + w); if ((v + 1) % w && v + w + 1 < n) g.edge(v, v + w + 1); } });
}
inline void huge_chain(int n, const std::function<void(const std::string &, const std::function<G()> &)> &f) {
  f(mc::cat("chain:", n), [=]() { G g(n); for (int i = 0; i + 1 < n; ++i) g.edge(i, i + 1); g.norm(); return g; });
  f(mc::cat("band2:", n), [=]() { G g(n); for (int i = 0; i + 1 < n; ++i) { g.edge(i, i + 1); if (i + 2 < n) g.edge(i, i + 2); } g.norm(); return g; });
}
// All trees/forests with parent[v] > v or -1 (parent arrays as produced by an elimination tree).
inline void forests(int n, const std::function<void(const VI &)> &f) {
  VI par(n, -1);
  std::function<void(int)> rec = [&](int v) {
    if (v < 0) { f(par); return; }
    par[v] = -1; rec(v - 1);
    for (int p = v + 1; p < n; ++p) { par[v] = p; rec(v - 1); }
    par[v] = -1;
  };
  rec(n - 1);
}
// All set partitions of 0..n-1 (restricted growth strings).
inline void partitions(int n, const std::function<void(const VI &, int)> &f) {
  VI a(n, 0);
  std::function<void(int, int)> rec = [&](int i, int k) {
    if (i == n) { f(a, k); return; }
    for (int c = 0; c <= k; ++c) { a[i] = c; rec(i + 1, std::max(k, c + 1)); }
  };
  rec(0, 0);
}
} // namespace gr
namespace gr {
// All topological orders of the nodes in sub (edges of g between them).
inline void topo_orders(const G &g, const VI &sub, const std::function<void(const VI &)> &f) {
  VI cur; vector<char> used(sub.size(), 0);
  std::function<void()> rec = [&]() {
    if (cur.size() == sub.size()) { f(cur); return; }
    for (size_t a = 0; a < sub.size(); ++a) if (!used[a]) {
      bool ok = true;
      for (size_t b = 0; b < sub.size() && ok; ++b) if (!used[b] && b != a) for (int x : g.out[sub[b]]) if (x == sub[a]) ok = false;
      if (!ok) continue;
      used[a] = 1; cur.push_back(sub[a]); rec(); cur.pop_back(); used[a] = 0;
    }
  };
  rec();
}
struct HS { int L = 0; VI lp, pp, np; std::string str() const { return hstr(L, lp.data(), pp.data(), np.data()); } };
// Every valid three-level schedule of g without empty levels or partitions; partitions of a level are ordered by
// their smallest node. inner: 0 = one order per partition (ascending positions in a topological order), 1 = every order.
inline void schedules(const G &g, int inner, const std::function<void(const HS &)> &f) {
  int n = g.n; VI lev(n, 0);
  VI dl; if (n && levels(g, dl) < 0) return;
  auto emit = [&](int L) {
    vector<VI> at(L); for (int v = 0; v < n; ++v) at[lev[v]].push_back(v);
    HS s; s.L = L; s.lp = {0}; s.pp = {0};
    std::function<void(int)> lrec = [&](int l) {
      if (l == L) { f(s); return; }
      const VI &A = at[l];
      partitions(A.size(), [&](const VI &a, int k) {
        for (size_t x = 0; x < A.size(); ++x) for (size_t y = 0; y < A.size(); ++y) if (a[x] != a[y])
          for (int z : g.out[A[x]]) if (z == A[y]) return;
        vector<VI> ps(k); for (size_t x = 0; x < A.size(); ++x) ps[a[x]].push_back(A[x]);
        HS keep = s;
        std::function<void(int)> prec = [&](int c) {
          if (c == k) { s.lp.push_back(s.pp.size() - 1); lrec(l + 1); s.lp.pop_back(); return; }
          bool one = false;
          topo_orders(g, ps[c], [&](const VI &o) {
            if (inner == 0 && one) return; one = true;
            size_t q = s.np.size();
            s.np.insert(s.np.end(), o.begin(), o.end()); s.pp.push_back(s.np.size());
            prec(c + 1);
            s.np.resize(q); s.pp.pop_back();
          });
        };
        prec(0);
        s = keep;
      });
    };
    lrec(0);
  };
  VI ord(n); std::iota(ord.begin(), ord.end(), 0);
  std::stable_sort(ord.begin(), ord.end(), [&](int a, int b) { return dl[a] < dl[b]; });
  G t = transpose(g);
  for (int L = n ? 1 : 0; L <= n; ++L) {
    std::function<void(int)> rec = [&](int q) {
      if (q == n) { vector<char> u(L, 0); for (int v = 0; v < n; ++v) u[lev[v]] = 1; for (char c : u) if (!c) return; emit(L); return; }
      int v = ord[q], lo = 0; for (int u : t.out[v]) lo = std::max(lo, lev[u]);
      for (int l = lo; l < L; ++l) { lev[v] = l; rec(q + 1); }
    };
    rec(0);
  }
}
} // namespace gr
