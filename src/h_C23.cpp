// C23: inspection is deterministic, repeatable and free of side effects
#include "ops.hpp"
#include <sys/wait.h>
static bool same(const Csc &a, const Csc &b) { return a.p == b.p && a.i == b.i; }
static bool clean(const In &a, const In &b) { return same(a.col, b.col) && same(a.nod, b.nod) && same(a.row, b.row) && a.lev == b.lev && a.lptr == b.lptr && a.lset == b.lset && a.gp == b.gp && a.gs == b.gs && a.gi == b.gi && a.par == b.par && a.hs.lp == b.hs.lp && a.hs.pp == b.hs.pp && a.hs.np == b.hs.np && a.hq.lp == b.hq.lp && a.hq.pp == b.hq.pp && a.hq.np == b.hq.np && a.cost == b.cost && a.hs.L == b.hs.L && a.hq.L == b.hq.L; }
static VI run(const Op &o, In &in, Box &b) { Dig d; Quiet q; o.f(in, b, d); return d.v; }
static std::vector<Op> OPS; static std::vector<In> INS, INS0; static std::vector<std::vector<VI>> REF; static std::vector<std::string> NM;
static void reference(Ctx &ctx) { // the first call of a process, on fresh outputs: one process per operation and input, in shared memory
  int no = OPS.size(), ni = INS.size(); REF.assign(no, std::vector<VI>(ni)); const size_t CAP = 1 << 14;
  int *shm = (int *)mmap(nullptr, CAP * sizeof(int) * ni, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  for (int o = 0; o < no; ++o) { memset(shm, 0, CAP * sizeof(int) * ni); for (int lo = 0; lo < ni; lo += 4) { std::vector<pid_t> kids; for (int i = lo; i < std::min(ni, lo + 4); ++i) { pid_t p = fork(); if (!p) { signal(SIGPROF, SIG_IGN); Box b; VI v = run(OPS[o], INS[i], b); int *t = shm + CAP * i; if (v.size() + 2 < CAP) { std::copy(v.begin(), v.end(), t + 1); t[0] = v.size() + 1; } _exit(0); } kids.push_back(p); } for (pid_t p : kids) { int st; waitpid(p, &st, 0); } mc::beat(); }
    for (int i = 0; i < ni; ++i) { int *t = shm + CAP * i; if (t[0] > 0) REF[o][i] = VI(t + 1, t + t[0]); else REF[o][i] = {-31337}; } }
  munmap(shm, CAP * sizeof(int) * ni); (void)ctx;
}
struct Hist { Ctx &ctx; Box b; std::string past; uint64_t h = 7; std::vector<std::pair<int, int>> log;
  explicit Hist(Ctx &c) : ctx(c) {} ~Hist() { delete[] b.p; delete[] b.q; delete[] b.r; }
  void call(int o, int i) { log.push_back({o, i}); VI v = run(OPS[o], INS[i], b); ctx.call(); auto show = [&] { std::string s; for (auto &x : log) s += (s.empty() ? "" : " ; ") + OPS[x.first].name + " on " + NM[x.second]; return s; };
    if (v != REF[o][i]) ctx.fail(OPS[o].name, mc::cat("result differs from that of a first call on fresh outputs, history: ", show(), " result ", mc::str(v), " first ", mc::str(REF[o][i])));
    if (!clean(INS[i], INS0[i])) { ctx.fail(OPS[o].name, "input modified, history: " + show()); INS[i] = INS0[i]; } h = h * 1099511628211ull + mc::H().arr(v.data(), v.size()).h; } };
static void body(Ctx &ctx) {
  bool T = ctx.thorough; OPS = ops(T); auto in = [&](const std::string &nm, const G &g) { INS.emplace_back(g); NM.push_back(nm + " " + g.str()); };
  // few: used in long histories; then more for pairs
  in("six nodes", gr::lower(6, 0x2b4d)); in("three nodes", gr::lower(3, 5)); in("four nodes", gr::lower(4, 0x2d)); in("one node", gr::lower(1, 0));
  for (uint64_t m = 0; m < 8; ++m) in("n3", gr::lower(3, m)); for (uint64_t m : {0ull, 63ull, 7ull, 56ull, 41ull, 18ull, 37ull}) in("n4", gr::lower(4, m));
  { G g(9); for (int v = 0; v < 8; ++v) g.edge(v, v + 1); in("chain", g); } { G g(8); for (int v = 0; v < 7; ++v) g.edge(v, 7); in("star in", g); } { G g(8); for (int v = 1; v < 8; ++v) g.edge(0, v); in("star out", g); } in("no edge", G(7)); { G g(7); for (int a = 0; a < 7; ++a) for (int b = a + 1; b < 7; ++b) g.edge(a, b); in("complete", g); } { G g(7); for (int v = 0; v < 6; ++v) g.edge(v, v / 2 + 4 > v ? (v / 2 + 4 < 7 ? v / 2 + 4 : 6) : v + 1); in("tree", g); }
  if (T) for (uint64_t m = 0; m < 64; ++m) in("n4", gr::lower(4, m));
  INS0 = INS; reference(ctx); int no = OPS.size(), ni = INS.size();
  ctx.space = "one call on fresh outputs"; for (int o = 0; o < no; ++o) for (int i = 0; i < ni; ++i) CASE(ctx, OPS[o].name, " on ", NM[i]) { Hist h(ctx); h.call(o, i); ctx.checked(h.h); }
  ctx.space = "same operation, every pair of inputs, outputs reused, three calls"; for (int o = 0; o < no; ++o) for (int i = 0; i < ni; ++i) for (int j = 0; j < ni; ++j) CASE(ctx, OPS[o].name, " on ", NM[i], " then ", NM[j]) { Hist h(ctx); h.call(o, i); h.call(o, j); h.call(o, i); ctx.checked(h.h); }
  int few = T ? 12 : 8; ctx.space = "every pair of operations and inputs"; for (int o = 0; o < no; ++o) for (int i = 0; i < few; ++i) for (int u = 0; u < no; ++u) CASE(ctx, OPS[o].name, " on ", NM[i], " then ", OPS[u].name) { Hist h(ctx); for (int j = 0; j < few; ++j) { h.log.clear(); h.call(o, i); h.call(u, j); } ctx.checked(h.h); }
  int three = T ? 3 : 2; if (!T) no = CORE_OPS; ctx.space = "every three operations"; for (int o = 0; o < no; ++o) for (int u = 0; u < no; ++u) for (int i = 0; i < three * three; ++i) CASE(ctx, OPS[o].name, " on ", NM[i / three], " then ", OPS[u].name, " on ", NM[i % three]) { Hist h(ctx); for (int w = 0; w < no; ++w) for (int j = 0; j < three; ++j) { h.log.clear(); h.call(o, i / three); h.call(u, i % three); h.call(w, j); } ctx.checked(h.h); }
}
MC_MAIN(body)
