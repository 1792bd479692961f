// C25: profiling records are written completely or not at all
#include "mc.hpp"
#include "io_common.hpp"
#include "aggregation/csv_utils.h"
using mc::Ctx; typedef std::vector<std::string> VS;
struct Ref { std::string file; bool exists = false; VS rec; std::vector<char> def; bool open = false; };
struct Run {
  Ctx &ctx; std::string base; int nc; VS cols; Ref r; profiling_utils::CSVManager *m = nullptr; int fd = -1; std::string hist;
  Run(Ctx &c, int n, int init) : ctx(c), base(c.scratch + "/t"), nc(n) { const char *nm[] = {"alpha", "beta", "gamma"}; for (int k = 0; k < n; ++k) cols.push_back(nm[k]); unlink((base + ".csv").c_str()); if (init) { r.exists = true; r.file = header(); if (init == 2) { for (int k = 0; k < n; ++k) r.file += (k ? ",old" : "old"); r.file += "\n"; } std::ofstream(base + ".csv", std::ios::binary) << r.file; } }
  ~Run() { delete m; }
  std::string header() { std::string s; for (size_t k = 0; k < cols.size(); ++k) s += (k ? "," : "") + cols[k]; return s + "\n"; }
  void start(bool force) { fd = dup(0); ::close(fd); { io::Quiet q; m = new profiling_utils::CSVManager(base, "elsewhere", cols, force); } ctx.call(); if (force || !r.exists) r.file = header(); r.exists = true; r.rec.assign(nc, ""); r.def.assign(nc, 0); r.open = true; }
  void stop() { delete m; m = nullptr; r.open = false; }
  void crash() { ::close(fd); m = nullptr; r.open = false; } // the object is abandoned: nothing it buffers reaches the file
  template <class T> void set(T v, const std::string &want, const std::string &col, bool print = false) { { io::Quiet q; m->addElementToRecord(v, col, print); } ctx.call(); for (int k = 0; k < nc; ++k) if (cols[k] == col) { r.rec[k] = want; r.def[k] = 1; } }
  void commit() { { io::Quiet q; m->addRecord(); } ctx.call(); for (char c : r.def) if (!c) return; for (int k = 0; k < nc; ++k) r.file += (k ? "," : "") + r.rec[k]; r.file += "\n"; r.def.assign(nc, 0); }
  std::string check() { std::ifstream f(base + ".csv", std::ios::binary); if (!f != !r.exists) return r.exists ? "the file is missing" : "the file exists"; std::string g = io::get(base + ".csv"); if (g != r.file) return "file holds \"" + mc::jesc(g) + "\" instead of \"" + mc::jesc(r.file) + "\""; return ""; }
};
static const char *name(int o) { const char *s[] = {"set first", "set first again", "set last", "set middle", "set unknown", "commit", "close and open", "close and recreate", "stop and open", "stop and recreate"}; return s[o]; }
static bool step(Run &r, int o) {
  switch (o) {
  case 0: r.set(7, "7", "alpha"); break;
  case 1: r.set(-2.5, std::to_string(-2.5), "alpha", true); break;
  case 2: if (r.nc < 2) return false; r.set(std::string("x y"), "x y", r.cols.back()); break;
  case 3: if (r.nc < 3) return false; r.set("mid", "mid", "beta"); break;
  case 4: r.set(99, "99", "Alpha"); break;
  case 5: r.commit(); break;
  case 6: r.stop(); r.start(false); break;
  case 7: r.stop(); r.start(true); break;
  case 8: r.crash(); r.start(false); break;
  case 9: r.crash(); r.start(true); break;
  }
  return true;
}
static void seq(Ctx &ctx, int nc, int init, bool force, const std::vector<int> &ops) {
  Run r(ctx, nc, init); r.start(force); std::string h = force ? "create" : "open"; mc::H hs;
  for (size_t k = 0; k < ops.size(); ++k) { if (!step(r, ops[k])) return; h += std::string("; ") + name(ops[k]); }
  std::string e = r.check(); if (!e.empty()) { ctx.fail("table", e + " after " + h); return; }
  if (r.m->getHeaderNames() != r.cols) ctx.fail("table", "header names changed after " + h);
  r.stop(); e = r.check(); if (!e.empty()) ctx.fail("table", e + " after " + h + "; close"); ctx.checked(mc::H().arr(r.r.file.data(), r.r.file.size()).h);
}
static void body(Ctx &ctx) {
  bool T = ctx.thorough; io::Quiet quiet;
  for (int nc = 1; nc <= 3; ++nc) for (int init = 0; init < 3; ++init) for (int force = 0; force < 2; ++force) {
    std::vector<int> al; for (int o = 0; o < 10; ++o) if (!(nc < 3 && o == 3) && !(nc < 2 && o == 2)) al.push_back(o);
    int depth = (nc == 2 && init == 0 && !force ? 5 : 4) + (T ? 1 : 0); ctx.space = mc::cat("operation sequences, columns=", nc, " file=", init, " force=", force, " depth<=", depth);
    std::vector<int> st; std::function<void(int)> rec = [&](int left) { CASE(ctx, "operations ", mc::str(st)) seq(ctx, nc, init, force, st); if (!left) return; for (int o : al) { st.push_back(o); rec(left - 1); st.pop_back(); } }; rec(depth);
  }
  { // longer histories around full records
    ctx.space = "record histories of three columns, depth 7"; std::vector<int> st; std::function<void(int)> rec = [&](int left) { CASE(ctx, "operations ", mc::str(st)) seq(ctx, 3, 0, false, st); if (!left) return; for (int o : {0, 2, 3, 5}) { st.push_back(o); rec(left - 1); st.pop_back(); } }; rec(T ? 8 : 7);
    ctx.space = "one and two columns, depth 8"; std::function<void(int, int)> r2 = [&](int nc, int left) { CASE(ctx, "columns=", nc, " operations ", mc::str(st)) seq(ctx, nc, 1, false, st); if (!left) return; for (int o : {1, 2, 5, 8}) if (nc > 1 || o != 2) { st.push_back(o); r2(nc, left - 1); st.pop_back(); } }; r2(1, T ? 9 : 7); r2(2, T ? 8 : 6);
  }
  { ctx.space = "long histories and wide tables"; // every block of the history is one of a few step lists, repeated until counters of one byte (rows, columns) would wrap
    const std::vector<std::vector<int>> blocks = {{0, 2, 3, 5}, {0, 2, 3, 5, 5}, {0, 0, 2, 5, 3, 5}, {0, 2, 3, 5, 6}, {0, 2, 3, 5, 8}, {0, 2, 5, 4, 3, 1, 5}, {0, 2, 3, 6, 5}}; for (size_t b = 0; b < blocks.size(); ++b) for (int reps : {16, 130, 300}) CASE(ctx, "block ", b, " repeated ", reps) { std::vector<int> st; for (int k = 0; k < reps; ++k) st.insert(st.end(), blocks[b].begin(), blocks[b].end()); seq(ctx, 3, b % 3, false, st); }
    for (int nc : {16, 40, 129, 300}) for (int miss : {-1, 0, nc / 2, nc - 1}) for (int rev = 0; rev < 2; ++rev) CASE(ctx, "columns=", nc, " left out first=", miss, " reversed=", rev) { Run r(ctx, 1, 0); r.nc = nc; r.cols.clear(); for (int k = 0; k < nc; ++k) r.cols.push_back(mc::cat("c", k)); r.start(false); for (int round = 0; round < 3; ++round) { for (int k = 0; k < nc; ++k) { int c = rev ? nc - 1 - k : k; if (c != miss) r.set(k * 10 + round, std::to_string(k * 10 + round), r.cols[c]); } r.commit(); std::string e = r.check(); if (!e.empty()) ctx.fail("table", e.substr(0, 400) + mc::cat(" round ", round)); if (miss >= 0) { r.set("late", "late", r.cols[miss]); r.commit(); } } r.stop(); std::string e = r.check(); if (!e.empty()) ctx.fail("table", e.substr(0, 400)); ctx.checked(nc + miss); }
    for (int len : {255, 256, 4096, 70000}) CASE(ctx, "value of ", len, " characters") { Run r(ctx, 2, 1); r.start(false); for (int k = 0; k < 3; ++k) { r.set(std::string(len, 'a' + k), std::string(len, 'a' + k), "alpha"); r.set(k, std::to_string(k), "beta"); r.commit(); } std::string e = r.check(); if (!e.empty()) ctx.fail("table", e.substr(0, 200)); ctx.checked(len); } }
  { ctx.space = "columns with similar names"; std::string L(40, 'n'), M(300, 'n'); std::vector<VS> ns = {{"a", "ab", "abc"}, {"abc", "ab", "a"}, {"a", "A", "a "}, {"x1", "x10", "x11"}, {"time", "Time", "TIME"}, {L + "1", L + "2", L}, {M + "1", M + "2", M + "3"}, {"n", "", "nn"}, {"Data Type", "DataType", "Data_Type"}, {"1", "01", "1.0"}, {"set a", "set b", "set"}};
    for (size_t q = 0; q < ns.size(); ++q) for (int order = 0; order < 6; ++order) for (int miss = -1; miss < 3; ++miss) CASE(ctx, "names ", q, " order ", order, " left out ", miss) { Run r(ctx, 3, 0); r.cols = ns[q]; r.start(true); std::vector<int> o{0, 1, 2}; for (int k = 0; k < order; ++k) std::next_permutation(o.begin(), o.end());
      for (int round = 0; round < 2; ++round) { for (int k : o) if (k != miss) r.set(k * 10 + round, std::to_string(k * 10 + round), ns[q][k]); r.set(5, "5", ns[q][0] + "x"); r.commit(); if (miss >= 0 && round) { r.set("late", "late", ns[q][miss]); r.commit(); } } std::string e = r.check(); if (!e.empty()) ctx.fail("table", e.substr(0, 400)); r.stop(); ctx.checked(mc::H().u(q).u(order).u(miss + 1).h); } }
  { ctx.space = "value types"; CASE(ctx, "every type") { Run r(ctx, 3, 0); r.start(true); r.set(1.0f, std::to_string(1.0f), "alpha"); r.set(12345678901l, "12345678901", "beta"); r.set((size_t)18, "18", "gamma"); r.commit(); r.set(true, std::to_string(true), "alpha"); r.set((short)-3, "-3", "beta"); r.set("", "", "gamma"); r.commit(); r.set(1e20, std::to_string(1e20), "alpha"); r.set(std::string(20000, 'q'), std::string(20000, 'q'), "beta"); r.set((unsigned)4000000000u, "4000000000", "gamma"); r.commit(); std::string e = r.check(); if (!e.empty()) ctx.fail("table", "value types: " + e.substr(0, 400)); ctx.checked(1); } }
}
MC_MAIN(body)
