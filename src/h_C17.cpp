// C17: malformed Matrix Market files are rejected, without a crash or a hang
#include "io_common.hpp"
using namespace io;
using mc::Ctx;
static void one(Ctx &ctx, const std::string &t) {
  std::string f = path(ctx); put(f, t); Want w = meaning(t); readers(ctx, f, w, t); triplets(ctx, f, triplet_meaning(t), t); ctx.extra["malformed"] += w.kind == 0; ctx.extra["well_formed"] += w.kind == 1;
  ctx.checked(std::hash<std::string>()(t));
}
struct Tok { size_t at, len; };
static std::vector<Tok> toks(const std::string &t) { std::vector<Tok> r; for (size_t i = 0; i < t.size();) { if (isspace((unsigned char)t[i])) { ++i; continue; } size_t j = i; while (j < t.size() && !isspace((unsigned char)t[j])) ++j; r.push_back({i, j - i}); i = j; } return r; }
// every text one edit away (tokens), with a name
static void token_edits(const std::string &b, const std::function<void(const std::string &)> &cb) {
  static const char *rep[] = {"-1", "0", "1", "2", "3", "5", "999", "abc", "1.5", "4294967297", "-4294967295", "99999999999999999999", "nan", "inf", "1e400", "0x2", "1x", "%", "%%MatrixMarket", "matrix", "vector", "coordinate", "array", "real", "integer", "pattern", "complex", "general", "symmetric", "hermitian", "skew-symmetric", "GENERAL", ""};
  for (auto &k : toks(b)) for (auto *r : rep) cb(b.substr(0, k.at) + r + b.substr(k.at + k.len));
  for (auto &k : toks(b)) for (auto *r : {"7 ", "x ", "% ", "\n", "-", "\n%\n", "\n\n", "+"}) cb(b.substr(0, k.at) + r + b.substr(k.at));
}
static void body(Ctx &ctx) {
  bool T = ctx.thorough; const std::string M = "%%MatrixMarket matrix ";
  std::vector<std::string> base = {
    M + "coordinate real general\n2 3 3\n1 1 1.5\n2 2 -2\n1 3 4e-1\n",
    M + "coordinate real symmetric\n% note\n3 3 4\n1 1 2\n3 1 -1\n2 2 5\n3 3 7",
    M + "coordinate pattern general\n3 2 3\n3 1\n1 2\n2 2\n",
    M + "coordinate integer general\n%a\n%b\n2 2 2\n2 1 3\n1 2 -4\n",
    M + "coordinate pattern symmetric\n2 2 2\n2 1\n2 2",
    M + "array real general\n2 2\n1\n-2.5\n3e1\n0\n",
    M + "array real general\n%\n1 3\n1\n2\n3",
    M + "coordinate real general\n1 1 0\n",
    M + "coordinate real general\n3 3 3\n2 1 1\n3 1 2\n1 3 4\n",
    M + "coordinate complex general\n2 2 2\n2 1 3 -1\n1 2 4 2.5\n",
    M + "coordinate integer skew-symmetric\n2 2 1\n2 1 3\n",
  };
  std::vector<std::string> tiny = {M + "coordinate real general\n1 2 2\n1 2 3\n1 1 4\n", M + "coordinate pattern symmetric\n2 2 1\n2 1\n", M + "array real general\n1 2\n3\n4\n"};
  ctx.space = "missing file"; { CASE(ctx, "no such file") { Want w; std::string f = ctx.scratch + "/absent.mtx"; w.why = "missing"; readers(ctx, f, w, "(missing)"); ctx.checked(1); } CASE(ctx, "directory") { Want w; w.why = "directory"; readers(ctx, ctx.scratch, w, "(directory)"); ctx.checked(2); } }
  ctx.space = "base files"; for (size_t b = 0; b < base.size(); ++b) CASE(ctx, "base ", b) { if (b < 9 ? meaning(base[b]).kind != 1 : triplet_meaning(base[b]).kind != 1) abort(); one(ctx, base[b]); }
  ctx.space = "every prefix"; for (size_t b = 0; b < base.size(); ++b) for (size_t k = 0; k < base[b].size(); ++k) CASE(ctx, "base ", b, " first ", k, " bytes") one(ctx, base[b].substr(0, k));
  ctx.space = "every line removed, repeated, moved"; for (size_t b = 0; b < base.size(); ++b) {
    std::vector<std::string> l; { std::istringstream s(base[b]); std::string x; while (std::getline(s, x)) l.push_back(x); }
    auto join = [&](const std::vector<std::string> &v) { std::string s; for (auto &x : v) s += x + "\n"; return s; };
    for (size_t i = 0; i < l.size(); ++i) { { auto v = l; v.erase(v.begin() + i); CASE(ctx, "base ", b, " without line ", i) one(ctx, join(v)); } { auto v = l; v.insert(v.begin() + i, l[i]); CASE(ctx, "base ", b, " twice line ", i) one(ctx, join(v)); } for (size_t j = 0; j < i; ++j) { auto v = l; std::swap(v[i], v[j]); CASE(ctx, "base ", b, " lines ", j, "<->", i) one(ctx, join(v)); } } }
  ctx.space = "every token edit"; for (size_t b = 0; b < base.size(); ++b) token_edits(base[b], [&](const std::string &t) { CASE(ctx, "text ", mc::jesc(t)) one(ctx, t); });
  ctx.space = "every byte edit"; const std::string alpha = T ? std::string(" \n\t%0123456789-+.eax\0\xff", 22) : std::string(" \n%019-.e\0\xff", 11);
  for (size_t b = 0; b < base.size(); ++b) { if (!T && b > 5 && b != 9) continue; for (size_t k = 0; k <= base[b].size(); ++k) for (char c : alpha) for (int del = 0; del < 2; ++del) { if (del && k == base[b].size()) continue; CASE(ctx, "base ", b, " at ", k, " byte ", (int)(unsigned char)c, " replacing ", del) { std::string t = base[b].substr(0, k) + c + base[b].substr(k + del); one(ctx, t); } } 
    for (size_t k = 0; k < base[b].size(); ++k) CASE(ctx, "base ", b, " without byte ", k) one(ctx, base[b].substr(0, k) + base[b].substr(k + 1)); }
  ctx.space = "every byte beside and within every number"; for (size_t b : {0, 3, 5, 9}) { const std::string &x = base[b]; size_t from = x.find('\n'); for (auto &k : toks(x)) if (k.at > from && x[k.at] != '%') for (size_t at = k.at; at <= k.at + k.len; ++at) for (int c = 1; c < 256; ++c) CASE(ctx, "base ", b, " at ", at, " byte ", c) one(ctx, x.substr(0, at) + (char)c + x.substr(at)); }
  ctx.space = "all size lines"; for (int arr = 0; arr < 2; ++arr) for (int sy = 0; sy < 2; ++sy) for (int m = -1; m <= 3; ++m) for (int n = -1; n <= 3; ++n) for (int z = -1; z <= (arr ? -1 : 4); ++z) for (int have = 0; have <= (arr ? 10 : 4); ++have) for (int off = 0; off < 2; ++off) CASE(ctx, "array=", arr, " symmetric=", sy, " ", m, " ", n, " ", z, " entries=", have, " from=", off) {
    std::string t = M + (arr ? "array" : "coordinate") + " real " + (sy ? "symmetric" : "general") + "\n" + mc::cat(m, " ", n); if (!arr) t += mc::cat(" ", z); t += "\n";
    for (int k = 0; k < have; ++k) { if (arr) { if (off) { int mm = std::max(m, 1), r = k % mm, c = k / mm; t += mc::cat(r + 1, " ", c + 1, " ", k + 2, "\n"); } else t += mc::cat(k + 1, "\n"); } else { int q = k + off, r = q, c = 0; int mm = std::max(m, 1); while (r >= mm) { ++c; r -= mm - (sy ? c : 0); if (sy && c >= mm) break; } if (sy) r += c; t += mc::cat(r + 1, " ", c + 1, " ", k + 2, "\n"); } }
    one(ctx, t); }
  ctx.space = "every header x every kind of body"; for (auto *obj : {"matrix", "vector", "MATRIX"}) for (auto *fm : {"coordinate", "array", "Array", "sparse"}) for (auto *fd : {"real", "integer", "pattern", "complex", "double"}) for (auto *sy : {"general", "symmetric", "skew-symmetric", "hermitian", "lower"}) for (int sz = 0; sz < 6; ++sz) for (int per = 0; per <= 4; ++per) for (int ln = 0; ln <= 4; ++ln) CASE(ctx, obj, " ", fm, " ", fd, " ", sy, " size=", sz, " fields=", per, " lines=", ln) {
    static const char *size[] = {"1 1", "2 2", "2 2 1", "2 2 3", "1 1 1", "3 1 3"}; std::string t = mc::cat("%%MatrixMarket ", obj, " ", fm, " ", fd, " ", sy, "\n", size[sz], "\n"); static const int R[] = {1, 2, 2, 3}, C[] = {1, 1, 2, 1}; int one1 = sz == 5;
    for (int l = 0; l < ln; ++l) { if (per > 1) t += mc::cat(one1 ? (l < 3 ? l + 1 : 3) : R[l], " ", one1 ? 1 : C[l]); else if (per) t += mc::cat(l + 3); if (per > 2) t += mc::cat(" ", l + 5); if (per > 3) t += " 7"; t += "\n"; }
    one(ctx, t); }
  if (T) { ctx.space = "pairs of token edits"; for (auto &b : tiny) token_edits(b, [&](const std::string &t1) { token_edits(t1, [&](const std::string &t) { CASE(ctx, "text ", mc::jesc(t)) one(ctx, t); }); });
    ctx.space = "token edit and prefix"; for (auto &b : tiny) token_edits(b, [&](const std::string &t1) { for (size_t k = M.size(); k < t1.size(); ++k) CASE(ctx, "text ", mc::jesc(t1), " first ", k) one(ctx, t1.substr(0, k)); }); }
  else { ctx.space = "pairs of token edits"; const std::string &b = tiny[1]; token_edits(b, [&](const std::string &t1) { token_edits(t1, [&](const std::string &t) { if (t.compare(0, M.size(), M)) return; CASE(ctx, "text ", mc::jesc(t)) one(ctx, t); }); }); }
}
MC_MAIN(body)
