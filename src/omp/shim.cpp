// OpenMP runtime whose logical threads are fibers of one OS thread, scheduled deterministically.
// SHIM_ASAN : fixed schedule (round robin at synchronisation operations), fibers announced to AddressSanitizer.
// SHIM_SCHED: every instrumented memory access of the code under test is an event (the code is compiled with
//             -fsanitize=thread, this file supplies the callbacks). A vector-clock happens-before detector finds
//             data races; synchronisation operations and accesses made by racy instructions are visible
//             operations, and explore() enumerates all their interleavings (dynamic partial-order reduction with
//             sleep sets) or all schedules within a delay bound.
#include "sched.hpp"
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csetjmp>
#include <new>
#include <vector>
#include <map>
#include <set>
#include <string>
#include <algorithm>
#include <unordered_set>
#include <unistd.h>
#include <sys/mman.h>
#include <time.h>
#ifdef SHIM_ASAN
#include <sanitizer/common_interface_defs.h>
#endif
extern "C" void omps_switch(void **save, void *to);
asm(R"(
.text
.globl omps_switch
.type omps_switch,@function
omps_switch:
 pushq %rbp
 pushq %rbx
 pushq %r12
 pushq %r13
 pushq %r14
 pushq %r15
 movq %rsp, (%rdi)
 movq %rsi, %rsp
 popq %r15
 popq %r14
 popq %r13
 popq %r12
 popq %rbx
 popq %rbp
 ret
.size omps_switch,.-omps_switch
)");
extern "C" char __executable_start;
namespace {
// containers of the runtime stay out of the observed heap
template <class T> struct MA { typedef T value_type; MA() {} template <class U> MA(const MA<U> &) {} T *allocate(size_t n) { void *p = malloc(n * sizeof(T)); if (!p) abort(); return (T *)p; } void deallocate(T *p, size_t) { free(p); } };
template <class A, class B> bool operator==(const MA<A> &, const MA<B> &) { return true; }
template <class A, class B> bool operator!=(const MA<A> &, const MA<B> &) { return false; }
template <class T> using Vec = std::vector<T, MA<T>>;
template <class K, class T> using Map = std::map<K, T, std::less<K>, MA<std::pair<const K, T>>>;
const int MAXT = 8; const size_t STACK = 512 * 1024;
typedef uint32_t Clk; struct VC { Clk c[MAXT]; void zero() { memset(c, 0, sizeof c); } void join(const VC &o) { for (int i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
enum Kind { K_NONE, K_READ, K_WRITE, K_ATOMIC, K_WS, K_LOCK };
struct Op { int kind = K_NONE; uintptr_t a = 0; uint32_t sz = 0; const void *pc = nullptr; };
bool dependent(const Op &x, const Op &y) {
  bool mx = x.kind == K_READ || x.kind == K_WRITE || x.kind == K_ATOMIC, my = y.kind == K_READ || y.kind == K_WRITE || y.kind == K_ATOMIC;
  if (mx != my) return false;
  if (!mx) return x.kind == y.kind && x.a == y.a;
  if (x.kind == K_READ && y.kind == K_READ) return false;
  return x.a < y.a + y.sz && y.a < x.a + x.sz;
}
enum State { S_OP, S_BARRIER, S_DONE };
struct WS { bool init = false; long next = 0, end = 0, incr = 1, chunk = 1; int taken = 0; int users = 0; bool ull = false; void *copy = nullptr; };
struct Th { int st = S_DONE; Op op; VC hb, tr; void *sp = nullptr; char *stack = nullptr; long wsno = 0; WS *cur = nullptr; int nested = 0; void *fake = nullptr; };
struct Team { int n = 0; Th t[MAXT]; void (*fn)(void *) = nullptr; void *data = nullptr; Map<long, WS> ws; };
struct Lock { int owner = -1; VC hb; Lock() { hb.zero(); } };
Team team; bool inreg = false; int cur = -1; void *mainsp = nullptr; char *stacks[MAXT]; int nthr = 0; WS serial_ws[8]; int serial_depth = 0;
Map<uintptr_t, Lock> locks; long lockbase = 1;
#ifdef SHIM_ASAN
const void *main_bottom = nullptr; size_t main_size = 0; void *main_fake = nullptr;
#endif
// ---- exploration state
struct Node { uint32_t enabled = 0, back = 0, done = 0, sleep = 0; int chosen = -1, curthr = -1, alt = 0, nalt = 1; Op op[MAXT]; };
struct Ev { int t; Op op; VC tr; Clk idx; size_t node; };
struct Ex { bool on = false; omps::Opt opt; Vec<Node> stack; size_t depth = 0; Vec<Ev> trace; uint32_t sleep = 0; bool redundant = false; int budget = 0; std::string err; jmp_buf out; long steps = 0, accesses = 0; bool newpc = false; std::string race; long races = 0, regions = 0; std::string sched; } ex;
void fatal(const char *m) {
  if (ex.on) { ex.err = m; longjmp(ex.out, 1); }
  fprintf(stderr, "MC-%s\n", m); fflush(stderr); _exit(99);
}
void fail_from_fiber(const char *m);
// ---- racy instructions
#ifdef SHIM_SCHED
const int PT = 1 << 14; const void *pcs[PT]; int npcs = 0; bool pc_seen(const void *p) { size_t h = ((uintptr_t)p * 0x9E3779B97F4A7C15ull) >> 50; for (;; h = (h + 1) & (PT - 1)) { if (!pcs[h]) return false; if (pcs[h] == p) return true; } }
void pc_add(const void *p) { size_t h = ((uintptr_t)p * 0x9E3779B97F4A7C15ull) >> 50; for (;; h = (h + 1) & (PT - 1)) { if (pcs[h] == p) return; if (!pcs[h]) { if (++npcs > PT / 2) fatal("SHIM too many racy instructions"); pcs[h] = p; ex.newpc = true; return; } } }
// ---- shadow memory of one region: granules of 8 bytes, records with byte masks
struct Rec { uint8_t t, mask, kind; Clk clk; const void *pc; };
const int NREC = 40; struct Gran { uintptr_t key; uint32_t epoch; uint16_t n; Rec r[NREC]; };
const size_t GT = 1 << 16; Gran *gran = nullptr; uint32_t gepoch = 1; size_t gused = 0;
Gran &granule(uintptr_t k) { if (!gran) gran = (Gran *)mmap(nullptr, GT * sizeof(Gran), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); size_t h = (k * 0x9E3779B97F4A7C15ull) >> 48; for (;; h = (h + 1) & (GT - 1)) { Gran &g = gran[h]; if (g.epoch != gepoch) { if (++gused > GT * 3 / 4) fatal("SHIM shadow memory full"); g.epoch = gepoch; g.key = k; g.n = 0; return g; } if (g.key == k) return g; } }
std::string where(const void *pc) {
  char cmd[4200], exe[4096]; ssize_t l = readlink("/proc/self/exe", exe, sizeof exe - 1); if (l < 0) return "?"; exe[l] = 0; uintptr_t base = (uintptr_t)&__executable_start;
  snprintf(cmd, sizeof cmd, "addr2line -s -e '%s' 0x%lx 2>/dev/null", exe, (unsigned long)((uintptr_t)pc - 1 - base)); FILE *f = popen(cmd, "r"); if (!f) return "?"; char b[512] = ""; if (!fgets(b, sizeof b, f)) b[0] = 0; pclose(f); std::string s(b); while (!s.empty() && (s.back() == '\n')) s.pop_back(); size_t q = s.find(" ("); if (q != std::string::npos) s.resize(q); return s;
}
struct RacePair { const void *a, *b; bool aw, bw; } firstrace; bool haverace = false;
void record(uintptr_t a, uint32_t sz, int kind, const void *pc) {
  Th &me = team.t[cur]; if (++ex.accesses > 400000000L) fail_from_fiber("NONTERMINATION too many accesses in one parallel region");
  while (sz) {
    uintptr_t k = a >> 3; uint32_t o = a & 7, l = std::min<uint32_t>(sz, 8 - o); uint8_t m = ((1u << l) - 1) << o; Gran &g = granule(k); int w = 0; bool covered = false;
    for (int i = 0; i < g.n; ++i) { Rec &r = g.r[i];
      if (r.t != cur && (r.mask & m) && !(r.kind == K_READ && kind == K_READ) && !(r.kind == K_ATOMIC && kind == K_ATOMIC) && r.clk > me.hb.c[r.t]) { if (!haverace) { haverace = true; firstrace = {r.pc, pc, r.kind != K_READ, kind != K_READ}; } ++ex.races; pc_add(r.pc); pc_add(pc); }
      if (r.t == cur && r.kind == kind && r.mask == m) { if (r.clk == me.hb.c[cur] && r.pc == pc) covered = true; else if (r.pc == pc || r.clk < me.hb.c[cur]) continue; } // superseded
      else if (r.t == cur && (r.mask & ~m) == 0 && r.clk < me.hb.c[cur] && kind != K_READ) continue;
      g.r[w++] = r; }
    g.n = w;
    if (!covered) { if (g.n == NREC) { for (int i = 1; i < NREC; ++i) g.r[i - 1] = g.r[i]; g.n = NREC - 1; } g.r[g.n++] = {(uint8_t)cur, m, (uint8_t)kind, me.hb.c[cur], pc}; }
    a += l; sz -= l;
  }
}
#endif
// ---- fibers
void to_main() {
  Th &me = team.t[cur];
#ifdef SHIM_ASAN
  __sanitizer_start_switch_fiber(me.st == S_DONE ? nullptr : &me.fake, main_bottom, main_size);
#endif
  omps_switch(&me.sp, mainsp);
#ifdef SHIM_ASAN
  __sanitizer_finish_switch_fiber(me.fake, nullptr, nullptr);
#endif
}
void fiber_main() {
#ifdef SHIM_ASAN
  __sanitizer_finish_switch_fiber(nullptr, &main_bottom, &main_size);
#endif
  team.fn(team.data); team.t[cur].st = S_DONE; team.t[cur].op = Op(); to_main(); abort();
}
const char *fiber_error = nullptr;
void fail_from_fiber(const char *m) { fiber_error = m; to_main(); abort(); }
void run(int t) {
  cur = t; Th &x = team.t[t]; x.op = Op();
#ifdef SHIM_ASAN
  __sanitizer_start_switch_fiber(&main_fake, x.stack, STACK);
#endif
  omps_switch(&mainsp, x.sp);
#ifdef SHIM_ASAN
  __sanitizer_finish_switch_fiber(main_fake, nullptr, nullptr);
#endif
  cur = -1; if (fiber_error) { const char *m = fiber_error; fiber_error = nullptr; inreg = false; fatal(m); }
}
void prepare(int t) {
  Th &x = team.t[t]; if (!stacks[t]) { stacks[t] = (char *)mmap(nullptr, STACK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); mprotect(stacks[t], 4096, PROT_NONE); }
  x.stack = stacks[t] + 4096; uintptr_t top = ((uintptr_t)x.stack + STACK) & ~(uintptr_t)15; void **s = (void **)top; *--s = nullptr; *--s = (void *)fiber_main; for (int i = 0; i < 6; ++i) *--s = nullptr; x.sp = s; x.st = S_OP; if (ex.on && ex.opt.cache) memset((char *)s - 24576, 0, 24576); x.op = Op(); x.wsno = 0; x.cur = nullptr; x.nested = 0; x.fake = nullptr;
  x.hb.zero(); x.tr.zero(); x.hb.c[t] = 1;
}
// called on a fiber: announce a visible operation and wait to be scheduled
void visible(int kind, uintptr_t a, uint32_t sz, const void *pc) { Th &me = team.t[cur]; me.op.kind = kind; me.op.a = a; me.op.sz = sz; me.op.pc = pc; me.st = S_OP; to_main(); }
bool can_run(int t) { Th &x = team.t[t]; if (x.st != S_OP) return false; if (x.op.kind == K_LOCK) { auto it = locks.find(x.op.a); return it == locks.end() || it->second.owner < 0; } return true; }
#ifdef SHIM_SCHED
// ---- state caching: at a barrier every thread's future depends on memory and on its own stack alone, and no later
// operation can be reordered with an earlier one, so a state seen before need not be explored again
struct Arena { char *base = nullptr; size_t used = 0, high = 0; } arena[MAXT + 1]; const size_t ARENA = 64u << 20; bool arena_on = false; char *main_top = nullptr;
typedef std::unordered_set<uint64_t, std::hash<uint64_t>, std::equal_to<uint64_t>, MA<uint64_t>> HSet; HSet *seen = nullptr; long merged = 0, newstates = 0;
void *arena_get(size_t n) { Arena &a = arena[inreg && cur >= 0 ? cur + 1 : 0]; if (!a.base) a.base = (char *)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); size_t need = ((n ? n : 1) + 15 + 16) & ~(size_t)15; if (a.used + need > ARENA) { fprintf(stderr, "MC-SHIM arena exhausted\n"); _exit(96); } char *p = a.base + a.used; a.used += need; *(size_t *)p = n; ((size_t *)p)[1] = 0; memset(p + 16, 0xBE, need - 16); return p + 16; }
bool arena_has(const void *p) { for (auto &a : arena) if (a.base && (char *)p >= a.base && (char *)p < a.base + ARENA) return true; return false; }
void arena_put(void *p) { size_t *h = (size_t *)((char *)p - 16); memset(p, 0xDD, h[0]); h[1] = 1; }
void arena_reset() { for (auto &a : arena) { a.high = std::max(a.high, a.used); a.used = 0; } }
__attribute__((noinline)) void clear_stack() { volatile char b[96 * 1024]; for (size_t i = 0; i < sizeof b; i += 8) *(volatile uint64_t *)(b + i) = 0; }
uint64_t hmem(uint64_t h, const void *p, size_t n) { const uint64_t *w = (const uint64_t *)p; for (size_t i = 0; i < n / 8; ++i) { h ^= w[i]; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29; } return h; }
__attribute__((noinline)) bool known_state() {
  if (!ex.on || !ex.opt.cache || ex.redundant || ex.depth != ex.stack.size()) return false;
  uint64_t h = 1469598103934665603ull + ex.budget * 31 + team.n; char *sp = (char *)__builtin_frame_address(0); h = hmem(h, (char *)(((uintptr_t)sp + 23) & ~(uintptr_t)7), main_top - sp - 24);
  for (int t = 0; t < team.n; ++t) { Th &x = team.t[t]; h = h * 31 + x.st; if (x.st != S_DONE) h = hmem(h, x.sp, x.stack + STACK - (char *)x.sp); }
  for (auto &a : arena) if (a.base) h = hmem(h * 31, a.base, a.used);
  if (!seen->insert(h).second) { ++merged; ex.redundant = true; return true; } ++newstates; return false;
}
#endif
// ---- one scheduling decision
#ifdef SHIM_SCHED
#define CACHE known_state();
#else
#define CACHE
#endif
int decide(uint32_t en, int last) {
  if (!ex.on) { for (int k = 1; k <= team.n; ++k) { int t = (std::max(last, 0) + k) % team.n; if (en >> t & 1) return t; } return -1; }
  if (++ex.steps > 3000000) { inreg = false; fatal("NONTERMINATION too many steps"); }
  if (ex.opt.delay >= 0) {
    int ordv[MAXT], ordn = 0; for (int k = 0; k < team.n; ++k) { int t = (std::max(last, 0) + k) % team.n; if (en >> t & 1) ordv[ordn++] = t; }
    if (ordn == 1 || ex.redundant) return ordv[0]; // no decision
    if (ex.depth == ex.stack.size()) { Node nd; nd.alt = 0; nd.nalt = std::min<int>(ordn, ex.budget + 1); ex.stack.push_back(nd); }
    Node &nd = ex.stack[ex.depth++]; ex.budget -= nd.alt; return ordv[nd.alt];
  }
  if (ex.redundant) { if (last >= 0 && (en >> last & 1)) return last; return __builtin_ctz(en); }
  if (ex.depth == ex.stack.size()) {
    Node nd; nd.enabled = en; nd.sleep = ex.sleep; for (int t = 0; t < team.n; ++t) nd.op[t] = team.t[t].op; uint32_t free_ = en & ~nd.sleep;
    if (!free_) { ex.redundant = true; return (last >= 0 && (en >> last & 1)) ? last : __builtin_ctz(en); }
    nd.chosen = (last >= 0 && (free_ >> last & 1)) ? last : __builtin_ctz(free_); nd.back = 1u << nd.chosen; ex.stack.push_back(nd);
  }
  Node &nd = ex.stack[ex.depth]; int p = nd.chosen; Op &o = nd.op[p];
  // sleep set of the successor
  uint32_t s = (nd.sleep | nd.done) & ~(1u << p), ns = 0; for (int t = 0; t < team.n; ++t) if ((s >> t & 1) && !dependent(nd.op[t], o)) ns |= 1u << t; ex.sleep = ns;
  // races of this operation with earlier ones (trace order): backtrack points
  Ev e; e.t = p; e.op = o; e.node = ex.depth; e.tr = team.t[p].tr; uint32_t seen = 1u << p;
  for (size_t i = ex.trace.size(); i-- > 0;) { Ev &q = ex.trace[i]; if (q.t == p || !dependent(q.op, o)) continue;
    if (!(seen >> q.t & 1)) { seen |= 1u << q.t; if (q.idx > team.t[p].tr.c[q.t]) { Node &b = ex.stack[q.node]; if (b.enabled >> p & 1) b.back |= 1u << p; else b.back |= b.enabled; } }
    e.tr.join(q.tr); }
  e.idx = ++e.tr.c[p]; team.t[p].tr = e.tr; ex.trace.push_back(e); ++ex.depth; return p;
}
void region(void (*fn)(void *), void *data, int n) {
  if (n > MAXT) n = MAXT; team.n = n; team.fn = fn; team.data = data; team.ws.clear(); locks.clear(); for (int t = 0; t < n; ++t) prepare(t);
#ifdef SHIM_SCHED
  ++gepoch; gused = 0; ex.accesses = 0;
#endif
  ex.trace.clear(); ex.sleep = 0; ++ex.regions; inreg = true; int last = -1;
  for (int t = 0; t < n; ++t) run(t);
  for (;;) {
    uint32_t en = 0; int done = 0, bar = 0; for (int t = 0; t < n; ++t) { if (can_run(t)) en |= 1u << t; done += team.t[t].st == S_DONE; bar += team.t[t].st == S_BARRIER; }
    if (en) { int t = decide(en, last); last = t; run(t); continue; }
    if (done == n) break;
    if (bar == n) { VC h, r; h.zero(); r.zero(); for (int t = 0; t < n; ++t) { h.join(team.t[t].hb); r.join(team.t[t].tr); } for (int t = 0; t < n; ++t) { team.t[t].hb = h; ++team.t[t].hb.c[t]; team.t[t].tr = r; team.t[t].st = S_OP; } ex.sleep = 0; CACHE for (int t = 0; t < n; ++t) run(t); continue; }
    inreg = false; fatal(done && bar ? "DEADLOCK some threads wait at a barrier that the others left behind" : "DEADLOCK no thread can go on");
  }
  CACHE inreg = false;
}
int team_size(unsigned want) { int n = want ? ((int)want < 1 ? 1 : (int)want) : nthr; if (!n) { const char *e = getenv("OMP_NUM_THREADS"); n = e ? atoi(e) : 3; if (n < 1) n = 1; } return std::min(n, MAXT); }
bool par() { return inreg && cur >= 0 && !team.t[cur].nested; }
void barrier() { if (!par()) return; team.t[cur].st = S_BARRIER; to_main(); }
WS &new_ws() { Th &me = team.t[cur]; long id = ++me.wsno; visible(K_WS, id, 1, nullptr); WS &w = team.ws[id]; ++w.users; me.cur = &w; return w; }
WS *cur_ws() { return par() ? team.t[cur].cur : &serial_ws[serial_depth & 7]; }
bool ws_take(WS &w, long *is, long *ie) { // one chunk
  bool more = w.ull ? (unsigned long)w.next < (unsigned long)w.end : (w.incr > 0 ? w.next < w.end : w.next > w.end); if (!more) return false; long c = w.chunk * w.incr, e = w.next + c; if (w.ull ? (unsigned long)e > (unsigned long)w.end : (w.incr > 0 ? e > w.end : e < w.end)) e = w.end; *is = w.next; *ie = e; w.next = e; return true; }
bool loop_start(long s, long e, long inc, long ch, long *is, long *ie, bool ull = false) {
  if (ch <= 0) ch = 1; WS *w; if (par()) w = &new_ws(); else { w = cur_ws(); *w = WS(); }
  if (!w->init) { w->init = true; w->next = s; w->end = e; w->incr = inc; w->chunk = ch; w->ull = ull; } return ws_take(*w, is, ie); }
bool loop_next(long *is, long *ie) { if (par()) visible(K_WS, team.t[cur].wsno, 1, nullptr); return ws_take(*cur_ws(), is, ie); }
void lock_take(uintptr_t a) { if (!par()) return; visible(K_LOCK, a, 1, nullptr); Lock &l = locks[a]; l.owner = cur; team.t[cur].hb.join(l.hb); }
void lock_drop(uintptr_t a) { if (!par()) return; Lock &l = locks[a]; l.owner = -1; l.hb.join(team.t[cur].hb); ++team.t[cur].hb.c[cur]; }
struct PLoop { void (*fn)(void *); void *data; long s, e, inc, ch; };
}
extern "C" {
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) {
  if (inreg && cur >= 0) { Th &me = team.t[cur]; ++me.nested; fn(data); --me.nested; return; }
  int k = team_size(n); if (k == 1) { ++serial_depth; fn(data); --serial_depth; return; } region(fn, data, k);
}
void GOMP_parallel_start(void (*fn)(void *), void *data, unsigned n) { fatal("SHIM unsupported GOMP_parallel_start"); }
void GOMP_parallel_end() {}
void GOMP_barrier() { barrier(); }
bool GOMP_barrier_cancel() { barrier(); return false; }
bool GOMP_single_start() { if (!par()) return true; WS &w = new_ws(); return w.taken++ == 0; }
void *GOMP_single_copy_start() { if (!par()) return nullptr; WS &w = new_ws(); if (w.taken++ == 0) return nullptr; barrier(); return team.t[cur].cur->copy; }
void GOMP_single_copy_end(void *d) { if (!par()) return; team.t[cur].cur->copy = d; barrier(); }
#define LOOP(K) \
  bool GOMP_loop_##K##_start(long s, long e, long i, long c, long *a, long *b) { return loop_start(s, e, i, c, a, b); } \
  bool GOMP_loop_##K##_next(long *a, long *b) { return loop_next(a, b); } \
  bool GOMP_loop_ull_##K##_start(bool up, unsigned long s, unsigned long e, unsigned long i, unsigned long c, unsigned long *a, unsigned long *b) { return loop_start(s, e, i, c, (long *)a, (long *)b, up); } \
  bool GOMP_loop_ull_##K##_next(unsigned long *a, unsigned long *b) { return loop_next((long *)a, (long *)b); }
LOOP(dynamic) LOOP(guided) LOOP(static) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
#define LOOPR(K) \
  bool GOMP_loop_##K##_start(long s, long e, long i, long *a, long *b) { return loop_start(s, e, i, 1, a, b); } \
  bool GOMP_loop_##K##_next(long *a, long *b) { return loop_next(a, b); } \
  bool GOMP_loop_ull_##K##_start(bool up, unsigned long s, unsigned long e, unsigned long i, unsigned long *a, unsigned long *b) { return loop_start(s, e, i, 1, (long *)a, (long *)b, up); } \
  bool GOMP_loop_ull_##K##_next(unsigned long *a, unsigned long *b) { return loop_next((long *)a, (long *)b); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end() { barrier(); }
void GOMP_loop_end_nowait() {}
bool GOMP_loop_end_cancel() { barrier(); return false; }
static void ploop_body(void *p) { PLoop *l = (PLoop *)p; if (par()) { Th &me = team.t[cur]; long id = ++me.wsno; WS &w = team.ws[id]; me.cur = &w; if (!w.init) { w.init = true; w.next = l->s; w.end = l->e; w.incr = l->inc; w.chunk = l->ch > 0 ? l->ch : 1; } } else { WS *w = cur_ws(); *w = WS(); w->init = true; w->next = l->s; w->end = l->e; w->incr = l->inc; w->chunk = l->ch > 0 ? l->ch : 1; } l->fn(l->data); }
#define PLOOP(K) void GOMP_parallel_loop_##K(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned f) { PLoop l{fn, d, s, e, i, c}; GOMP_parallel(ploop_body, &l, n, f); }
PLOOP(dynamic) PLOOP(guided) PLOOP(static) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided)
#define PLOOPR(K) void GOMP_parallel_loop_##K(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned f) { PLoop l{fn, d, s, e, i, 1}; GOMP_parallel(ploop_body, &l, n, f); }
PLOOPR(runtime) PLOOPR(nonmonotonic_runtime) PLOOPR(maybe_nonmonotonic_runtime)
unsigned GOMP_sections_start(unsigned n) { long a, b; return loop_start(1, (long)n + 1, 1, 1, &a, &b) ? a : 0; }
unsigned GOMP_sections_next() { long a, b; return loop_next(&a, &b) ? a : 0; }
void GOMP_sections_end() { barrier(); }
void GOMP_sections_end_nowait() {}
void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned n, unsigned c, unsigned f) { PLoop l{fn, d, 1, (long)c + 1, 1, 1}; GOMP_parallel(ploop_body, &l, n, f); }
void GOMP_critical_start() { lock_take(1); }
void GOMP_critical_end() { lock_drop(1); }
void GOMP_critical_name_start(void **p) { lock_take((uintptr_t)p); }
void GOMP_critical_name_end(void **p) { lock_drop((uintptr_t)p); }
void GOMP_atomic_start() { lock_take(2); }
void GOMP_atomic_end() { lock_drop(2); }
void GOMP_ordered_start() { fatal("SHIM unsupported ordered"); }
void GOMP_ordered_end() {}
void GOMP_task(void (*fn)(void *), void *d, void (*cp)(void *, void *), long sz, long al, bool, unsigned, void **, int, void *) { if (cp) { std::vector<char> b(sz + al); char *p = (char *)(((uintptr_t)b.data() + al - 1) / al * al); cp(p, d); fn(p); } else fn(d); }
void GOMP_taskwait() {}
void GOMP_taskyield() {}
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }
int omp_get_thread_num() { return par() ? cur : 0; }
int omp_get_num_threads() { return par() ? team.n : 1; }
int omp_get_max_threads() { return team_size(0); }
void omp_set_num_threads(int n) { if (n > 0) nthr = n; }
int omp_get_num_procs() { return 4; }
int omp_in_parallel() { return par(); }
int omp_get_level() { return inreg && cur >= 0 ? 1 + team.t[cur].nested : 0; }
int omp_get_active_level() { return inreg && cur >= 0; }
int omp_get_team_size(int l) { return l == 0 ? 1 : team.n; }
int omp_get_ancestor_thread_num(int l) { return l == 0 ? 0 : std::max(cur, 0); }
int omp_get_thread_limit() { return MAXT; }
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return 0; }
void omp_set_nested(int) {}
int omp_get_nested() { return 0; }
void omp_set_max_active_levels(int) {}
int omp_get_max_active_levels() { return 1; }
void omp_set_schedule(int, int) {}
double omp_get_wtime() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
double omp_get_wtick() { return 1e-9; }
void omp_init_lock(void *p) { *(int *)p = 0; }
void omp_destroy_lock(void *) {}
void omp_set_lock(void *p) { lock_take((uintptr_t)p); }
void omp_unset_lock(void *p) { lock_drop((uintptr_t)p); }
int omp_test_lock(void *p) { if (!par()) return 1; visible(K_WS, (uintptr_t)p, 1, nullptr); Lock &l = locks[(uintptr_t)p]; if (l.owner >= 0) return 0; l.owner = cur; team.t[cur].hb.join(l.hb); return 1; }
#ifdef SHIM_SCHED
// a std::mutex of the code under test is a lock of the region like any other
int __wrap_pthread_mutex_lock(void *p) { lock_take((uintptr_t)p); return 0; }
int __wrap_pthread_mutex_unlock(void *p) { lock_drop((uintptr_t)p); return 0; }
int __wrap_pthread_mutex_trylock(void *p) { return omp_test_lock(p) ? 0 : 16; }
#endif
}
#ifdef SHIM_SCHED
// ---- callbacks of the instrumented code
static inline __attribute__((always_inline)) void access(void *a, uint32_t sz, int kind, void *pc) { if (!inreg || cur < 0) return; if (pc_seen(pc)) visible(kind, (uintptr_t)a, sz, pc); record((uintptr_t)a, sz, kind, pc); }
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void *a) { access(a, n, K_READ, PC); } void __tsan_write##n(void *a) { access(a, n, K_WRITE, PC); } void __tsan_unaligned_read##n(void *a) { access(a, n, K_READ, PC); } void __tsan_unaligned_write##n(void *a) { access(a, n, K_WRITE, PC); } void __tsan_volatile_read##n(void *a) { access(a, n, K_READ, PC); } void __tsan_volatile_write##n(void *a) { access(a, n, K_WRITE, PC); } void __tsan_read_write##n(void *a) { access(a, n, K_READ, PC); access(a, n, K_WRITE, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n) { access(a, n, K_READ, PC); }
void __tsan_write_range(void *a, size_t n) { access(a, n, K_WRITE, PC); }
void __tsan_vptr_update(void **a, void *) { access(a, 8, K_WRITE, PC); }
void __tsan_vptr_read(void **a) { access(a, 8, K_READ, PC); }
// every atomic operation is visible; its own effect follows without interruption
static inline __attribute__((always_inline)) void atom(const volatile void *a, uint32_t sz, void *pc, int mo) { if (!inreg || cur < 0) return; visible(K_ATOMIC, (uintptr_t)a, sz, pc); record((uintptr_t)a, sz, K_ATOMIC, pc); if (mo > 0) { Lock &l = locks[(uintptr_t)a ^ 0x8000000000000000ull]; Th &me = team.t[cur]; if (mo == 1 || mo == 2 || mo == 4 || mo == 5) me.hb.join(l.hb); if (mo >= 3) { l.hb.join(me.hb); ++me.hb.c[cur]; } } }
#define AT(b, T) \
  T __tsan_atomic##b##_load(const volatile T *a, int mo) { atom(a, b / 8, PC, mo); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##b##_store(volatile T *a, T v, int mo) { atom(a, b / 8, PC, mo); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_exchange(volatile T *a, T v, int mo) { atom(a, b / 8, PC, mo); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_add(volatile T *a, T v, int mo) { atom(a, b / 8, PC, mo); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_sub(volatile T *a, T v, int mo) { atom(a, b / 8, PC, mo); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_and(volatile T *a, T v, int mo) { atom(a, b / 8, PC, mo); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_or(volatile T *a, T v, int mo) { atom(a, b / 8, PC, mo); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_xor(volatile T *a, T v, int mo) { atom(a, b / 8, PC, mo); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_nand(volatile T *a, T v, int mo) { atom(a, b / 8, PC, mo); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int) { atom(a, b / 8, PC, mo); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int) { atom(a, b / 8, PC, mo); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_compare_exchange_val(volatile T *a, T c, T v, int mo, int) { atom(a, b / 8, PC, mo); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
void *__real_memset(void *, int, size_t); void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t);
void *__wrap_memset(void *d, int c, size_t n) { if (n) access(d, n, K_WRITE, PC); return __real_memset(d, c, n); }
void *__wrap_memcpy(void *d, const void *s, size_t n) { if (n) { access((void *)s, n, K_READ, PC); access(d, n, K_WRITE, PC); } return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { if (n) { access((void *)s, n, K_READ, PC); access(d, n, K_WRITE, PC); } return __real_memmove(d, s, n); }
}
static void *arena_on_get(size_t n) { return arena_on && !(inreg && cur < 0) ? arena_get(n) : nullptr; }
extern "C" {
void *__wrap_malloc(size_t n) { void *p = arena_on_get(n); return p ? p : malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { void *p = arena_on_get(a * b); if (!p) return calloc(a, b); memset(p, 0, a * b); return p; }
void *__wrap_realloc(void *q, size_t n) { if (q && !arena_has(q)) return realloc(q, n); void *p = arena_on_get(n); if (!p) p = malloc(n); if (q) { memcpy(p, q, std::min(n, ((size_t *)q)[-2])); arena_put(q); } return p; }
void __wrap_free(void *p) { if (!p) return; if (arena_has(p)) arena_put(p); else free(p); }
}
// ---- memory freed inside a region is kept until its end, so that a block never changes owner under the detector
static std::vector<void *, std::allocator<void *>> *deferred = nullptr; static bool indef = false;
static void *get(size_t n) { if (arena_on && !(inreg && cur < 0)) return arena_get(n); void *p = malloc(n ? n : 1); if (!p) { fprintf(stderr, "MC-SHIM out of memory\n"); _exit(99); } __real_memset(p, 0xBE, n); return p; }
static struct Dl { void **v = nullptr; size_t n = 0, cap = 0; } dl;
static void put(void *p) { if (!p) return; if (arena_has(p)) { arena_put(p); return; } if (inreg && cur >= 0) { if (dl.n == dl.cap) { dl.cap = dl.cap ? dl.cap * 2 : 256; dl.v = (void **)realloc(dl.v, dl.cap * sizeof(void *)); } dl.v[dl.n++] = p; return; } if (dl.n && !inreg) { for (size_t i = 0; i < dl.n; ++i) free(dl.v[i]); dl.n = 0; } free(p); }
void *operator new(size_t n) { return get(n); }
void *operator new[](size_t n) { return get(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return get(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return get(n); }
void operator delete(void *p) noexcept { put(p); }
void operator delete[](void *p) noexcept { put(p); }
void operator delete(void *p, size_t) noexcept { put(p); }
void operator delete[](void *p, size_t) noexcept { put(p); }
#endif
namespace omps {
bool controlled() { return true; }
void set_threads(int n) { nthr = n; }
#ifdef SHIM_SCHED
static std::string schedule() { std::string s = " [schedule"; if (ex.opt.delay >= 0) { int n = 0; for (size_t i = 0; i < ex.stack.size(); ++i) if (ex.stack[i].alt) s += " " + std::to_string(i) + "+" + std::to_string(ex.stack[i].alt); } else for (size_t i = 0; i < ex.depth && i < ex.stack.size() && i < 400; ++i) s += " " + std::to_string(ex.stack[i].chosen); return s + "]"; }
__attribute__((noinline)) static void inner_body(const std::function<std::string()> &body, std::string &r) { main_top = (char *)__builtin_frame_address(0); std::string t = body(); bool a = arena_on; arena_on = false; r.assign(t.c_str()); arena_on = a; }
// registers that the explorer changes from run to run must not show up in the frames below
__attribute__((noinline)) static void call_body(const std::function<std::string()> &body, std::string &r) { asm volatile("xor %%ebx,%%ebx; xor %%r12d,%%r12d; xor %%r13d,%%r13d; xor %%r14d,%%r14d; xor %%r15d,%%r15d" ::: "rbx", "r12", "r13", "r14", "r15", "memory"); inner_body(body, r); asm volatile("" ::: "memory"); }
std::string explore(const Opt &o, const std::function<std::string()> &body, Stats &st) {
  int saved = nthr; long execs = 0; std::string res; std::string *r = new std::string;
again:
  ex.stack.clear(); haverace = false; execs = 0; if (!seen) seen = new (malloc(sizeof(HSet))) HSet; seen->clear(); merged = newstates = 0;
  for (;;) {
    ex.on = true; ex.opt = o; ex.depth = 0; ex.trace.clear(); ex.sleep = 0; ex.redundant = false; ex.budget = o.delay; ex.err.clear(); ex.steps = 0; ex.newpc = false; ex.races = 0; ex.regions = 0; nthr = o.threads; r->clear();
    if (o.cache) { arena_reset(); clear_stack(); arena_on = true; }
    if (setjmp(ex.out) == 0) call_body(body, *r); else { inreg = false; cur = -1; fiber_error = nullptr; arena_on = false; *r = ex.err; }
    arena_on = false;
    ex.on = false; ++execs; ++st.execs; st.steps += ex.steps; st.races += ex.races; st.regions += ex.regions; st.redundant += ex.redundant; st.merged += merged; st.states += newstates; merged = newstates = 0;
    if (!r->empty()) { res = *r + schedule(); break; }
    if (o.norace && haverace) { res = "data race between " + where(firstrace.a) + (firstrace.aw ? " (write)" : " (read)") + " and " + where(firstrace.b) + (firstrace.bw ? " (write)" : " (read)") + schedule(); break; }
    if (ex.newpc) { ++st.restarts; goto again; }
    if (execs > o.maxexec) { fprintf(stderr, "MC-SHIM more than %ld schedules\n", o.maxexec); fflush(stderr); _exit(96); }
    // next schedule
    ex.stack.resize(std::min(ex.stack.size(), ex.depth)); bool more = false;
    while (!ex.stack.empty()) { Node &n = ex.stack.back();
      if (o.delay >= 0) { if (n.alt + 1 < n.nalt) { ++n.alt; more = true; break; } }
      else { n.done |= 1u << n.chosen; uint32_t c = n.back & ~n.done & ~n.sleep; if (c) { n.chosen = __builtin_ctz(c); more = true; break; } }
      ex.stack.pop_back(); }
    if (!more) break;
  }
  st.maxexecs = std::max(st.maxexecs, execs); nthr = saved; ex.stack.clear(); delete r; return res;
}
#endif
}
