// mcrt: a stateless model checker for C++ threads. Built as a shared library that takes the place of the
// thread layer under the program: pthreads, atomics and plain accesses (through the -fsanitize=thread
// instrumentation), clocks, operator new/delete, static destructors. See DESIGN.md.
#include "mc.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <dlfcn.h>
#include <exception>
#include <execinfo.h>
#include <link.h>
#include <map>
#include <new>
#include <pthread.h>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <typeinfo>
#include <cxxabi.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <algorithm>
#include <set>

#define EXPORT extern "C" __attribute__((visibility("default")))
typedef uint64_t u64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8; typedef int64_t i64;
static const int NT = 16;

// ------------------------------------------------------------------------------------------- basics
static bool g_active = false; // an execution is running
static int g_in = 0;          // inside the engine
struct Enter { Enter() { ++g_in; } ~Enter() { --g_in; } };

struct VC { u32 c[NT]; void clear() { memset(c, 0, sizeof c); }
  void join(const VC& o) { for (int i = 0; i < NT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; } };

enum Kind : u8 { K_START, K_LOCK, K_TRYLOCK, K_UNLOCK, K_CVWAIT, K_CVBLOCKED, K_RELOCK, K_SIGNAL, K_BCAST,
  K_LOAD, K_STORE, K_RMW, K_CAS, K_RCADD, K_RCLOAD, K_RCLOCK, K_CREATE, K_JOIN, K_GUARD, K_GUARDREL,
  K_CHOOSE, K_LOG, K_VR, K_VW, K_NOW, K_SLEEP, K_YIELD, K_QUIESCE, K_AWAIT, K_SET, K_ONCE, K_FUTEXWAIT,
  K_FUTEXBLOCKED, K_FUTEXWAKE, K_RDLOCK, K_WRLOCK, K_TRYRD, K_TRYWR, K_RWUNLOCK, K_FINISH };
static const char* kname[] = { "start", "lock", "trylock", "unlock", "cv-wait", "cv-blocked", "relock", "signal", "broadcast",
  "load", "store", "rmw", "cas", "ref-add", "ref-load", "ref-lock", "create", "join", "guard", "guard-release",
  "choose", "log", "read-point", "write-point", "now", "sleep", "yield", "quiesce", "await", "set", "once", "futex-wait",
  "futex-blocked", "futex-wake", "rdlock", "wrlock", "try-rdlock", "try-wrlock", "rwunlock", "finish" };
enum Acc : u8 { A_NONE, A_R, A_W, A_INC, A_DEC, A_DEC0, A_LOCKREF,
                A_MLOCK, A_MUNLOCK }; // last two: as W, but an unlock is never co-enabled with a lock
static const uintptr_t OBJ_TIDS = 8, OBJ_CLOCK = 16, OBJ_LOG = 24, OBJ_SPUR = 32;

static bool acc_dep(u8 a, u8 b) {
  if (a == A_NONE || b == A_NONE) return false;
  if (a == A_R && b == A_R) return false;
  if (a == A_INC) return !(b == A_INC || b == A_DEC || b == A_DEC0 || b == A_LOCKREF);
  if (b == A_INC) return !(a == A_DEC || a == A_DEC0 || a == A_LOCKREF);
  if (a == A_DEC && b == A_DEC) return false;
  if (a == A_LOCKREF && b == A_LOCKREF) return false;
  return true;
}

struct Op {
  Kind kind = K_START; uintptr_t obj = 0, obj2 = 0; void* pc = nullptr;
  u64 val = 0; u64 val2 = 0; int size = 0; int n = 1; // n: number of alternatives
  bool timed = false; i64 deadline = 0; bool recursive = false;
};

struct Event { u8 tid; Kind kind; u8 acc[2]; uintptr_t obj[2]; u16 clk[NT]; void* pc; int choice; u8 extra; void* bt[8]; u64 val; };

struct Fiber {
  int id = 0; void* sp = nullptr; char* stack = nullptr; bool created = false, finished = false, joined = false, detached = false;
  Op op; VC hb; VC acqPending; VC relFence; u16 dp[NT]; u16 seq = 0;
  void* (*fn)(void*) = nullptr; void* arg = nullptr; void* ret = nullptr;
  bool signalled = false, timedout = false; int choice = 0;
  void* eh_caught = nullptr; unsigned eh_uncaught = 0; void* once_callable = nullptr; void (*once_call)() = nullptr;
  char* tls = nullptr; std::vector<std::pair<void (*)(void*), void*>> tlsdtors;
  // spin detection
  uintptr_t spin_obj = 0; void* spin_pc = nullptr; u32 spin_ver = 0; int spin_n = 0; int yield_at = -1;
  int spawn_count = 0;
};

struct Waiter { int tid; };
struct Obj {
  uintptr_t addr; std::vector<int> ev; u32 ver = 0;
  int owner = -1; int depth = 0; bool isMutex = false;          // mutex
  std::vector<int> rd;                                          // rwlock readers
  std::vector<int> waiters; uintptr_t cvmutex = 0;              // cond
  VC rel; bool hasRel = false;                                  // release clock
  int guard_tid = -1;
  void reset(uintptr_t a) { addr = a; ev.clear(); ver = 0; owner = -1; depth = 0; isMutex = false; rd.clear(); waiters.clear(); cvmutex = 0; hasRel = false; guard_tid = -1; rel.clear(); }
};

// ------------------------------------------------------------------------------------------- options
struct Config { mc_scenario* scn = nullptr; int mode = 0; double budget = 20; bool replay = false; bool trace = false; bool thorough = false;
  std::vector<std::pair<int, int>> schedule; std::set<std::string> ignore; std::string replay_out; int maxviol = 1; long maxexec = 0; };
static Config cfg;
static mc_options opt;

// ------------------------------------------------------------------------------------------- memory
static char* const ARENA = (char*)0x100000000000ull; static const size_t SUB = 4u << 20; static const size_t ARENA_SZ = SUB * (NT + 1);
static char* const STACKS = (char*)0x110000000000ull; static const size_t STK = 256u << 10;
struct Cell { u32 w, r; };
static const u32 W_FREED = 0xF0000000u, R_VEC = 0x80000000u;
struct Region { char *lo, *hi; Cell* sh; u8* dirty; };
static Region g_reg[12]; static int g_nreg = 0;
static std::vector<std::pair<int, u32>>* g_dirty; // (region,page)
struct Block { char* p; size_t n; bool live; void* pc; };
static std::vector<Block>* g_blocks[NT + 1]; static size_t g_bump[NT + 1];
static long g_live = 0; static int g_ignore_leaks = 0;
static u64 g_accesses = 0;
static std::vector<VC>* g_rvec;
static void setup_region(char* lo, char* hi) {
  Region& r = g_reg[g_nreg++]; r.lo = lo; r.hi = hi; size_t n = hi - lo;
  n = (n + 4095) & ~size_t(511);
  r.sh = (Cell*)mmap(nullptr, n * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  r.dirty = (u8*)mmap(nullptr, n / 512 + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (r.sh == MAP_FAILED || r.dirty == MAP_FAILED) { write(2, "mcrt: mmap failed\n", 18); _exit(70); }
}
static void mem_init() {
  static bool done = false; if (done) return; done = true;
  void* a = mmap(ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  void* s = mmap(STACKS, STK * NT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (a != ARENA || s != STACKS) { fprintf(stderr, "mcrt: cannot map\n"); _exit(70); }
  ++g_in;
  g_dirty = new std::vector<std::pair<int, u32>>; g_rvec = new std::vector<VC>; for (auto& b : g_blocks) b = new std::vector<Block>;
  --g_in;
  setup_region(ARENA, ARENA + ARENA_SZ); setup_region(STACKS, STACKS + STK * NT);
}

// ------------------------------------------------------------------------------------------- state
static Fiber* F[NT]; static int g_nf = 0; static Fiber* cur = nullptr; static void* g_explorer_sp;
static std::vector<Event>* g_ev; // events of this execution
static std::unordered_map<uintptr_t, Obj*>* g_objs; static std::vector<Obj*>* g_objpool; static size_t g_objused = 0;
static i64 g_now = 0; static int g_spur = 0; static u64 g_logpos = 0; static long g_counters[1024];
static std::string* g_outcome; static std::map<std::string, long>* g_outcomes;
static std::vector<std::pair<void (*)(void*), void*>>* g_dtors; static size_t g_ninitdtors = 0;
static int g_end = 0; // 0 running, 1 complete, 2 violation, 3 pruned, 4 capped
static bool g_tail = false; // past max_steps
static std::string *g_vkind, *g_vmsg, *g_vbt;

struct Node { u16 enabled = 0, backtrack = 0, done = 0, sleep = 0; int tid = 0; int choice = 0, n = 1; int curtid = -1; int budget = 0; bool preemptible = true; };
static std::vector<Node>* g_nodes; static size_t g_prefix = 0; // nodes [0,g_prefix) replayed
// statistics
static u64 st_exec = 0, st_events = 0, st_states = 0, st_pruned = 0, st_capped = 0, st_maxdepth = 0, st_cached = 0, st_races = 0, st_maxthreads = 0; 

static Obj* obj(uintptr_t a) {
  auto it = g_objs->find(a); if (it != g_objs->end()) return it->second;
  if (g_objused == g_objpool->size()) g_objpool->push_back(new Obj);
  Obj* o = (*g_objpool)[g_objused++]; o->reset(a); (*g_objs)[a] = o; return o;
}

// ------------------------------------------------------------------------------------------- fibers
extern "C" void mc_switch(void** save, void* to);
asm(R"(
.text
.globl mc_switch
.hidden mc_switch
.type mc_switch,@function
mc_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size mc_switch,.-mc_switch
)");
namespace std { extern __thread void* __once_callable; extern __thread void (*__once_call)(); }
struct EhG { void* caught; unsigned uncaught; };
static char* g_tls_lo = nullptr; static size_t g_tls_sz = 0; static char* g_tls_img = nullptr;
static void save_ctx(Fiber* f) {
  EhG* g = (EhG*)abi::__cxa_get_globals(); f->eh_caught = g->caught; f->eh_uncaught = g->uncaught;
  f->once_callable = std::__once_callable; f->once_call = std::__once_call;
  if (g_tls_sz) memcpy(f->tls, g_tls_lo, g_tls_sz);
}
static void load_ctx(Fiber* f) {
  EhG* g = (EhG*)abi::__cxa_get_globals(); g->caught = f->eh_caught; g->uncaught = f->eh_uncaught;
  std::__once_callable = f->once_callable; std::__once_call = f->once_call;
  if (g_tls_sz) memcpy(g_tls_lo, f->tls, g_tls_sz);
}
static void switch_to(Fiber* to) {
  if (to == cur) return; Fiber* from = cur; save_ctx(from); cur = to; load_ctx(to);
  int in = g_in; mc_switch(&from->sp, to->sp); g_in = in;
}
static void leave_execution() { // abandon the current fiber, back to the explorer
  void* dummy; mc_switch(&dummy, g_explorer_sp); __builtin_unreachable();
}
static std::string bt_string(int skip) {
  std::string s; char b[32]; void** fp = (void**)__builtin_frame_address(0);
  int n = 0; uintptr_t lo = (uintptr_t)STACKS, hi = lo + STK * NT;
  while ((uintptr_t)fp >= lo && (uintptr_t)fp < hi && n < 40) { void* ra = fp[1]; if (!ra) break; if (n >= skip) { snprintf(b, sizeof b, "%p ", (char*)ra - 1); s += b; } void** nx = (void**)fp[0]; if (nx <= fp) break; fp = nx; ++n; }
  return s;
}
static void vviolation(const char* kind, const char* fmt, va_list ap) {
  ++g_in; char buf[2048]; vsnprintf(buf, sizeof buf, fmt, ap);
  *g_vkind = kind; *g_vmsg = buf; *g_vbt = bt_string(2); g_end = 2; leave_execution();
}
__attribute__((noreturn, format(printf, 2, 3))) static void violation(const char* kind, const char* fmt, ...) {
  va_list ap; va_start(ap, fmt); vviolation(kind, fmt, ap); __builtin_unreachable();
}

// ------------------------------------------------------------------------------------------- race detector
static std::unordered_map<uintptr_t, std::pair<std::string, std::string>>* g_lastacc;
static inline u32 epoch(Fiber* f) { return (u32(f->id) << 24) | (f->hb.c[f->id] & 0xffffff); }
static inline bool ordered(u32 e, Fiber* f) { return (e & 0xffffff) <= f->hb.c[(e >> 24) & 15]; }
static inline Region* region(uintptr_t a) {
  for (int i = 0; i < g_nreg; ++i) if (a >= (uintptr_t)g_reg[i].lo && a < (uintptr_t)g_reg[i].hi) return &g_reg[i];
  return nullptr;
}
static void mark_dirty(Region* r, size_t off, size_t n) {
  for (size_t p = off >> 9; p <= (off + n - 1) >> 9; ++p) if (!r->dirty[p]) { r->dirty[p] = 1; ++g_in; g_dirty->push_back({int(r - g_reg), u32(p)}); --g_in; }
}
static void race(uintptr_t a, bool write, bool prevwrite, u32 e, void* pc) {
  ++g_in; (void)pc; std::string w; if (g_lastacc) { auto it = g_lastacc->find(a); if (it != g_lastacc->end()) w = prevwrite ? it->second.first : it->second.second; }
  violation("data-race", "%s by thread %d unordered with earlier %s by thread %d%s%s", write ? "write" : "read", cur->id, prevwrite ? "write" : "read", int((e >> 24) & 15), w.empty() ? "" : " earlier access: ", w.c_str());
}
// kind: 0 read, 1 write, 2 atomic (only checked against plain writes), 3 free
static void access(uintptr_t a, size_t n, int kind, void* pc) {
  if (!g_active || g_in || !n) return;
  Region* r = region(a); if (!r) return;
  if (++g_accesses > 200000000ull) violation("hang", "no end of plain accesses");
  if (a + n > (uintptr_t)r->hi) n = (uintptr_t)r->hi - a;
  size_t off = a - (uintptr_t)r->lo; Cell* c = r->sh + off;
  if (!r->dirty[off >> 9] || !r->dirty[(off + n - 1) >> 9]) mark_dirty(r, off, n);
  Fiber* f = cur; u32 e = epoch(f);
  for (size_t i = 0; i < n; ++i, ++c) {
    u32 w = c->w;
    if (w == e && (kind == 2 || (kind == 0 && c->r == e) || (kind == 1 && (c->r == 0 || c->r == e)))) continue;
    if (r == &g_reg[0]) {
      if (w == W_FREED) violation(kind == 3 ? "double-free" : "use-after-free", "%s of released memory", kind == 0 ? "read" : kind == 1 ? "write" : "operation");
      if (w == 0) violation("wild-access", "access outside any allocated block");
    }
    if (w && w != W_FREED && !ordered(w, f)) race(a + i, kind != 0, true, w, pc);
    if (kind == 2) continue;
    u32 rd = c->r;
    if (kind == 0) {
      if (rd == e) continue;
      if (rd & R_VEC) (*g_rvec)[rd & ~R_VEC].c[f->id] = f->hb.c[f->id];
      else if (rd == 0 || ordered(rd, f)) c->r = e;
      else { ++g_in; VC v; v.clear(); v.c[(rd >> 24) & 15] = rd & 0xffffff; v.c[f->id] = f->hb.c[f->id]; c->r = R_VEC | u32(g_rvec->size()); g_rvec->push_back(v); --g_in; }
      if (cfg.trace) { ++g_in; (*g_lastacc)[a + i].second = "[" + bt_string(2) + "]"; --g_in; }
    } else {
      if (rd & R_VEC) { VC& v = (*g_rvec)[rd & ~R_VEC]; for (int t = 0; t < NT; ++t) if (v.c[t] > f->hb.c[t]) race(a + i, true, false, u32(t) << 24, pc); }
      else if (rd && !ordered(rd, f)) race(a + i, true, false, rd, pc);
      c->r = 0; c->w = kind == 3 ? W_FREED : e;
      if (cfg.trace) { ++g_in; (*g_lastacc)[a + i].first = "[" + bt_string(2) + "]"; --g_in; }
    }
  }
}
#define PC __builtin_return_address(0)

// ------------------------------------------------------------------------------------------- scheduler
static void explorer_new_event(Event& e);
static bool enabled_basic(Fiber* f) {
  if (!f->created || f->finished) return false;
  const Op& o = f->op;
  switch (o.kind) {
  case K_LOCK: case K_RELOCK: { Obj* m = obj(o.obj); return m->owner < 0 || (o.recursive && m->owner == f->id); }
  case K_RDLOCK: return obj(o.obj)->owner < 0;
  case K_WRLOCK: { Obj* m = obj(o.obj); return m->owner < 0 && m->rd.empty(); }
  case K_JOIN: return F[o.val]->finished;
  case K_GUARD: case K_ONCE: return obj(o.obj)->guard_tid < 0;
  case K_AWAIT: return *(const int*)o.obj != 0;
  case K_CVBLOCKED: case K_FUTEXBLOCKED: return (o.timed && opt.timeouts == 1) || (g_spur < opt.spurious);
  case K_QUIESCE: return false;
  case K_LOAD: case K_TRYLOCK: case K_CAS: case K_RCLOAD:
    if (f->spin_n >= 6 && f->spin_obj == o.obj && obj(o.obj)->ver == f->spin_ver) return false;
    return true;
  case K_YIELD: case K_SLEEP: return f->yield_at < 0 || f->yield_at != (int)g_ev->size();
  default: return true;
  }
}
static u16 enabled_set() {
  u16 m = 0; for (int i = 0; i < g_nf; ++i) if (enabled_basic(F[i])) m |= 1u << i;
  if (m) return m;
  // nothing can run: yielding threads, then quiescing ones, then timeouts
  for (int i = 0; i < g_nf; ++i) if (F[i]->created && !F[i]->finished && (F[i]->op.kind == K_YIELD || F[i]->op.kind == K_SLEEP)) m |= 1u << i;
  if (m) return m;
  for (int i = 0; i < g_nf; ++i) if (F[i]->created && !F[i]->finished && F[i]->op.kind == K_QUIESCE) return 1u << i;
  i64 best = 0; int bi = -1;
  for (int i = 0; i < g_nf; ++i) if (F[i]->created && !F[i]->finished && (F[i]->op.kind == K_CVBLOCKED || F[i]->op.kind == K_FUTEXBLOCKED) && F[i]->op.timed && (bi < 0 || F[i]->op.deadline < best)) { bi = i; best = F[i]->op.deadline; }
  if (bi >= 0) return 1u << bi;
  return 0;
}
static u8 val_acc_rc(const Op& o) { int d = (int)(i64)o.val; if (d > 0) return A_INC; int v = *(volatile int*)o.obj; return v + d <= 0 ? A_DEC0 : A_DEC; }
// the accesses an operation makes if executed now
static void classify(Fiber* f, const Op& o, Event& e) {
  e.acc[0] = e.acc[1] = A_NONE; e.obj[0] = o.obj; e.obj[1] = 0; e.extra = 0;
  switch (o.kind) {
  case K_LOCK: case K_RELOCK: e.acc[0] = (o.recursive && obj(o.obj)->owner == f->id) ? A_NONE : A_MLOCK; break;
  case K_TRYLOCK: { Obj* m = obj(o.obj); if (m->owner < 0) e.acc[0] = A_W; else if (m->owner == f->id) e.acc[0] = A_NONE; else { e.acc[0] = A_R; e.extra = 1; } } break;
  case K_UNLOCK: e.acc[0] = obj(o.obj)->depth > 1 ? A_NONE : A_MUNLOCK; break;
  case K_CVWAIT: e.acc[0] = A_W; e.obj[1] = o.obj2; e.acc[1] = A_MUNLOCK; break;
  case K_CVBLOCKED: e.acc[0] = A_W; if (o.timed) { e.obj[1] = OBJ_CLOCK; e.acc[1] = A_W; } else { e.obj[1] = OBJ_SPUR; e.acc[1] = A_W; } break;
  case K_SIGNAL: case K_BCAST: e.acc[0] = obj(o.obj)->waiters.empty() ? A_R : A_W; break;
  case K_LOAD: case K_VR: case K_AWAIT: case K_RCLOAD: e.acc[0] = A_R; break;
  case K_STORE: case K_RMW: case K_VW: case K_SET: case K_LOG: case K_GUARD: case K_GUARDREL: case K_ONCE: e.acc[0] = A_W; break;
  case K_CAS: { u64 v = 0; memcpy(&v, (void*)o.obj, o.size); bool ok = v == o.val; e.acc[0] = ok ? A_W : A_R; e.extra = !ok; } break;
  case K_RCADD: e.acc[0] = val_acc_rc(o); break;
  case K_RCLOCK: e.acc[0] = A_LOCKREF; break;
  case K_CREATE: e.acc[0] = A_W; e.obj[0] = OBJ_TIDS; break;
  case K_NOW: e.obj[0] = OBJ_CLOCK; e.acc[0] = A_R; break;
  case K_SLEEP: e.obj[0] = OBJ_CLOCK; e.acc[0] = A_W; break;
  case K_FUTEXWAIT: e.acc[0] = A_W; break;
  case K_FUTEXBLOCKED: e.acc[0] = A_W; break;
  case K_FUTEXWAKE: e.acc[0] = A_W; break;
  case K_RDLOCK: case K_WRLOCK: e.acc[0] = A_W; break;
  case K_TRYRD: case K_TRYWR: case K_RWUNLOCK: e.acc[0] = A_W; break;
  default: break;
  }
}
static bool op_alternatives(Fiber* f, int& n) {
  n = 1; const Op& o = f->op;
  if (o.kind == K_CHOOSE) n = o.n; else if (o.kind == K_SIGNAL) { int w = (int)obj(o.obj)->waiters.size(); n = w > 1 ? w : 1; }
  return n > 1;
}
// may `a` (earlier) and `b` (later, by another thread) have been enabled in the same state?
static bool coenabled_unlock_lock(u8 a, u8 b) { return !(a == A_MUNLOCK && b == A_MLOCK); }

static void dp_join(u16* a, const u16* b) { for (int i = 0; i < NT; ++i) if (b[i] > a[i]) a[i] = b[i]; }
static bool g_dpor = true;

static void add_backtrack(int ei, const Event& e2, int e2tid, const u16* e2clk) {
  // e=(*g_ev)[ei] races with e2: make sure some initial of v = notdep(e).e2 is in backtrack(pre(e))
  ++st_races;
  std::vector<Event>& ev = *g_ev; const Event& e = ev[ei]; Node& nd = (*g_nodes)[ei];
  int first[NT]; for (int i = 0; i < NT; ++i) first[i] = -1; // index into ev of first event of proc in v; -2: e2 itself
  u16 eseq = e.clk[e.tid];
  int last = (int)ev.size();
  for (int k = ei + 1; k < last; ++k) { const Event& x = ev[k]; if (x.clk[e.tid] >= eseq) continue; if (first[x.tid] == -1) first[x.tid] = k; }
  if (first[e2tid] == -1) first[e2tid] = -2;
  u16 init = 0;
  for (int p = 0; p < NT; ++p) if (first[p] != -1) {
    const u16* c = first[p] == -2 ? e2clk : ev[first[p]].clk; bool ok = true;
    for (int q = 0; q < NT && ok; ++q) if (q != p && first[q] != -1) {
      if (first[q] == -2) continue; // e2 is last: precedes nothing in v
      if (c[q] >= ev[first[q]].clk[q]) ok = false;
    }
    if (ok) init |= 1u << p;
  }
  if (init & nd.backtrack) return;
  u16 en = init & nd.enabled;
  if (en) { u16 pick = (en >> e2tid) & 1 ? u16(1u << e2tid) : u16(en & -en); nd.backtrack |= pick; }
  else nd.backtrack |= nd.enabled;
}
static void race_analysis(const Event& e2, int tid, const u16* pre, const u16* clk) {
  // candidates: earlier dependent events on the same objects, latest first
  std::vector<Event>& ev = *g_ev; static std::vector<int> cand; cand.clear();
  for (int k = 0; k < 2; ++k) if (e2.acc[k] != A_NONE) { auto it = g_objs->find(e2.obj[k]); if (it == g_objs->end()) continue; for (int i : it->second->ev) cand.push_back(i); }
  std::sort(cand.begin(), cand.end()); cand.erase(std::unique(cand.begin(), cand.end()), cand.end());
  u16 V[NT]; memcpy(V, pre, sizeof V);
  for (int ci = (int)cand.size() - 1; ci >= 0; --ci) {
    const Event& e = ev[cand[ci]]; if (e.tid == tid) continue; if (V[e.tid] >= e.clk[e.tid]) continue;
    bool dep = false, co = false;
    for (int k = 0; k < 2; ++k) for (int j = 0; j < 2; ++j) if (e.obj[k] == e2.obj[j] && e.acc[k] != A_NONE && e2.acc[j] != A_NONE && acc_dep(e.acc[k], e2.acc[j])) {
      dep = true; bool c = coenabled_unlock_lock(e.acc[k], e2.acc[j]);
      if (e2.acc[j] == A_MLOCK && e.acc[k] == A_R) c = false; // failed trylock: the mutex was held
      if (c) co = true;
    }
    if (!dep || !co) continue;
    add_backtrack(cand[ci], e2, tid, clk);
    dp_join(V, e.clk);
  }
  (void)clk;
}
static void compute_clock(const Event& e2, u16* clk) {
  std::vector<Event>& ev = *g_ev;
  for (int k = 0; k < 2; ++k) if (e2.acc[k] != A_NONE) { auto it = g_objs->find(e2.obj[k]); if (it == g_objs->end()) continue;
    for (int i : it->second->ev) { const Event& e = ev[i]; if (clk[e.tid] >= e.clk[e.tid]) continue;
      for (int j = 0; j < 2; ++j) if (e.obj[j] == e2.obj[k] && acc_dep(e.acc[j], e2.acc[k])) { dp_join(clk, e.clk); break; } } }
}
static int explorer_pick(u16 en, int curtid, int& choice); // returns tid or -1 to stop the execution
static void commit(Fiber* f) { // f's pending op is about to be executed
  Event e; memset(&e, 0, sizeof e); e.tid = f->id; e.kind = f->op.kind; e.pc = f->op.pc; e.choice = f->choice; e.val = f->op.val;
  classify(f, f->op, e);
  u16 pre[NT];
  bool barrier = f->op.kind == K_QUIESCE || (f->op.kind == K_CVBLOCKED && opt.timeouts == 0);
  if (barrier) for (int i = 0; i < g_nf; ++i) dp_join(f->dp, F[i]->dp);
  if (f->op.kind == K_JOIN) dp_join(f->dp, F[f->op.val]->dp);
  memcpy(pre, f->dp, sizeof pre);
  if (!g_tail) compute_clock(e, f->dp);
  f->dp[f->id] = ++f->seq; memcpy(e.clk, f->dp, sizeof e.clk);
  if (g_dpor && !cfg.replay && !g_tail && !barrier && g_ev->size() + 1 >= g_prefix) race_analysis(e, f->id, pre, e.clk);
  int idx = (int)g_ev->size();
  if (cfg.trace) { void** fp = (void**)__builtin_frame_address(0); int n = 0; uintptr_t lo = (uintptr_t)STACKS, hi = lo + STK * NT;
    (void)fp; (void)n; (void)lo; (void)hi; }
  g_ev->push_back(e);
  for (int k = 0; k < 2; ++k) if (e.acc[k] != A_NONE && !(k == 1 && e.obj[1] == e.obj[0])) { Obj* o = obj(e.obj[k]); o->ev.push_back(idx); if (e.acc[k] != A_R) ++o->ver; }
  // spin detection
  if ((e.kind == K_LOAD || e.kind == K_RCLOAD || e.kind == K_TRYLOCK || e.kind == K_CAS) && e.acc[0] == A_R) {
    u32 v = obj(e.obj[0])->ver;
    if (f->spin_obj == e.obj[0] && f->spin_pc == e.pc && f->spin_ver == v) ++f->spin_n; else { f->spin_obj = e.obj[0]; f->spin_pc = e.pc; f->spin_ver = v; f->spin_n = 1; }
  } else f->spin_n = 0;
  if (e.kind == K_YIELD || e.kind == K_SLEEP) f->yield_at = -1;
  explorer_new_event(g_ev->back());
  ++st_events;
}
static void end_of_execution(int how) { g_end = how; leave_execution(); }
static void check_deadlock();
// Past max_steps the schedule is not explored any further but completed fairly: every thread that can run gets its turn, for a
// varying number of steps. An execution that does not end that way either never will.
static u64 g_fair = 0; static int g_fair_t = 0, g_fair_left = 0; static long st_tails = 0;
static int fair_pick(u16 en, int& choice) {
  auto rnd = [] { g_fair = g_fair * 6364136223846793005ull + 1442695040888963407ull; return (unsigned)(g_fair >> 33); };
  if (!g_tail) { if (!cfg.replay && ++st_tails > 48) end_of_execution(4); g_tail = true; g_fair = 1; g_fair_t = 0; g_fair_left = 0; }
  if ((int)g_ev->size() >= 4 * opt.max_steps) violation("livelock", "no end of the execution although every thread that can run gets its turn");
  choice = (int)(rnd() % 16);
  if (g_fair_left > 0 && ((en >> g_fair_t) & 1)) --g_fair_left;
  else { do g_fair_t = (g_fair_t + 1) % NT; while (!((en >> g_fair_t) & 1)); g_fair_left = (int)(rnd() % 24); }
  int n; op_alternatives(F[g_fair_t], n); choice %= n; return g_fair_t;
}
// choose who runs next; the chosen fiber returns from its own call with its op committed
static void reschedule() {
  Fiber* self = cur;
  u16 en = enabled_set();
  if (!en) check_deadlock();
  int choice = 0, t;
  if ((int)g_ev->size() < opt.max_steps) { t = explorer_pick(en, self->finished ? -1 : self->id, choice); if (t < 0) end_of_execution(3); }
  else t = fair_pick(en, choice);
  Fiber* f = F[t]; f->choice = choice;
  commit(f);
  switch_to(f);
}
static void visible(Op& o) { cur->op = o; if (o.kind == K_YIELD || o.kind == K_SLEEP) cur->yield_at = (int)g_ev->size(); reschedule(); }
#define NOTE_BT()

static void check_deadlock() {
  bool all = true; std::string s; for (int i = 0; i < g_nf; ++i) if (F[i]->created && !F[i]->finished) { all = false; char b[64]; snprintf(b, sizeof b, " thread %d blocked in %s;", i, kname[F[i]->op.kind]); s += b; }
  if (all) end_of_execution(1);
  // pending operations take part in the race analysis
  if (g_dpor && !cfg.replay && !g_tail) for (int i = 0; i < g_nf; ++i) { Fiber* f = F[i]; if (!f->created || f->finished) continue; Kind k = f->op.kind; if (k != K_LOCK && k != K_RELOCK && k != K_CVBLOCKED && k != K_AWAIT && k != K_GUARD) continue;
      Event e; memset(&e, 0, sizeof e); e.tid = i; e.kind = k; classify(f, f->op, e); u16 clk[NT]; memcpy(clk, f->dp, sizeof clk); compute_clock(e, clk); clk[i]++; race_analysis(e, i, f->dp, clk); }
  ++g_in; std::string bts;
  if (cfg.trace) for (int i = 0; i < g_nf; ++i) if (F[i]->created && !F[i]->finished && F[i] != cur) {
    char b[64]; snprintf(b, sizeof b, " | thread %d: ", i); bts += b; void** fp; void** sp = (void**)F[i]->sp; fp = (void**)sp[5]; 
    uintptr_t lo = (uintptr_t)STACKS, hi = lo + STK * NT; int n = 0;
    while ((uintptr_t)fp >= lo && (uintptr_t)fp < hi && n < 24) { void* ra = fp[1]; if (!ra) break; snprintf(b, sizeof b, "%p ", (char*)ra - 1); bts += b; void** nx = (void**)fp[0]; if (nx <= fp) break; fp = nx; ++n; } }
  *g_vkind = F[0]->finished ? "stuck-threads" : "deadlock"; *g_vmsg = std::string(F[0]->finished ? "threads still blocked after the end of the program:" : "no thread can run:") + s; *g_vbt = bt_string(1) + bts; g_end = 2; leave_execution();
}

static void hb_release(VC& dst, Fiber* f) { dst.join(f->hb); }
static void hb_tick(Fiber* f) { f->hb.c[f->id]++; }

static void fiber_finish() {
  Enter e; Fiber* f = cur; f->finished = true; f->op.kind = K_FINISH; hb_tick(f);
  reschedule(); __builtin_unreachable();
}
static void run_tls_dtors(Fiber* f) {
  while (true) { ++g_in; if (f->tlsdtors.empty()) { --g_in; return; } auto d = f->tlsdtors.back(); f->tlsdtors.pop_back(); --g_in; d.first(d.second); }
}
static void run_main(); 
extern "C" __attribute__((noinline)) void mc_fiber_main() noexcept {
  Fiber* f = cur; g_in = 0;
  if (f->id == 0) run_main(); else { f->ret = f->fn(f->arg); }
  run_tls_dtors(f);
  fiber_finish();
}
// bottom frame with undefined return address so that unwinding stops
extern "C" void mc_fiber_entry();
asm(R"(
.text
.globl mc_fiber_entry
.hidden mc_fiber_entry
.type mc_fiber_entry,@function
mc_fiber_entry:
  .cfi_startproc
  .cfi_undefined rip
  xorl %ebp,%ebp
  call mc_fiber_main
  hlt
  .cfi_endproc
.size mc_fiber_entry,.-mc_fiber_entry
)");
static Fiber* g_fpool[NT];
static Fiber* new_fiber() {
  if (g_nf >= NT) { violation("too-many-threads", "more than %d threads created", NT); }
  int id = g_nf++; if (!g_fpool[id]) g_fpool[id] = new Fiber; Fiber* f = g_fpool[id]; char* tls = f->tls; *f = Fiber(); f->tls = tls; F[id] = f; f->id = id; f->created = true;
  f->stack = STACKS + STK * id; memset(f->dp, 0, sizeof f->dp); f->hb.clear(); f->acqPending.clear(); f->relFence.clear();
  if (g_tls_sz) { if (!f->tls) f->tls = (char*)malloc(g_tls_sz); memcpy(f->tls, g_tls_img, g_tls_sz); }
  void** sp = (void**)(f->stack + STK - 64);
  *--sp = (void*)&mc_fiber_entry; for (int i = 0; i < 6; ++i) *--sp = nullptr; f->sp = sp;
  f->op.kind = K_START; if ((u64)g_nf > st_maxthreads) st_maxthreads = g_nf; return f;
}

// ------------------------------------------------------------------------------------------- explorer
static std::unordered_map<u64, int>* g_cache; // bounded mode: state -> best remaining budget seen
static std::unordered_map<uintptr_t, u16>* g_touch; static std::unordered_set<uintptr_t>* g_shared; static bool g_newshared = false;
static u64 g_hash = 0; static u16 g_cursleep = 0; static int g_last = -1, g_used = 0;
static u64 mix(u64 x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33; return x; }
static bool is_shared(uintptr_t a) { return a < 64 || g_shared->count(a); }
static void explorer_new_event(Event& e) {
  if (cfg.trace) {
    Fiber* f = F[e.tid]; (void)f;
  }
  if (g_dpor) { // sleep set for the next node
    u16 s = g_cursleep; if (s) for (int q = 0; q < g_nf; ++q) if ((s >> q) & 1) {
      Event p; memset(&p, 0, sizeof p); classify(F[q], F[q]->op, p); if (F[q]->op.kind == K_RCADD && p.acc[0] == A_DEC0) {} 
      bool dep = q == e.tid;
      for (int k = 0; k < 2 && !dep; ++k) for (int j = 0; j < 2; ++j) if (p.acc[k] != A_NONE && e.acc[j] != A_NONE && p.obj[k] == e.obj[j]) {
        u8 pa = p.acc[k], ea = e.acc[j]; bool d = acc_dep(pa, ea);
        if (!d && pa == A_DEC && ea == A_DEC) { int v = *(volatile int*)e.obj[j]; if (v <= 2) d = true; } // one of them could reach zero
        if (d) { dep = true; break; } }
      if (dep) s &= ~(1u << q); }
    g_cursleep = s;
  } else {
    u64 h = mix(e.tid * 0x9e3779b97f4a7c15ull + e.kind); h = mix(h ^ e.obj[0]); h = mix(h ^ e.obj[1] ^ (u64(e.choice) << 48)); for (int i = 0; i < g_nf; ++i) if (e.clk[i]) h = mix(h ^ (u64(i) << 32) ^ e.clk[i]);
    g_hash += h;
    for (int k = 0; k < 2; ++k) if (e.acc[k] != A_NONE) { u16& m = (*g_touch)[e.obj[k]]; m |= 1u << e.tid; if ((m & (m - 1)) && !is_shared(e.obj[k])) { g_shared->insert(e.obj[k]); g_newshared = true; } }
  }
}
static int explorer_pick(u16 en, int curtid, int& choice) {
  size_t i = g_ev->size();
  if (cfg.replay) {
    if (i < cfg.schedule.size()) { auto s = cfg.schedule[i]; if (!((en >> s.first) & 1)) { fprintf(stderr, "mcrt: replay diverged at step %zu\n", i); _exit(71); } choice = s.second; g_last = s.first; return s.first; }
    // past the recorded schedule: keep the current thread, else the lowest
    int t = (curtid >= 0 && ((en >> curtid) & 1)) ? curtid : __builtin_ctz(en); choice = 0; return t;
  }
  if (i < g_prefix) { // replay of the prefix
    Node& n = (*g_nodes)[i];
    if (n.enabled != en) { fprintf(stderr, "mcrt: nondeterminism detected at step %zu (enabled %x, was %x) in %s\n", i, en, n.enabled, cfg.scn->name); _exit(72); }
    if (g_dpor) g_cursleep = (n.sleep | n.done) & ~(1u << n.tid);
    else g_used = n.budget + ((n.preemptible && n.curtid >= 0 && n.tid != n.curtid && ((n.enabled >> n.curtid) & 1)) ? 1 : 0);
    if (n.n < 0) op_alternatives(F[n.tid], n.n);
    choice = n.choice; g_last = n.tid; return n.tid;
  }
  Node n; n.enabled = en; n.curtid = curtid;
  if (g_dpor) {
    n.sleep = g_cursleep; u16 av = en & ~n.sleep; if (!av) return -1;
    int t = (curtid >= 0 && ((av >> curtid) & 1)) ? curtid : __builtin_ctz(av);
    n.tid = t; n.backtrack = 1u << t;
  } else {
    n.budget = g_used; int remaining = (cfg.mode - 1) - g_used; int t;
    if (curtid >= 0 && ((en >> curtid) & 1)) {
      t = curtid; Fiber* f = F[t]; Event p; memset(&p, 0, sizeof p); classify(f, f->op, p); bool sh = false; for (int k = 0; k < 2; ++k) if (p.acc[k] != A_NONE && is_shared(p.obj[k])) sh = true;
      bool yielding = f->op.kind == K_YIELD || f->op.kind == K_SLEEP; if (yielding) sh = true;
      n.preemptible = sh && !yielding;
      n.backtrack = 1u << t; if (yielding || (sh && remaining > 0)) n.backtrack = en;
    } else { t = __builtin_ctz(en); n.backtrack = en; n.preemptible = false; }
    n.tid = t;
    if (n.backtrack & (n.backtrack - 1)) {
      u64 key = mix(g_hash ^ mix(curtid + 77)); auto it = g_cache->find(key);
      if (it != g_cache->end() && it->second >= remaining) { ++st_cached; return -1; }
      (*g_cache)[key] = remaining;
    }
    if (n.tid != curtid && n.preemptible && curtid >= 0) g_used++;
  }
  op_alternatives(F[n.tid], n.n); n.choice = 0; choice = 0; g_nodes->push_back(n); ++st_states; g_last = n.tid;
  if (g_dpor) g_cursleep = n.sleep & ~(1u << n.tid);
  return n.tid;
}
// prepare the next execution; false: exploration complete
static bool next_prefix() {
  std::vector<Node>& N = *g_nodes;
  while (!N.empty()) {
    Node& n = N.back();
    if (n.n > 0 && n.choice + 1 < n.n) { n.choice++; ++st_states; break; }
    n.done |= 1u << n.tid;
    u16 c = n.backtrack & n.enabled & ~n.done; if (g_dpor) c &= ~n.sleep;
    if (c) { n.tid = __builtin_ctz(c); n.choice = 0; n.n = -1; ++st_states; break; } // n.n fixed when replayed
    N.pop_back();
  }
  g_prefix = N.size(); return !N.empty();
}

// ------------------------------------------------------------------------------------------- snapshot
struct Seg { char* p; size_t n; char* copy; };
static std::vector<Seg>* g_segs; static uintptr_t g_exe_lo = ~0ull, g_exe_hi = 0;
static size_t g_init_bump[NT + 1]; static std::vector<Block>* g_init_blocks; static char* g_init_copy;
static int phdr_cb(struct dl_phdr_info* i, size_t, void*) {
  for (int k = 0; k < i->dlpi_phnum; ++k) { auto& p = i->dlpi_phdr[k]; char* a = (char*)i->dlpi_addr + p.p_vaddr;
    if (p.p_type == PT_LOAD) { g_exe_lo = std::min(g_exe_lo, (uintptr_t)a); g_exe_hi = std::max(g_exe_hi, (uintptr_t)a + p.p_memsz);
      if (p.p_flags & PF_W) { setup_region(a, a + p.p_memsz); g_segs->push_back({a, p.p_memsz, nullptr}); } }
    if (p.p_type == PT_TLS) { g_tls_sz = p.p_memsz; g_tls_lo = (char*)i->dlpi_tls_data; g_tls_img = (char*)calloc(1, p.p_memsz + 1); memcpy(g_tls_img, a, p.p_filesz); }
  }
  return 1; // main program only
}
static void snapshot() {
  g_segs = new std::vector<Seg>; dl_iterate_phdr(phdr_cb, nullptr);
  for (auto& s : *g_segs) { s.copy = (char*)malloc(s.n); memcpy(s.copy, s.p, s.n); }
  memcpy(g_init_bump, g_bump, sizeof g_bump); g_init_blocks = new std::vector<Block>(*g_blocks[0]);
  g_init_copy = (char*)malloc(g_bump[0] + 1); memcpy(g_init_copy, ARENA, g_bump[0]); g_ninitdtors = g_dtors->size();
}
static void mark_block(char* p, size_t n, u32 e) { Region* r = &g_reg[0]; size_t off = p - r->lo; mark_dirty(r, off, n); for (size_t i = 0; i < n; ++i) r->sh[off + i] = Cell{e, 0}; }
static void restore() {
  for (auto& s : *g_segs) memcpy(s.p, s.copy, s.n);
  for (auto& d : *g_dirty) { Region& r = g_reg[d.first]; r.dirty[d.second] = 0; memset(r.sh + (size_t(d.second) << 9), 0, 512 * sizeof(Cell)); }
  g_dirty->clear(); g_rvec->clear();
  memcpy(g_bump, g_init_bump, sizeof g_bump); memcpy(ARENA, g_init_copy, g_bump[0]);
  for (int i = 0; i <= NT; ++i) g_blocks[i]->clear(); *g_blocks[0] = *g_init_blocks;
  for (auto& b : *g_blocks[0]) mark_block(b.p, b.n ? b.n : 1, b.live ? 1 : W_FREED);
  g_dtors->resize(g_ninitdtors); g_live = 0; g_ignore_leaks = 0;
  g_objs->clear(); g_objused = 0; g_ev->clear(); g_nf = 0; g_now = 1000000000000ll; g_spur = 0; g_logpos = 0; memset(g_counters, 0, sizeof g_counters); g_outcome->clear();
  g_hash = 0; g_cursleep = 0; g_last = -1; g_used = 0; g_accesses = 0; g_end = 0; g_tail = false; if (g_lastacc) g_lastacc->clear();
}
static void run_static_dtors() {
  while (true) { ++g_in; if (g_dtors->empty()) { --g_in; return; } auto d = g_dtors->back(); g_dtors->pop_back(); --g_in; d.first(d.second); }
}
static void run_main() {
  cfg.scn->fn();
  if (opt.atexit_dtors) run_static_dtors();
}
static void run_one() {
  restore(); EhG* g = (EhG*)abi::__cxa_get_globals(); EhG saved = *g; 
  Fiber* f = new_fiber(); f->hb.c[0] = 2; f->op.kind = K_START; cur = f;
  if (g_tls_sz) memcpy(g_tls_lo, g_tls_img, g_tls_sz);
  g->caught = nullptr; g->uncaught = 0; errno = 0;
  g_active = true; mc_switch(&g_explorer_sp, f->sp); g_active = false; g_in = 1;
  *g = saved; ++st_exec;
  if (g_ev->size() > st_maxdepth) st_maxdepth = g_ev->size();
  if (g_end == 1) {
    if (opt.leaks && !g_ignore_leaks) for (int i = 0; i <= NT; ++i) for (size_t k = 0; k < g_blocks[i]->size(); ++k) { Block& b = (*g_blocks[i])[k]; if (b.live && !(i == 0 && b.p < ARENA + g_init_bump[0])) { char m[128]; snprintf(m, sizeof m, "memory never released (%zu bytes)", b.n); *g_vkind = "leak"; *g_vmsg = m; char x[32]; snprintf(x, sizeof x, "%p", b.pc); *g_vbt = x; g_end = 2; return; } }
    (*g_outcomes)[*g_outcome]++;
  }
}
// ------------------------------------------------------------------------------------------- allocation
static int sub_of_current() { return g_active && cur ? cur->id : 0; }
static void* arena_alloc(size_t n, size_t al, void* pc) {
  mem_init(); ++g_in; int s = sub_of_current(); if (al < 16) al = 16; size_t sz = n ? n : 1;
  size_t b = (g_bump[s] + 16 + al - 1) & ~(al - 1);
  if (b + sz > SUB) { if (g_active) violation("out-of-memory", "allocations exceed %zu bytes in one execution", SUB); fprintf(stderr, "mcrt: arena exhausted\n"); _exit(70); }
  char* p = ARENA + SUB * s + b; g_bump[s] = b + sz; void* fpc = pc;
  g_blocks[s]->push_back({p, sz, true, fpc});
  if (g_active) mark_block(p, sz, epoch(cur)); ++g_live; --g_in; return p;
}
static bool in_arena(void* p) { return (char*)p >= ARENA && (char*)p < ARENA + ARENA_SZ; }
static void arena_free(void* p, void* pc) {
  if (!p) return; int s = int(((char*)p - ARENA) / SUB); auto& v = *g_blocks[s]; size_t lo = 0, hi = v.size();
  while (lo < hi) { size_t m = (lo + hi) / 2; if (v[m].p < (char*)p) lo = m + 1; else hi = m; }
  if (lo == v.size() || v[lo].p != p) { if (g_active) violation("bad-free", "delete of a pointer that was never allocated"); _exit(70); }
  if (!v[lo].live) { if (g_active) violation("double-free", "memory released twice"); _exit(70); }
  if (g_active) { int in = g_in; g_in = 0; access((uintptr_t)p, v[lo].n, 3, pc); g_in = in;
    ++g_in; for (size_t i = 0; i < v[lo].n; i += 8) { auto it = g_objs->find((uintptr_t)p + i); if (it != g_objs->end() && (it->second->owner >= 0 && it->second->isMutex)) violation("destroyed-locked", "memory holding a locked mutex released"); if (it != g_objs->end() && !it->second->waiters.empty()) violation("destroyed-waited", "memory holding a condition variable with waiters released"); } --g_in; }
  v[lo].live = false; --g_live;
}
static bool g_booted = false;
static void* do_new(size_t n, size_t al, void* pc) {
  if (g_in || !g_booted) { void* p = al > 16 ? aligned_alloc(al, (n + al - 1) & ~(al - 1)) : malloc(n ? n : 1); return p; }
  return arena_alloc(n, al, pc);
}
static void do_delete(void* p, void* pc) { if (!p) return; if (in_arena(p)) arena_free(p, pc); else free(p); }
#pragma GCC visibility push(default)
void* operator new(size_t n) { return do_new(n, 16, PC); }
void* operator new[](size_t n) { return do_new(n, 16, PC); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return do_new(n, 16, PC); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return do_new(n, 16, PC); }
void* operator new(size_t n, std::align_val_t a) { return do_new(n, (size_t)a, PC); }
void* operator new[](size_t n, std::align_val_t a) { return do_new(n, (size_t)a, PC); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return do_new(n, (size_t)a, PC); }
void operator delete(void* p) noexcept { do_delete(p, PC); }
void operator delete[](void* p) noexcept { do_delete(p, PC); }
void operator delete(void* p, size_t) noexcept { do_delete(p, PC); }
void operator delete[](void* p, size_t) noexcept { do_delete(p, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { do_delete(p, PC); }
void operator delete(void* p, std::align_val_t) noexcept { do_delete(p, PC); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { do_delete(p, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { do_delete(p, PC); }
#pragma GCC visibility pop

// ------------------------------------------------------------------------------------------- tsan interface
#define LIVE() (g_active && !g_in)
EXPORT void __tsan_init() {}
EXPORT void __tsan_func_entry(void*) {}
EXPORT void __tsan_func_exit() {}
#define RW(n) \
  EXPORT void __tsan_read##n(void* p) { access((uintptr_t)p, n, 0, PC); } EXPORT void __tsan_write##n(void* p) { access((uintptr_t)p, n, 1, PC); } \
  EXPORT void __tsan_unaligned_read##n(void* p) { access((uintptr_t)p, n, 0, PC); } EXPORT void __tsan_unaligned_write##n(void* p) { access((uintptr_t)p, n, 1, PC); } \
  EXPORT void __tsan_volatile_read##n(void* p) { access((uintptr_t)p, n, 0, PC); } EXPORT void __tsan_volatile_write##n(void* p) { access((uintptr_t)p, n, 1, PC); } \
  EXPORT void __tsan_unaligned_volatile_read##n(void* p) { access((uintptr_t)p, n, 0, PC); } EXPORT void __tsan_unaligned_volatile_write##n(void* p) { access((uintptr_t)p, n, 1, PC); } \
  EXPORT void __tsan_read##n##_pc(void* p, void*) { access((uintptr_t)p, n, 0, PC); } EXPORT void __tsan_write##n##_pc(void* p, void*) { access((uintptr_t)p, n, 1, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_read_range(void* p, size_t n) { access((uintptr_t)p, n, 0, PC); }
EXPORT void __tsan_write_range(void* p, size_t n) { access((uintptr_t)p, n, 1, PC); }
EXPORT void __tsan_vptr_update(void** p, void* v) { if (*p != v) access((uintptr_t)p, 8, 1, PC); }
EXPORT void __tsan_vptr_read(void** p) { access((uintptr_t)p, 8, 0, PC); }

static void vis_mem(Kind k, void* p, int sz, u64 val, u64 val2, void* pc) {
  access((uintptr_t)p, sz, 2, pc); Enter e; Op o; o.kind = k; o.obj = (uintptr_t)p; o.size = sz; o.val = val; o.val2 = val2; o.pc = pc; visible(o);
}
static void at_load(void* p, int mo) { Enter e; Obj* o = obj((uintptr_t)p); if (o->hasRel) { if (mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE) cur->hb.join(o->rel); else cur->acqPending.join(o->rel); } }
static void at_store(void* p, int mo, bool rmw) {
  Enter e; Obj* o = obj((uintptr_t)p); bool rel = mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
  if (!rmw) { o->rel.clear(); o->hasRel = false; }
  if (rel) { hb_release(o->rel, cur); o->hasRel = true; hb_tick(cur); } else { o->rel.join(cur->relFence); o->hasRel = true; }
}
template <class T> static T a_load(T* p, int mo, void* pc) { if (!LIVE()) return *p; vis_mem(K_LOAD, p, sizeof(T), 0, 0, pc); at_load(p, mo); return *p; }
template <class T> static void a_store(T* p, T v, int mo, void* pc) { if (!LIVE()) { *p = v; return; } vis_mem(K_STORE, p, sizeof(T), 0, 0, pc); at_store(p, mo, false); *p = v; }
template <class T, class Fn> static T a_rmw(T* p, int mo, void* pc, Fn fn) { if (!LIVE()) { T o = *p; *p = fn(o); return o; } vis_mem(K_RMW, p, sizeof(T), 0, 0, pc); at_load(p, mo); at_store(p, mo, true); T o = *p; *p = fn(o); return o; }
template <class T> static bool a_cas(T* p, T* exp, T des, int mo, int fmo, void* pc) {
  if (!LIVE()) { if (*p == *exp) { *p = des; return true; } *exp = *p; return false; }
  vis_mem(K_CAS, p, sizeof(T) > 8 ? 8 : sizeof(T), (u64)*exp, 0, pc); T v = *p;
  if (v == *exp) { at_load(p, mo); at_store(p, mo, true); *p = des; return true; }
  at_load(p, fmo); *exp = v; return false;
}
#define ATOMICS(N, T) \
  EXPORT T __tsan_atomic##N##_load(const volatile T* p, int mo) { return a_load((T*)p, mo, PC); } \
  EXPORT void __tsan_atomic##N##_store(volatile T* p, T v, int mo) { a_store((T*)p, v, mo, PC); } \
  EXPORT T __tsan_atomic##N##_exchange(volatile T* p, T v, int mo) { return a_rmw((T*)p, mo, PC, [&](T) { return v; }); } \
  EXPORT T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int mo) { return a_rmw((T*)p, mo, PC, [&](T o) { return T(o + v); }); } \
  EXPORT T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int mo) { return a_rmw((T*)p, mo, PC, [&](T o) { return T(o - v); }); } \
  EXPORT T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int mo) { return a_rmw((T*)p, mo, PC, [&](T o) { return T(o & v); }); } \
  EXPORT T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int mo) { return a_rmw((T*)p, mo, PC, [&](T o) { return T(o | v); }); } \
  EXPORT T __tsan_atomic##N##_fetch_xor(volatile T* p, T v, int mo) { return a_rmw((T*)p, mo, PC, [&](T o) { return T(o ^ v); }); } \
  EXPORT T __tsan_atomic##N##_fetch_nand(volatile T* p, T v, int mo) { return a_rmw((T*)p, mo, PC, [&](T o) { return T(~(o & v)); }); } \
  EXPORT int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* e, T d, int mo, int fmo) { return a_cas((T*)p, e, d, mo, fmo, PC); } \
  EXPORT int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* e, T d, int mo, int fmo) { return a_cas((T*)p, e, d, mo, fmo, PC); } \
  EXPORT T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T e, T d, int mo, int fmo) { a_cas((T*)p, &e, d, mo, fmo, PC); return e; }
ATOMICS(8, u8) ATOMICS(16, u16) ATOMICS(32, u32) ATOMICS(64, u64)
typedef unsigned __int128 u128;
ATOMICS(128, u128)
EXPORT void __tsan_atomic_thread_fence(int mo) {
  if (!LIVE()) return; Enter e;
  if (mo != __ATOMIC_RELEASE) cur->hb.join(cur->acqPending);
  if (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST) { cur->relFence = cur->hb; hb_tick(cur); }
}
EXPORT void __tsan_atomic_signal_fence(int) {}

// reference counts (through the derived libstdc++ headers)
EXPORT int __mc_rc_add(volatile int* p, int v) noexcept {
  if (!LIVE()) { int o = *p; *p = o + v; return o; }
  void* pc = PC; access((uintptr_t)p, 4, 2, pc); { Enter e; Op o; o.kind = K_RCADD; o.obj = (uintptr_t)p; o.size = 4; o.val = (u64)(i64)v; o.pc = pc; visible(o); }
  at_load((void*)p, __ATOMIC_ACQ_REL); at_store((void*)p, __ATOMIC_ACQ_REL, true);
  int o = *p; *p = o + v; return o;
}
EXPORT int __mc_rc_load(const volatile int* p) noexcept {
  if (!LIVE()) return *p; vis_mem(K_RCLOAD, (void*)p, 4, 0, 0, PC); at_load((void*)p, __ATOMIC_ACQUIRE); return *p;
}
EXPORT bool __mc_rc_lock(volatile int* p) noexcept {
  if (!LIVE()) { if (*p == 0) return false; ++*p; return true; }
  vis_mem(K_RCLOCK, (void*)p, 4, 0, 0, PC); if (*p == 0) return false; at_load((void*)p, __ATOMIC_ACQ_REL); at_store((void*)p, __ATOMIC_ACQ_REL, true); ++*p; return true;
}

// range functions
EXPORT void* memcpy(void* __restrict d, const void* __restrict s, size_t n) { if (LIVE() && n) { access((uintptr_t)s, n, 0, PC); access((uintptr_t)d, n, 1, PC); } void* r = d; asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory"); return r; }
EXPORT void* memmove(void* d, const void* s, size_t n) {
  if (LIVE() && n) { access((uintptr_t)s, n, 0, PC); access((uintptr_t)d, n, 1, PC); } void* r = d;
  if ((char*)d <= (const char*)s || (char*)d >= (const char*)s + n) asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory");
  else { char* dd = (char*)d + n - 1; const char* ss = (const char*)s + n - 1; asm volatile("std; rep movsb; cld" : "+D"(dd), "+S"(ss), "+c"(n)::"memory"); }
  return r;
}
EXPORT void* memset(void* d, int c, size_t n) { if (LIVE() && n) access((uintptr_t)d, n, 1, PC); void* r = d; asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); return r; }

// ------------------------------------------------------------------------------------------- pthreads
static bool is_recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
static void chk(void* p, size_t n, void* pc) { access((uintptr_t)p, n, 2, pc); }
static int m_lock(pthread_mutex_t* m, Kind k, void* pc) {
  if (!LIVE()) return 0; chk(m, 8, pc); Enter e; Obj* ob = obj((uintptr_t)m); ob->isMutex = true; bool rec = is_recursive(m);
  if (k == K_LOCK && ob->owner == cur->id && !rec) violation("self-deadlock", "thread %d locks a mutex it already holds", cur->id);
  Op o; o.kind = k; o.obj = (uintptr_t)m; o.pc = pc; o.recursive = rec; visible(o);
  ob = obj((uintptr_t)m);
  if (k == K_TRYLOCK && ob->owner >= 0 && !(rec && ob->owner == cur->id)) return EBUSY;
  if (ob->owner == cur->id) { ob->depth++; return 0; }
  ob->owner = cur->id; ob->depth = 1; if (ob->hasRel) cur->hb.join(ob->rel); return 0;
}
EXPORT int pthread_mutex_lock(pthread_mutex_t* m) noexcept { return m_lock(m, K_LOCK, PC); }
EXPORT int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { return m_lock(m, K_TRYLOCK, PC); }
EXPORT int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) noexcept { return m_lock(m, K_LOCK, PC); }
EXPORT int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec*) noexcept { return m_lock(m, K_LOCK, PC); }
static void do_unlock(Obj* ob) { ob->rel = cur->hb; ob->hasRel = true; hb_tick(cur); ob->owner = -1; ob->depth = 0; }
EXPORT int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
  if (!LIVE()) return 0; void* pc = PC; chk(m, 8, pc); Enter e; Obj* ob = obj((uintptr_t)m);
  if (ob->owner != cur->id) violation("bad-unlock", "thread %d unlocks a mutex it does not hold", cur->id);
  Op o; o.kind = K_UNLOCK; o.obj = (uintptr_t)m; o.pc = pc; visible(o); ob = obj((uintptr_t)m);
  if (ob->depth > 1) { ob->depth--; return 0; } do_unlock(ob); return 0;
}
EXPORT int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) noexcept { memset(m, 0, sizeof *m); if (a) { int t = 0; pthread_mutexattr_gettype(a, &t); m->__data.__kind = t; } return 0; }
EXPORT int pthread_mutex_destroy(pthread_mutex_t* m) noexcept { if (!LIVE()) return 0; Enter e; auto it = g_objs->find((uintptr_t)m); if (it != g_objs->end() && it->second->owner >= 0) violation("destroyed-locked", "a locked mutex is destroyed"); return 0; }
EXPORT int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) noexcept { memset(c, 0, sizeof *c); return 0; }
EXPORT int pthread_cond_destroy(pthread_cond_t* c) noexcept { if (!LIVE()) return 0; Enter e; auto it = g_objs->find((uintptr_t)c); if (it != g_objs->end() && !it->second->waiters.empty()) violation("destroyed-waited", "a condition variable with waiters is destroyed"); return 0; }
static int c_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, i64 deadline, void* pc) {
  if (!LIVE()) return 0; chk(c, 8, pc); chk(m, 8, pc); Enter en; Obj* mo = obj((uintptr_t)m);
  if (mo->owner != cur->id) violation("bad-wait", "condition wait without holding the mutex");
  Op o; o.kind = K_CVWAIT; o.obj = (uintptr_t)c; o.obj2 = (uintptr_t)m; o.pc = pc; visible(o);
  // effect: release and enqueue
  mo = obj((uintptr_t)m); int depth = mo->depth; do_unlock(mo); Obj* co = obj((uintptr_t)c); co->waiters.push_back(cur->id);
  cur->signalled = cur->timedout = false;
  Op b; b.kind = K_CVBLOCKED; b.obj = (uintptr_t)c; b.obj2 = (uintptr_t)m; b.pc = pc; b.timed = timed; b.deadline = deadline; b.recursive = false;
  visible(b);
  // either signalled (op was changed to RELOCK and has been committed) or timed out / woken spuriously
  bool to = false;
  if (!cur->signalled) {
    co = obj((uintptr_t)c); auto& w = co->waiters; w.erase(std::find(w.begin(), w.end(), cur->id));
    if (timed) { to = true; if (deadline > g_now) g_now = deadline; } else ++g_spur;
    Op r; r.kind = K_RELOCK; r.obj = (uintptr_t)m; r.pc = pc; visible(r);
  }
  mo = obj((uintptr_t)m); mo->owner = cur->id; mo->depth = depth; if (mo->hasRel) cur->hb.join(mo->rel);
  return to ? ETIMEDOUT : 0;
}
static void wake(Obj* co, size_t i) {
  int t = co->waiters[i]; co->waiters.erase(co->waiters.begin() + i); Fiber* f = F[t]; f->signalled = true; dp_join(f->dp, cur->dp);
  Op r; r.kind = K_RELOCK; r.obj = f->op.obj2; r.pc = f->op.pc; f->op = r;
}
EXPORT int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return c_wait(c, m, false, 0, PC); }
static i64 ts(const struct timespec* t) { return (i64)t->tv_sec * 1000000000ll + t->tv_nsec; }
EXPORT int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { return c_wait(c, m, true, ts(t), PC); }
EXPORT int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* t) { return c_wait(c, m, true, ts(t), PC); }
EXPORT int pthread_cond_signal(pthread_cond_t* c) noexcept {
  if (!LIVE()) return 0; void* pc = PC; chk(c, 8, pc); Enter e; Op o; o.kind = K_SIGNAL; o.obj = (uintptr_t)c; o.pc = pc; visible(o);
  Obj* co = obj((uintptr_t)c); if (!co->waiters.empty()) wake(co, cur->choice < (int)co->waiters.size() ? cur->choice : 0); return 0;
}
EXPORT int pthread_cond_broadcast(pthread_cond_t* c) noexcept {
  if (!LIVE()) return 0; void* pc = PC; chk(c, 8, pc); Enter e; Op o; o.kind = K_BCAST; o.obj = (uintptr_t)c; o.pc = pc; visible(o);
  Obj* co = obj((uintptr_t)c); while (!co->waiters.empty()) wake(co, 0); return 0;
}
// rwlocks
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept { if (!LIVE()) return 0; Enter e; Op o; o.kind = K_RDLOCK; o.obj = (uintptr_t)m; o.pc = PC; visible(o); Obj* ob = obj((uintptr_t)m); ob->rd.push_back(cur->id); if (ob->hasRel) cur->hb.join(ob->rel); return 0; }
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept { if (!LIVE()) return 0; Enter e; Op o; o.kind = K_WRLOCK; o.obj = (uintptr_t)m; o.pc = PC; visible(o); Obj* ob = obj((uintptr_t)m); ob->owner = cur->id; if (ob->hasRel) cur->hb.join(ob->rel); return 0; }
EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) noexcept { if (!LIVE()) return 0; Enter e; Op o; o.kind = K_TRYRD; o.obj = (uintptr_t)m; o.pc = PC; visible(o); Obj* ob = obj((uintptr_t)m); if (ob->owner >= 0) return EBUSY; ob->rd.push_back(cur->id); if (ob->hasRel) cur->hb.join(ob->rel); return 0; }
EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t* m) noexcept { if (!LIVE()) return 0; Enter e; Op o; o.kind = K_TRYWR; o.obj = (uintptr_t)m; o.pc = PC; visible(o); Obj* ob = obj((uintptr_t)m); if (ob->owner >= 0 || !ob->rd.empty()) return EBUSY; ob->owner = cur->id; if (ob->hasRel) cur->hb.join(ob->rel); return 0; }
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept { if (!LIVE()) return 0; Enter e; Op o; o.kind = K_RWUNLOCK; o.obj = (uintptr_t)m; o.pc = PC; visible(o); Obj* ob = obj((uintptr_t)m); if (ob->owner == cur->id) { ob->owner = -1; } else { auto it = std::find(ob->rd.begin(), ob->rd.end(), cur->id); if (it != ob->rd.end()) ob->rd.erase(it); } ob->rel.join(cur->hb); ob->hasRel = true; hb_tick(cur); return 0; }

EXPORT int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg) noexcept {
  if (!LIVE()) { fprintf(stderr, "mcrt: thread created outside of an execution\n"); _exit(70); }
  void* pc = PC; Enter e; Op o; o.kind = K_CREATE; o.pc = pc; visible(o);
  Fiber* self = cur; Fiber* f = new_fiber(); f->fn = fn; f->arg = arg; f->hb = self->hb; f->hb.c[f->id] = 1; hb_tick(self); memcpy(f->dp, self->dp, sizeof f->dp);
  access((uintptr_t)t, 8, 1, pc); *t = (pthread_t)(f->id + 1); return 0;
}
EXPORT int pthread_join(pthread_t t, void** r) {
  if (!LIVE()) return 0; void* pc = PC; Enter e; int id = (int)t - 1; if (id < 0 || id >= g_nf) violation("bad-join", "join of an unknown thread");
  if (id == cur->id) return EDEADLK; if (F[id]->joined || F[id]->detached) violation("bad-join", "thread joined twice");
  Op o; o.kind = K_JOIN; o.val = id; o.pc = pc; visible(o); F[id]->joined = true; cur->hb.join(F[id]->hb);
  if (r) *r = F[id]->ret; return 0;
}
EXPORT int pthread_detach(pthread_t t) noexcept { if (!LIVE()) return 0; int id = (int)t - 1; if (id >= 0 && id < g_nf) F[id]->detached = true; return 0; }
EXPORT pthread_t pthread_self() noexcept { return g_active && cur ? (pthread_t)(cur->id + 1) : (pthread_t)1; }
EXPORT int pthread_equal(pthread_t a, pthread_t b) noexcept { return a == b; }
EXPORT int pthread_setname_np(pthread_t, const char*) noexcept { return 0; }
EXPORT int sched_yield() noexcept { if (!LIVE()) return 0; Enter e; Op o; o.kind = K_YIELD; o.pc = PC; visible(o); return 0; }
EXPORT int pthread_once(pthread_once_t* c, void (*fn)(void)) {
  if (!LIVE()) { if (*c != 2) { *c = 2; fn(); } return 0; }
  { Enter e; Op o; o.kind = K_ONCE; o.obj = (uintptr_t)c; o.pc = PC; visible(o); Obj* ob = obj((uintptr_t)c); if (ob->hasRel) cur->hb.join(ob->rel); if (*c == 2) return 0; ob->guard_tid = cur->id; }
  try { fn(); } catch (...) { Enter e; obj((uintptr_t)c)->guard_tid = -1; throw; }
  { Enter e; Op o; o.kind = K_GUARDREL; o.obj = (uintptr_t)c; o.pc = PC; visible(o); *c = 2; Obj* ob = obj((uintptr_t)c); ob->guard_tid = -1; ob->rel = cur->hb; ob->hasRel = true; hb_tick(cur); }
  return 0;
}
// function-local statics
EXPORT int __cxa_guard_acquire(long long* gg) {
  u8* g = (u8*)gg; if (!LIVE()) return *g ? 0 : 1; Enter e; Op o; o.kind = K_GUARD; o.obj = (uintptr_t)g; o.pc = PC; visible(o);
  Obj* ob = obj((uintptr_t)g); if (ob->hasRel) cur->hb.join(ob->rel); if (*g) return 0; ob->guard_tid = cur->id; return 1;
}
static void guard_done(u8* g, u8 v, void* pc) { Enter e; Op o; o.kind = K_GUARDREL; o.obj = (uintptr_t)g; o.pc = pc; visible(o); *g = v; Obj* ob = obj((uintptr_t)g); ob->guard_tid = -1; ob->rel = cur->hb; ob->hasRel = true; hb_tick(cur); }
EXPORT void __cxa_guard_release(long long* gg) noexcept { u8* g = (u8*)gg; if (!LIVE()) { *g = 1; return; } guard_done(g, 1, PC); }
EXPORT void __cxa_guard_abort(long long* gg) noexcept { u8* g = (u8*)gg; if (!LIVE()) return; guard_done(g, 0, PC); }
EXPORT int __cxa_thread_atexit(void (*d)(void*), void* o, void*) noexcept { if (g_active && cur) { Enter e; cur->tlsdtors.push_back({d, o}); } return 0; }

typedef int (*cxa_atexit_t)(void (*)(void*), void*, void*);
static bool in_exe(void* p) {
  static uintptr_t lo = 0, hi = 0; if (!lo) { lo = ~0ull; dl_iterate_phdr([](struct dl_phdr_info* i, size_t, void*) { for (int k = 0; k < i->dlpi_phnum; ++k) { auto& p = i->dlpi_phdr[k]; if (p.p_type == PT_LOAD) { lo = std::min(lo, (uintptr_t)(i->dlpi_addr + p.p_vaddr)); hi = std::max(hi, (uintptr_t)(i->dlpi_addr + p.p_vaddr + p.p_memsz)); } } return 1; }, nullptr); }
  return (uintptr_t)p >= lo && (uintptr_t)p < hi;
}
EXPORT int __cxa_atexit(void (*f)(void*), void* a, void* d) noexcept {
  static cxa_atexit_t real = (cxa_atexit_t)dlsym(RTLD_NEXT, "__cxa_atexit");
  if (in_exe(d)) { Enter e; mem_init(); if (!g_dtors) g_dtors = new std::vector<std::pair<void (*)(void*), void*>>; g_dtors->push_back({f, a}); return 0; }
  return real(f, a, d);
}

// ------------------------------------------------------------------------------------------- clocks, sleeping, futexes
EXPORT int clock_gettime(clockid_t c, struct timespec* t) noexcept {
  if (!LIVE()) return (int)syscall(SYS_clock_gettime, c, t);
  Enter e; Op o; o.kind = K_NOW; o.pc = PC; visible(o); t->tv_sec = g_now / 1000000000ll; t->tv_nsec = g_now % 1000000000ll; return 0;
}
static int do_sleep(i64 until, void* pc) { Enter e; Op o; o.kind = K_SLEEP; o.pc = pc; visible(o); if (until > g_now) g_now = until; return 0; }
EXPORT int nanosleep(const struct timespec* r, struct timespec*) { if (!LIVE()) return 0; return do_sleep(g_now + ts(r), PC); }
EXPORT int clock_nanosleep(clockid_t, int fl, const struct timespec* r, struct timespec*) { if (!LIVE()) return 0; return do_sleep(fl ? ts(r) : g_now + ts(r), PC); }
EXPORT int usleep(useconds_t u) { if (!LIVE()) return 0; return do_sleep(g_now + (i64)u * 1000, PC); }
EXPORT long syscall(long n, ...) noexcept {
  va_list ap; va_start(ap, n); long a[6]; for (auto& x : a) x = va_arg(ap, long); va_end(ap);
  if (n == SYS_futex && LIVE()) { int cmd = a[1] & 127; u32* w = (u32*)a[0];
    if (cmd == 0 || cmd == 9) { Enter e; Op o; o.kind = K_FUTEXWAIT; o.obj = (uintptr_t)w; o.pc = PC; visible(o); if (*w != (u32)a[2]) { errno = EAGAIN; return -1; }
      obj((uintptr_t)w)->waiters.push_back(cur->id); cur->signalled = false; Op b; b.kind = K_FUTEXBLOCKED; b.obj = (uintptr_t)w; b.pc = PC; if (a[3]) { b.timed = true; b.deadline = ts((timespec*)a[3]) + (cmd == 0 ? g_now : 0); } visible(b);
      if (!cur->signalled) { auto& v = obj((uintptr_t)w)->waiters; v.erase(std::find(v.begin(), v.end(), cur->id)); if (b.deadline > g_now) g_now = b.deadline; errno = ETIMEDOUT; return -1; } return 0; }
    if (cmd == 1 || cmd == 10) { Enter e; Op o; o.kind = K_FUTEXWAKE; o.obj = (uintptr_t)w; o.pc = PC; visible(o); auto& v = obj((uintptr_t)w)->waiters; long k = 0; while (k < a[2] && !v.empty()) { int t = v.front(); v.erase(v.begin()); F[t]->signalled = true; dp_join(F[t]->dp, cur->dp); F[t]->op.kind = K_START; ++k; } return k; }
  }
  register long r10 asm("r10") = a[3]; register long r8 asm("r8") = a[4]; register long r9 asm("r9") = a[5]; long ret;
  asm volatile("syscall" : "=a"(ret) : "a"(n), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  if (ret < 0 && ret > -4096) { errno = (int)-ret; return -1; } return ret;
}
EXPORT unsigned _ZNSt6thread20hardware_concurrencyEv() noexcept { return opt.hw; }

EXPORT void abort() noexcept { if (g_active) violation("abort", "abort called"); signal(SIGABRT, SIG_DFL); raise(SIGABRT); _exit(134); }
EXPORT void __assert_fail(const char* a, const char* f, unsigned l, const char*) noexcept { (void)f; (void)l; if (g_active) violation("assert", "assertion failed: %s", a); _exit(134); }
static void on_terminate() {
  ++g_in; const char* n = "no active exception"; const std::type_info* t = abi::__cxa_current_exception_type(); if (t) n = t->name();
  if (g_active) violation("terminate", "std::terminate called (%s)", n);
  fprintf(stderr, "mcrt: terminate outside execution: %s\n", n); _exit(134);
}
static u64 g_tick_events = 0; static int g_tick_same = 0;
static void on_tick(int) { if (!g_active || g_in) { g_tick_same = 0; return; } if (g_tick_events == st_events) { if (++g_tick_same >= 3) { g_tick_same = 0; sigset_t s; sigemptyset(&s); sigaddset(&s, SIGVTALRM); sigprocmask(SIG_UNBLOCK, &s, nullptr); violation("hang", "a thread runs on without reaching any synchronisation"); } } else g_tick_same = 0; g_tick_events = st_events; }
static void on_segv(int sig, siginfo_t* si, void*) {
  if (!g_active) { fprintf(stderr, "mcrt: signal %d outside execution at %p\n", sig, si->si_addr); _exit(139); }
  sigset_t s; sigemptyset(&s); sigaddset(&s, sig); sigprocmask(SIG_UNBLOCK, &s, nullptr);
  uintptr_t a = (uintptr_t)si->si_addr; const char* where = a < 4096 ? "null pointer" : "invalid address";
  if (cur) { uintptr_t lo = (uintptr_t)cur->stack; if (a >= lo - 65536 && a < lo) where = "stack overflow"; }
  violation("crash", "signal %d (%s)", sig, where);
}

// ------------------------------------------------------------------------------------------- harness interface
EXPORT int mc_choose(int n) { if (!LIVE() || n <= 1) return 0; Enter e; Op o; o.kind = K_CHOOSE; o.n = n; o.pc = PC; visible(o); return cur->choice; }
EXPORT unsigned long mc_log(int id) { Enter e; Op o; o.kind = K_LOG; o.obj = OBJ_LOG; o.val = id; o.pc = PC; visible(o); return g_logpos++; }
EXPORT void mc_visible(const void* p, int w) { Enter e; Op o; o.kind = w ? K_VW : K_VR; o.obj = (uintptr_t)p; o.pc = PC; visible(o); }
EXPORT void mc_fail(const char* fmt, ...) { va_list ap; va_start(ap, fmt); vviolation("property", fmt, ap); __builtin_unreachable(); }
EXPORT long mc_count(int k, long d) { return g_counters[k & 1023] += d; }
EXPORT long mc_get(int k) { return g_counters[k & 1023]; }
EXPORT void mc_outcome(const char* fmt, ...) { Enter e; va_list ap; va_start(ap, fmt); char b[512]; vsnprintf(b, sizeof b, fmt, ap); va_end(ap); *g_outcome += b; }
EXPORT long long mc_now() { return g_now; }
EXPORT int mc_tid() { return cur->id; }
EXPORT int mc_threads_created() { return g_nf; }
EXPORT int mc_threads_alive() { int n = 0; for (int i = 0; i < g_nf; ++i) if (!F[i]->finished) ++n; return n; }
EXPORT long mc_live_blocks() { return g_live; }
EXPORT int mc_tracing() { return cfg.trace; }
EXPORT void mc_trace(const char* fmt, ...) { if (!cfg.trace) return; Enter e; va_list ap; va_start(ap, fmt); fprintf(stderr, "      [t%d] ", cur->id); vfprintf(stderr, fmt, ap); fprintf(stderr, "\n"); va_end(ap); }
EXPORT void mc_ignore_leaks(int on) { g_ignore_leaks = on; }
EXPORT void mc_quiesce() { Enter e; Op o; o.kind = K_QUIESCE; o.pc = PC; visible(o); for (int i = 0; i < g_nf; ++i) cur->hb.join(F[i]->hb); }
EXPORT void mc_await(const int* f) { Enter e; Op o; o.kind = K_AWAIT; o.obj = (uintptr_t)f; o.pc = PC; visible(o); Obj* ob = obj((uintptr_t)f); if (ob->hasRel) cur->hb.join(ob->rel); }
EXPORT void mc_set(int* f, int v) { Enter e; Op o; o.kind = K_SET; o.obj = (uintptr_t)f; o.pc = PC; visible(o); *f = v; Obj* ob = obj((uintptr_t)f); ob->rel.join(cur->hb); ob->hasRel = true; hb_tick(cur); }

static mc_scenario* g_scenarios = nullptr;
__attribute__((visibility("default"))) mc_scenario::mc_scenario(const char* p, const char* n, void (*f)(), mc_options o) : props(p), name(n), fn(f), opt(o), next(g_scenarios) { g_scenarios = this; }

// ------------------------------------------------------------------------------------------- driver
static std::string jesc(const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }
static double wall() { timespec t; ::syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void print_trace(FILE* o) {
  for (size_t i = 0; i < g_ev->size(); ++i) { Event& e = (*g_ev)[i]; fprintf(o, "%4zu t%d %-13s obj=%lx%s choice=%d pc=%p\n", i, e.tid, kname[e.kind], e.obj[0], e.extra ? " (failed)" : e.acc[0] == A_DEC0 ? " (to zero)" : e.acc[0] == A_INC ? " +" : e.acc[0] == A_DEC ? " -" : "", e.choice, e.pc); }
}
static void write_replay(const std::string& path) {
  FILE* f = fopen(path.c_str(), "w"); if (!f) return; fprintf(f, "scenario %s\nkind %s\nmessage %s\nstack %s\nschedule", cfg.scn->name, g_vkind->c_str(), g_vmsg->c_str(), g_vbt->c_str());
  for (auto& e : *g_ev) fprintf(f, " %d:%d", e.tid, e.choice);
  fprintf(f, "\n"); print_trace(f); fclose(f);
}
struct Viol { std::string kind, msg, replay; u64 exec; };
static void usage() { fprintf(stderr, "usage: --list | --run NAME [--mode M] [--budget S] [--thorough] [--replay FILE] [--trace] [--replay-out FILE] [--ignore KIND] \n"); _exit(64); }

static int engine_main(int argc, char** argv) {
  std::string name, replay; int mode = -2; bool list = false; double budget = -1;
  for (int i = 1; i < argc; ++i) { std::string a = argv[i]; auto nx = [&] { if (i + 1 >= argc) usage(); return std::string(argv[++i]); };
    if (a == "--list") list = true; else if (a == "--run") name = nx(); else if (a == "--mode") mode = atoi(nx().c_str()); else if (a == "--budget") budget = atof(nx().c_str());
    else if (a == "--thorough") cfg.thorough = true; else if (a == "--replay") replay = nx(); else if (a == "--trace") cfg.trace = true; else if (a == "--replay-out") cfg.replay_out = nx(); else if (a == "--ignore") cfg.ignore.insert(nx()); else if (a == "--max-exec") cfg.maxexec = atol(nx().c_str()); else usage(); }
  if (list) { for (auto s = g_scenarios; s; s = s->next) printf("%s %s %d %g %d %d\n", s->name, s->props, s->opt.thorough_only, s->opt.budget, s->opt.mode, s->opt.mode_thorough); return 0; }
  for (auto s = g_scenarios; s; s = s->next) if (name == s->name) cfg.scn = s; if (!cfg.scn) usage();
  opt = cfg.scn->opt; cfg.mode = mode != -2 ? mode : cfg.thorough && opt.mode_thorough >= 0 ? opt.mode_thorough : opt.mode; cfg.budget = budget >= 0 ? budget : opt.budget > 0 ? opt.budget : 20;
  if (!replay.empty()) { cfg.replay = true; FILE* f = fopen(replay.c_str(), "r"); if (!f) usage(); char* line = nullptr; size_t n = 0; while (getline(&line, &n, f) > 0) if (!strncmp(line, "schedule", 8)) { char* p = line + 8; int t, c, k; while (sscanf(p, " %d:%d%n", &t, &c, &k) == 2) { cfg.schedule.push_back({t, c}); p += k; } } fclose(f); }
  if (cfg.trace) g_lastacc = new std::unordered_map<uintptr_t, std::pair<std::string, std::string>>;
  // engine state
  g_ev = new std::vector<Event>; g_objs = new std::unordered_map<uintptr_t, Obj*>; g_objpool = new std::vector<Obj*>; g_outcome = new std::string; g_outcomes = new std::map<std::string, long>;
  g_vkind = new std::string; g_vmsg = new std::string; g_vbt = new std::string; g_nodes = new std::vector<Node>; g_cache = new std::unordered_map<u64, int>; g_touch = new std::unordered_map<uintptr_t, u16>; g_shared = new std::unordered_set<uintptr_t>;
  if (!g_dtors) g_dtors = new std::vector<std::pair<void (*)(void*), void*>>;
  g_dpor = cfg.mode == 0; std::set_terminate(on_terminate);
  stack_t ss; ss.ss_sp = malloc(65536); ss.ss_size = 65536; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_segv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGTRAP}) sigaction(s, &sa, nullptr);
  struct sigaction sv; memset(&sv, 0, sizeof sv); sv.sa_handler = on_tick; sv.sa_flags = SA_ONSTACK | SA_RESTART; sigaction(SIGVTALRM, &sv, nullptr); itimerval tv = {{2, 0}, {2, 0}}; setitimer(ITIMER_VIRTUAL, &tv, nullptr);
  try { throw 1; } catch (int) {} // first-use initialisation inside the unwinder
  snapshot();
  double t0 = wall(); bool complete = false, timeout = false; std::vector<Viol> viols; std::map<std::string, long> ignored; int restarts = 0;
  while (true) {
    run_one();
    if (g_end == 3) ++st_pruned; if (g_end == 4 || (g_tail && g_end == 1)) ++st_capped;
    // nodes beyond the prefix whose number of alternatives was unknown
    if (g_end == 2) {
      if (cfg.replay) { printf("REPRODUCED %s: %s\nstack: %s\n", g_vkind->c_str(), g_vmsg->c_str(), g_vbt->c_str()); if (cfg.trace) print_trace(stdout); return 1; }
      std::string sig = *g_vkind + ": " + *g_vmsg; bool ign = false; for (auto& i : cfg.ignore) if (sig.find(i) != std::string::npos) { ign = true; ignored[i]++; }
      if (ign) { (*g_outcomes)["known:" + sig]++; }
      else { Viol v{*g_vkind, *g_vmsg, cfg.replay_out, st_exec}; if (!cfg.replay_out.empty()) write_replay(cfg.replay_out); viols.push_back(v); break; }
    }
    if (cfg.replay) { printf("NOT REPRODUCED (end=%d, events=%zu)\n", g_end, g_ev->size()); if (cfg.trace) print_trace(stdout); return 0; }
    if (!g_dpor && g_newshared) { g_newshared = false; g_nodes->clear(); g_cache->clear(); g_prefix = 0; ++restarts; if (restarts < 2000) continue; }
    if (!next_prefix()) { complete = true; break; }
    if (cfg.maxexec && (long)st_exec >= cfg.maxexec) { timeout = true; break; }
    if ((st_exec & 15) == 0 && wall() - t0 > cfg.budget) { timeout = true; break; }
  }
  printf("{\"scenario\":\"%s\",\"mode\":%d,\"complete\":%s,\"capped\":%llu,\"executions\":%llu,\"states\":%llu,\"transitions\":%llu,\"pruned\":%llu,\"cached\":%llu,\"races\":%llu,\"max_depth\":%llu,\"threads\":%llu,\"restarts\":%d,\"wall\":%.3f,\"outcomes\":{", cfg.scn->name, cfg.mode, complete && !st_capped ? "true" : "false", (unsigned long long)st_capped, (unsigned long long)st_exec, (unsigned long long)st_states, (unsigned long long)st_events, (unsigned long long)st_pruned, (unsigned long long)st_cached, (unsigned long long)st_races, (unsigned long long)st_maxdepth, (unsigned long long)st_maxthreads, restarts, wall() - t0);
  int k = 0; for (auto& o : *g_outcomes) { if (k > 40) break; printf("%s\"%s\":%ld", k++ ? "," : "", jesc(o.first).c_str(), o.second); }
  printf("},\"n_outcomes\":%zu,\"ignored\":{", g_outcomes->size()); k = 0; for (auto& i : ignored) printf("%s\"%s\":%ld", k++ ? "," : "", jesc(i.first).c_str(), i.second);
  printf("},\"violations\":["); k = 0; for (auto& v : viols) printf("%s{\"kind\":\"%s\",\"message\":\"%s\",\"execution\":%llu}", k++ ? "," : "", jesc(v.kind).c_str(), jesc(v.msg).c_str(), (unsigned long long)v.exec);
  printf("]}\n"); (void)timeout; fflush(stdout); return viols.empty() ? 0 : 1;
}
extern char __libc_single_threaded;
EXPORT int mc_engine_main(int argc, char** argv) { g_in = 1; __libc_single_threaded = 0; int r = engine_main(argc, argv); fflush(nullptr); _exit(r); }
// static constructors of the executable allocate from the arena
EXPORT void mc_boot() { mem_init(); g_booted = true; g_in = 0; }
