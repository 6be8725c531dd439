// Deterministic simulator runtime.
//
// The code under test and the scenarios are compiled with clang's thread-sanitizer
// instrumentation and linked with this file instead of the sanitizer's runtime. This file
// provides the sanitizer entry points, the pthread/clock/futex functions and the allocator,
// runs all threads as fibers of one OS thread, and takes every decision from one stream of
// choices. It must not use C++ library templates (their out-of-line copies could replace the
// instrumented ones).
#include "sim.h"
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <cxxabi.h>
#include <elf.h>
#include <fcntl.h>
#include <link.h>
#include <linux/futex.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;
typedef int64_t i64;

extern "C" char __libc_single_threaded;
extern "C" char __data_start, _end;

// ===================================================================== limits, addresses
enum { MAXF = 24, MAXSLOT = 4096, MAXVAR = 8192, HIST = 6, MAXCHOICE = 1 << 16, NREC = 8, MAXKEY = 32 };
static const uintptr_t G_BASE = 0x300000000000ull;
static const uintptr_t HEAP_BASE = 0x100000000000ull, HEAP_SIZE = 256u << 20;
static const uintptr_t STACK_BASE = 0x200000000000ull, STACK_SIZE = 256u << 10;
static const uintptr_t HEAPST_BASE = 0x310000000000ull; // 1 byte per granule
static const uintptr_t HSHADOW_BASE = 0x320000000000ull, SSHADOW_BASE = 0x330000000000ull, GSHADOW_BASE = 0x340000000000ull;
static const u32 STEP_CAP = 30000, FAIR_CAP = 300;
static const u64 ACCESS_CAP = 30000000ull;

// ===================================================================== data
struct VC { u32 c[MAXF]; };
static inline void vc_join(VC &a, const VC &b) { for (int i = 0; i < MAXF; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

struct Rec { u32 clk; u8 tid, mask, kind, pad; };
enum { K_R = 0, K_W = 1, K_AR = 2, K_AW = 3 };
struct Cell { u32 gen; u8 n; u8 has_atomic; u16 pad; Rec r[NREC]; };

struct Hist { u64 val; VC vc; u8 has_vc; int tid; u32 clk; };
struct Var {
  uintptr_t addr; u32 gen; u8 size; u8 nh; u8 stale_ok; u8 dead; u32 name;
  VC vc;            // release sequence clock of the newest store
  Hist h[HIST];
  u32 obs[MAXF][HIST]; // earliest clock at which a fiber observed entry >= i (0 = never)
};

enum { SL_MUTEX = 1, SL_COND, SL_RW, SL_ONCE, SL_SEM, SL_HB };
struct Slot { u8 kind; u8 destroyed; int owner; int rec; int readers; int nwait; i64 count; VC vc; VC vc2; u32 name; };

enum { FS_FREE = 0, FS_RUN, FS_BLOCK, FS_DONE };
enum { B_NONE, B_MUTEX, B_COND, B_JOIN, B_KEY, B_SLEEP, B_FUTEX, B_DRAIN, B_RW, B_SEM, B_ONCE };
struct Fiber {
  void *sp; u8 st; u8 bkind; u8 timed; u8 timedout; u8 joined; u8 detached; u8 wakeflag; u8 stalled;
  int quiet; int guard_depth;
  uintptr_t bobj; i64 deadline; u8 dclock; u64 bseq;
  VC vc, frel, facq; u8 has_frel;
  char ehg[16]; void *once_callable; void (*once_call)();
  void *(*fn)(void *); void *arg; void *ret;
  int af_nth; u32 nalloc; int tf_nth; u8 af_fired;
  int prio; u32 npoints;
  char *tls; void *keys[MAXKEY];
  struct { void (*f)(void *); void *o; } tdtor[8]; int ntd;
};

struct Choice { u16 v, n; u8 kind; };

struct Result { // in shared memory
  int status; // 0 running/none, 1 ok, 2 violation, 3 terminated as expected
  char cls[64]; char msg[1200];
  u64 hash; u32 nchoice; u32 steps; u32 switches; u32 fibers; i64 sim_ns; u64 run_index;
};

struct Global {
  int cur; int nf; u32 gen; u32 steps; u64 seq; u64 accesses; u32 same;
  u32 switches, preempt;
  int replay; int verbose;
  void *main_sp; char main_ehg[16];
  Fiber f[MAXF];
  Slot slot[MAXSLOT]; int nslot;
  struct { u32 gen; int ix; } varhash[16384]; Var var[MAXVAR]; int nvar;
  VC sc;
  uintptr_t heap_top; u32 nalloc_total; i64 live;
  i64 mono, wall_off, mono0;
  u64 rng; u64 srng; u64 hash;
  Choice ch[MAXCHOICE]; u32 nch; Choice in[MAXCHOICE]; u32 nin;
  int status; char cls[64]; char msg[1200];
  int expect_term, noleak;
  u32 faults[sim::F_COUNT];
  int objs[sim::O_COUNT];
  // strategy
  int strat; u32 psw; int lowprio; u32 nchg; u32 chg[8]; int victim; u32 vfrom, vto;
  u32 budget_stale, budget_spur, budget_timer, budget_weak;
  u32 p_spur, p_stale, p_timer;
  const char *probes[64]; u32 probe_n[64]; int nprobes;
  u32 name_ctr;
  char *trace; u32 trace_len; u32 trace_cap;
  int nkeys;
  const char *hb_names;
  int booted;
  Choice *crash_ch; u32 *crash_nch;
  Result *res; // where a crash must be reported (shared memory)
};
#define G (*(Global *)G_BASE)
// not part of G: may be read before boot(); restored as 0 by the snapshot of the globals
static volatile int g_in_run = 0;
static inline bool active() { return g_in_run != 0; }
static inline Fiber &me() { return G.f[G.cur]; }

namespace sim { Scenario *g_scenarios = nullptr; }

// ===================================================================== raw helpers
static long rawsys(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
  long r; register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
static double real_now() { struct timespec t; rawsys(SYS_clock_gettime, 1, (long)&t); return t.tv_sec + t.tv_nsec * 1e-9; }

static u64 splitmix(u64 &s) { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static inline void mixhash(u64 v) { G.hash = (G.hash ^ v) * 0x100000001b3ull; G.hash ^= G.hash >> 29; }

static void trace(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
static void trace(const char *fmt, ...) {
  if (!G.verbose || !G.trace) return;
  char b[400]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b - 2, fmt, ap); va_end(ap);
  if (n > (int)sizeof b - 2) n = sizeof b - 2;
  b[n++] = '\n';
  if (G.trace_len + n < G.trace_cap) { memcpy(G.trace + G.trace_len, b, n); G.trace_len += n; }
}
#define TR(fmt, ...) do { if (G.verbose) trace("[%u] t%d " fmt, G.steps, G.cur, ##__VA_ARGS__); } while (0)

// ===================================================================== context switch
extern "C" void sim_ctx_switch(void **save, void *load);
__asm__(".text\n.globl sim_ctx_switch\n.type sim_ctx_switch,@function\nsim_ctx_switch:\n"
        "push %rbp\npush %rbx\npush %r12\npush %r13\npush %r14\npush %r15\n"
        "mov %rsp,(%rdi)\nmov %rsi,%rsp\n"
        "pop %r15\npop %r14\npop %r13\npop %r12\npop %rbx\npop %rbp\nret\n"
        ".size sim_ctx_switch,.-sim_ctx_switch\n");

namespace std { extern __thread void *__once_callable; extern __thread void (*__once_call)(); }
static char *g_exe_tls; static size_t g_exe_tls_size; static const char *g_tls_init; static size_t g_tls_init_size;

static void save_tls(Fiber &f) {
  memcpy(f.ehg, __cxxabiv1::__cxa_get_globals(), 16);
  f.once_callable = std::__once_callable; f.once_call = std::__once_call;
  if (g_exe_tls_size) memcpy(f.tls, g_exe_tls, g_exe_tls_size);
}
static void load_tls(Fiber &f) {
  memcpy(__cxxabiv1::__cxa_get_globals(), f.ehg, 16);
  std::__once_callable = f.once_callable; std::__once_call = f.once_call;
  if (g_exe_tls_size) memcpy(g_exe_tls, f.tls, g_exe_tls_size);
}

[[noreturn]] static void end_run(int status) {
  G.status = status;
  g_in_run = 0;
  void *dummy;
  sim_ctx_switch(&dummy, G.main_sp);
  __builtin_unreachable();
}

namespace sim {
void violation(const char *cls, const char *fmt, ...) {
  char b[1100]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (!active()) { fprintf(stderr, "violation outside run: %s: %s\n", cls, b); rawsys(SYS_exit_group, 9); }
  TR("VIOLATION %s: %s", cls, b);
  snprintf(G.cls, sizeof G.cls, "%s", cls);
  snprintf(G.msg, sizeof G.msg, "%s", b);
  end_run(2);
}
} // namespace sim
using sim::violation;

// ===================================================================== choices
static u32 choice(u32 n, char kind, u32 generated) {
  // one decision; 'generated' is what the seeded generator wants
  u32 v;
  if (n <= 1) return 0;
  if (G.replay) v = G.nch < G.nin ? G.in[G.nch].v % n : 0;
  else v = generated;
  if (G.nch >= MAXCHOICE) violation("livelock", "more than %d decisions in one run", MAXCHOICE);
  G.ch[G.nch].v = v; G.ch[G.nch].n = n > 65535 ? 65535 : n; G.ch[G.nch].kind = kind; G.nch++;
  mixhash(((u64)v << 8) ^ kind ^ ((u64)n << 32));
  return v;
}
static inline u32 rnd(u32 n) { return n ? (u32)((splitmix(G.rng) >> 33) % n) : 0; }
static inline bool rndp(u32 permille) { return rnd(1000) < permille; }

namespace sim {
uint32_t choose(uint32_t n) { u32 v = choice(n, 'w', rnd(n)); return v; }
bool flip(uint32_t permille) { if (!permille) return false; if (permille >= 1000) return true; return choice(2, 'w', rndp(permille)); }
static const char *fault_names[] = {"spurious_wakeup", "timer_fires_early", "wall_clock_jump", "stale_read", "thread_stall",
  "alloc_failure", "thread_create_failure", "executor_drop", "executor_refuse", "executor_reorder", "executor_inline", "executor_delay",
  "task_throw", "producer_abandon", "consumer_cancel", "value_throw", "weak_cas_failure", "pool_stop"};
void count_fault(Fault f) { G.faults[f]++; TR("fault %s", fault_names[f]); }
bool fault(Fault f, uint32_t permille) { if (!flip(permille)) return false; count_fault(f); return true; }
void probe(const char *name) {
  for (int i = 0; i < G.nprobes; ++i) if (G.probes[i] == name || !strcmp(G.probes[i], name)) { G.probe_n[i]++; return; }
  if (G.nprobes < 64) { G.probes[G.nprobes] = name; G.probe_n[G.nprobes] = 1; G.nprobes++; }
}
void log(const char *fmt, ...) {
  if (!G.verbose) return;
  char b[300]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  TR("note: %s", b);
}
} // namespace sim

// ===================================================================== scheduler
static i64 clock_now(u8 clk) { return clk ? G.mono + G.wall_off : G.mono; } // 1 = wall

static const char *bname(int k) {
  static const char *n[] = {"nothing", "mutex", "condition variable", "join", "harness event", "sleep", "futex", "drain", "rwlock", "semaphore", "once"};
  return n[k];
}
static void make_runnable(int i) { Fiber &f = G.f[i]; f.st = FS_RUN; f.bkind = B_NONE; f.timed = 0; }

static int next_timer() {
  int best = -1; i64 bt = 0;
  for (int i = 0; i < G.nf; ++i) {
    Fiber &f = G.f[i];
    if (f.st != FS_BLOCK || !f.timed) continue;
    i64 due = f.dclock ? f.deadline - G.wall_off : f.deadline;
    if (best < 0 || due < bt) { best = i; bt = due; }
  }
  return best;
}
static void fire_timer(int i) {
  Fiber &f = G.f[i];
  i64 due = f.dclock ? f.deadline - G.wall_off : f.deadline;
  if (due > G.mono) G.mono = due;
  f.timedout = 1; TR("clock -> %lld ns, timer of t%d", (long long)G.mono, i);
  make_runnable(i);
}
static void hang() {
  char b[1000]; int n = 0; b[0] = 0;
  for (int i = 0; i < G.nf; ++i) if (G.f[i].st == FS_BLOCK && n < 900)
    n += snprintf(b + n, sizeof b - n, "%st%d blocked on %s", n ? ", " : "", i, bname(G.f[i].bkind));
  if (G.nf && G.f[0].st == FS_BLOCK && G.f[0].bkind == B_DRAIN) violation("thread-left-behind", "threads still blocked after the scenario finished: %s", b);
  violation("hang", "no thread can run and no timer is pending: %s", b);
}
static void switch_to(int t) {
  if (t == G.cur) return;
  int from = G.cur;
  save_tls(G.f[from]);
  G.cur = t; G.switches++; G.same = 0;
  load_tls(G.f[t]);
  sim_ctx_switch(&G.f[from].sp, G.f[t].sp);
}
// which of the runnable fibers does the strategy want?
static u32 strat_pick(const int *r, int n, bool cur_first) {
  if (n == 1) return 0;
  switch (G.strat) {
  default: // random walk
    if (cur_first) return rndp(G.psw) ? 1 + rnd(n - 1) : 0;
    return rnd(n);
  case 1: { // PCT
    for (u32 i = 0; i < G.nchg; ++i) if (G.chg[i] == G.steps && cur_first) me().prio = --G.lowprio;
    int b = 0; for (int i = 1; i < n; ++i) if (G.f[r[i]].prio > G.f[r[b]].prio) b = i;
    return b;
  }
  case 2: { // stall one victim, random walk for the rest
    if (G.steps >= G.vfrom && G.steps < G.vto) {
      u32 k = cur_first ? (rndp(G.psw) ? 1 + rnd(n - 1) : 0) : rnd(n);
      if (r[k] == G.victim % G.nf) { k = (k + 1) % n; if (!G.f[r[k]].stalled) { G.f[r[k]].stalled = 1; G.faults[sim::F_STALL]++; } }
      return k;
    }
    if (cur_first) return rndp(G.psw) ? 1 + rnd(n - 1) : 0;
    return rnd(n);
  }
  case 3: // few preemptions
    if (cur_first) { for (u32 i = 0; i < G.nchg; ++i) if (G.chg[i] == G.steps) return 1 + rnd(n - 1); return 0; }
    return rnd(n);
  }
}
// pick the next fiber and run it. can_run: the current fiber may continue. yielding: prefer others.
static void schedule(bool can_run, bool yielding = false) {
  int r[MAXF]; int n;
  if (++G.steps > STEP_CAP) violation("livelock", "no completion within %u scheduling points", STEP_CAP);
  for (;;) {
    n = 0;
    bool cur_first = false;
    bool forced = yielding || G.same > FAIR_CAP;
    if (can_run && !forced) { r[n++] = G.cur; cur_first = true; }
    for (int k = 1; k <= G.nf; ++k) { int i = (G.cur + k) % G.nf; if (i != G.cur && G.f[i].st == FS_RUN) r[n++] = i; }
    if (can_run && forced && n == 0) { r[n++] = G.cur; cur_first = true; }
    if (!can_run && G.f[G.cur].st == FS_RUN) r[n++] = G.cur; // woken meanwhile (timer)
    int tm = next_timer();
    if (n == 0) {
      if (tm < 0) hang();
      fire_timer(tm);
      if (tm == G.cur && !can_run) return; // our own timer
      continue;
    }
    if (tm >= 0 && G.p_timer && G.budget_timer && choice(2, 'f', rndp(G.p_timer))) {
      G.budget_timer--; G.faults[sim::F_TIMER_EARLY]++;
      fire_timer(tm);
      continue;
    }
    u32 k = n == 1 ? 0 : choice(n, 's', strat_pick(r, n, cur_first));
    int t = r[k];
    if (cur_first && k) G.preempt++;
    G.same = t == G.cur ? G.same + 1 : 0;
    mixhash(0x5000 + t);
    if (t != G.cur) switch_to(t);
    return;
  }
}
static inline void point(const char *what, const void *obj) {
  Fiber &f = me();
  G.seq++;
  if (f.quiet) return;
  f.npoints++;
  (void)what; (void)obj;
  schedule(true);
}
static void block(int kind, uintptr_t obj, bool timed = false, i64 deadline = 0, u8 dclock = 0) {
  Fiber &f = me();
  f.st = FS_BLOCK; f.bkind = kind; f.bobj = obj; f.timed = timed; f.timedout = 0; f.deadline = deadline; f.dclock = dclock; f.bseq = ++G.seq;
  if (timed && clock_now(dclock) >= deadline) { f.timedout = 1; make_runnable(G.cur); schedule(true); return; }
  schedule(false);
}

static inline void hb_rel(VC &l) { vc_join(l, me().vc); me().vc.c[G.cur]++; }
static inline void hb_acq(const VC &l) { vc_join(me().vc, l); }

// ===================================================================== memory shadow
static inline u8 *heap_state(uintptr_t a) { return (u8 *)(HEAPST_BASE + ((a - HEAP_BASE) >> 3)); }
static inline Cell *cell_of(uintptr_t a) {
  if (a - HEAP_BASE < HEAP_SIZE) return (Cell *)(HSHADOW_BASE) + ((a - HEAP_BASE) >> 3);
  if (a - STACK_BASE < MAXF * STACK_SIZE) return (Cell *)(SSHADOW_BASE) + ((a - STACK_BASE) >> 3);
  uintptr_t d = (uintptr_t)&__data_start & ~7ull;
  if (a - d < (uintptr_t)&_end - d) return (Cell *)(GSHADOW_BASE) + ((a - d) >> 3);
  return nullptr;
}
static const char *where(uintptr_t a, char *b, size_t n) {
  if (a - HEAP_BASE < HEAP_SIZE) snprintf(b, n, "heap+0x%llx", (unsigned long long)(a - HEAP_BASE));
  else if (a - STACK_BASE < MAXF * STACK_SIZE) snprintf(b, n, "stack of t%d", (int)((a - STACK_BASE) / STACK_SIZE));
  else snprintf(b, n, "global");
  return b;
}
static const char *kname(int k) { static const char *n[] = {"read", "write", "atomic read", "atomic write"}; return n[k]; }
static void invalidate_atomics(uintptr_t granule);

static inline void check_valid(uintptr_t a, size_t size, int kind) {
  if (a - HEAP_BASE < HEAP_SIZE) {
    uintptr_t p = a, e = a + size;
    while (p < e) {
      u8 s = *heap_state(p); uintptr_t g = p & ~7ull; uintptr_t lim = g + 8 < e ? g + 8 : e;
      if (s == 0xFD) { char b[64]; violation("use-after-free", "t%d: %s of freed memory at %s", G.cur, kname(kind), where(a, b, sizeof b)); }
      if (s > 8 || lim - g > s) { char b[64]; violation("out-of-bounds", "t%d: %s outside of an allocation at %s", G.cur, kname(kind), where(a, b, sizeof b)); }
      p = lim;
    }
  } else if (a - STACK_BASE < MAXF * STACK_SIZE) {
    int o = (int)((a - STACK_BASE) / STACK_SIZE);
    if (o != G.cur && (o >= G.nf || G.f[o].st == FS_DONE || a < (uintptr_t)G.f[o].sp))
      violation("use-after-return", "t%d: %s of a dead stack frame of t%d", G.cur, kname(kind), o);
  }
}
static inline void access_cell(uintptr_t g, u8 mask, int kind) {
  Cell *c = cell_of(g);
  if (!c) return;
  if (c->gen != G.gen) { c->gen = G.gen; c->n = 0; c->has_atomic = 0; }
  VC &vc = me().vc; int t = G.cur;
  if (kind == K_W && c->has_atomic) { invalidate_atomics(g); c->has_atomic = 0; }
  int n = c->n; int freeidx = -1;
  bool done = false;
  for (int i = 0; i < n;) {
    Rec &r = c->r[i];
    if ((r.mask & mask)) {
      bool hb = r.tid == t || r.clk <= vc.c[r.tid];
      if (!hb) {
        bool w = (r.kind & 1) || (kind & 1), na = r.kind < 2 || kind < 2;
        if (w && na) { char b[64]; violation("data-race", "%s by t%d and %s by t%d of %s are not ordered", kname(kind), t, kname(r.kind), r.tid, where(g, b, sizeof b)); }
      } else if (!(r.mask & ~mask)) {
        // the old record is covered: drop it if the new one is at least as strong
        bool drop = kind == K_W || (kind == r.kind) || (kind == K_R && r.kind == K_AR && 0) || (kind == K_AW && r.kind == K_AR);
        if (drop) {
          if (!done) { r.tid = t; r.clk = vc.c[t]; r.mask = mask; r.kind = kind; done = true; ++i; continue; }
          c->r[i] = c->r[--n]; continue;
        }
      }
    }
    ++i;
  }
  (void)freeidx;
  if (!done) {
    int i;
    if (n < NREC) i = n++;
    else { // full: replace something ordered before us and not a write, else the oldest
      i = -1;
      for (int k = 0; k < n; ++k) if (!(c->r[k].kind & 1) && c->r[k].clk <= vc.c[c->r[k].tid]) { i = k; break; }
      if (i < 0) i = 0;
    }
    Rec &r = c->r[i]; r.tid = t; r.clk = vc.c[t]; r.mask = mask; r.kind = kind;
  }
  c->n = n;
}
static inline void mem_access(uintptr_t a, size_t size, int kind) {
  if (++G.accesses > ACCESS_CAP) violation("livelock", "more than %llu memory accesses in one run", (unsigned long long)ACCESS_CAP);
  check_valid(a, size, kind);
  uintptr_t p = a, e = a + size;
  while (p < e) {
    uintptr_t g = p & ~7ull; uintptr_t lim = g + 8 < e ? g + 8 : e;
    u8 mask = (u8)(((1u << (lim - g)) - 1) & ~((1u << (p - g)) - 1));
    access_cell(g, mask, kind);
    p = lim;
  }
}
static inline void hook(void *a, size_t n, int kind) { if (__builtin_expect(active(), 1)) mem_access((uintptr_t)a, n, kind); }

// ===================================================================== heap
struct Hdr { u64 magic_size; u32 id; u16 fiber; u8 flags; u8 align; };
static const u64 HMAGIC = 0x5A5A000000000000ull;
static void *sim_malloc(size_t n, size_t al) {
  Fiber &f = me();
  f.nalloc++; G.nalloc_total++;
  if (f.af_nth > 0 && --f.af_nth == 0) { f.af_fired = 1; sim::count_fault(sim::F_ALLOC_FAIL); return nullptr; }
  if (al < 16) al = 16;
  uintptr_t p = (HEAP_BASE + G.heap_top + sizeof(Hdr) + 16 + al - 1) & ~(uintptr_t)(al - 1);
  uintptr_t end = (p + n + 16 + 15) & ~15ull;
  if (end - HEAP_BASE > HEAP_SIZE) violation("livelock", "simulated heap exhausted");
  G.heap_top = end - HEAP_BASE;
  Hdr *h = (Hdr *)(p - sizeof(Hdr));
  h->magic_size = HMAGIC | n; h->id = G.nalloc_total; h->fiber = G.cur; h->flags = 1 | (f.guard_depth ? 2 : 0);
  memset((void *)p, 0xCD, n);
  size_t full = n >> 3;
  memset(heap_state(p), 8, full);
  if (n & 7) heap_state(p)[full] = n & 7;
  if (!(h->flags & 2)) G.live++;
  return (void *)p;
}
static void sim_free(void *v, size_t sized) {
  uintptr_t p = (uintptr_t)v;
  if (p & 15) violation("bad-free", "t%d: free of a pointer that was not allocated", G.cur);
  Hdr *h = (Hdr *)(p - sizeof(Hdr));
  if ((h->magic_size & 0xFFFF000000000000ull) != HMAGIC || h->flags == 0) violation("bad-free", "t%d: free of a pointer that was not allocated", G.cur);
  if (h->flags & 4) violation("double-free", "t%d: memory freed twice", G.cur);
  size_t n = h->magic_size & 0xFFFFFFFFFFFFull;
  if (sized != (size_t)-1 && sized != n) violation("bad-free", "t%d: allocated %zu bytes, freed as %zu", G.cur, n, sized);
  // freeing is a write to the whole block
  for (uintptr_t g = p; g < p + n; g += 8) { Cell *c = cell_of(g); if (c->gen == G.gen && c->n) access_cell(g, p + n - g >= 8 ? 0xFF : (u8)((1u << (p + n - g)) - 1), K_W); }
  memset(heap_state(p), 0xFD, (n + 7) >> 3);
  memset(v, 0xDD, n);
  if (!(h->flags & 2)) G.live--;
  h->flags |= 4;
}
static inline bool is_heap(void *p) { return (uintptr_t)p - HEAP_BASE < HEAP_SIZE; }
extern "C" void *malloc(size_t); extern "C" void free(void *);
static void *op_new(size_t n, size_t al, bool nothrow) {
  void *p;
  if (active()) { p = sim_malloc(n ? n : 1, al); }
  else p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
  if (!p && !nothrow) throw std::bad_alloc();
  return p;
}
static void op_del(void *p, size_t sized = (size_t)-1) {
  if (!p) return;
  if (is_heap(p)) { if (active()) sim_free(p, sized); return; }
  if (active() && (uintptr_t)p - STACK_BASE < MAXF * STACK_SIZE) violation("bad-free", "delete of a stack address");
  free(p);
}
void *operator new(size_t n) { return op_new(n, 16, false); }
void *operator new[](size_t n) { return op_new(n, 16, false); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return op_new(n, 16, true); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return op_new(n, 16, true); }
void *operator new(size_t n, std::align_val_t a) { return op_new(n, (size_t)a, false); }
void *operator new[](size_t n, std::align_val_t a) { return op_new(n, (size_t)a, false); }
void *operator new(size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { return op_new(n, (size_t)a, true); }
void *operator new[](size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { return op_new(n, (size_t)a, true); }
void operator delete(void *p) noexcept { op_del(p); }
void operator delete[](void *p) noexcept { op_del(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { op_del(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { op_del(p); }
void operator delete(void *p, size_t n) noexcept { op_del(p, n ? n : 1); }
void operator delete[](void *p, size_t n) noexcept { op_del(p, n ? n : 1); }
void operator delete(void *p, std::align_val_t) noexcept { op_del(p); }
void operator delete[](void *p, std::align_val_t) noexcept { op_del(p); }
void operator delete(void *p, size_t n, std::align_val_t) noexcept { op_del(p, n ? n : 1); }
void operator delete[](void *p, size_t n, std::align_val_t) noexcept { op_del(p, n ? n : 1); }
void operator delete(void *p, std::align_val_t, const std::nothrow_t &) noexcept { op_del(p); }
void operator delete[](void *p, std::align_val_t, const std::nothrow_t &) noexcept { op_del(p); }

// ===================================================================== atomics
static Var *find_var(uintptr_t a, bool create, int size) {
  u32 h = (u32)((a * 0x9E3779B97F4A7C15ull) >> 50);
  for (u32 k = 0; k < 16384; ++k) {
    auto &b = G.varhash[(h + k) & 16383]; int &ix = b.ix;
    if (b.gen != G.gen) {
      if (!create) return nullptr;
      if (G.nvar + 1 >= MAXVAR) violation("livelock", "too many atomic objects in one run");
      b.gen = G.gen; ix = ++G.nvar; Var &v = G.var[ix];
      memset(&v, 0, sizeof v); v.addr = a; v.gen = G.gen; v.size = size; v.stale_ok = 1; v.name = ++G.name_ctr;
      return &v;
    }
    if (G.var[ix].addr == a) {
      Var &v = G.var[ix];
      if (v.dead) { if (!create) return nullptr; u32 nm = v.name; memset(&v, 0, sizeof v); v.addr = a; v.gen = G.gen; v.size = size; v.stale_ok = 1; v.name = nm; }
      return &v;
    }
  }
  return nullptr;
}
static void invalidate_atomics(uintptr_t g) { for (int o = 0; o < 8; ++o) if (Var *v = find_var(g + o, false, 0)) v->dead = 1; }
static u64 rawload(uintptr_t a, int size) { u64 v = 0; memcpy(&v, (void *)a, size); return v; }
static void rawstore(uintptr_t a, int size, u64 v) { memcpy((void *)a, &v, size); }
enum { MO_RLX = 0, MO_CON, MO_ACQ, MO_REL, MO_AR, MO_SC };
static inline bool is_acq(int mo) { return mo == MO_CON || mo == MO_ACQ || mo == MO_AR || mo == MO_SC; }
static inline bool is_rel(int mo) { return mo == MO_REL || mo == MO_AR || mo == MO_SC; }

static void var_init_hist(Var *v) {
  if (v->nh == 0) { v->h[0].val = rawload(v->addr, v->size); v->h[0].has_vc = 0; v->h[0].tid = -1; v->h[0].clk = 0; v->nh = 1; }
}
static void var_observe(Var *v, int idx) {
  u32 clk = me().vc.c[G.cur]; if (!clk) clk = 1;
  for (int i = 0; i <= idx; ++i) if (!v->obs[G.cur][i]) v->obs[G.cur][i] = clk;
}
static void var_push(Var *v, u64 val, const VC *vc) {
  if (v->nh == HIST) {
    memmove(&v->h[0], &v->h[1], sizeof(Hist) * (HIST - 1));
    for (int t = 0; t < MAXF; ++t) { memmove(&v->obs[t][0], &v->obs[t][1], sizeof(u32) * (HIST - 1)); v->obs[t][HIST - 1] = 0; }
    v->nh--;
  }
  Hist &h = v->h[v->nh++]; h.val = val; h.tid = G.cur; h.clk = me().vc.c[G.cur]; h.has_vc = vc != nullptr; if (vc) h.vc = *vc;
  var_observe(v, v->nh - 1);
}
static void mark_atomic(uintptr_t a) { Cell *c = cell_of(a); if (c) { if (c->gen != G.gen) { c->gen = G.gen; c->n = 0; } c->has_atomic = 1; } }
static void var_event(const char *op, uintptr_t a, u64 val) {
  mixhash(0xA000 ^ (a << 4) ^ (val >= HEAP_BASE ? val & 0xffffffff : val));
  if (G.verbose) { char b[64]; TR("%s %s = 0x%llx", op, where(a, b, sizeof b), (unsigned long long)val); }
}
static u64 a_load(uintptr_t a, int size, int mo) {
  if (!active()) return rawload(a, size);
  point("load", (void *)a);
  mem_access(a, size, K_AR);
  u64 cur = rawload(a, size);
  Var *v = find_var(a, false, size);
  Fiber &f = me();
  u64 val = cur;
  if (v && v->nh) {
    if (v->size != size) v->stale_ok = 0;
    int idx = v->nh - 1;
    bool changed = v->h[idx].val != cur;
    if (changed) v->stale_ok = 0;
    if (mo != MO_SC && v->stale_ok && G.p_stale && G.budget_stale && v->nh > 1) {
      // oldest entry we may still read
      int lo = 0;
      for (int i = v->nh - 1; i > 0; --i) {
        Hist &h = v->h[i];
        bool known = h.tid < 0 || h.tid == G.cur || h.clk <= f.vc.c[h.tid];
        if (!known) for (int u = 0; u < G.nf && !known; ++u) if (v->obs[u][i] && (u == G.cur || v->obs[u][i] <= f.vc.c[u])) known = true;
        if (known) { lo = i; break; }
      }
      int n = idx - lo + 1;
      if (n > 1) {
        u32 k = choice(n, 'f', rndp(G.p_stale) ? 1 + rnd(n - 1) : 0);
        if (k) { idx -= k; G.budget_stale--; G.faults[sim::F_STALE_READ]++; val = v->h[idx].val; TR("stale read (%u stores behind)", k); }
      }
    }
    if (!changed) var_observe(v, idx);
    const VC *s = idx == v->nh - 1 ? &v->vc : (v->h[idx].has_vc ? &v->h[idx].vc : nullptr);
    if (s) { if (is_acq(mo)) vc_join(f.vc, *s); else vc_join(f.facq, *s); }
  } else if (v) { if (is_acq(mo)) vc_join(f.vc, v->vc); else vc_join(f.facq, v->vc); }
  if (size == 8) if (Var *w = find_var(a + 4, false, 4)) { if (is_acq(mo)) vc_join(f.vc, w->vc); else vc_join(f.facq, w->vc); }
  if (size == 4 && (a & 4)) if (Var *w = find_var(a - 4, false, 8)) if (w->size == 8) { if (is_acq(mo)) vc_join(f.vc, w->vc); else vc_join(f.facq, w->vc); }
  var_event("atomic load", a, val);
  return val;
}
static void a_store(uintptr_t a, int size, u64 val, int mo) {
  if (!active()) { rawstore(a, size, val); return; }
  point("store", (void *)a);
  mem_access(a, size, K_AW);
  Var *v = find_var(a, true, size);
  var_init_hist(v);
  if (v->size != size) v->stale_ok = 0;
  Fiber &f = me();
  memset(&v->vc, 0, sizeof v->vc);
  if (is_rel(mo)) v->vc = f.vc; else if (f.has_frel) v->vc = f.frel;
  rawstore(a, size, val);
  var_push(v, val, &v->vc);
  f.vc.c[G.cur]++;
  mark_atomic(a);
  var_event("atomic store", a, val);
}
// RMW: op computes the new value
template <class Op> static u64 a_rmw(uintptr_t a, int size, int mo, Op op) {
  if (!active()) { u64 o = rawload(a, size); rawstore(a, size, op(o)); return o; }
  point("rmw", (void *)a);
  mem_access(a, size, K_AW);
  Var *v = find_var(a, true, size);
  var_init_hist(v);
  if (v->size != size) v->stale_ok = 0;
  Fiber &f = me();
  u64 o = rawload(a, size), nv = op(o);
  if (is_acq(mo)) vc_join(f.vc, v->vc); else vc_join(f.facq, v->vc);
  if (is_rel(mo)) vc_join(v->vc, f.vc); else if (f.has_frel) vc_join(v->vc, f.frel);
  rawstore(a, size, nv);
  var_push(v, nv, &v->vc);
  f.vc.c[G.cur]++;
  mark_atomic(a);
  var_event("atomic rmw", a, nv);
  return o;
}
template <bool weak = false> static bool a_cas(uintptr_t a, int size, u64 *exp, u64 des, int mo, int fmo) {
  if (!active()) { u64 o = rawload(a, size); if (o == *exp) { rawstore(a, size, des); return true; } *exp = o; return false; }
  point("cas", (void *)a);
  u64 o = rawload(a, size);
  Fiber &f = me();
  bool fails = o != *exp;
  if (weak && !fails && G.p_spur && G.budget_weak && choice(2, 'f', rndp(G.p_spur))) { fails = true; G.budget_weak--; G.faults[sim::F_WEAK_CAS]++; TR("compare_exchange_weak fails spuriously"); }
  if (fails) {
    mem_access(a, size, K_AR);
    Var *v = find_var(a, false, size);
    if (v) {
      if (v->nh) var_observe(v, v->nh - 1);
      if (is_acq(fmo)) vc_join(f.vc, v->vc); else vc_join(f.facq, v->vc);
    }
    *exp = o;
    var_event("atomic cas failed", a, o);
    return false;
  }
  mem_access(a, size, K_AW);
  Var *v = find_var(a, true, size);
  var_init_hist(v);
  if (v->size != size) v->stale_ok = 0;
  if (is_acq(mo)) vc_join(f.vc, v->vc); else vc_join(f.facq, v->vc);
  if (is_rel(mo)) vc_join(v->vc, f.vc); else if (f.has_frel) vc_join(v->vc, f.frel);
  rawstore(a, size, des);
  var_push(v, des, &v->vc);
  f.vc.c[G.cur]++;
  mark_atomic(a);
  var_event("atomic cas", a, des);
  return true;
}
static void a_fence(int mo) {
  if (!active()) return;
  point("fence", nullptr);
  Fiber &f = me();
  if (is_acq(mo)) vc_join(f.vc, f.facq);
  if (mo == MO_SC) { vc_join(f.vc, G.sc); }
  if (is_rel(mo)) { f.frel = f.vc; f.has_frel = 1; }
  if (mo == MO_SC) { vc_join(G.sc, f.vc); }
  f.vc.c[G.cur]++;
}

#define TSAN_ATOMIC(N, T) \
  extern "C" T __tsan_atomic##N##_load(const volatile T *a, int mo) { return (T)a_load((uintptr_t)a, sizeof(T), mo); } \
  extern "C" void __tsan_atomic##N##_store(volatile T *a, T v, int mo) { a_store((uintptr_t)a, sizeof(T), v, mo); } \
  extern "C" T __tsan_atomic##N##_exchange(volatile T *a, T v, int mo) { return (T)a_rmw((uintptr_t)a, sizeof(T), mo, [=](u64) { return (u64)v; }); } \
  extern "C" T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int mo) { return (T)a_rmw((uintptr_t)a, sizeof(T), mo, [=](u64 o) { return (u64)(T)((T)o + v); }); } \
  extern "C" T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int mo) { return (T)a_rmw((uintptr_t)a, sizeof(T), mo, [=](u64 o) { return (u64)(T)((T)o - v); }); } \
  extern "C" T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int mo) { return (T)a_rmw((uintptr_t)a, sizeof(T), mo, [=](u64 o) { return (u64)(T)((T)o & v); }); } \
  extern "C" T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int mo) { return (T)a_rmw((uintptr_t)a, sizeof(T), mo, [=](u64 o) { return (u64)(T)((T)o | v); }); } \
  extern "C" T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int mo) { return (T)a_rmw((uintptr_t)a, sizeof(T), mo, [=](u64 o) { return (u64)(T)((T)o ^ v); }); } \
  extern "C" T __tsan_atomic##N##_fetch_nand(volatile T *a, T v, int mo) { return (T)a_rmw((uintptr_t)a, sizeof(T), mo, [=](u64 o) { return (u64)(T)(~((T)o & v)); }); } \
  extern "C" int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) { u64 e = *c; bool r = a_cas((uintptr_t)a, sizeof(T), &e, v, mo, fmo); *c = (T)e; return r; } \
  extern "C" int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) { u64 e = *c; bool r = a_cas<true>((uintptr_t)a, sizeof(T), &e, v, mo, fmo); *c = (T)e; return r; } \
  extern "C" T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) { u64 e = c; a_cas((uintptr_t)a, sizeof(T), &e, v, mo, fmo); return (T)e; }
TSAN_ATOMIC(8, u8)
TSAN_ATOMIC(16, u16)
TSAN_ATOMIC(32, u32)
TSAN_ATOMIC(64, u64)
extern "C" void __tsan_atomic_thread_fence(int mo) { a_fence(mo); }
extern "C" void __tsan_atomic_signal_fence(int) {}
// 16-byte atomics: sequentially consistent, never stale
typedef unsigned __int128 u128;
static void wide_sync(uintptr_t a) { point("wide", (void *)a); mem_access(a, 16, K_AW); Var *v = find_var(a, true, 16); v->stale_ok = 0; vc_join(me().vc, v->vc); vc_join(v->vc, me().vc); me().vc.c[G.cur]++; mark_atomic(a); }
extern "C" u128 __tsan_atomic128_load(const volatile u128 *a, int) { if (active()) wide_sync((uintptr_t)a); return *a; }
extern "C" void __tsan_atomic128_store(volatile u128 *a, u128 v, int) { if (active()) wide_sync((uintptr_t)a); *a = v; }
extern "C" u128 __tsan_atomic128_exchange(volatile u128 *a, u128 v, int) { if (active()) wide_sync((uintptr_t)a); u128 o = *a; *a = v; return o; }
extern "C" u128 __tsan_atomic128_compare_exchange_val(volatile u128 *a, u128 c, u128 v, int, int) { if (active()) wide_sync((uintptr_t)a); u128 o = *a; if (o == c) *a = v; return o; }
extern "C" int __tsan_atomic128_compare_exchange_strong(volatile u128 *a, u128 *c, u128 v, int m, int f) { u128 o = __tsan_atomic128_compare_exchange_val(a, *c, v, m, f); bool r = o == *c; *c = o; return r; }
extern "C" int __tsan_atomic128_compare_exchange_weak(volatile u128 *a, u128 *c, u128 v, int m, int f) { return __tsan_atomic128_compare_exchange_strong(a, c, v, m, f); }

// ===================================================================== plain accesses
#define TSAN_RW(N) \
  extern "C" void __tsan_read##N(void *a) { hook(a, N, K_R); } \
  extern "C" void __tsan_write##N(void *a) { hook(a, N, K_W); } \
  extern "C" void __tsan_read_write##N(void *a) { hook(a, N, K_R); hook(a, N, K_W); } \
  extern "C" void __tsan_unaligned_read##N(void *a) { hook(a, N, K_R); } \
  extern "C" void __tsan_unaligned_write##N(void *a) { hook(a, N, K_W); } \
  extern "C" void __tsan_unaligned_read_write##N(void *a) { hook(a, N, K_R); hook(a, N, K_W); } \
  extern "C" void __tsan_volatile_read##N(void *a) { hook(a, N, K_R); } \
  extern "C" void __tsan_volatile_write##N(void *a) { hook(a, N, K_W); } \
  extern "C" void __tsan_unaligned_volatile_read##N(void *a) { hook(a, N, K_R); } \
  extern "C" void __tsan_unaligned_volatile_write##N(void *a) { hook(a, N, K_W); }
TSAN_RW(1) TSAN_RW(2) TSAN_RW(4) TSAN_RW(8) TSAN_RW(16)
extern "C" void __tsan_read_range(void *a, unsigned long n) { if (n) hook(a, n, K_R); }
extern "C" void __tsan_write_range(void *a, unsigned long n) { if (n) hook(a, n, K_W); }
extern "C" void __tsan_vptr_update(void **a, void *v) { if (*a != v) hook(a, 8, K_W); }
extern "C" void __tsan_vptr_read(void **a) { hook(a, 8, K_R); }
extern "C" void __tsan_func_entry(void *) {}
extern "C" void __tsan_func_exit() {}
extern "C" void __tsan_init() {}
extern "C" void __tsan_ignore_thread_begin() {}
extern "C" void __tsan_ignore_thread_end() {}
extern "C" void *__tsan_memcpy(void *d, const void *s, unsigned long n) { if (n) { hook((void *)s, n, K_R); hook(d, n, K_W); } return memcpy(d, s, n); }
extern "C" void *__tsan_memmove(void *d, const void *s, unsigned long n) { if (n) { hook((void *)s, n, K_R); hook(d, n, K_W); } return memmove(d, s, n); }
extern "C" void *__tsan_memset(void *d, int c, unsigned long n) { if (n) hook(d, n, K_W); return memset(d, c, n); }
extern "C" void __tsan_mutex_create(void *, unsigned) {}
extern "C" void __tsan_mutex_destroy(void *, unsigned) {}
extern "C" void __tsan_mutex_pre_lock(void *, unsigned) {}
extern "C" void __tsan_mutex_post_lock(void *, unsigned, int) {}
extern "C" int __tsan_mutex_pre_unlock(void *, unsigned) { return 0; }
extern "C" void __tsan_mutex_post_unlock(void *, unsigned) {}
extern "C" void __tsan_mutex_pre_signal(void *, unsigned) {}
extern "C" void __tsan_mutex_post_signal(void *, unsigned) {}
extern "C" void __tsan_mutex_pre_divert(void *, unsigned) {}
extern "C" void __tsan_mutex_post_divert(void *, unsigned) {}
extern "C" void __tsan_acquire(void *) {}
extern "C" void __tsan_release(void *) {}

// ===================================================================== pthread objects
static Slot *slot_of(void *obj, int kind, const char *what, bool create = true) {
  u64 *w = (u64 *)obj;
  check_valid((uintptr_t)obj, 8, K_AW);
  u64 v = *w;
  if ((v >> 32) == G.gen && (v & 0xffffffff) && (int)(v & 0xffffffff) <= G.nslot && G.slot[v & 0xffffffff].kind == kind) return &G.slot[v & 0xffffffff];
  if (v != 0 && (v >> 32) != 0 && (v >> 32) + 64 < G.gen + 64ull && kind != SL_ONCE) { /* object from an earlier run (static) */ v = 0; }
  if (v != 0) violation("corrupt-object", "t%d: %s on an object that is not a live %s", G.cur, what, kind == SL_MUTEX ? "mutex" : kind == SL_COND ? "condition variable" : "synchronisation object");
  if (!create) return nullptr;
  if (G.nslot + 1 >= MAXSLOT) violation("livelock", "too many synchronisation objects");
  int ix = ++G.nslot; Slot &s = G.slot[ix]; memset(&s, 0, sizeof s); s.kind = kind; s.owner = -1; s.name = ix;
  *w = ((u64)G.gen << 32) | (u32)ix;
  return &s;
}
static inline void obj_access(void *o) { mem_access((uintptr_t)o, 8, K_AW); }
static bool is_recursive(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
static void wake_all(int kind, uintptr_t obj) { for (int i = 0; i < G.nf; ++i) if (G.f[i].st == FS_BLOCK && G.f[i].bkind == kind && G.f[i].bobj == obj) make_runnable(i); }
static void sev(const char *op, Slot *s) { mixhash(0xB000 ^ s->name ^ ((u64)op[0] << 40) ^ ((u64)op[6] << 48)); TR("%s #%u", op, s->name); }

static int mutex_lock_inner(pthread_mutex_t *m, bool timed, i64 dl, u8 clk) {
  Slot *s = slot_of(m, SL_MUTEX, "lock");
  obj_access(m);
  if (s->owner == G.cur) {
    if (is_recursive(m)) { s->rec++; return 0; }
    violation("self-deadlock", "t%d locks a mutex it already holds", G.cur);
  }
  while (s->owner >= 0) {
    s->nwait++;
    block(B_MUTEX, (uintptr_t)s, timed, dl, clk);
    s->nwait--;
    if (timed && me().timedout && s->owner >= 0) return ETIMEDOUT;
    check_valid((uintptr_t)m, 8, K_AW); // the mutex may have been destroyed while we waited
  }
  s->owner = G.cur; s->rec = 1;
  hb_acq(s->vc);
  sev("mutex lock", s);
  return 0;
}
static void mutex_unlock_inner(pthread_mutex_t *m) {
  Slot *s = slot_of(m, SL_MUTEX, "unlock", false);
  obj_access(m);
  if (!s || s->owner != G.cur) violation("bad-unlock", "t%d unlocks a mutex it does not hold", G.cur);
  if (--s->rec > 0) return;
  sev("mutex unlock", s);
  hb_rel(s->vc);
  s->owner = -1;
  wake_all(B_MUTEX, (uintptr_t)s);
}
extern "C" int pthread_mutex_lock(pthread_mutex_t *m) noexcept { if (!active()) return 0; point("lock", m); return mutex_lock_inner(m, false, 0, 0); }
extern "C" int pthread_mutex_trylock(pthread_mutex_t *m) noexcept {
  if (!active()) return 0;
  point("trylock", m);
  Slot *s = slot_of(m, SL_MUTEX, "trylock"); obj_access(m);
  if (s->owner >= 0 && !(s->owner == G.cur && is_recursive(m))) return EBUSY;
  return mutex_lock_inner(m, false, 0, 0);
}
static i64 ts_ns(const struct timespec *t) { return (i64)t->tv_sec * 1000000000ll + t->tv_nsec; }
extern "C" int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *t) noexcept { if (!active()) return 0; point("timedlock", m); return mutex_lock_inner(m, true, ts_ns(t), 1); }
extern "C" int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const struct timespec *t) noexcept { if (!active()) return 0; point("timedlock", m); return mutex_lock_inner(m, true, ts_ns(t), c == CLOCK_REALTIME); }
extern "C" int pthread_mutex_unlock(pthread_mutex_t *m) noexcept { if (!active()) return 0; mutex_unlock_inner(m); point("unlocked", nullptr); return 0; }
extern "C" int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) noexcept { memset(m, 0, sizeof *m); int k = 0; if (a) memcpy(&k, a, sizeof k); m->__data.__kind = k & 3; return 0; }
extern "C" int pthread_mutex_destroy(pthread_mutex_t *m) noexcept {
  if (!active()) return 0;
  Slot *s = slot_of(m, SL_MUTEX, "destroy", false);
  if (s && s->owner >= 0) violation("destroy-locked", "t%d destroys a locked mutex", G.cur);
  mem_access((uintptr_t)m, 8, K_W);
  return 0;
}
extern "C" int pthread_mutexattr_init(pthread_mutexattr_t *a) noexcept { memset(a, 0, sizeof *a); return 0; }
extern "C" int pthread_mutexattr_destroy(pthread_mutexattr_t *) noexcept { return 0; }
extern "C" int pthread_mutexattr_settype(pthread_mutexattr_t *a, int k) noexcept { memcpy(a, &k, sizeof k); return 0; }

// ---- condition variables
static int cond_wait_inner(pthread_cond_t *c, pthread_mutex_t *m, bool timed, i64 dl, u8 clk) {
  point("cond wait", c);
  Slot *s = slot_of(c, SL_COND, "wait");
  if (s->destroyed) violation("use-after-free", "t%d waits on a destroyed condition variable", G.cur);
  obj_access(c);
  Slot *ms = slot_of(m, SL_MUTEX, "cond wait", false);
  if (!ms || ms->owner != G.cur) violation("bad-wait", "t%d waits on a condition variable without holding the mutex", G.cur);
  sev("cond   wait", s);
  int rec = ms->rec; ms->rec = 1;
  mutex_unlock_inner(m);
  bool spurious = G.p_spur && G.budget_spur && choice(2, 'f', rndp(G.p_spur));
  int rc = 0;
  if (spurious) { G.budget_spur--; G.faults[sim::F_SPURIOUS_WAKE]++; TR("spurious wake-up"); schedule(true, true); }
  else {
    s->nwait++;
    block(B_COND, (uintptr_t)s, timed, dl, clk);
    s->nwait--;
    if (me().timedout) rc = ETIMEDOUT;
    me().timedout = 0;
  }
  check_valid((uintptr_t)m, 8, K_AW);
  mutex_lock_inner(m, false, 0, 0);
  ms->rec = rec;
  return rc;
}
extern "C" int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (!active()) abort(); return cond_wait_inner(c, m, false, 0, 0); }
extern "C" int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { if (!active()) abort(); return cond_wait_inner(c, m, true, ts_ns(t), (c->__data.__wrefs & 2) ? 0 : 1); }
extern "C" int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t) { if (!active()) abort(); return cond_wait_inner(c, m, true, ts_ns(t), k == CLOCK_REALTIME); }
static void cond_notify(pthread_cond_t *c, bool all) {
  point("notify", c);
  Slot *s = slot_of(c, SL_COND, "notify");
  if (s->destroyed) violation("use-after-free", "t%d notifies a destroyed condition variable", G.cur);
  obj_access(c);
  sev(all ? "notifyall" : "notifyone", s);
  if (all) { wake_all(B_COND, (uintptr_t)s); return; }
  int w[MAXF], n = 0;
  for (int i = 0; i < G.nf; ++i) if (G.f[i].st == FS_BLOCK && G.f[i].bkind == B_COND && G.f[i].bobj == (uintptr_t)s) w[n++] = i;
  if (n) make_runnable(w[n == 1 ? 0 : choice(n, 's', rnd(n))]);
}
extern "C" int pthread_cond_signal(pthread_cond_t *c) noexcept { if (active()) cond_notify(c, false); return 0; }
extern "C" int pthread_cond_broadcast(pthread_cond_t *c) noexcept { if (active()) cond_notify(c, true); return 0; }
extern "C" int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) noexcept { memset(c, 0, sizeof *c); if (a) { int k; memcpy(&k, a, sizeof k); if (k & 2) c->__data.__wrefs = 2; } return 0; }
extern "C" int pthread_condattr_init(pthread_condattr_t *a) noexcept { memset(a, 0, sizeof *a); return 0; }
extern "C" int pthread_condattr_destroy(pthread_condattr_t *) noexcept { return 0; }
extern "C" int pthread_condattr_setclock(pthread_condattr_t *a, clockid_t k) noexcept { int v = k == CLOCK_MONOTONIC ? 2 : 0; memcpy(a, &v, sizeof v); return 0; }
extern "C" int pthread_cond_destroy(pthread_cond_t *c) noexcept {
  if (!active()) return 0;
  point("cond destroy", c);
  Slot *s = slot_of(c, SL_COND, "destroy", false);
  if (s) {
    if (s->destroyed) violation("double-destroy", "condition variable destroyed twice");
    for (int i = 0; i < G.nf; ++i) if (G.f[i].st == FS_BLOCK && G.f[i].bkind == B_COND && G.f[i].bobj == (uintptr_t)s)
      violation("destroy-waited", "t%d destroys a condition variable t%d is waiting on", G.cur, i);
    s->destroyed = 1; sev("cond   destroy", s);
  }
  mem_access((uintptr_t)c, 8, K_W);
  return 0;
}
// ---- rwlock (std::shared_mutex)
static int rw_lock(pthread_rwlock_t *l, bool wr, bool tryit, bool timed, i64 dl, u8 clk) {
  point("rwlock", l);
  Slot *s = slot_of(l, SL_RW, "lock"); obj_access(l);
  if (s->owner == G.cur) { if (tryit) return EBUSY; violation("self-deadlock", "t%d locks a shared mutex it already holds", G.cur); }
  while (s->owner >= 0 || (wr && s->readers > 0)) {
    if (tryit) return EBUSY;
    block(B_RW, (uintptr_t)s, timed, dl, clk);
    if (timed && me().timedout) return ETIMEDOUT;
    check_valid((uintptr_t)l, 8, K_AW);
  }
  if (wr) { s->owner = G.cur; hb_acq(s->vc); hb_acq(s->vc2); } else { s->readers++; hb_acq(s->vc); }
  sev("rwlock lock", s);
  return 0;
}
extern "C" int pthread_rwlock_rdlock(pthread_rwlock_t *l) noexcept { return active() ? rw_lock(l, false, false, false, 0, 0) : 0; }
extern "C" int pthread_rwlock_wrlock(pthread_rwlock_t *l) noexcept { return active() ? rw_lock(l, true, false, false, 0, 0) : 0; }
extern "C" int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) noexcept { return active() ? rw_lock(l, false, true, false, 0, 0) : 0; }
extern "C" int pthread_rwlock_trywrlock(pthread_rwlock_t *l) noexcept { return active() ? rw_lock(l, true, true, false, 0, 0) : 0; }
extern "C" int pthread_rwlock_clockrdlock(pthread_rwlock_t *l, clockid_t k, const struct timespec *t) noexcept { return active() ? rw_lock(l, false, false, true, ts_ns(t), k == CLOCK_REALTIME) : 0; }
extern "C" int pthread_rwlock_clockwrlock(pthread_rwlock_t *l, clockid_t k, const struct timespec *t) noexcept { return active() ? rw_lock(l, true, false, true, ts_ns(t), k == CLOCK_REALTIME) : 0; }
extern "C" int pthread_rwlock_timedrdlock(pthread_rwlock_t *l, const struct timespec *t) noexcept { return active() ? rw_lock(l, false, false, true, ts_ns(t), 1) : 0; }
extern "C" int pthread_rwlock_timedwrlock(pthread_rwlock_t *l, const struct timespec *t) noexcept { return active() ? rw_lock(l, true, false, true, ts_ns(t), 1) : 0; }
extern "C" int pthread_rwlock_unlock(pthread_rwlock_t *l) noexcept {
  if (!active()) return 0;
  Slot *s = slot_of(l, SL_RW, "unlock"); obj_access(l);
  if (s->owner == G.cur) { hb_rel(s->vc); s->owner = -1; }
  else if (s->readers > 0) { hb_rel(s->vc2); s->readers--; }
  else violation("bad-unlock", "t%d unlocks a shared mutex that is not locked", G.cur);
  wake_all(B_RW, (uintptr_t)s);
  sev("rwlock unlock", s);
  point("rw unlocked", nullptr);
  return 0;
}
extern "C" int pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *) noexcept { memset(l, 0, sizeof *l); return 0; }
extern "C" int pthread_rwlock_destroy(pthread_rwlock_t *l) noexcept { if (active()) mem_access((uintptr_t)l, 8, K_W); return 0; }
// ---- semaphores
extern "C" int sem_init(sem_t *s, int, unsigned v) noexcept { memset(s, 0, sizeof *s); if (active()) slot_of(s, SL_SEM, "init")->count = v; return 0; }
extern "C" int sem_destroy(sem_t *s) noexcept { if (active()) mem_access((uintptr_t)s, 8, K_W); return 0; }
extern "C" int sem_post(sem_t *m) noexcept { if (!active()) return 0; point("sem post", m); Slot *s = slot_of(m, SL_SEM, "post"); obj_access(m); s->count++; hb_rel(s->vc); wake_all(B_SEM, (uintptr_t)s); return 0; }
static int sem_inner(sem_t *m, bool tryit, bool timed, i64 dl, u8 clk) {
  point("sem wait", m); Slot *s = slot_of(m, SL_SEM, "wait"); obj_access(m);
  while (s->count <= 0) { if (tryit) { errno = EAGAIN; return -1; } block(B_SEM, (uintptr_t)s, timed, dl, clk); if (timed && me().timedout && s->count <= 0) { errno = ETIMEDOUT; return -1; } check_valid((uintptr_t)m, 8, K_AW); }
  s->count--; hb_acq(s->vc); return 0;
}
extern "C" int sem_wait(sem_t *m) { return active() ? sem_inner(m, false, false, 0, 0) : 0; }
extern "C" int sem_trywait(sem_t *m) noexcept { return active() ? sem_inner(m, true, false, 0, 0) : 0; }
extern "C" int sem_timedwait(sem_t *m, const struct timespec *t) { return active() ? sem_inner(m, false, true, ts_ns(t), 1) : 0; }
extern "C" int sem_clockwait(sem_t *m, clockid_t k, const struct timespec *t) { return active() ? sem_inner(m, false, true, ts_ns(t), k == CLOCK_REALTIME) : 0; }
// ---- once, static initialisation
static Slot *hb_slot(uintptr_t a);
extern "C" int pthread_once(pthread_once_t *o, void (*fn)(void)) noexcept(false) {
  if (!active()) { if (*o == 0) { fn(); *o = 2; } return 0; }
  point("once", o);
  Slot *s = hb_slot((uintptr_t)o);
  mem_access((uintptr_t)o, 4, K_AW);
  for (;;) {
    if (*o == 2) { hb_acq(s->vc); return 0; }
    if (*o == 0) break;
    block(B_ONCE, (uintptr_t)o);
  }
  *o = 1;
  try { fn(); } catch (...) { *o = 0; hb_rel(s->vc); wake_all(B_ONCE, (uintptr_t)o); throw; }
  *o = 2; hb_rel(s->vc); wake_all(B_ONCE, (uintptr_t)o);
  return 0;
}
extern "C" int __cxa_guard_acquire(__cxxabiv1::__guard *g) {
  u8 *b = (u8 *)g;
  if (!active()) { if (b[0]) return 0; b[1] = 1; return 1; }
  point("static", g);
  Slot *s = hb_slot((uintptr_t)g);
  for (;;) {
    if (b[0]) { hb_acq(s->vc); return 0; }
    if (!b[1]) break;
    block(B_ONCE, (uintptr_t)g);
  }
  b[1] = 1; me().guard_depth++;
  return 1;
}
extern "C" void __cxa_guard_release(__cxxabiv1::__guard *g) noexcept {
  u8 *b = (u8 *)g;
  b[1] = 0;
  if (!active()) { b[0] = 1; return; }
  a_store((uintptr_t)b, 1, 1, MO_REL);
  hb_rel(hb_slot((uintptr_t)g)->vc);
  me().guard_depth--;
  wake_all(B_ONCE, (uintptr_t)g);
}
extern "C" void __cxa_guard_abort(__cxxabiv1::__guard *g) noexcept { u8 *b = (u8 *)g; b[1] = 0; if (!active()) return; me().guard_depth--; wake_all(B_ONCE, (uintptr_t)g); }
extern "C" int __cxa_thread_atexit(void (*f)(void *), void *o, void *) noexcept {
  if (!active()) return 0;
  Fiber &b = me(); if (b.ntd < 8) { b.tdtor[b.ntd].f = f; b.tdtor[b.ntd].o = o; b.ntd++; }
  return 0;
}
static int (*real_cxa_atexit)(void (*)(void *), void *, void *);
extern "C" int __cxa_atexit(void (*)(void *), void *, void *) noexcept { return 0; } // static destructors never run

// ---- the simulated machine has two processors
extern "C" int get_nprocs() noexcept { return 2; }
extern "C" int get_nprocs_conf() noexcept { return 2; }
// ---- threads
extern "C" __attribute__((noinline)) void sim_fiber_body() noexcept {
  load_tls(me());
  Fiber *f = &me();
  f->ret = f->fn(f->arg);
  f = &me();
  while (f->ntd) { --f->ntd; f->tdtor[f->ntd].f(f->tdtor[f->ntd].o); }
  int id = G.cur;
  TR("thread ends");
  G.f[id].st = FS_DONE; G.seq++;
  wake_all(B_JOIN, (uintptr_t)id);
  bool all = true; for (int i = 1; i < G.nf; ++i) if (G.f[i].st != FS_DONE) all = false;
  if (all && G.f[0].st == FS_BLOCK && G.f[0].bkind == B_DRAIN) make_runnable(0);
  schedule(false);
  __builtin_trap();
}
__asm__(".text\n.type sim_fiber_entry,@function\nsim_fiber_entry:\n.cfi_startproc\n.cfi_undefined rip\nxor %ebp,%ebp\ncall sim_fiber_body\nud2\n.cfi_endproc\n.size sim_fiber_entry,.-sim_fiber_entry\n");
extern "C" void sim_fiber_entry();

static int new_fiber(void *(*fn)(void *), void *arg) {
  if (G.nf >= MAXF) violation("livelock", "more than %d threads in one run", MAXF);
  int id = G.nf++;
  Fiber &f = G.f[id];
  char *tls = f.tls; memset(&f, 0, sizeof f); f.tls = tls;
  if (g_exe_tls_size) { memset(tls, 0, g_exe_tls_size); memcpy(tls, g_tls_init, g_tls_init_size); }
  f.fn = fn; f.arg = arg; f.st = FS_RUN;
  if (G.cur >= 0 && id > 0) { f.vc = me().vc; me().vc.c[G.cur]++; }
  f.vc.c[id] = 1;
  f.prio = 1000 + (int)rnd(1000);
  uintptr_t top = STACK_BASE + (uintptr_t)(id + 1) * STACK_SIZE - 64;
  void **sp = (void **)top;
  *--sp = nullptr;
  *--sp = nullptr;
  *--sp = (void *)&sim_fiber_entry;
  for (int i = 0; i < 6; ++i) *--sp = nullptr;
  f.sp = sp;
  mixhash(0xC000 + id);
  return id;
}
static const pthread_t PT_BASE = 0x71000000;
extern "C" int pthread_create(pthread_t *t, const pthread_attr_t *, void *(*fn)(void *), void *arg) noexcept {
  if (!active()) return EAGAIN;
  point("create", nullptr);
  Fiber &f = me();
  if (f.tf_nth > 0 && --f.tf_nth == 0) { sim::count_fault(sim::F_THREAD_FAIL); return EAGAIN; }
  int id = new_fiber(fn, arg);
  *t = PT_BASE + id;
  TR("creates t%d", id);
  point("created", nullptr);
  return 0;
}
extern "C" int pthread_join(pthread_t t, void **ret) {
  if (!active()) return ESRCH;
  point("join", nullptr);
  long id = (long)(t - PT_BASE);
  if (id < 0 || id >= G.nf || G.f[id].joined || G.f[id].detached) return ESRCH;
  if (id == G.cur) return EDEADLK;
  while (G.f[id].st != FS_DONE) block(B_JOIN, (uintptr_t)id);
  G.f[id].joined = 1;
  hb_acq(G.f[id].vc);
  if (ret) *ret = G.f[id].ret;
  TR("joined t%ld", id);
  return 0;
}
extern "C" int pthread_detach(pthread_t t) noexcept { if (active()) { long id = (long)(t - PT_BASE); if (id >= 0 && id < G.nf) G.f[id].detached = 1; } return 0; }
extern "C" pthread_t pthread_self() noexcept { return active() ? PT_BASE + G.cur : PT_BASE - 1; }
extern "C" int sched_yield() noexcept { if (active()) { G.seq++; schedule(true, true); } return 0; }
extern "C" int pthread_key_create(pthread_key_t *k, void (*)(void *)) noexcept { if (G.nkeys >= MAXKEY) return EAGAIN; *k = G.nkeys++; return 0; }
extern "C" int pthread_key_delete(pthread_key_t) noexcept { return 0; }
extern "C" void *pthread_getspecific(pthread_key_t k) noexcept { return active() && k < MAXKEY ? me().keys[k] : nullptr; }
extern "C" int pthread_setspecific(pthread_key_t k, const void *v) noexcept { if (active() && k < MAXKEY) me().keys[k] = (void *)v; return 0; }

// ---- time
static void tick() { G.mono += 50; }
extern "C" int clock_gettime(clockid_t c, struct timespec *t) noexcept {
  if (!active()) return (int)rawsys(SYS_clock_gettime, c, (long)t);
  point("clock", nullptr); tick();
  bool wall = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE;
  i64 n = clock_now(wall);
  t->tv_sec = n / 1000000000ll; t->tv_nsec = n % 1000000000ll;
  return 0;
}
extern "C" int gettimeofday(struct timeval *__restrict t, void *__restrict) noexcept { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
extern "C" time_t time(time_t *o) noexcept { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); if (o) *o = s.tv_sec; return s.tv_sec; }
static void sim_sleep_until(i64 dl, u8 clk) { G.seq++; block(B_SLEEP, 0, true, dl, clk); me().timedout = 0; }
extern "C" int nanosleep(const struct timespec *t, struct timespec *) { if (!active()) return (int)rawsys(SYS_nanosleep, (long)t, 0); sim_sleep_until(G.mono + ts_ns(t), 0); return 0; }
extern "C" int clock_nanosleep(clockid_t c, int flags, const struct timespec *t, struct timespec *) {
  if (!active()) return 0;
  if (flags & TIMER_ABSTIME) sim_sleep_until(ts_ns(t), c == CLOCK_REALTIME); else sim_sleep_until(G.mono + ts_ns(t), 0);
  return 0;
}
extern "C" int usleep(useconds_t u) { struct timespec t = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return nanosleep(&t, nullptr); }
extern "C" unsigned sleep(unsigned s) { struct timespec t = {(time_t)s, 0}; nanosleep(&t, nullptr); return 0; }
extern "C" long syscall(long n, ...) noexcept {
  va_list ap; va_start(ap, n); long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long); va_end(ap);
  if (active() && n == SYS_futex) {
    int op = b & 127; u32 *w = (u32 *)a;
    int cmd = op & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
    if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
      point("futex wait", w);
      check_valid((uintptr_t)w, 4, K_AR);
      if (*w != (u32)c) { errno = EAGAIN; return -1; }
      const struct timespec *t = (const struct timespec *)d;
      u8 clk = (b & FUTEX_CLOCK_REALTIME) ? 1 : 0;
      i64 dl = t ? (cmd == FUTEX_WAIT ? G.mono + ts_ns(t) : ts_ns(t)) : 0;
      block(B_FUTEX, (uintptr_t)w, t != nullptr, dl, clk);
      if (me().timedout) { me().timedout = 0; errno = ETIMEDOUT; return -1; }
      return 0;
    }
    if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
      point("futex wake", w);
      int k = 0;
      for (int i = 0; i < G.nf && k < c; ++i) if (G.f[i].st == FS_BLOCK && G.f[i].bkind == B_FUTEX && G.f[i].bobj == (uintptr_t)w) { make_runnable(i); ++k; }
      return k;
    }
  }
  long r = rawsys(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = -r; return -1; }
  return r;
}
extern "C" void __assert_fail(const char *e, const char *file, unsigned line, const char *) noexcept {
  if (!active()) { fprintf(stderr, "assertion outside run: %s %s:%u\n", e, file, line); rawsys(SYS_exit_group, 9); }
  const char *b = strrchr(file, '/'); violation("assertion", "%s (%s)", e, b ? b + 1 : file);
}
namespace std { void __glibcxx_assert_fail(const char *file, int line, const char *func, const char *cond) noexcept __attribute__((noreturn)); }
void std::__glibcxx_assert_fail(const char *, int, const char *, const char *cond) noexcept { violation("assertion", "libstdc++: %s", cond ? cond : "?"); }

// ===================================================================== public harness API
static Slot *hb_slot(uintptr_t a) {
  // slots keyed by address for objects whose memory we must not write to
  static const int N = 1024;
  struct E { uintptr_t a; u32 gen; int ix; };
  E *tab = (E *)(G_BASE + ((sizeof(Global) + 4095) & ~4095ull));
  u32 h = (u32)((a * 0x9E3779B97F4A7C15ull) >> 54);
  for (int k = 0; k < N; ++k) {
    E &e = tab[(h + k) & (N - 1)];
    if (e.gen == G.gen && e.a == a) return &G.slot[e.ix];
    if (e.gen != G.gen) {
      if (G.nslot + 1 >= MAXSLOT) break;
      int ix = ++G.nslot; memset(&G.slot[ix], 0, sizeof(Slot)); G.slot[ix].kind = SL_HB; G.slot[ix].owner = -1; G.slot[ix].name = ix;
      e.a = a; e.gen = G.gen; e.ix = ix; return &G.slot[ix];
    }
  }
  violation("livelock", "too many harness synchronisation objects");
}
namespace sim {
int self() { return G.cur; }
void yield() { if (active()) { G.seq++; point("yield", nullptr); } }
uint64_t seq() { return ++G.seq; }
int spawn_raw(void (*fn)(void *), void *arg) {
  point("spawn", nullptr);
  int id = new_fiber((void *(*)(void *))(void *)fn, arg);
  TR("spawns t%d", id);
  point("spawned", nullptr);
  return id;
}
void join(int id) {
  point("join", nullptr);
  while (G.f[id].st != FS_DONE) block(B_JOIN, (uintptr_t)id);
  G.f[id].joined = 1;
  hb_acq(G.f[id].vc);
}
bool blocked(int id) { return G.f[id].st == FS_BLOCK; }
bool finished(int id) { return G.f[id].st == FS_DONE; }
void block_on(const void *key) { G.seq++; block(B_KEY, (uintptr_t)key); }
void wake(const void *key) { wake_all(B_KEY, (uintptr_t)key); }
void hb_release(const void *o) { hb_rel(hb_slot((uintptr_t)o)->vc); }
void hb_acquire(const void *o) { hb_acq(hb_slot((uintptr_t)o)->vc); }
Stamp stamp() { Stamp s; s.fiber = G.cur; s.clk = me().vc.c[G.cur]; s.seq = ++G.seq; return s; }
bool happened_before(const Stamp &s) { return s.fiber == G.cur ? true : s.clk < me().vc.c[s.fiber] || s.clk == me().vc.c[s.fiber]; }
int64_t mono_ns() { return G.mono; }
int64_t wall_ns() { return G.mono + G.wall_off; }
void jump_wall(int64_t d) { G.wall_off += d; count_fault(F_WALL_JUMP); point("jump", nullptr); TR("wall clock jumps by %lld", (long long)d); }
void sleep_ns(int64_t ns) { sim_sleep_until(G.mono + ns, 0); }
size_t live_allocs() { return (size_t)G.live; }
size_t alloc_count() { return me().nalloc; }
void arm_alloc_fault(int n) { me().af_nth = n; me().af_fired = 0; }
bool alloc_fault_pending() { return me().af_nth > 0; }
int suspend_alloc_fault() { int v = me().af_nth; me().af_nth = 0; return v; }
void resume_alloc_fault(int v) { me().af_nth = v; }
bool alloc_fault_fired() { return me().af_fired; }
bool time_skewed() { return G.faults[F_TIMER_EARLY] != 0; }
bool stale_mode() { return G.p_stale != 0; }
void arm_thread_fault(int n) { me().tf_nth = n; }
bool in_heap(const void *p) { return is_heap((void *)p); }
void quiet_begin() { me().quiet++; }
void quiet_end() { me().quiet--; }
void obj_new(Obj k) { G.objs[k]++; }
static const char *obj_names[] = {"value", "error", "function", "executor", "task", "allocator", "coroutine frame object"};
void obj_del(Obj k) { if (--G.objs[k] < 0) violation("double-destroy", "more %ss destroyed than created", obj_names[k]); }
int obj_live(Obj k) { return G.objs[k]; }
void expect_terminate() { G.expect_term = 1; }
void no_leak_check() { G.noleak = 1; }
} // namespace sim

// ===================================================================== one run
static void on_terminate() {
  if (!active()) { static const char m[] = "terminate outside run\n"; rawsys(SYS_write, 2, (long)m, sizeof m - 1); rawsys(SYS_exit_group, 9); }
  if (G.expect_term) end_run(3);
  const char *what = "no active exception"; char buf[300]; snprintf(buf, sizeof buf, "%s", what);
  if (std::type_info *ti = __cxxabiv1::__cxa_current_exception_type()) {
    int st = 1; char *d = __cxxabiv1::__cxa_demangle(ti->name(), nullptr, nullptr, &st);
    snprintf(buf, sizeof buf, "exception %s", d ? d : "?");
  }
  violation("terminate", "std::terminate called in t%d (%s)", G.cur, buf);
}
static void on_signal(int sig, siginfo_t *si, void *uc) {
  if (G.res) {
    G.res->status = 2;
    snprintf(G.res->cls, sizeof G.res->cls, "crash");
    const char *n = sig == SIGSEGV ? "invalid memory access" : sig == SIGABRT ? "abort" : sig == SIGFPE ? "arithmetic error" : sig == SIGBUS ? "bus error" : "illegal instruction";
    snprintf(G.res->msg, sizeof G.res->msg, "%s in t%d%s", n, G.cur, sig == SIGSEGV && (uintptr_t)si->si_addr - STACK_BASE < MAXF * STACK_SIZE ? " (stack overflow)" : "");
    if (getenv("SIM_DEBUG")) { void *bt[40]; (void)bt; fprintf(stderr, "crash pc=%llx addr=%p sp=%llx\n", (unsigned long long)((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP], si->si_addr, (unsigned long long)((ucontext_t *)uc)->uc_mcontext.gregs[REG_RSP]); uintptr_t *q = (uintptr_t *)((ucontext_t *)uc)->uc_mcontext.gregs[REG_RSP]; for (int i = 0; i < 200; ++i) if (q[i] > 0x400000 && q[i] < 0x2000000) fprintf(stderr, " %lx", (long)q[i]); fprintf(stderr, "\n"); }
    G.res->hash = G.hash; G.res->nchoice = G.nch; G.res->steps = G.steps;
    if (G.crash_ch) { memcpy(G.crash_ch, G.ch, sizeof(Choice) * G.nch); *G.crash_nch = G.nch; }
  }
  rawsys(SYS_exit_group, 3);
}

static char *g_snap; static char *g_snap_at; static size_t g_snap_size;
static sim::Scenario *g_cur_scen;
static void *root_body(void *) {
  g_cur_scen->fn();
  // let everything else finish
  bool all = true; for (int i = 1; i < G.nf; ++i) if (G.f[i].st != FS_DONE) all = false;
  if (!all) block(B_DRAIN, 0);
  { Fiber *f = &me(); while (f->ntd) { --f->ntd; f->tdtor[f->ntd].f(f->tdtor[f->ntd].o); } } // the root thread ends too
  if (!G.noleak) {
    for (int k = 0; k < sim::O_COUNT; ++k) if (G.objs[k] != 0) violation("leak", "%d %s%s not destroyed at the end of the run", G.objs[k], sim::obj_names[k], G.objs[k] > 1 ? "s" : "");
    if (G.live != 0) {
      u32 id = 0; size_t sz = 0;
      for (uintptr_t p = HEAP_BASE; p < HEAP_BASE + G.heap_top; p += 16) { Hdr *h = (Hdr *)p; if ((h->magic_size & 0xFFFF000000000000ull) == HMAGIC && h->flags == 1 && h->fiber < MAXF && *heap_state(p) == 0 && *heap_state(p + 16) != 0) { id = h->id; sz = h->magic_size & 0xFFFFFFFFFFFF; break; } }
      violation("leak", "%lld allocations not freed at the end of the run (first: #%u, %zu bytes)", (long long)G.live, id, sz);
    }
  }
  end_run(1);
}

struct RunCfg { sim::Scenario *s; u64 seed; int replay; const Choice *in; u32 nin; int verbose; int plain; };
static void run_one(const RunCfg &c, Result *res) {
  // reset
  memcpy(g_snap_at, g_snap, g_snap_size);
  if (G.heap_top) memset((void *)HEAPST_BASE, 0, (G.heap_top >> 3) + 16);
  char *trc = G.trace; u32 trcap = G.trace_cap;
  G.gen++;
  G.nf = 0; G.cur = -1; G.steps = 0; G.seq = 0; G.accesses = 0; G.same = 0; G.switches = 0; G.preempt = 0;
  G.nslot = 0; G.nvar = 0; memset(&G.sc, 0, sizeof G.sc);
  G.heap_top = 0; G.nalloc_total = 0; G.live = 0;
  G.mono = G.mono0 = 1000000000000ll; G.wall_off = 1600000000000000000ll;
  G.nch = 0; G.hash = 0xcbf29ce484222325ull; G.status = 0; G.cls[0] = G.msg[0] = 0;
  G.expect_term = G.noleak = 0;
  memset(G.objs, 0, sizeof G.objs);
  G.name_ctr = 0; G.trace = trc; G.trace_cap = trcap; G.trace_len = 0; G.nkeys = 0;
  G.replay = c.replay; G.verbose = c.verbose; G.nin = 0;
  if (c.replay) { memcpy(G.in, c.in, sizeof(Choice) * c.nin); G.nin = c.nin; }
  u64 s = c.seed; for (const char *p = c.s->name; *p; ++p) s = (s ^ (u8)*p) * 0x100000001b3ull;
  splitmix(s); G.rng = s;
  memset(&G.f[0].vc, 0, sizeof(VC));
  g_in_run = 1; G.cur = 0;
  new_fiber(root_body, nullptr);
  // strategy: only biases the generator, so it is not part of the recorded stream
  G.strat = (int)rnd(4); static const u32 psw[] = {20, 60, 150, 300, 500};
  G.psw = psw[rnd(5)]; G.lowprio = 0;
  static const u32 span[] = {40, 120, 300, 800};
  u32 L = span[rnd(4)]; G.nchg = 1 + rnd(4);
  for (u32 i = 0; i < G.nchg; ++i) G.chg[i] = 1 + rnd(L);
  G.victim = (int)rnd(8); G.vfrom = rnd(L); G.vto = G.vfrom + 20 + rnd(300);
  // environment of this run (recorded)
  G.p_spur = choice(4, 'e', rnd(100) < 40 ? 1 + rnd(3) : 0) * 120;
  G.p_stale = choice(4, 'e', rnd(100) < 40 ? 1 + rnd(3) : 0) * 100;
  G.p_timer = choice(4, 'e', rnd(100) < 50 ? 1 + rnd(3) : 0) * 15;
  G.budget_spur = 8; G.budget_stale = 12; G.budget_timer = 20; G.budget_weak = 6;
  g_cur_scen = c.s;
  save_tls(G.f[0]); // initial exception globals are empty
  memset(G.f[0].ehg, 0, 16);
  memcpy(G.main_ehg, __cxxabiv1::__cxa_get_globals(), 16);
  sim_ctx_switch(&G.main_sp, G.f[0].sp);
  g_in_run = 0;
  memcpy(__cxxabiv1::__cxa_get_globals(), G.main_ehg, 16);
  mixhash(G.steps); mixhash((u64)G.mono); mixhash(G.status); for (char *p = G.cls; *p; ++p) mixhash(*p);
  if (res) {
    res->hash = G.hash; res->nchoice = G.nch; res->steps = G.steps; res->switches = G.switches; res->fibers = G.nf; res->sim_ns = G.mono - G.mono0;
    memcpy(res->cls, G.cls, sizeof res->cls); memcpy(res->msg, G.msg, sizeof res->msg);
    __sync_synchronize();
    res->status = G.status;
  }
}

// ===================================================================== start up
static void *map_fixed(uintptr_t a, size_t n) {
  void *p = mmap((void *)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void *)a) { fprintf(stderr, "cannot map simulator memory at %lx\n", (long)a); _exit(2); }
  return p;
}
static int phdr_cb(struct dl_phdr_info *i, size_t, void *) {
  for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_TLS) {
    g_tls_init = (const char *)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr); g_tls_init_size = i->dlpi_phdr[k].p_filesz;
    g_exe_tls_size = i->dlpi_phdr[k].p_memsz; g_exe_tls = (char *)i->dlpi_tls_data;
  }
  return 1; // first entry is the executable
}
// The runtime needs its memory before static constructors of other files run.
__attribute__((constructor(101))) static void boot() {
  map_fixed(G_BASE, ((sizeof(Global) + 4095) & ~4095ull) + (64 << 10));
  map_fixed(HEAP_BASE, HEAP_SIZE);
  map_fixed(HEAPST_BASE, HEAP_SIZE / 8 + 4096);
  map_fixed(HSHADOW_BASE, HEAP_SIZE / 8 * sizeof(Cell));
  map_fixed(SSHADOW_BASE, MAXF * STACK_SIZE / 8 * sizeof(Cell));
  map_fixed(GSHADOW_BASE, ((uintptr_t)&_end - (uintptr_t)&__data_start + 64) / 8 * sizeof(Cell) + 4096);
  map_fixed(STACK_BASE, MAXF * STACK_SIZE);
  for (int i = 0; i < MAXF; ++i) mprotect((void *)(STACK_BASE + i * STACK_SIZE), 4096, PROT_NONE);
  __libc_single_threaded = 0;
}
static void init_runtime() {
  (void)real_cxa_atexit;
  dl_iterate_phdr(phdr_cb, nullptr);
  char *tlsmem = nullptr;
  if (g_exe_tls_size) tlsmem = (char *)mmap(nullptr, MAXF * g_exe_tls_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  for (int i = 0; i < MAXF; ++i) G.f[i].tls = tlsmem ? tlsmem + i * g_exe_tls_size : nullptr;
  std::set_terminate(on_terminate);
  stack_t ss; ss.ss_sp = mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); ss.ss_size = 65536; ss.ss_flags = 0;
  sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  int sigs[] = {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL};
  for (int s : sigs) sigaction(s, &sa, nullptr);
  G.booted = 1;
  (void)__cxxabiv1::__cxa_get_globals();
  // warm up the unwinder so that its lazy initialisation does not happen inside a run
  try { throw 1; } catch (int) {}
}
static void take_snapshot() { // last: state of the program's globals at the start of every run
  g_snap_at = &__data_start; g_snap_size = (size_t)(&_end - &__data_start);
  char *s = (char *)mmap(nullptr, g_snap_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  g_snap = s;
  memcpy(s, g_snap_at, g_snap_size);
}

#include "driver.inc"
