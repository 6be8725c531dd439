// Deterministic simulator runtime: interface used by the workloads (scenarios).
//
// Everything here may be called from simulated threads ("fibers"). None of these
// functions creates a happens-before edge between fibers unless it says so.
#pragma once
#include <cstddef>
#include <cstdint>
#include <new>
#include <type_traits>
#include <utility>

namespace sim {

// ---------------------------------------------------------------- choices
// All nondeterminism of a run comes from one stream of choices. 0 is always the
// simplest alternative (minimisation drives choices towards 0).
uint32_t choose(uint32_t n);       // workload choice, uniform in [0, n)
bool flip(uint32_t permille);      // biased workload choice

// ---------------------------------------------------------------- faults, probes
enum Fault {
  F_SPURIOUS_WAKE,   // condition variable wakes without notification
  F_TIMER_EARLY,     // clock advances to the next deadline although threads are runnable
  F_WALL_JUMP,       // wall clock steps forwards or backwards
  F_STALE_READ,      // a non-seq_cst load returns an older (still allowed) value
  F_STALL,           // a thread is stalled until nobody else can run
  F_ALLOC_FAIL,      // operator new throws bad_alloc
  F_THREAD_FAIL,     // pthread_create fails with EAGAIN
  F_EXEC_DROP,       // executor destroys a task without running it
  F_EXEC_REFUSE,     // executor's post throws
  F_EXEC_REORDER,    // executor runs tasks out of order
  F_EXEC_INLINE,     // executor runs a task inside post
  F_EXEC_DELAY,      // executor keeps a task back for a while
  F_TASK_THROW,      // user function throws
  F_ABANDON,         // write end destroyed without a result
  F_CANCEL,          // read end destroyed before it was ready
  F_VALUE_THROW,     // constructor of a value throws
  F_WEAK_CAS,        // compare_exchange_weak fails although the value is the expected one
  F_POOL_STOP,       // pool stopped / destroyed with work in flight
  F_COUNT
};
void count_fault(Fault f);
bool fault(Fault f, uint32_t permille); // flip + count
void probe(const char *name);           // "this rare condition was reached"

// ---------------------------------------------------------------- threads
int self();                     // current fiber (0 = root)
void yield();                   // plain scheduling point
uint64_t seq();                 // global event sequence number (monotone)
int spawn_raw(void (*fn)(void *), void *arg);
void join(int fiber);           // creates happens-before like pthread_join
bool finished(int fiber);
bool blocked(int fiber);        // waiting for a lock, condition, timer, ...
// Block until wake(key) is called (no happens-before). Always re-check the condition.
void block_on(const void *key);
void wake(const void *key);
template <class F> int spawn(F &&f) {
  using D = std::decay_t<F>;
  struct Box { D fn; };
  auto *b = new Box{std::forward<F>(f)};
  return spawn_raw([](void *p) {
    auto *b = static_cast<Box *>(p);
    struct G { Box *b; ~G() { delete b; } } g{b};
    b->fn();
  }, b);
}
// Joins every fiber created through it.
struct Threads {
  int ids[16]; int n = 0;
  template <class F> int start(F &&f) { int id = spawn(std::forward<F>(f)); ids[n++] = id; return id; }
  void join_all() { for (int i = 0; i < n; ++i) join(ids[i]); n = 0; }
  ~Threads() { join_all(); }
};

// ---------------------------------------------------------------- happens-before for harness primitives
void hb_release(const void *obj);
void hb_acquire(const void *obj);
// True if event (fiber f at the moment stamp() was taken) happens-before now.
struct Stamp { int fiber = -1; uint32_t clk = 0; uint64_t seq = 0; };
Stamp stamp();                  // current fiber's position
bool happened_before(const Stamp &s); // s happens-before the caller's current position

// ---------------------------------------------------------------- time
int64_t mono_ns();
int64_t wall_ns();
void jump_wall(int64_t delta_ns);
void sleep_ns(int64_t ns);

// ---------------------------------------------------------------- memory
size_t live_allocs();
size_t alloc_count();           // allocations made so far by this fiber
void arm_alloc_fault(int nth);  // nth (1-based) allocation of this fiber from now on throws; 0 disarms
bool alloc_fault_pending();     // armed and not yet fired
int suspend_alloc_fault();      // harness internals must not fail: returns what resume needs
void resume_alloc_fault(int);
bool alloc_fault_fired();       // since the last arm_alloc_fault
void arm_thread_fault(int nth);
bool in_heap(const void *p);
void quiet_begin();             // scheduling points of this fiber are suppressed (harness internals)
void quiet_end();

// ---------------------------------------------------------------- object accounting
// kinds of counted user objects; all live counts must be zero at the end of a run
enum Obj { O_VALUE, O_ERROR, O_FUNC, O_EXEC, O_TASK, O_ALLOC, O_CORO, O_COUNT };
void obj_new(Obj k);
void obj_del(Obj k);
int obj_live(Obj k);

// ---------------------------------------------------------------- verdicts
[[noreturn]] void violation(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void log(const char *fmt, ...) __attribute__((format(printf, 1, 2))); // verbose replay only
void expect_terminate(); // from now on std::terminate ends the run successfully
void no_leak_check();
bool time_skewed();      // in this run the clock has moved although threads were runnable
bool stale_mode();       // stale reads enabled in this run

struct Scenario { const char *name; const char *props; void (*fn)(); Scenario *next; unsigned weight; };
extern Scenario *g_scenarios;
struct Reg { Scenario s; Reg(const char *n, const char *p, void (*f)(), unsigned w = 1) : s{n, p, f, g_scenarios, w} { g_scenarios = &s; } };

} // namespace sim

#define SIM_CHECK(cond, cls, ...) do { if (!(cond)) ::sim::violation(cls, __VA_ARGS__); } while (0)
#define SCENARIO(name, props) \
  static void scen_##name(); \
  static ::sim::Reg reg_##name{#name, props, &scen_##name}; \
  static void scen_##name()
#define SCENARIO_W(name, props, w) \
  static void scen_##name(); \
  static ::sim::Reg reg_##name{#name, props, &scen_##name, w}; \
  static void scen_##name()
