// Shared parts of the workloads: user types, executors, recorders.
#pragma once
#include "sim.h"
#include <array>
#include <chrono>
#include <cstring>
#include <exception>
#include <future>
#include <memory>
#include <new>
#include <stdexcept>
#include <tuple>
#include <utility>
#include <vector>

#include <portable_concurrency/execution>
#include <portable_concurrency/functional>
#include <portable_concurrency/future>
#include <portable_concurrency/latch>
#include <portable_concurrency/thread_pool>
#include <portable_concurrency/timed_waiter>

// Harness bookkeeping is not part of the system: its memory accesses are not instrumented, so
// it neither races nor synchronises.
#define NOSAN __attribute__((no_sanitize("thread"), noinline))

namespace h {
using sim::choose;
using sim::flip;

// ------------------------------------------------------------------ user values
struct Box { int id; int chk; };

enum : unsigned { ALIVE = 0x600D600D, DEAD = 0xDEADDEAD };

struct Faulty { // throwing copies/moves, armed per run
  static NOSAN int &countdown() { static int c = 0; return c; }
  static NOSAN void arm(int n) { countdown() = n; }
  static NOSAN bool fire() { int &c = countdown(); return c > 0 && --c == 0; }
};
struct ValueThrew { int id; };

// copyable value that owns memory
class Val {
  unsigned magic_ = ALIVE;
  Box *b_;
  void alive() const { if (magic_ != ALIVE) sim::violation("dead-object", "use of a destroyed value"); }
public:
  explicit Val(int id) : b_(new Box{id, ~id}) { sim::obj_new(sim::O_VALUE); }
  Val(const Val &o) : b_(nullptr) {
    o.alive();
    if (Faulty::fire()) { sim::count_fault(sim::F_VALUE_THROW); throw ValueThrew{o.id()}; }
    if (o.b_) b_ = new Box(*o.b_);
    sim::obj_new(sim::O_VALUE);
  }
  Val(Val &&o) noexcept : b_(o.b_) { o.alive(); o.b_ = nullptr; sim::obj_new(sim::O_VALUE); }
  Val &operator=(const Val &o) { o.alive(); alive(); Box *n = o.b_ ? new Box(*o.b_) : nullptr; delete b_; b_ = n; return *this; }
  Val &operator=(Val &&o) noexcept { o.alive(); alive(); if (this != &o) { delete b_; b_ = o.b_; o.b_ = nullptr; } return *this; }
  ~Val() { alive(); magic_ = DEAD; delete b_; b_ = nullptr; sim::obj_del(sim::O_VALUE); }
  int id() const {
    alive();
    if (!b_) return -1;
    if (b_->chk != ~b_->id) sim::violation("torn-value", "value is damaged");
    return b_->id;
  }
};
// move-only value
class MVal {
  unsigned magic_ = ALIVE;
  std::unique_ptr<Box> b_;
public:
  explicit MVal(int id) : b_(new Box{id, ~id}) { sim::obj_new(sim::O_VALUE); }
  MVal(MVal &&o) noexcept : b_(std::move(o.b_)) { if (o.magic_ != ALIVE) sim::violation("dead-object", "move from a destroyed value"); sim::obj_new(sim::O_VALUE); }
  MVal &operator=(MVal &&o) noexcept { b_ = std::move(o.b_); return *this; }
  ~MVal() { if (magic_ != ALIVE) sim::violation("dead-object", "value destroyed twice"); magic_ = DEAD; sim::obj_del(sim::O_VALUE); }
  int id() const { if (magic_ != ALIVE) sim::violation("dead-object", "use of a destroyed value"); if (!b_) return -1; if (b_->chk != ~b_->id) sim::violation("torn-value", "value is damaged"); return b_->id; }
};

// user exception
class Err {
  int id_; unsigned magic_ = ALIVE;
public:
  explicit Err(int id) : id_(id) { sim::obj_new(sim::O_ERROR); }
  Err(const Err &o) : id_(o.id_) { if (o.magic_ != ALIVE) sim::violation("dead-object", "copy of a destroyed exception"); sim::obj_new(sim::O_ERROR); }
  Err &operator=(const Err &) = default;
  ~Err() { if (magic_ != ALIVE) sim::violation("dead-object", "exception destroyed twice"); magic_ = DEAD; sim::obj_del(sim::O_ERROR); }
  int id() const { if (magic_ != ALIVE) sim::violation("dead-object", "use of a destroyed exception"); return id_; }
};

// the same as part of the standard hierarchies: nothing may be sliced off, and no type is treated specially
struct StdErr : std::runtime_error, Err { explicit StdErr(int id) : std::runtime_error("user"), Err(id) {} };
struct FutErr : std::future_error, Err { explicit FutErr(int id) : std::future_error(std::future_errc::promise_already_satisfied), Err(id) {} };
struct BadErr : std::bad_alloc, Err { explicit BadErr(int id) : Err(id) {} };
[[noreturn]] inline void raise_err(int id) {
  int kind = (int)choose(6);
  if (kind == 3) { int s = sim::suspend_alloc_fault(); StdErr e{id}; sim::resume_alloc_fault(s); throw e; }
  if (kind == 4) throw FutErr{id};
  if (kind == 5) throw BadErr{id};
  throw Err{id};
}
inline std::exception_ptr err_ptr(int id) {
  int s = sim::suspend_alloc_fault();
  struct Back { int s; ~Back() { sim::resume_alloc_fault(s); } } b{s};
  switch (choose(6)) {
  case 3: return std::make_exception_ptr(StdErr{id});
  case 4: return std::make_exception_ptr(FutErr{id});
  case 5: return std::make_exception_ptr(BadErr{id});
  default: return std::make_exception_ptr(Err{id});
  }
}

// plain memory written before a result is produced, read after it has been received
struct Side { int x = 0; };

// captured by every user function: its lifetime is accounted for and checked
class Token {
  unsigned magic_ = ALIVE; int *dead_; bool owner_ = true;
public:
  explicit Token(int *destroyed_count = nullptr) : dead_(destroyed_count) { sim::obj_new(sim::O_FUNC); }
  Token(Token &&o) noexcept : dead_(o.dead_), owner_(o.owner_) { o.check(); o.owner_ = false; sim::obj_new(sim::O_FUNC); }
  Token(const Token &) = delete;
  ~Token() { check(); magic_ = DEAD; if (owner_ && dead_) bump(dead_); sim::obj_del(sim::O_FUNC); }
  Token &operator=(Token &&o) noexcept { check(); o.check(); if (owner_ && dead_) bump(dead_); dead_ = o.dead_; owner_ = o.owner_; o.owner_ = false; return *this; }
  void check() const { if (magic_ != ALIVE) sim::violation("dead-object", "a function object is used after its destruction"); }
  void used() const { check(); if (!owner_) sim::violation("moved-from", "a moved-from function object is invoked"); }
  static NOSAN void bump(int *p) { ++*p; }
};

// ------------------------------------------------------------------ outcomes
enum OutKind { VALUE, ERROR, BROKEN, NO_STATE, SATISFIED, RETRIEVED, BAD_ALLOC, OTHER, REFUSED };
inline const char *out_name(int k) { static const char *n[] = {"value", "error", "broken_promise", "no_state", "promise_already_satisfied", "future_already_retrieved", "bad_alloc", "other exception", "executor refusal"}; return n[k]; }
struct ExecRefused { int dummy = 0; };
struct Out { int kind; int id; };
inline Out from_future_error(const std::future_error &e) {
  if (e.code() == std::future_errc::broken_promise) return {BROKEN, 0};
  if (e.code() == std::future_errc::no_state) return {NO_STATE, 0};
  if (e.code() == std::future_errc::promise_already_satisfied) return {SATISFIED, 0};
  if (e.code() == std::future_errc::future_already_retrieved) return {RETRIEVED, 0};
  return {OTHER, 0};
}
template <class F> Out outcome(F &&f) {
  try { return {VALUE, f()}; }
  catch (const Err &e) { return {ERROR, e.id()}; }
  catch (const std::future_error &e) { return from_future_error(e); }
  catch (const ExecRefused &) { return {REFUSED, 0}; }
  catch (const std::bad_alloc &) { return {BAD_ALLOC, 0}; }
  catch (const std::exception &) { return {OTHER, 1}; }
  catch (const ValueThrew &e) { return {OTHER, e.id}; }
}
inline void expect_out(const Out &got, const Out &want, const char *where) {
  if (got.kind != want.kind || ((want.kind == VALUE || want.kind == ERROR) && got.id != want.id))
    sim::violation("wrong-outcome", "%s: got %s %d, expected %s %d", where, out_name(got.kind), got.id, out_name(want.kind), want.id);
}

// ------------------------------------------------------------------ result types
template <class T> struct K;
template <> struct K<Val> {
  static const int shape = 0;
  template <class P> static void set(P &p, int id, Val *) {
    switch (choose(4)) {
    case 0: case 1: p.set_value(Val{id}); break;
    case 2: { Val v{id}; struct Keep { Val &v; int id; ~Keep() { if (v.id() != id) sim::violation("consumed", "set_value() took a value it was only shown"); } } k{v, id}; p.set_value(v); break; }
    default: { const Val v{id}; struct Keep { const Val &v; int id; ~Keep() { if (v.id() != id) sim::violation("consumed", "set_value() took a value it was only shown"); } } k{v, id}; p.set_value(v); }
    }
  }
  static Val make(int id, Val *) { return Val{id}; }
  static int get(pc::future<Val> &f) { Val v = f.get(); return v.id(); }
  static int get(const pc::shared_future<Val> &f) { return f.get().id(); }
  static const void *addr(const pc::shared_future<Val> &f) { return &f.get(); }
};
template <> struct K<MVal> {
  static const int shape = 1;
  template <class P> static void set(P &p, int id, Val *) { p.set_value(MVal{id}); }
  static MVal make(int id, Val *) { return MVal{id}; }
  static int get(pc::future<MVal> &f) { MVal v = f.get(); return v.id(); }
  static int get(const pc::shared_future<MVal> &f) { return f.get().id(); }
  static const void *addr(const pc::shared_future<MVal> &f) { return &f.get(); }
};
template <> struct K<Val &> {
  static const int shape = 2;
  template <class P> static void set(P &p, int, Val *target) { p.set_value(*target); }
  static Val &make(int, Val *target) { return *target; }
  static int get(pc::future<Val &> &f) { Val &v = f.get(); return v.id(); }
  static int get(const pc::shared_future<Val &> &f) { return f.get().id(); }
  static const void *addr(const pc::shared_future<Val &> &f) { return &f.get(); }
};
template <> struct K<void> {
  static const int shape = 3;
  template <class P> static void set(P &p, int, Val *) { p.set_value(); }
  static void make(int, Val *) {}
  static int get(pc::future<void> &f) { f.get(); return 0; }
  static int get(const pc::shared_future<void> &f) { f.get(); return 0; }
  static const void *addr(const pc::shared_future<void> &f) { f.get(); return nullptr; }
};
template <class T> int expected_id(int id) { return std::is_void<T>::value ? 0 : id; }

// ------------------------------------------------------------------ recorders
// counter that is neither instrumented nor synchronising
class Count {
  int n_ = 0;
public:
  NOSAN int inc() { return ++n_; }
  NOSAN int get() const { return n_; }
  NOSAN void set(int v) { n_ = v; }
};
class Mark { // remembers where (in happens-before and in global order) something happened
  sim::Stamp s_; bool set_ = false;
public:
  NOSAN void here() { s_ = sim::stamp(); set_ = true; }
  NOSAN bool set() const { return set_; }
  NOSAN bool before_me() const { return set_ && sim::happened_before(s_); }
  NOSAN uint64_t seq() const { return set_ ? s_.seq : 0; }
  NOSAN int fiber() const { return set_ ? s_.fiber : -1; }
};
// one-shot event between harness threads; waiting for it is a happens-before edge
class Event {
  bool set_ = false; bool hb_;
  NOSAN bool get() const { return set_; }
public:
  explicit Event(bool hb = true) : hb_(hb) {}
  NOSAN void signal() { if (hb_) sim::hb_release(this); set_ = true; sim::wake(this); sim::yield(); }
  NOSAN void wait() { while (!get()) sim::block_on(this); if (hb_) sim::hb_acquire(this); }
  NOSAN bool is_set() const { return set_; }
};
struct AllocShield { int s = sim::suspend_alloc_fault(); ~AllocShield() { sim::resume_alloc_fault(s); } };

// Runs f() plainly, inside an exception handler or during stack unwinding. f must not throw.
template <class F> void in_context(F &&f) {
  switch (choose(8)) {
  case 6: try { throw Err{-7}; } catch (const Err &) { f(); } break;
  case 7: { struct Guard { F &f; ~Guard() { f(); } }; try { Guard g{f}; throw Err{-8}; } catch (const Err &) {} break; }
  default: f();
  }
}

// ------------------------------------------------------------------ dropping a future
// Whatever the way, the previous state is given up before the call returns and the variable ends up invalid.
template <class T> pc::future<T> another(pc::future<T> &) { return pc::make_promise<T>().second; }
template <class T> pc::shared_future<T> another(pc::shared_future<T> &) { return pc::make_promise<T>().second.share(); }
template <class F> void drop(F &f) {
  switch (choose(7)) {
  case 3: { F gone = std::move(f); break; }
  case 4: { F empty; f = std::move(empty); break; }
  case 5: { F other = another(f); f = std::move(other); if (other.valid()) sim::violation("still-valid", "a future assigned from is still valid"); if (!f.valid()) sim::violation("invalid", "an assigned future is invalid"); F end = std::move(f); break; }
  case 6: { F empty; std::swap(f, empty); break; }
  default: f = F{};
  }
  if (f.valid()) sim::violation("still-valid", "a dropped future is still valid");
}

// ------------------------------------------------------------------ executors
// Simulated executor: tasks are run by worker threads, inline, later, in another order, dropped or refused.
class Core {
public:
  enum { CAP = 96 };
  using Fn = pc::unique_function<void()>;
  unsigned p_inline = 0, p_drop = 0, p_refuse = 0; bool reorder = false;
  Count posts, runs, drops, refusals, inlined;
  bool check_alloc = true;
  const Mark *due = nullptr; // nothing may be posted before this
private:
  Fn *q_[CAP]; int n_ = 0; bool closed_ = false; int nthreads_ = 0; int tid_[8];
  NOSAN Fn *take() {
    if (!n_) return nullptr;
    int i = 0;
    if (reorder && n_ > 1) { i = (int)choose(n_); if (i) sim::count_fault(sim::F_EXEC_REORDER); }
    Fn *f = q_[i];
    for (int k = i; k + 1 < n_; ++k) q_[k] = q_[k + 1];
    --n_;
    return f;
  }
  NOSAN bool closed() const { return closed_; }
  static void destroy(Fn *f) { delete f; }
  NOSAN void execute(Fn *f) {
    sim::hb_acquire(f);
    if (p_drop && sim::fault(sim::F_EXEC_DROP, p_drop)) { drops.inc(); sim::log("executor drops a task"); destroy(f); return; }
    runs.inc();
    mark_running(+1);
    (*f)();
    mark_running(-1);
    destroy(f);
  }
  int running_[24] = {};
  NOSAN void mark_running(int d) { running_[sim::self()] += d; }
public:
  NOSAN bool running_here() const { return running_[sim::self()] > 0; }
  NOSAN void enqueue(Fn *f) {
    if (n_ >= CAP) sim::violation("harness", "executor queue overflow");
    sim::hb_release(f);
    q_[n_++] = f; sim::wake(this);
  }
  NOSAN bool is_closed() const { return closed_; }
  NOSAN int queued() const { return n_; }
  // executes one queued task on the calling thread
  NOSAN bool run_one() { Fn *f = take(); if (!f) return false; execute(f); return true; }
  NOSAN void work() { for (;;) { if (run_one()) { sim::yield(); continue; } if (closed()) return; sim::block_on(this); } }
  NOSAN void close() { closed_ = true; sim::wake(this); }
  // throw away what is queued, like an executor that is shut down
  NOSAN void discard() { while (Fn *f = take()) { sim::hb_acquire(f); drops.inc(); sim::count_fault(sim::F_EXEC_DROP); destroy(f); } }
  void start(sim::Threads &th, int n) { for (int i = 0; i < n; ++i) th.start([this] { work(); }); }
  // random behaviour
  void randomise(bool drop = false, bool refuse = false) {
    static const unsigned pi[] = {0, 200, 1000};
    p_inline = pi[choose(3)];
    reorder = choose(2);
    if (drop) p_drop = choose(3) * 150;
    if (refuse) p_refuse = choose(3) * 150;
  }
  template <class F> void submit(F &&f) {
    posts.inc();
    if (due && !due->set()) sim::violation("early-post", "work was handed to its executor before it was due");
    if (p_refuse && sim::fault(sim::F_EXEC_REFUSE, p_refuse)) { refusals.inc(); throw ExecRefused{}; }
    size_t a0 = sim::alloc_count();
    Fn uf{std::forward<F>(f)};
    if (check_alloc && sim::alloc_count() != a0) sim::violation("executor-alloc", "turning a posted task into unique_function<void()> allocates");
    if (!uf) sim::violation("empty-task", "an empty task was posted");
    AllocShield sh;
    Fn *p = new Fn(std::move(uf));
    if (p_inline && sim::fault(sim::F_EXEC_INLINE, p_inline)) { inlined.inc(); sim::hb_release(p); sim::resume_alloc_fault(sh.s); execute(p); sh.s = sim::suspend_alloc_fault(); return; }
    enqueue(p);
    sim::yield();
  }
};
class Exec {
  Core *c_; unsigned magic_ = ALIVE;
public:
  explicit Exec(Core &c) : c_(&c) { sim::obj_new(sim::O_EXEC); }
  Exec(const Exec &o) noexcept : c_(o.c_) { o.core(); sim::obj_new(sim::O_EXEC); }
  Exec(Exec &&o) noexcept : c_(o.c_) { o.check(); o.c_ = nullptr; sim::obj_new(sim::O_EXEC); }
  Exec &operator=(const Exec &o) { c_ = o.c_; return *this; }
  ~Exec() { check(); magic_ = DEAD; sim::obj_del(sim::O_EXEC); }
  void check() const { if (magic_ != ALIVE) sim::violation("dead-object", "use of a destroyed executor"); }
  Core &core() const { check(); if (!c_) sim::violation("moved-from", "use of a moved-from executor"); return *c_; }
};
template <class F> void post(const Exec &e, F &&f) { e.core().submit(std::forward<F>(f)); }

// ------------------------------------------------------------------ allocator with accounting
struct Arena { int live = 0; int total = 0; int id = 0; NOSAN void add(int d) { live += d; if (d > 0) total++; if (live < 0) sim::violation("allocator", "more memory returned than taken"); } NOSAN int get() const { return live; } NOSAN int count() const { return total; } };
template <class T> struct Alloc {
  using value_type = T;
  Arena *a;
  explicit Alloc(Arena &ar) : a(&ar) {}
  template <class U> Alloc(const Alloc<U> &o) : a(o.a) {}
  enum { AL = alignof(T) > 16 ? alignof(T) : 16 };
  T *allocate(size_t n) { char *p = static_cast<char *>(::operator new(n * sizeof(T) + AL, std::align_val_t{AL})); size_t *h = reinterpret_cast<size_t *>(p + AL) - 2; h[0] = n * sizeof(T); h[1] = reinterpret_cast<size_t>(a); a->add(1); return reinterpret_cast<T *>(p + AL); }
  void deallocate(T *t, size_t n) {
    size_t *p = reinterpret_cast<size_t *>(t) - 2;
    if (p[0] != n * sizeof(T)) sim::violation("allocator", "allocated %zu bytes, deallocated as %zu", p[0], n * sizeof(T));
    if (p[1] != reinterpret_cast<size_t>(a)) sim::violation("allocator", "memory returned to a different allocator");
    a->add(-1);
    ::operator delete(reinterpret_cast<char *>(t) - AL, std::align_val_t{AL});
  }
  template <class U> bool operator==(const Alloc<U> &o) const { return a == o.a; }
  template <class U> bool operator!=(const Alloc<U> &o) const { return a != o.a; }
};

} // namespace h

namespace portable_concurrency {
template <> struct is_executor<h::Exec> : std::true_type {};
} // namespace portable_concurrency
