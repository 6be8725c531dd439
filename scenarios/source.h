// Producers of a result, in all the ways the library offers.
#pragma once
#include "harness.h"

namespace h {

struct Env {
  int id = 0;          // identity of the value or error
  int kind = VALUE;    // VALUE, ERROR or BROKEN
  Side *side = nullptr;
  Val *target = nullptr;
  Mark started, done;  // the producer begins / has finished storing the result
  Arena arena;
  Count cancels;       // cancel action runs
  const Mark *also = nullptr; // readiness additionally needs this
  ~Env() { delete side; delete target; }
  explicit Env(int id_, bool with_broken = true) : id(id_) {
    side = new Side; target = new Val(id_);
    int k = (int)choose(4);
    kind = k == 2 ? ERROR : k == 3 && with_broken ? BROKEN : VALUE;
  }
  template <class T> Out want() const { return {kind, kind == VALUE ? expected_id<T>(id) : id}; }
  // called by whoever has observed readiness through the library
  void ready_seen(const char *how) {
    if (!started.set()) sim::violation("early-ready", "%s reports readiness before the result was stored", how);
    int x = side->x; // must be published: a race is reported here otherwise
    if (x != id) sim::violation("not-published", "%s: effects of the producer are not visible", how);
  }
  NOSAN bool must_be_ready() const { return done.before_me() && (!also || also->before_me()); }
};

struct Producer { virtual void run() = 0; virtual ~Producer() = default; };
template <class F> struct ProducerFn final : Producer { F f; explicit ProducerFn(F &&f_) : f(std::move(f_)) {} void run() override { f(); } };
template <class F> std::unique_ptr<Producer> make_producer(F f) { return std::unique_ptr<Producer>(new ProducerFn<F>(std::move(f))); }

// stores the result through a promise
template <class T> void fulfil(Env &e, pc::promise<T> &p) {
  e.side->x = e.id;
  if (choose(2)) sim::yield();
  e.started.here();
  in_context([&] {
    if (e.kind == VALUE) K<T>::set(p, e.id, e.target);
    else if (e.kind == ERROR) p.set_exception(err_ptr(e.id));
    else { sim::count_fault(sim::F_ABANDON); if (choose(2)) { pc::promise<T> q = std::move(p); } else { p = pc::promise<T>{}; } }
  });
  e.done.here();
}

enum { SRC_MAKE_PROMISE, SRC_PROMISE, SRC_ALLOC, SRC_ALLOC_PROMISE, SRC_CANCELER, SRC_CANCELER_PROMISE, SRC_TASK, SRC_ASYNC, SRC_COUNT };

// exec may be null: then no async
template <class T> std::unique_ptr<Producer> make_source(Env &e, pc::future<T> &out, Core *core = nullptr) {
  int how = (int)choose(core ? SRC_COUNT : SRC_COUNT - 1);
  auto on_cancel = [&e] { e.cancels.inc(); };
  switch (how) {
  case SRC_TASK: case SRC_ASYNC: {
    auto fn = [&e, t = Token{}]() -> T {
      t.used();
      e.side->x = e.id;
      e.started.here();
      if (e.kind == ERROR) { sim::count_fault(sim::F_TASK_THROW); raise_err(e.id); }
      return K<T>::make(e.id, e.target);
    };
    if constexpr (!std::is_reference<T>::value) // async does not support functions returning references
      if (how == SRC_ASYNC && e.kind != BROKEN) {
        if (choose(2)) { const Exec ex{*core}; out = pc::async(ex, std::move(fn)); } else { Exec ex{*core}; out = pc::async(ex, std::move(fn)); ex.core(); }
        return make_producer([] {});
      }
    pc::packaged_task<T()> task{std::move(fn)};
    out = task.get_future();
    return make_producer([&e, task = std::move(task)]() mutable {
      if (e.kind == BROKEN) {
        e.side->x = e.id;
        e.started.here();
        sim::count_fault(sim::F_ABANDON);
        in_context([&] { if (choose(2)) { pc::packaged_task<T()> t2 = std::move(task); } else task = pc::packaged_task<T()>{}; });
      } else in_context([&] { task(); });
      e.done.here();
    });
  }
  default: {
    std::pair<pc::promise<T>, pc::future<T>> pf = [&]() -> std::pair<pc::promise<T>, pc::future<T>> {
      switch (how) {
      case SRC_ALLOC: return pc::make_promise<T>(Alloc<char>{e.arena});
      case SRC_CANCELER: return pc::make_promise<T>(pc::canceler_arg, on_cancel);
      case SRC_PROMISE: { pc::promise<T> p; auto f = p.get_future(); return {std::move(p), std::move(f)}; }
      case SRC_ALLOC_PROMISE: { pc::promise<T> p{std::allocator_arg, Alloc<char>{e.arena}}; auto f = p.get_future(); return {std::move(p), std::move(f)}; }
      case SRC_CANCELER_PROMISE: { pc::promise<T> p{pc::canceler_arg, on_cancel}; auto f = p.get_future(); return {std::move(p), std::move(f)}; }
      default: return pc::make_promise<T>();
      }
    }();
    out = std::move(pf.second);
    return make_producer([&e, p = std::move(pf.first)]() mutable { fulfil(e, p); });
  }
  }
}

// ---- operations a holder of a future may perform before taking the result
template <class F> void observe(F &f, Env &e, bool may_block = true) {
  bool must = e.must_be_ready();
  switch (choose(may_block ? 7 : 3)) {
  case 0: {
    bool r = f.is_ready();
    if (r) e.ready_seen("is_ready()");
    else if (must) sim::violation("late-ready", "is_ready() is false although the result was stored before");
    break;
  }
  case 1: { // deprecated member functions, also with no or negative time
    int64_t ns = (int64_t)choose(3) * 500 - 500;
    int64_t t0 = sim::mono_ns();
    auto st = f.wait_for(std::chrono::nanoseconds(ns));
    if (st == pc::future_status::ready) e.ready_seen("wait_for()");
    else {
      if (must) sim::violation("late-ready", "wait_for() reports timeout although the result was stored before");
      if (sim::mono_ns() - t0 < ns) sim::violation("early-timeout", "wait_for() returned timeout too early");
    }
    break;
  }
  case 2: {
    pc::timed_waiter w{f};
    int n = 1 + (int)choose(2);
    for (int i = 0; i < n; ++i) {
      auto st = w.wait_until(std::chrono::steady_clock::now() + std::chrono::nanoseconds(choose(3) * 400));
      if (st == pc::future_status::ready) e.ready_seen("timed_waiter");
      else if (must) sim::violation("late-ready", "timed_waiter reports timeout although the result was stored before");
    }
    break;
  }
  case 3: f.wait(); e.ready_seen("wait()"); if (!f.is_ready()) sim::violation("unready", "is_ready() is false after wait()"); break;
  case 4: {
    struct Note { Event ev{false}; Count n; Env &e; Token t; explicit Note(Env &e_) : e(e_) {} };
    auto note = std::make_shared<Note>(e);
    Event *ev = &note->ev;
    f.notify([note] { note->t.used(); note->e.ready_seen("notification"); if (note->n.inc() != 1) sim::violation("ran-twice", "a notification ran twice"); note->ev.signal(); });
    if (must && !ev->is_set()) sim::violation("late-notify", "notification on a ready future did not run at once");
    ev->wait();
    break;
  }
  case 5: {
    pc::timed_waiter w{f};
    if (w.wait_for(std::chrono::hours(1000)) != pc::future_status::ready) {
      if (sim::mono_ns() < 1000000000000ll + 3600ll * 1000 * 1000000000ll) sim::violation("early-timeout", "timed_waiter timed out too early");
    } else e.ready_seen("timed_waiter");
    break;
  }
  default: sim::yield(); break;
  }
}

} // namespace h
