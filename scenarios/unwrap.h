#pragma once
// A task or continuation returns a future: the outer future must follow the inner one.
#include "source.h"
using namespace h;

namespace {
template <class T, bool Shared> using InnerF = std::conditional_t<Shared, pc::shared_future<T>, pc::future<T>>;
class OneAddr { const void *p_ = nullptr; public: NOSAN void see(const void *q) { if (!q) return; if (p_ && p_ != q) sim::violation("wrong-object", "an unwrapped shared_future shows another object than the inner one"); p_ = q; } };

template <class T, bool Shared> struct Unwrap {
  Env inner, trigger;
  Mark outer_done, never;      // the function has returned (or was skipped) and its caller is back
  Count ran;
  bool throws = false, invalid = false;
  InnerF<T, Shared> held;      // handed out by the function
  pc::shared_future<T> copy;   // kept by the workload when Shared
  OneAddr addr;
  Unwrap() : inner(100 + (int)choose(50)), trigger(10 + (int)choose(50)) {}
  struct Fn {
    Unwrap *u; Token t;
    InnerF<T, Shared> operator()() {
      t.used();
      if (u->ran.inc() != 1) sim::violation("ran-twice", "a function ran twice");
      if (u->throws) { sim::count_fault(sim::F_TASK_THROW); raise_err(5); }
      return std::move(u->held);
    }
  };
  Fn fn() { return Fn{this, Token{}}; }
  // outer outcome if the function runs
  Out want() const { return throws ? Out{ERROR, 5} : invalid ? Out{BROKEN, 0} : inner.want<T>(); }
};

template <class T> int get_any(pc::future<T> &f) { return K<T>::get(f); }
template <class T> int get_any(pc::shared_future<T> &f) { return K<T>::get(f); }
template <class T> void addr_any(OneAddr &, pc::future<T> &) {}
template <class T> void addr_any(OneAddr &a, pc::shared_future<T> &f) { a.see(K<T>::addr(f)); }

template <class T, class E, class B> pc::future<Val> next_any(pc::future<T> &f, E e, B b) {
  if constexpr (std::is_void<T>::value) return f.next(e, [b = std::move(b)]() mutable { return b(); });
  else return f.next(e, [b = std::move(b)](T v) mutable { return b(v); });
}
template <class T, class E, class B> pc::future<Val> next_any(pc::shared_future<T> &f, E e, B b) {
  if constexpr (std::is_void<T>::value) return f.next(e, [b = std::move(b)]() mutable { return b(); });
  else return f.next(e, [b = std::move(b)](const T &v) mutable { return b(v); });
}
template <class T, bool Shared, class F> void consume_outer(Unwrap<T, Shared> &u, F f, Out want, bool by_inner, Core &core, Event *finished, bool inline_all) {
  if (finished) {
    finished->wait();
    if (inline_all && !f.is_ready()) sim::violation("late-ready", "the outer future is not ready although the function returned and the inner future is ready");
  }
  if (by_inner) for (unsigned i = choose(3); i > 0; --i) observe(f, u.inner);
  Count ran;
  using FF = F;
  switch (choose(9)) {
  case 0: sim::count_fault(sim::F_CANCEL); f = FF{}; return;
  case 6: case 7: { // next(): skipped if the inner result is an error
    bool on_exec = choose(2);
    auto body = [&, t = Token{}](auto &&...v) { t.used(); if (ran.inc() != 1) sim::violation("ran-twice", "a continuation of the outer future ran twice"); if (by_inner) u.inner.ready_seen("next() of the outer future"); int got = 0; (void)std::initializer_list<int>{0, (got = v.id())...}; if (got != want.id) sim::violation("wrong-value", "next() of the outer future received %d instead of %d", got, want.id); return Val{want.id + 1000}; };
    auto g = on_exec ? next_any<T>(f, Exec{core}, std::move(body)) : next_any<T>(f, pc::inplace_executor, std::move(body));
    Out w = want; if (w.kind == VALUE) w.id += 1000;
    expect_out(outcome([&] { return g.get().id(); }), w, "next() of the outer future");
    if (ran.get() != (want.kind == VALUE)) sim::violation("ran-wrong", "next() function of the outer future ran %d times", ran.get());
    return;
  }
  case 8: { // shared and used through copies
    pc::shared_future<T> a{std::move(f)}, b = a;
    if (choose(2)) { auto g = a.then([&](pc::shared_future<T> x) { ran.inc(); expect_out(outcome([&] { return K<T>::get(x); }), want, "continuation of a copy of the outer future"); }); g.wait(); if (ran.get() != 1) sim::violation("lost-continuation", "continuation of the outer future ran %d times", ran.get()); }
    const void *pa = nullptr, *pb = nullptr;
    expect_out(outcome([&] { pa = K<T>::addr(a); return K<T>::get(a); }), want, "shared outer future");
    if (choose(2)) drop(a);
    expect_out(outcome([&] { pb = K<T>::addr(b); return K<T>::get(b); }), want, "shared outer future");
    if (pa != pb) sim::violation("wrong-object", "two copies of a shared_future show different objects");
    return;
  }
  case 1: f.wait(); if (by_inner) u.inner.ready_seen("wait() on the outer future"); break;
  case 2: {
    auto g = f.then([&, t = Token{}](FF f) {
      t.used();
      if (ran.inc() != 1) sim::violation("ran-twice", "a continuation of the outer future ran twice");
      if (!f.is_ready()) sim::violation("unready", "a continuation received a future that is not ready");
      if (by_inner) u.inner.ready_seen("continuation of the outer future");
      expect_out(outcome([&] { addr_any<T>(u.addr, f); return get_any<T>(f); }), want, "continuation of the outer future");
    });
    expect_out(outcome([&] { g.get(); return 0; }), {VALUE, 0}, "continuation result");
    if (ran.get() != 1) sim::violation("lost-continuation", "continuation of the outer future ran %d times", ran.get());
    return;
  }
  case 3: {
    auto g = f.then(Exec{core}, [&, t = Token{}](FF f) {
      t.used(); ran.inc();
      if (by_inner) u.inner.ready_seen("continuation of the outer future");
      expect_out(outcome([&] { addr_any<T>(u.addr, f); return get_any<T>(f); }), want, "continuation of the outer future");
    });
    g.wait();
    if (ran.get() != 1) sim::violation("lost-continuation", "continuation of the outer future ran %d times", ran.get());
    return;
  }
  default: break;
  }
  expect_out(outcome([&] { addr_any<T>(u.addr, f); return get_any<T>(f); }), want, "outer future");
  if (by_inner) u.inner.ready_seen("get() on the outer future");
}

template <class T, bool Shared> void unwrap_body() {
  using U = Unwrap<T, Shared>;
  using FF = InnerF<T, Shared>;
  U u;
  Core core; core.randomise();
  sim::Threads workers;
  u.throws = choose(8) == 7; u.invalid = choose(6) == 5;
  std::unique_ptr<Producer> inner_prod, outer_prod;
  pc::future<T> inner_f;
  if (!u.invalid) {
    bool inner_first = choose(4) == 3;
    inner_prod = make_source<T>(u.inner, inner_f, nullptr);
    if (inner_first) { inner_prod->run(); inner_prod = make_producer([] {}); }
    if constexpr (Shared) { u.copy = inner_f.share(); u.held = u.copy; if (choose(2)) u.copy = {}; }
    else u.held = std::move(inner_f);
  } else inner_prod = make_producer([] {});
  // the outer future
  Out want = u.want();
  bool by_inner = !u.throws && !u.invalid;
  bool inline_all = true;
  FF outer;
  int kind = (int)choose(7);
  pc::future<Val> trig;
  if (kind >= 2) outer_prod = make_source<Val>(u.trigger, trig, nullptr);
  bool use_exec = choose(2);
  if (use_exec || kind == 1) inline_all = false;
  u.inner.also = inline_all ? &u.outer_done : &u.never;
  switch (kind) {
  case 0: {
    pc::packaged_task<FF()> task{u.fn()};
    outer = task.get_future();
    int how = (int)choose(4);
    if (how == 3) { want = {BROKEN, 0}; by_inner = false; }
    inline_all = true; u.inner.also = &u.outer_done;
    outer_prod = make_producer([task = std::move(task), how]() mutable { if (how == 3) { sim::count_fault(sim::F_ABANDON); task = pc::packaged_task<FF()>{}; return; } task(); if (how == 2) task = pc::packaged_task<FF()>{}; });
    break;
  }
  case 1:
    outer = pc::async(Exec{core}, u.fn());
    outer_prod = make_producer([] {});
    break;
  case 2: outer = use_exec ? trig.then(Exec{core}, [fn = u.fn()](pc::future<Val> f) mutable { if (!f.is_ready()) sim::violation("unready", "a continuation received a future that is not ready"); return fn(); }) : trig.then([fn = u.fn()](pc::future<Val>) mutable { return fn(); }); break;
  case 3: { auto s = trig.share(); outer = use_exec ? s.then(Exec{core}, [fn = u.fn()](pc::shared_future<Val>) mutable { return fn(); }) : s.then([fn = u.fn()](pc::shared_future<Val>) mutable { return fn(); }); break; }
  case 4: outer = use_exec ? trig.next(Exec{core}, [fn = u.fn()](Val) mutable { return fn(); }) : trig.next([fn = u.fn()](Val) mutable { return fn(); }); break;
  case 5: { auto s = trig.share(); outer = use_exec ? s.next(Exec{core}, [fn = u.fn()](const Val &) mutable { return fn(); }) : s.next([fn = u.fn()](const Val &) mutable { return fn(); }); break; }
  default: { // two levels: what the function returns is itself the result of unwrapping
    auto mid = trig.next([](Val) {}).then([](pc::future<void>) {});
    outer = mid.next([&u, &core, use_exec, fn = u.fn()]() mutable -> FF {
      auto inner_trigger = pc::make_ready_future();
      FF res = use_exec ? inner_trigger.next(Exec{core}, [fn = std::move(fn)]() mutable { return fn(); }) : inner_trigger.next([fn = std::move(fn)]() mutable { return fn(); });
      return res;
    });
    break;
  }
  }
  if ((kind == 4 || kind == 5) && u.trigger.kind != VALUE) { want = {u.trigger.kind, u.trigger.id}; by_inner = false; }
  core.start(workers, 1);
  {
    sim::Threads th, cons;
    Event finished;
    Event *fin = choose(3) == 2 ? &finished : nullptr;
    if (Shared && choose(2)) {
      if constexpr (Shared) cons.start([&, f = outer, fin]() mutable { consume_outer<T, Shared>(u, std::move(f), want, by_inner, core, fin, inline_all); });
    }
    if constexpr (Shared) if (u.copy.valid() && by_inner) cons.start([&, f = u.copy]() mutable { expect_out(outcome([&] { u.addr.see(K<T>::addr(f)); return K<T>::get(f); }), u.inner.template want<T>(), "inner shared_future"); });
    cons.start([&, f = std::move(outer), fin]() mutable { consume_outer<T, Shared>(u, std::move(f), want, by_inner, core, fin, inline_all); });
    th.start([&, p = std::move(inner_prod)]() mutable { p->run(); if (choose(2)) p.reset(); });
    th.start([&, p = std::move(outer_prod)]() mutable { p->run(); u.outer_done.here(); if (choose(2)) p.reset(); });
    th.join_all();
    finished.signal();
    cons.join_all();
  }
  core.close();
  workers.join_all();
  u.held = FF{}; u.copy = {};
  if (u.inner.arena.get()) sim::violation("leak", "memory not returned to the user's allocator");
}
} // namespace
