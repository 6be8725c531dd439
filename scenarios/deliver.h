#pragma once
// Delivery of one result from any producer to any consumer, on real threads of the simulation.
#include "source.h"
using namespace h;

namespace {

template <class T> int take(pc::future<T> &f) { return K<T>::get(f); }

template <class T> auto checked_then(Env &e, Count &ran, bool own_executor = false) {
  return [&e, &ran, t = Token{}](pc::future<T> f) {
    t.used();
    if (ran.inc() != 1) sim::violation("ran-twice", "a continuation ran twice");
    if (!f.valid() || !f.is_ready()) sim::violation("unready", "a continuation received a future that is not ready");
    e.ready_seen("continuation");
    Out o = outcome([&] { return K<T>::get(f); });
    expect_out(o, e.want<T>(), "continuation");
    return Val{e.id + 1000};
  };
}
template <class T> struct NextFn {
  Env &e; Count &ran; Token t;
  Val operator()(T v) { t.used(); if (ran.inc() != 1) sim::violation("ran-twice", "a continuation ran twice"); e.ready_seen("next()"); if (v.id() != e.id) sim::violation("wrong-value", "next() received %d instead of %d", v.id(), e.id); return Val{e.id + 1000}; }
};
template <> struct NextFn<void> {
  Env &e; Count &ran; Token t;
  Val operator()() { t.used(); if (ran.inc() != 1) sim::violation("ran-twice", "a continuation ran twice"); e.ready_seen("next()"); return Val{e.id + 1000}; }
};

// ---------------------------------------------------------------- unique future
template <class T> void deliver() {
  Env e(7 + (int)choose(90));
  Core core; core.randomise();
  sim::Threads workers;
  {
    sim::Threads th;
    pc::future<T> fut;
    auto prod = make_source<T>(e, fut, &core);
    core.start(workers, 1 + (int)choose(2));
    Count ran;
    th.start([p = std::move(prod)]() mutable { p->run(); if (choose(2)) p.reset(); });
    th.start([&, f = std::move(fut)]() mutable {
      for (unsigned i = choose(3); i > 0; --i) observe(f, e);
      switch (choose(7)) {
      case 0: case 1: expect_out(outcome([&] { return K<T>::get(f); }), e.want<T>(), "get()"); e.ready_seen("get()"); break;
      case 2: { auto g = f.then(checked_then<T>(e, ran)); expect_out(outcome([&] { return g.get().id(); }), {VALUE, e.id + 1000}, "then()"); if (ran.get() != 1) sim::violation("lost-continuation", "then() function did not run"); break; }
      case 3: { auto g = f.then(Exec{core}, checked_then<T>(e, ran)); expect_out(outcome([&] { return g.get().id(); }), {VALUE, e.id + 1000}, "then(exec)"); break; }
      case 4: { auto g = f.next(NextFn<T>{e, ran, Token{}}); Out w = e.want<T>(); if (w.kind == VALUE) w.id = e.id + 1000; expect_out(outcome([&] { return g.get().id(); }), w, "next()"); if (ran.get() != (e.kind == VALUE)) sim::violation("skip", "next() function ran %d times", ran.get()); break; }
      case 5: { auto g = f.next(Exec{core}, NextFn<T>{e, ran, Token{}}); Out w = e.want<T>(); if (w.kind == VALUE) w.id = e.id + 1000; expect_out(outcome([&] { return g.get().id(); }), w, "next(exec)"); break; }
      default: { // interruptible continuation
        auto g = f.then([&](pc::promise<Val> p, pc::future<T> f) {
          if (ran.inc() != 1) sim::violation("ran-twice", "a continuation ran twice");
          if (!f.is_ready()) sim::violation("unready", "a continuation received a future that is not ready");
          e.ready_seen("interruptible continuation");
          expect_out(outcome([&] { return K<T>::get(f); }), e.want<T>(), "interruptible continuation");
          if (!p.is_awaiten()) sim::violation("not-awaiten", "is_awaiten() is false although the result is awaited");
          p.set_value(Val{e.id + 1000});
        });
        expect_out(outcome([&] { return g.get().id(); }), {VALUE, e.id + 1000}, "interruptible then()");
        break;
      }
      }
      if (f.valid()) sim::violation("valid", "a consumed future is still valid");
    });
    th.join_all();
    core.close();
  }
  workers.join_all();
  if (e.cancels.get()) sim::violation("cancelled", "the cancel action ran although a result was stored or the promise abandoned");
  if (e.arena.get()) sim::violation("leak", "memory not returned to the user's allocator");
}
} // namespace

