#pragma once
// One result, many threads, each with its own copy of a shared_future.
#include "source.h"
using namespace h;

// ---------------------------------------------------------------- shared future, several threads
namespace {
template <class T> auto shared_then_fn(Env &e, Count &ran) {
  return [&e, &ran, t = Token{}](pc::shared_future<T> f) {
    t.used();
    ran.inc();
    if (!f.valid() || !f.is_ready()) sim::violation("unready", "a continuation received a future that is not ready");
    e.ready_seen("continuation");
    expect_out(outcome([&] { return K<T>::get(f); }), e.want<T>(), "continuation");
    return Val{e.id + 1000};
  };
}
template <class T> struct SNextFn {
  Env &e; Count &ran; Token t;
  Val operator()(const T &v) { t.used(); ran.inc(); e.ready_seen("next()"); if (v.id() != e.id) sim::violation("wrong-value", "next() received %d instead of %d", v.id(), e.id); return Val{e.id + 1000}; }
};
template <> struct SNextFn<void> {
  Env &e; Count &ran; Token t;
  Val operator()() { t.used(); ran.inc(); e.ready_seen("next()"); return Val{e.id + 1000}; }
};
template <> struct SNextFn<Val &> {
  Env &e; Count &ran; Token t;
  Val operator()(Val &v) { t.used(); ran.inc(); e.ready_seen("next()"); if (&v != e.target) sim::violation("wrong-object", "next() received another object"); return Val{e.id + 1000}; }
};
class Addr { const void *p_ = nullptr; public: NOSAN void see(const void *q) { if (!q) return; if (p_ && p_ != q) sim::violation("wrong-object", "two copies of a shared_future show different objects"); p_ = q; } };

template <class T> void shared_use(Env &e, pc::shared_future<T> f, Core &core, Addr &addr) {
  pc::shared_future<T> keep;
  for (unsigned i = 1 + choose(3); i > 0; --i) {
    Count ran;
    switch (choose(10)) {
    case 0: case 1: {
      Out o = outcome([&] { addr.see(K<T>::addr(f)); return K<T>::get(f); });
      expect_out(o, e.want<T>(), "shared get()"); e.ready_seen("shared get()");
      break;
    }
    case 2: observe(f, e); break;
    case 3: observe(f, e); break;
    case 4: { auto g = f.then(shared_then_fn<T>(e, ran)); if (!f.valid()) sim::violation("invalidated", "then() invalidated the shared_future"); if (choose(2)) f = g.valid() ? f : f; expect_out(outcome([&] { return g.get().id(); }), {VALUE, e.id + 1000}, "shared then()"); if (ran.get() != 1) sim::violation("ran-wrong", "continuation ran %d times", ran.get()); break; }
    case 5: { auto g = f.then(Exec{core}, shared_then_fn<T>(e, ran)); if (!f.valid()) sim::violation("invalidated", "then() invalidated the shared_future"); expect_out(outcome([&] { return g.get().id(); }), {VALUE, e.id + 1000}, "shared then(exec)"); if (ran.get() != 1) sim::violation("ran-wrong", "continuation ran %d times", ran.get()); break; }
    case 6: { Out w = e.want<T>(); if (w.kind == VALUE) w.id = e.id + 1000; auto g = f.next(SNextFn<T>{e, ran, Token{}}); if (!f.valid()) sim::violation("invalidated", "next() invalidated the shared_future"); expect_out(outcome([&] { return g.get().id(); }), w, "shared next()"); if (ran.get() != (e.kind == VALUE)) sim::violation("ran-wrong", "continuation ran %d times", ran.get()); break; }
    case 7: { Out w = e.want<T>(); if (w.kind == VALUE) w.id = e.id + 1000; auto g = f.next(Exec{core}, SNextFn<T>{e, ran, Token{}}); expect_out(outcome([&] { return g.get().id(); }), w, "shared next(exec)"); if (ran.get() != (e.kind == VALUE)) sim::violation("ran-wrong", "continuation ran %d times", ran.get()); break; }
    case 8: {
      auto g = f.then([&](pc::promise<Val> p, pc::shared_future<T> f) {
        ran.inc(); e.ready_seen("interruptible continuation");
        expect_out(outcome([&] { return K<T>::get(f); }), e.want<T>(), "interruptible continuation");
        p.set_value(Val{e.id + 1000});
      });
      if (!f.valid()) sim::violation("invalidated", "interruptible then() invalidated the shared_future");
      expect_out(outcome([&] { return g.get().id(); }), {VALUE, e.id + 1000}, "interruptible shared then()");
      if (ran.get() != 1) sim::violation("ran-wrong", "continuation ran %d times", ran.get());
      break;
    }
    default: { pc::shared_future<T> c = f; if (choose(2)) keep = c; if (choose(2)) f = std::move(c); break; }
    }
  }
}
template <class T> void shared_deliver() {
  Env e(7 + (int)choose(90));
  Core core; core.randomise();
  Addr addr;
  sim::Threads workers;
  {
    sim::Threads th;
    pc::future<T> fut;
    auto prod = make_source<T>(e, fut, &core);
    core.start(workers, 1);
    pc::shared_future<T> sf = choose(2) ? fut.share() : pc::shared_future<T>(std::move(fut));
    th.start([p = std::move(prod)]() mutable { p->run(); if (choose(2)) p.reset(); });
    unsigned n = 1 + choose(3);
    for (unsigned i = 0; i < n; ++i) th.start([&, f = sf]() mutable { shared_use<T>(e, std::move(f), core, addr); });
    bool kept = !choose(2);
    if (!kept) drop(sf);
    th.join_all();
    if (sf.valid()) { // still the same after everybody is gone
      Out o = outcome([&] { addr.see(K<T>::addr(sf)); return K<T>::get(sf); });
      expect_out(o, e.want<T>(), "last copy");
    }
    if (kept ? e.cancels.get() : e.cancels.get() > 1) sim::violation("cancelled", "the cancel action ran although a result was stored or the promise abandoned");
    core.close();
  }
  workers.join_all();
}
} // namespace
