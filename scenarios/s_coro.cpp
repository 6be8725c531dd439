// std=c++20
// Coroutines awaiting futures.
#include "source.h"
using namespace h;
#if !defined(PC_HAS_COROUTINES)
#error "coroutine support of the library is not enabled"
#endif

namespace {
struct CTok { // lives in a coroutine frame
  unsigned magic = ALIVE;
  CTok() { sim::obj_new(sim::O_CORO); }
  CTok(const CTok &) = delete;
  ~CTok() { check(); magic = DEAD; sim::obj_del(sim::O_CORO); }
  void check() const { if (magic != ALIVE) sim::violation("dead-object", "a coroutine runs on a destroyed frame"); }
};
struct Co {
  Env *e; Count entered, resumed, finished; int end = 0; // end: 0 return, 1 throw, 2 rethrow what was awaited
  int started_by = -1;
};
template <class T> void resumed(Co &c, const CTok &t) {
  t.check();
  if (c.resumed.inc() != 1) sim::violation("resumed-twice", "a coroutine was resumed twice");
  c.e->ready_seen("co_await");
}
template <class T> int id_of(T &&v) { return v.id(); }

template <class T> pc::future<Val> awaiting(Co &c, pc::future<T> f) {
  CTok t;
  c.entered.inc();
  Out o{VALUE, 0};
  std::exception_ptr err;
  try {
    if constexpr (std::is_void<T>::value) { co_await f; o = {VALUE, 0}; }
    else if constexpr (std::is_reference<T>::value) { Val &v = co_await f; o = {VALUE, v.id()}; if (&v != c.e->target) sim::violation("wrong-object", "co_await yields another object"); }
    else { auto v = co_await f; o = {VALUE, v.id()}; }
  } catch (...) { err = std::current_exception(); }
  resumed<T>(c, t);
  if (err) o = outcome([&]() -> int { std::rethrow_exception(err); });
  expect_out(o, c.e->want<T>(), "co_await");
  if (choose(2)) sim::yield();
  t.check();
  c.finished.inc();
  if (c.end == 1) raise_err(77);
  if (c.end == 2 && err) std::rethrow_exception(err);
  co_return Val{66};
}
template <class T> Out co_want(const Co &c) { if (c.end == 1) return {ERROR, 77}; if (c.end == 2 && c.e->kind != VALUE) return {c.e->kind, c.e->id}; return {VALUE, 66}; }

template <class T> void coro_body() {
  Env e(7 + (int)choose(60));
  Core core; core.randomise();
  sim::Threads workers;
  Co c; c.e = &e; c.end = (int)choose(3);
  bool drop = false;
  {
    sim::Threads th;
    pc::future<T> f;
    auto prod = make_source<T>(e, f, choose(2) ? &core : nullptr);
    core.start(workers, 1);
    if (choose(5) == 4) { prod->run(); prod = make_producer([] {}); }
    th.start([p = std::move(prod)]() mutable { p->run(); if (choose(2)) p.reset(); });
    th.start([&, f = std::move(f)]() mutable {
      if (choose(2)) sim::yield();
      pc::future<Val> r = awaiting<T>(c, std::move(f));
      if (!r.valid()) sim::violation("invalid", "a coroutine returned an invalid future");
      switch (choose(4)) {
      case 0: drop = true; sim::count_fault(sim::F_CANCEL); r = {}; break;
      case 1: { auto g = r.then(Exec{core}, [&](pc::future<Val> f) { return outcome([&] { return f.get().id(); }); }); Out o = g.get(); expect_out(o, co_want<T>(c), "continuation of a coroutine"); break; }
      case 2: { auto s = r.share(); s.wait(); if (c.finished.get() != 1) sim::violation("early-ready", "the future of a coroutine is ready before it ended"); expect_out(outcome([&] { return s.get().id(); }), co_want<T>(c), "coroutine"); break; }
      default: expect_out(outcome([&] { return r.get().id(); }), co_want<T>(c), "coroutine"); break;
      }
    });
    th.join_all();
    core.close();
  }
  workers.join_all();
  if (c.entered.get() != 1 || c.resumed.get() != 1 || c.finished.get() != 1) sim::violation("not-resumed", "a coroutine was entered %d, resumed %d, finished %d times", c.entered.get(), c.resumed.get(), c.finished.get());
  if (e.cancels.get()) sim::violation("cancelled", "awaited work was cancelled");
}

template <class T> pc::future<void> awaiting_shared(Co &c, pc::shared_future<T> s, const void **seen) {
  CTok t;
  c.entered.inc();
  Out o{VALUE, 0}; std::exception_ptr err;
  try { const Val &v = co_await s; o = {VALUE, v.id()}; *seen = &v; } catch (...) { err = std::current_exception(); }
  resumed<T>(c, t);
  if (err) o = outcome([&]() -> int { std::rethrow_exception(err); });
  expect_out(o, c.e->want<T>(), "co_await of a shared_future");
  if (!s.valid()) sim::violation("invalidated", "co_await invalidated the shared_future");
  c.finished.inc();
}
pc::future<Val> twice(Co &a, Co &b, pc::future<Val> fa, pc::future<Val> fb, Core *core) {
  CTok t;
  int sum = 0;
  try { Val v = co_await fa; sum += v.id(); } catch (const Err &e) { sum += e.id(); } catch (const std::future_error &) { sum += 1000; }
  resumed<Val>(a, t);
  auto g = core ? fb.then(Exec{*core}, [](pc::future<Val> f) { return f; }) : std::move(fb);
  try { Val v = co_await g; sum += v.id(); } catch (const Err &e) { sum += e.id(); } catch (const std::future_error &) { sum += 1000; }
  resumed<Val>(b, t);
  a.finished.inc();
  co_return Val{sum};
}
pc::future<int> outer_co(pc::future<Val> inner, Count &n) { CTok t; Val v = co_await inner; t.check(); n.inc(); co_return v.id() + 1; }
pc::future<Val &> ref_co(Env &e, pc::future<void> f) { CTok t; co_await f; t.check(); co_return *e.target; }
} // namespace

SCENARIO_W(coro_val, "C20,C17", 2) { coro_body<Val>(); }
SCENARIO(coro_mval, "C20") { coro_body<MVal>(); }
SCENARIO(coro_void, "C20") { coro_body<void>(); }
SCENARIO(coro_ref, "C20") { coro_body<Val &>(); }

SCENARIO_W(coro_shared, "C20,C21", 2) {
  Env e(7 + (int)choose(60));
  Co c[3]; const void *seen[3] = {};
  unsigned n = 1 + choose(3);
  {
    sim::Threads th;
    pc::future<Val> f;
    auto prod = make_source<Val>(e, f, nullptr);
    auto s = f.share();
    th.start([p = std::move(prod)]() mutable { p->run(); });
    for (unsigned i = 0; i < n; ++i) {
      c[i].e = &e;
      th.start([&, i, s]() mutable { auto r = awaiting_shared<Val>(c[i], std::move(s), &seen[i]); if (choose(2)) { r.get(); if (c[i].finished.get() != 1) sim::violation("early-ready", "the future of a coroutine is ready before it ended"); } });
    }
    th.join_all();
    const void *addr = e.kind == VALUE ? &s.get() : nullptr;
    for (unsigned i = 0; i < n; ++i) {
      if (c[i].resumed.get() != 1 || c[i].finished.get() != 1) sim::violation("not-resumed", "a coroutine was resumed %d, finished %d times", c[i].resumed.get(), c[i].finished.get());
      if (seen[i] != addr) sim::violation("wrong-object", "coroutines awaiting copies of a shared_future see different objects");
    }
  }
}

SCENARIO(coro_twice, "C20,C04") {
  Env ea(100), eb(200);
  Co a, b; a.e = &ea; b.e = &eb;
  Core core; core.randomise();
  sim::Threads workers;
  core.start(workers, 1);
  {
    sim::Threads th;
    pc::future<Val> fa, fb;
    auto pa = make_source<Val>(ea, fa, nullptr), pb = make_source<Val>(eb, fb, nullptr);
    bool exec = choose(2);
    th.start([p = std::move(pa)]() mutable { p->run(); });
    th.start([p = std::move(pb)]() mutable { p->run(); });
    auto r = twice(a, b, std::move(fa), std::move(fb), exec ? &core : nullptr);
    auto w = [](Env &e) { return e.kind == BROKEN ? 1000 : e.id; };
    if (choose(3) == 2) r = {}; else expect_out(outcome([&] { return r.get().id(); }), {VALUE, w(ea) + w(eb)}, "coroutine with two awaits");
    th.join_all();
  }
  core.close();
  workers.join_all();
  if (a.finished.get() != 1) sim::violation("not-resumed", "a coroutine did not finish");
}

// coroutines awaiting coroutines, and the result of when_all
SCENARIO(coro_nested, "C20") {
  Env e(50 + (int)choose(9));
  Count n;
  {
    sim::Threads th;
    pc::future<Val> f;
    auto prod = make_source<Val>(e, f, nullptr);
    Co c; c.e = &e; c.end = 2;
    th.start([p = std::move(prod)]() mutable { p->run(); });
    auto r = outer_co(awaiting<Val>(c, std::move(f)), n);
    Out want = co_want<Val>(c); if (want.kind == VALUE) want.id++;
    expect_out(outcome([&] { return r.get(); }), want, "nested coroutine");
    th.join_all();
    if (n.get() != (want.kind == VALUE)) sim::violation("not-resumed", "outer coroutine");
  }
}
SCENARIO(coro_return_ref, "C20") {
  Env e(9);
  auto pf = pc::make_promise<void>();
  sim::Threads th;
  auto r = ref_co(e, std::move(pf.second));
  bool abandon = choose(3) == 2;
  th.start([&, p = std::move(pf.first)]() mutable { if (!abandon) p.set_value(); });
  Out o = outcome([&] { Val &v = r.get(); if (&v != e.target) sim::violation("wrong-object", "a coroutine returned another object"); return v.id(); });
  expect_out(o, abandon ? Out{BROKEN, 0} : Out{VALUE, 9}, "coroutine returning a reference");
}
// a coroutine is awaited after cancellation of what it returned, and its awaited work runs on a pool
SCENARIO(coro_pool, "C20,C13") {
  Count finished;
  struct L { static pc::future<int> run(pc::static_thread_pool &pool, Count &fin) { CTok t; int a = co_await pc::async(pool.executor(), [] { return 20; }); t.check(); int b = co_await pc::async(pool.executor(), [] { return 22; }); t.check(); fin.inc(); co_return a + b; } };
  {
    pc::static_thread_pool pool(1 + choose(2));
    auto f = L::run(pool, finished);
    if (choose(2)) { expect_out(outcome([&] { return f.get(); }), {VALUE, 42}, "coroutine on a pool"); if (finished.get() != 1) sim::violation("early-ready", "ready before the coroutine ended"); }
    else f = {};
  } // a stopped pool abandons the task: the coroutine is resumed with broken_promise and ends
}
