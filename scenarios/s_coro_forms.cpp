// std=c++20
// Coroutines of every result type, awaiting sequences of every kind of future.
#include "source.h"
using namespace h;

namespace {
struct Frame { // lives in a coroutine frame
  unsigned magic = ALIVE;
  Frame() { sim::obj_new(sim::O_CORO); }
  Frame(const Frame &) = delete;
  ~Frame() { check(); magic = DEAD; sim::obj_del(sim::O_CORO); }
  void check() const { if (magic != ALIVE) sim::violation("dead-object", "a coroutine runs on a destroyed frame"); }
};
enum { END_RETURN, END_THROW, END_RETHROW, END_THROW_FIRST, END_COPY_THROWS, END_COUNT };
enum { AW_FUTURE, AW_SHARED, AW_SHARED_LVALUE, AW_ASYNC, AW_THEN, AW_NEXT_EXEC, AW_ALL, AW_ANY, AW_READY, AW_TEMP, AW_FAILED, AW_COUNT };
struct Plan {
  Core *core; sim::Threads *th; Val *target;
  int n = 0, end = 0; bool drop = false;
  int kind[4] = {}, fails[4] = {}, id[4] = {};
  pc::future<Val> in[4];
  Count entered, steps, done, resumes[4];
  int sum() const { int s = 0; for (int i = 0; i < n; ++i) s += fails[i] ? 1000 : id[i]; return s; }
};
// what is awaited in step i; the promise is completed by another thread at any time
void prepare(Plan &c, int i) {
  auto pf = pc::make_promise<Val>(); c.in[i] = std::move(pf.second);
  if (c.kind[i] == AW_ASYNC || c.kind[i] == AW_READY) return;
  auto fulfil = [k = c.id[i], fails = c.fails[i], p = std::move(pf.first)]() mutable { if (choose(2)) sim::yield(); if (fails == 1) p.set_exception(err_ptr(k)); else if (fails == 2) { pc::promise<Val> gone = std::move(p); } else p.set_value(Val{k}); };
  if (choose(4) == 3) fulfil(); else c.th->start(std::move(fulfil));
}
pc::future<Val> input(Plan &c, int i) { return std::move(c.in[i]); }

#define RESUMED() do { fr.check(); if (c.resumes[i].inc() != 1) sim::violation("resumed-twice", "a coroutine was resumed twice"); } while (0)
template <class R> struct Ret;
template <class Fut, class R> Fut run(Plan &c) {
  Frame fr;
  c.entered.inc();
  if (c.end == END_THROW_FIRST) { c.done.inc(); raise_err(501); }
  int sum = 0; std::exception_ptr last;
  for (int i = 0; i < c.n; ++i) {
    int got = -1;
    try {
      switch (c.kind[i]) {
      case AW_FUTURE: { auto f = input(c, i); Val v = co_await f; RESUMED(); got = v.id(); if (f.valid()) sim::violation("valid", "an awaited future is still valid"); break; }
      case AW_SHARED: { Val v = co_await input(c, i).share(); RESUMED(); got = v.id(); break; }
      case AW_SHARED_LVALUE: { auto s = input(c, i).share(); const Val &v = co_await s; RESUMED(); got = v.id(); if (&s.get() != &v || !s.valid()) sim::violation("wrong-object", "co_await of a shared_future yields another object"); break; }
      case AW_ASYNC: { int k = c.id[i]; bool bad = c.fails[i]; Val v = co_await pc::async(Exec{*c.core}, [k, bad, t = Token{}] { t.used(); if (bad) raise_err(k); return Val{k}; }); RESUMED(); got = v.id(); break; }
      case AW_THEN: { auto f = input(c, i).then(Exec{*c.core}, [t = Token{}](pc::future<Val> x) { t.used(); return x.get(); }); Val v = co_await f; RESUMED(); got = v.id(); break; }
      case AW_NEXT_EXEC: { Val v = co_await input(c, i).next(Exec{*c.core}, [t = Token{}](Val x) { t.used(); return x; }); RESUMED(); got = v.id(); break; }
      case AW_ALL: { auto r = co_await pc::when_all(input(c, i), pc::make_ready_future(1)); RESUMED(); if (!std::get<0>(r).is_ready()) sim::violation("early-ready", "co_await of when_all returned too early"); got = std::get<0>(r).get().id(); break; }
      case AW_ANY: { pc::promise<Val> never; auto r = co_await pc::when_any(never.get_future(), input(c, i)); RESUMED(); if (r.index != 1) sim::violation("wrong-index", "when_any names input %zu", r.index); got = std::get<1>(r.futures).get().id(); break; }
      case AW_READY: { bool bad = c.fails[i]; auto f = bad ? pc::make_exceptional_future<Val>(Err{c.id[i]}) : pc::make_ready_future(Val{c.id[i]}); Val v = co_await f; RESUMED(); got = v.id(); break; }
      case AW_TEMP: { Val v = co_await input(c, i); RESUMED(); got = v.id(); break; }
      default: { auto f = input(c, i).next([t = Token{}](Val x) { t.used(); return x.id(); }); got = co_await f; RESUMED(); }
      }
      if (c.fails[i]) sim::violation("wrong-outcome", "co_await of a failed future yields a value");
      sum += got;
      if (got != c.id[i]) sim::violation("wrong-value", "co_await yields %d instead of %d", got, c.id[i]);
    } catch (const Err &e) { if (c.fails[i] == 0 || e.id() != c.id[i]) sim::violation("wrong-outcome", "co_await throws error %d", e.id()); if (!c.resumes[i].get()) RESUMED(); last = std::current_exception(); sum += 1000; }
    catch (const std::future_error &) { if (c.fails[i] != 2) sim::violation("wrong-outcome", "co_await throws future_error"); if (!c.resumes[i].get()) RESUMED(); last = std::current_exception(); sum += 1000; }
    c.steps.inc();
    if (choose(3) == 2) sim::yield();
  }
  fr.check();
  c.done.inc();
  if (c.end == END_THROW) raise_err(502);
  if (c.end == END_RETHROW && last) std::rethrow_exception(last);
  if constexpr (std::is_void<R>::value) co_return;
  else if constexpr (std::is_reference<R>::value) co_return *c.target;
  else if constexpr (std::is_same<R, MVal>::value) co_return MVal{sum};
  else {
    if (c.end == END_COPY_THROWS) { const Val k{sum}; Faulty::countdown() = 1; co_return k; }
    if (choose(2)) co_return Val{sum};
    Val local{sum}; const Val &cr = local;
    if (choose(2)) { co_return cr; } // copied
    co_return local;
  }
}
template <class R> int take(pc::future<R> &f) { if constexpr (std::is_void<R>::value) { f.get(); return 0; } else return f.get().id(); }
template <class R> int take(pc::shared_future<R> &f) { if constexpr (std::is_void<R>::value) { f.get(); return 0; } else return f.get().id(); }

template <class Fut, class R> void forms() {
  Core core; core.randomise();
  sim::Threads workers, th;
  core.start(workers, 1 + (int)choose(2));
  Plan c; c.core = &core; c.th = &th; c.target = new Val{33};
  c.n = (int)choose(4);
  c.end = (int)choose(END_COUNT);
  if (c.end == END_COPY_THROWS && !std::is_same<R, Val>::value) c.end = END_RETURN;
  if (c.end == END_THROW_FIRST) c.n = 0;
  for (int i = 0; i < c.n; ++i) { c.kind[i] = (int)choose(AW_COUNT); int k = (int)choose(6); c.fails[i] = k == 5 ? 2 : k == 4 ? 1 : 0; c.id[i] = 10 + 7 * i; if (c.fails[i] == 2 && (c.kind[i] == AW_ASYNC || c.kind[i] == AW_READY)) c.fails[i] = 1; }
  Out want{VALUE, std::is_void<R>::value ? 0 : std::is_reference<R>::value ? 33 : c.sum()};
  int lastfail = 0, lastid = 0; for (int i = 0; i < c.n; ++i) if (c.fails[i]) lastfail = c.fails[i], lastid = c.id[i];
  if (c.end == END_THROW_FIRST) want = {ERROR, 501};
  else if (c.end == END_THROW) want = {ERROR, 502};
  else if (c.end == END_RETHROW && lastfail) want = lastfail == 1 ? Out{ERROR, lastid} : Out{BROKEN, 0};
  else if (c.end == END_COPY_THROWS) want = {OTHER, 0};
  auto is = [&](Out got, const char *how) { if (c.done.get() != 1) sim::violation("early-ready", "the future of a coroutine is ready before it ended"); if (want.kind == OTHER) { if (got.kind != OTHER) sim::violation("wrong-outcome", "%s: exception of the result's constructor was lost", how); } else expect_out(got, want, how); };
  {
    for (int i = 0; i < c.n; ++i) prepare(c, i);
    Fut f = run<Fut, R>(c);
    if (!f.valid()) sim::violation("invalid", "a coroutine returned an invalid future");
    switch (choose(7)) {
    case 0: sim::count_fault(sim::F_CANCEL); f = {}; break;
    case 1: is(outcome([&] { return take<R>(f); }), "get()"); break;
    case 2: { auto g = f.then(Exec{core}, [&, t = Token{}](Fut x) { t.used(); return outcome([&] { return take<R>(x); }); }); is(g.get(), "then()"); break; }
    case 3: { pc::shared_future<R> s = std::move(f); auto s2 = s; s.wait(); is(outcome([&] { return take<R>(s); }), "shared get()"); is(outcome([&] { return take<R>(s2); }), "shared get()"); break; }
    case 4: { auto all = pc::when_all(std::move(f), pc::make_ready_future(2)).get(); is(outcome([&] { return take<R>(std::get<0>(all)); }), "when_all()"); break; }
    case 5: { Fut g = f.detach(); if (choose(2)) g = {}; else is(outcome([&] { return take<R>(g); }), "detached"); break; }
    default: { pc::timed_waiter w{f}; while (w.wait_for(std::chrono::microseconds(5)) != pc::future_status::ready) {} if (!f.is_ready()) sim::violation("late-ready", "not ready after a timed wait"); is(outcome([&] { return take<R>(f); }), "get()"); }
    }
  }
  th.join_all();
  core.close();
  workers.join_all();
  if (c.entered.get() != 1 || c.done.get() != 1 || c.steps.get() != c.n) sim::violation("not-resumed", "a coroutine was entered %d, did %d of %d steps, ended %d times", c.entered.get(), c.steps.get(), c.n, c.done.get());
  delete c.target;
}
} // namespace
SCENARIO(cform_val, "C20,C04") { forms<pc::future<Val>, Val>(); }
SCENARIO(cform_mval, "C20") { forms<pc::future<MVal>, MVal>(); }
SCENARIO(cform_void, "C20") { forms<pc::future<void>, void>(); }
SCENARIO(cform_ref, "C20") { forms<pc::future<Val &>, Val &>(); }
SCENARIO(cform_shared, "C20,C21") { switch (choose(3)) { case 0: forms<pc::shared_future<Val>, Val>(); break; case 1: forms<pc::shared_future<void>, void>(); break; default: forms<pc::shared_future<Val &>, Val &>(); } }
