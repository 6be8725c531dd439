// Failing allocations and failing thread creation.
#include "source.h"
#include <system_error>
using namespace h;

namespace {
// runs f with the nth allocation of this thread failing; true if it reported the failure
template <class F> bool fails(F &&f, int max_nth = 6) {
  int nth = 1 + (int)choose(max_nth);
  bool threw = false;
  sim::arm_alloc_fault(nth);
  try { f(); } catch (const std::bad_alloc &) { threw = true; }
  bool fired = sim::alloc_fault_fired();
  sim::arm_alloc_fault(0);
  if (threw && !fired) sim::violation("bad-alloc", "bad_alloc although no allocation failed");
  if (fired && !threw) sim::violation("swallowed", "a failed allocation was not reported to the caller");
  if (fired) sim::probe("allocation failed inside a call");
  return threw;
}
struct Fn { Env *e; Count *ran; Token t; Fn(Env &e_, Count &r) : e(&e_), ran(&r) {} Fn(Fn &&) = default;
  void go() { AllocShield sh; t.used(); if (ran->inc() != 1) sim::violation("ran-twice", "a function ran twice"); e->ready_seen("function"); } };
} // namespace

SCENARIO(oom_create, "C19") {
  Env e(5);
  Core core;
  sim::Threads workers;
  core.start(workers, 1);
  Count ran;
  pc::future<Val> f;
  std::unique_ptr<Producer> prod;
  auto make = [&](int how) {
    switch (how) {
    case 0: { auto pf = pc::make_promise<Val>(); f = std::move(pf.second); { AllocShield sh; prod = make_producer([&e, p = std::move(pf.first)]() mutable { fulfil(e, p); }); } break; }
    case 1: { auto pf = pc::make_promise<Val>(Alloc<char>{e.arena}); f = std::move(pf.second); { AllocShield sh; prod = make_producer([&e, p = std::move(pf.first)]() mutable { fulfil(e, p); }); } break; }
    case 2: { auto pf = pc::make_promise<Val>(pc::canceler_arg, [&e, t = std::make_shared<Token>()] { e.cancels.inc(); }); f = std::move(pf.second); { AllocShield sh; prod = make_producer([&e, p = std::move(pf.first)]() mutable { fulfil(e, p); }); } break; }
    case 3: { pc::promise<Val> p; f = p.get_future(); { AllocShield sh; prod = make_producer([&e, p = std::move(p)]() mutable { fulfil(e, p); }); } break; }
    case 4: { Fn fn(e, ran); pc::packaged_task<Val()> t{[&e, fn = std::move(fn)]() mutable { AllocShield sh; e.side->x = e.id; e.started.here(); fn.go(); if (e.kind != VALUE) raise_err(e.id); return Val{e.id}; }}; f = t.get_future(); { AllocShield sh; prod = make_producer([t = std::move(t)]() mutable { t(); }); } break; }
    case 5: { Fn fn(e, ran); f = pc::async(Exec{core}, [&e, fn = std::move(fn)]() mutable { AllocShield sh; e.side->x = e.id; e.started.here(); fn.go(); if (e.kind != VALUE) raise_err(e.id); return Val{e.id}; }); AllocShield sh; prod = make_producer([] {}); break; }
    case 6: f = pc::make_ready_future(Val{e.id}); break;
    default: f = pc::make_exceptional_future<Val>(Err{e.id}); break;
    }
  };
  int how = (int)choose(8);
  if (how >= 4) { if (e.kind == BROKEN) e.kind = VALUE; }
  if (how == 6) e.kind = VALUE;
  if (how == 7) e.kind = ERROR;
  bool failed = fails([&] { make(how); }, 4);
  if (failed) {
    f = {}; prod.reset();
    if (ran.get()) sim::violation("ran", "a function ran although the call that submitted it failed");
    if (e.cancels.get() > 1) sim::violation("cancel-twice", "a cancel action ran twice");
    make(how); // the next attempt works
  }
  {
    sim::Threads th;
    if (prod) th.start([p = std::move(prod)]() mutable { p->run(); });
    expect_out(outcome([&] { return f.get().id(); }), e.want<Val>(), "after a failed allocation");
  }
  core.close();
  workers.join_all();
}

// attach to / wait on a future that completes concurrently
SCENARIO_W(oom_unique, "C19", 3) {
  Env e(5 + (int)choose(20));
  Core core; core.randomise();
  sim::Threads workers;
  Count ran;
  {
    sim::Threads th;
    pc::future<Val> f;
    auto prod = make_source<Val>(e, f, choose(2) ? &core : nullptr);
    core.start(workers, 1);
    bool ready_first = choose(4) == 3;
    th.start([p = std::move(prod)]() mutable { p->run(); });
    if (ready_first) th.join_all();
    th.start([&, f = std::move(f)]() mutable {
      pc::future<Val> g; Out want = e.want<Val>();
      auto make = [&](int op) {
        Fn fn(e, ran);
        switch (op) {
        case 0: g = f.then([fn = std::move(fn)](pc::future<Val> f) mutable { fn.go(); AllocShield sh; return f.get(); }); break;
        case 1: g = f.then(Exec{core}, [fn = std::move(fn)](pc::future<Val> f) mutable { fn.go(); AllocShield sh; return f.get(); }); break;
        case 2: g = f.next([fn = std::move(fn)](Val v) mutable { fn.go(); AllocShield sh; return v; }); break;
        case 3: g = f.next(Exec{core}, [fn = std::move(fn)](Val v) mutable { fn.go(); AllocShield sh; return v; }); break;
        case 4: g = f.then([fn = std::move(fn)](pc::promise<Val> p, pc::future<Val> f) mutable { fn.go(); AllocShield sh; try { p.set_value(f.get()); } catch (...) { p.set_exception(std::current_exception()); } }); break;
        case 5: f.wait(); break;
        case 6: { pc::timed_waiter w{f}; auto st = w.wait_for(std::chrono::nanoseconds(100)); if (st == pc::future_status::ready) e.ready_seen("timed wait"); break; }
        case 7: { int *r = reinterpret_cast<int *>(&ran); (void)r; f.notify([p = &fn] { (void)p; }); break; }
        case 8: { auto h = f.detach(); g = std::move(h); break; }
        default: (void)f.wait_for(std::chrono::nanoseconds(50)); break;
        }
      };
      int op = (int)choose(10);
      bool failed = fails([&] { make(op); }, 5);
      if (failed) {
        if (g.valid()) sim::violation("half-done", "a call that failed delivered a future");
        if (f.valid()) { sim::probe("future still usable after a failed call"); make(op); }
        else { sim::probe("future consumed by a failed call"); if (op >= 5) sim::violation("consumed", "a failed wait, notification or detach consumed the future"); return; }
      }
      if (!g.valid()) { if (!f.valid()) return; g = std::move(f); }
      expect_out(outcome([&] { return g.get().id(); }), want, "after a failed allocation");
    });
    th.join_all();
  }
  core.close();
  workers.join_all();
  core.discard();
}

// a failing call on one copy of a shared_future does not disturb the others
SCENARIO_W(oom_shared, "C19,C21", 2) {
  Env e(5 + (int)choose(20));
  Core core; core.randomise();
  sim::Threads workers;
  {
    sim::Threads th;
    pc::future<Val> f;
    auto prod = make_source<Val>(e, f, nullptr);
    auto s = f.share();
    core.start(workers, 1);
    th.start([p = std::move(prod)]() mutable { p->run(); });
    th.start([&, s]() mutable {
      for (int i = 0; i < 2; ++i) {
        Count ran; pc::future<Val> g;
        int op = (int)choose(7);
        bool failed = fails([&] {
          Fn fn(e, ran);
          switch (op) {
          case 0: g = s.then([fn = std::move(fn)](pc::shared_future<Val> f) mutable { fn.go(); AllocShield sh; return Val{f.get().id()}; }); break;
          case 1: g = s.next(Exec{core}, [fn = std::move(fn)](const Val &v) mutable { fn.go(); AllocShield sh; return Val{v.id()}; }); break;
          case 2: g = s.then([fn = std::move(fn)](pc::promise<Val> p, pc::shared_future<Val> f) mutable { fn.go(); AllocShield sh; try { p.set_value(Val{f.get().id()}); } catch (...) { p.set_exception(std::current_exception()); } }); break;
          case 3: s.wait(); break;
          case 4: { pc::timed_waiter w{s}; w.wait_for(std::chrono::nanoseconds(100)); break; }
          case 5: { auto d = s.detach(); s = std::move(d); break; }
          default: s.notify([] {}); break;
          }
        }, 5);
        if (!s.valid()) sim::violation("invalidated", "a failed call invalidated the shared_future");
        if (failed && (g.valid() || ran.get())) sim::violation("half-done", "a call that failed delivered a future or ran the function");
        if (g.valid()) expect_out(outcome([&] { return g.get().id(); }), e.want<Val>(), "stage on a shared_future");
      }
      expect_out(outcome([&] { return s.get().id(); }), e.want<Val>(), "shared_future after a failed allocation");
    });
    th.start([&, s]() mutable { s.wait(); e.ready_seen("wait()"); expect_out(outcome([&] { return s.get().id(); }), e.want<Val>(), "bystander"); });
    th.start([&, s]() mutable { Count ran; auto g = s.then(Exec{core}, [&](pc::shared_future<Val> f) { ran.inc(); return outcome([&] { return f.get().id(); }).kind; }); expect_out(outcome([&] { return g.get(); }), {VALUE, e.kind}, "bystander continuation"); });
    s = {};
    th.join_all();
  }
  core.close();
  workers.join_all();
}

SCENARIO(oom_when, "C19") {
  Env a(5), b(6);
  pc::future<Val> fa, fb;
  auto pa = make_source<Val>(a, fa, nullptr), pb = make_source<Val>(b, fb, nullptr);
  sim::Threads th;
  th.start([&, p = std::move(pa)]() mutable { p->run(); });
  th.start([&, p = std::move(pb)]() mutable { p->run(); });
  auto sb = fb.share();
  bool any = choose(2);
  int form = (int)choose(2);
  auto check = [&](auto &x, auto &y) { expect_out(outcome([&] { return x.get().id(); }), a.want<Val>(), "input"); expect_out(outcome([&] { return y.get().id(); }), b.want<Val>(), "input"); };
  if (form == 0) {
    if (any) { pc::future<pc::when_any_result<std::tuple<pc::future<Val>, pc::shared_future<Val>>>> f; if (!fails([&] { f = pc::when_any(std::move(fa), sb); }, 4)) { auto r = f.get(); if (r.index > 1) sim::violation("wrong-index", "index %zu", r.index); check(std::get<0>(r.futures), std::get<1>(r.futures)); } }
    else { pc::future<std::tuple<pc::future<Val>, pc::shared_future<Val>>> f; if (!fails([&] { f = pc::when_all(std::move(fa), sb); }, 4)) { auto r = f.get(); check(std::get<0>(r), std::get<1>(r)); } }
  } else {
    std::vector<pc::shared_future<Val>> v{fa.share(), sb};
    if (any) { pc::future<pc::when_any_result<std::vector<pc::shared_future<Val>>>> f; if (!fails([&] { f = pc::when_any(v.begin(), v.end()); }, 5)) { auto r = f.get(); check(r.futures[0], r.futures[1]); } }
    else { pc::future<std::vector<pc::shared_future<Val>>> f; if (!fails([&] { f = pc::when_all(v.begin(), v.end()); }, 5)) { auto r = f.get(); check(r[0], r[1]); } }
    check(v[0], v[1]); // the copied inputs stay usable
  }
  expect_out(outcome([&] { return sb.get().id(); }), b.want<Val>(), "shared input");
}

// the allocation that fails is the one that collapses a returned future
static int get_id(pc::future<Val> &f);
static int get_id(pc::shared_future<Val> &f);
template <class F> static void collapse_body() {
  Env in(40 + (int)choose(5));
  Core core; core.randomise();
  sim::Threads workers, th;
  core.start(workers, 1);
  pc::future<Val> fi;
  auto prod = make_source<Val>(in, fi, nullptr);
  F held;
  if constexpr (std::is_same<F, pc::future<Val>>::value) held = std::move(fi); else held = fi.share();
  Count ran;
  bool armed = choose(4) != 3;
  auto fn = [&, t = Token{}]() -> F { t.used(); if (ran.inc() != 1) sim::violation("ran-twice", "a function ran twice"); if (armed) sim::arm_alloc_fault(1); return std::move(held); };
  F outer;
  std::unique_ptr<Producer> go = make_producer([] {});
  switch (choose(5)) {
  case 0: { pc::packaged_task<F()> t{std::move(fn)}; outer = t.get_future(); go = make_producer([t = std::move(t)]() mutable { try { t(); } catch (const std::bad_alloc &) { sim::probe("reported to the runner of the task"); } }); break; }
  case 1: outer = pc::async(Exec{core}, std::move(fn)); break;
  case 2: { auto pf = pc::make_promise<void>(); outer = pf.second.then([fn = std::move(fn)](pc::future<void>) mutable { return fn(); }); go = make_producer([p = std::move(pf.first)]() mutable { p.set_value(); }); break; }
  case 3: { auto pf = pc::make_promise<void>(); outer = pf.second.next(Exec{core}, [fn = std::move(fn)]() mutable { return fn(); }); go = make_producer([p = std::move(pf.first)]() mutable { p.set_value(); }); break; }
  default: { auto pf = pc::make_promise<Val>(); outer = pf.second.share().next([fn = std::move(fn)](const Val &) mutable { return fn(); }); go = make_producer([p = std::move(pf.first)]() mutable { p.set_value(Val{1}); }); break; }
  }
  th.start([p = std::move(go)]() mutable { p->run(); sim::arm_alloc_fault(0); });
  th.start([&, p = std::move(prod)]() mutable { p->run(); });
  Out o = outcome([&] { return get_id(outer); });
  if (o.kind == BAD_ALLOC || (o.kind == BROKEN && in.kind != BROKEN)) { if (!armed) sim::violation("bad-alloc", "outer future failed although no allocation failed"); sim::probe("collapse failed cleanly"); }
  else { expect_out(o, in.want<Val>(), "outer future"); in.ready_seen("outer future"); }
  th.join_all();
  core.close();
  workers.join_all();
}
static int get_id(pc::future<Val> &f) { return f.get().id(); }
static int get_id(pc::shared_future<Val> &f) { return f.get().id(); }
SCENARIO(oom_collapse_unique, "C19,C10") { collapse_body<pc::future<Val>>(); }
SCENARIO(oom_collapse_shared, "C19,C10") { collapse_body<pc::shared_future<Val>>(); }

// thread pool: a thread cannot be created, or memory is short while constructing
SCENARIO_W(oom_pool_ctor, "C19,C14", 2) {
  int n = 1 + (int)choose(4);
  bool threads = choose(2);
  bool failed = false;
  Count ran;
  pc::future<int> f;
  if (threads) sim::arm_thread_fault(1 + (int)choose(n + 1)); else sim::arm_alloc_fault(1 + (int)choose(n + 2));
  try {
    pc::static_thread_pool pool(n);
    sim::arm_thread_fault(0); sim::arm_alloc_fault(0);
    f = pc::async(pool.executor(), [&] { ran.inc(); return 1; });
    pool.wait();
  } catch (const std::bad_alloc &) { failed = true; } catch (const std::system_error &) { failed = true; }
  sim::arm_thread_fault(0); sim::arm_alloc_fault(0);
  if (!failed) expect_out(outcome([&] { return f.get(); }), {VALUE, 1}, "task");
  else sim::probe("pool construction failed");
  // and the next pool works
  { pc::static_thread_pool pool(1); f = pc::async(pool.executor(), [&] { ran.inc(); return 2; }); expect_out(outcome([&] { return f.get(); }), {VALUE, 2}, "task of the next pool"); }
}

// posting to a pool fails: reported to the poster, the pool goes on
SCENARIO(oom_pool_post, "C19,C13") {
  Count ran, ok;
  {
    pc::static_thread_pool pool(1 + choose(2));
    sim::Threads th;
    unsigned n = 1 + choose(2);
    for (unsigned i = 0; i < n; ++i)
      th.start([&] {
        for (int k = 0; k < 2; ++k) {
          pc::future<int> f;
          bool big = choose(2);
          struct Pad { char c[96] = {}; };
          bool failed = fails([&] {
            if (big) f = pc::async(pool.executor(), [&ran, t = Token{}, pad = Pad{}] { t.used(); ran.inc(); return 7 + pad.c[0]; });
            else if (choose(2)) f = pc::async(pool.executor(), [&ran, t = Token{}] { t.used(); ran.inc(); return 7; });
            else post(pool.executor(), [&ran, t = Token{}, pad = Pad{}] { t.used(); ran.inc(); (void)pad; });
          }, 5);
          if (failed) { if (f.valid()) sim::violation("half-done", "a failed call delivered a future"); continue; }
          ok.inc();
          if (f.valid()) expect_out(outcome([&] { return f.get(); }), {VALUE, 7}, "pool task");
        }
      });
    th.join_all();
    pool.wait();
    if (ran.get() != ok.get()) sim::violation("lost-work", "%d tasks accepted, %d executed", ok.get(), ran.get());
  }
}
