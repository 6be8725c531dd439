// Cancellation by dropping futures, cancel actions, detach, is_awaiten.
#include "source.h"
using namespace h;

namespace {
// ---------------------------------------------------------------- C06: chains that are dropped
struct Stage { Count started, finished, dead; int *dead_p() { return reinterpret_cast<int *>(&dead); } };
struct Chain {
  enum { MAX = 8 };
  Stage st[MAX + 1]; int n = 0; int note = -1; // note: index of a notification on the last future
  Mark dropped;             // the last future is gone (set by the dropper after its destructor has returned)
  // Had the drop returned when this thread entered the library (and when the last function returned to it)?
  bool entered_after_drop[24] = {}, returned_after_drop[24] = {};
  NOSAN void enter() { entered_after_drop[sim::self()] = returned_after_drop[sim::self()] = dropped.set(); }
  NOSAN void leave() { entered_after_drop[sim::self()] = returned_after_drop[sim::self()] = false; }
  // a running function keeps its own state alive, and with it the notifications on it, but nothing further down
  NOSAN bool after_drop(int i) const { return i == note ? entered_after_drop[sim::self()] : returned_after_drop[sim::self()]; }
  void begin(int i) {
    if (st[i].started.inc() != 1) sim::violation("ran-twice", "a stage ran twice");
    if (after_drop(i)) sim::violation("not-cancelled", "a function starts although the last future of its chain was dropped before");
  }
  NOSAN void end(int i) { st[i].finished.inc(); if (dropped.set()) returned_after_drop[sim::self()] = true; }
};
// body of a stage; checks that the captured objects stay alive while it runs
struct Body {
  Chain *c; int i; Token t; std::unique_ptr<Box> data;
  Body(Chain &ch, int i_) : c(&ch), i(i_), t(ch.st[i_].dead_p()), data(new Box{i_, ~i_}) {}
  Body(Body &&) = default;
  void go() {
    t.used(); c->begin(i);
    if (choose(2)) sim::yield();
    t.used();
    if (!data || data->id != i || data->chk != ~i) sim::violation("dead-object", "captured data of a running function is gone");
    c->end(i);
  }
};
template <class T> pc::future<Val> add_stage(pc::future<T> f, Chain &ch, int i, Core &core) {
  Body b(ch, i);
  switch (choose(4)) {
  case 0: return f.then([b = std::move(b)](pc::future<T> f) mutable { b.go(); Val v = f.get(); return Val{v.id() + 1}; });
  case 1: return f.then(Exec{core}, [b = std::move(b)](pc::future<T> f) mutable { b.go(); Val v = f.get(); return Val{v.id() + 1}; });
  case 2: return f.next([b = std::move(b)](Val v) mutable { b.go(); return Val{v.id() + 1}; });
  default: return f.next(Exec{core}, [b = std::move(b)](Val v) mutable { b.go(); return Val{v.id() + 1}; });
  }
}
struct NoteFn { Body b; void operator()() { b.go(); } };
// executor that tells the chain when a worker enters the library
void chain_work(Core &core, Chain &ch) { for (;;) { ch.enter(); bool did = core.run_one(); ch.leave(); if (did) { sim::yield(); continue; } if (core.is_closed()) return; sim::block_on(&core); } }
} // namespace

SCENARIO_W(cancel_chain, "C06,C17,C18", 2) {
  Chain ch;
  Arena arena;
  Core core; core.randomise();
  Core *ext = &core;
  int mode = (int)choose(4); // 0: race, 1: drop before anything runs, 2: drop ordered after completion, 3: drop with tasks waiting in the executor
  if (mode == 3) core.p_inline = 0;
  bool source_is_task = choose(2);
  sim::Threads workers;
  Event dropped_ev, completed_ev;
  std::unique_ptr<Producer> prod;
  pc::future<Val> f;
  Count src_cancel;
  if (source_is_task) {
    core.p_inline = 0;
    f = pc::async(Exec{core}, [b = Body(ch, 0)]() mutable { b.go(); return Val{50}; });
    ch.st[0].dead.get();
  } else {
    auto pf = [&]() -> std::pair<pc::promise<Val>, pc::future<Val>> {
      switch (choose(3)) {
      case 0: return pc::make_promise<Val>();
      case 1: return pc::make_promise<Val>(Alloc<int>{arena});
      default: pc::promise<Val> p; auto f = p.get_future(); return {std::move(p), std::move(f)};
      }
    }();
    f = std::move(pf.second);
    prod = make_producer([&ch, p = std::move(pf.first)]() mutable { ch.enter(); p.set_value(Val{50}); ch.leave(); });
  }
  ch.n = (int)choose(4);
  for (int i = 1; i <= ch.n; ++i) f = add_stage<Val>(std::move(f), ch, i, core);
  if (choose(3) == 0 || (ch.n == 0 && !source_is_task)) { ch.note = ch.n + 1; f.notify([n = std::make_unique<NoteFn>(NoteFn{Body(ch, ch.note)})] { (*n)(); }); }
  int last = ch.note > 0 ? ch.note : ch.n;
  if (mode == 3) {
    // the source has completed, the executor has not run anything yet
    if (prod) { if (choose(2)) prod->run(); else { sim::Threads th; th.start([&] { prod->run(); }); th.join_all(); } }
    else if (choose(2)) core.run_one();
    sim::count_fault(sim::F_CANCEL);
    drop(f);
    ch.dropped.here();
    for (int i = source_is_task ? 0 : 1; i <= last; ++i)
      if (ch.st[i].dead.get() != 1) sim::violation("not-destroyed", "captured objects of a function are still alive after the last future was dropped");
    int ran[Chain::MAX + 1]; for (int i = 0; i <= last; ++i) ran[i] = ch.st[i].started.get();
    for (int w = 0; w < 1 + (int)choose(2); ++w) workers.start([&] { chain_work(*ext, ch); });
    core.close();
    workers.join_all();
    for (int i = 0; i <= last; ++i) if (ch.st[i].started.get() != ran[i]) sim::violation("not-cancelled", "a function ran after the last future of its chain was dropped");
    return;
  }
  if (mode == 1) {
    // nothing has been run yet: the drop must destroy everything at once
    sim::count_fault(sim::F_CANCEL);
    if (choose(2)) drop(f); else { auto s = f.share(); auto s2 = s; drop(s); drop(s2); }
    ch.dropped.here();
    for (int i = source_is_task ? 0 : 1; i <= last; ++i) {
      if (ch.st[i].started.get()) sim::violation("not-cancelled", "a function ran although nothing could trigger it");
      if (ch.st[i].dead.get() != 1) sim::violation("not-destroyed", "captured objects of a cancelled function are still alive after the last future was dropped");
    }
    for (int w = 0; w < 1 + (int)choose(2); ++w) workers.start([&] { chain_work(*ext, ch); });
    if (prod) prod->run();
    prod.reset();
    core.close();
    workers.join_all();
    for (int i = 0; i <= last; ++i) if (ch.st[i].started.get()) sim::violation("not-cancelled", "a function ran after the last future of its chain was dropped");
    return;
  }
  for (int w = 0; w < 1 + (int)choose(2); ++w) workers.start([&] { chain_work(*ext, ch); });
  {
    sim::Threads th;
    if (prod) th.start([&, p = std::move(prod)]() mutable { if (choose(2)) sim::yield(); p->run(); if (choose(2)) p.reset(); });
    th.start([&, f = std::move(f)]() mutable {
      for (unsigned k = choose(4); k > 0; --k) sim::yield();
      if (mode == 2) { expect_out(outcome([&] { return f.get().id(); }), {VALUE, 50 + ch.n}, "chain"); for (int i = 1; i <= ch.n; ++i) if (ch.st[i].finished.get() != 1) sim::violation("lost-stage", "a stage did not run although its result was delivered"); return; }
      sim::count_fault(sim::F_CANCEL);
      if (choose(2)) { auto s = f.share(); auto s2 = s; sim::spawn([s2 = std::move(s2)]() mutable { drop(s2); }); drop(s); return; } // dropped somewhere: no ordering claim
      drop(f);
      ch.dropped.here();
    });
    th.join_all();
  }
  core.close();
  workers.join_all();
  for (int i = 0; i <= last; ++i) {
    if (ch.st[i].started.get() != ch.st[i].finished.get()) sim::violation("partial", "a function started but did not run to its end");
    if (i > 1 && ch.st[i].started.get() && !ch.st[i - 1].finished.get()) sim::violation("order", "a stage ran before the stage it depends on");
  }
}

// a function has returned a nested future and the outer one is dropped: the nested work is cancelled with it
SCENARIO(cancel_unwrapped, "C06,C10,C17") {
  Chain ch;
  Core core;
  core.reorder = choose(2);
  auto pf = pc::make_promise<Val>();
  int kind = (int)choose(4);
  auto inner = [&ch, &core, kind]() -> pc::future<Val> {
    auto f = pc::async(Exec{core}, [b = Body(ch, 2)]() mutable { b.go(); return Val{7}; });
    if (kind & 1) f = f.next([b = Body(ch, 3)](Val v) mutable { b.go(); return v; });
    return f;
  };
  pc::future<Val> f;
  if (kind & 2) f = pf.second.then([b = Body(ch, 1), inner](pc::future<Val>) mutable { b.go(); return inner(); });
  else f = pf.second.next([b = Body(ch, 1), inner](Val) mutable { b.go(); return inner().share(); }).next([b = Body(ch, 4)](Val v) mutable { b.go(); return v; });
  sim::Threads th, workers;
  bool race = choose(2);
  th.start([&, p = std::move(pf.first)]() mutable { p.set_value(Val{1}); });
  if (!race) th.join_all();
  sim::count_fault(sim::F_CANCEL);
  drop(f);
  if (race) th.join_all(); // a running function keeps its result until it has returned
  ch.dropped.here();
  for (int i = 2; i <= 4; ++i) {
    if (ch.st[i].started.get()) sim::violation("not-cancelled", "a function ran although nothing executed it");
    if (ch.st[1].started.get() && (i != 3 || (kind & 1)) && (i != 4 || !(kind & 2)) && ch.st[i].dead.get() != 1) sim::violation("not-destroyed", "captured objects of nested work are still alive after the last future was dropped");
  }
  workers.start([&] { chain_work(core, ch); });
  core.close();
  workers.join_all();
  for (int i = 2; i <= 4; ++i) if (ch.st[i].started.get()) sim::violation("not-cancelled", "nested work ran after the last future of its chain was dropped");
}

// a branch is dropped, the other one is still wanted
SCENARIO(cancel_branch, "C06,C21,C17,C03") {
  Chain ch; ch.n = 3;
  Core core; core.randomise();
  sim::Threads workers, th;
  auto pf = pc::make_promise<Val>();
  auto mid = add_stage<Val>(std::move(pf.second), ch, 1, core).share();
  auto stage = [&](int i, bool ex) {
    Body b(ch, i);
    if (ex) return mid.then(Exec{core}, [b = std::move(b)](pc::shared_future<Val> f) mutable { b.go(); return Val{f.get().id() + 10}; });
    return mid.next([b = std::move(b)](const Val &v) mutable { b.go(); return Val{v.id() + 10}; });
  };
  auto a = stage(2, choose(2)), b = stage(3, choose(2));
  drop(mid);
  core.start(workers, 1);
  th.start([p = std::move(pf.first)]() mutable { p.set_value(Val{1}); });
  th.start([a = std::move(a)]() mutable { if (choose(2)) sim::yield(); sim::count_fault(sim::F_CANCEL); drop(a); });
  expect_out(outcome([&] { return b.get().id(); }), {VALUE, 12}, "surviving branch");
  if (ch.st[1].finished.get() != 1 || ch.st[3].finished.get() != 1) sim::violation("lost-stage", "a wanted stage did not run");
  th.join_all();
  core.close();
  workers.join_all();
  for (int i = 1; i <= 3; ++i) if (ch.st[i].started.get() != ch.st[i].finished.get()) sim::violation("partial", "a function started but did not run to its end");
}

// packaged_task whose future is dropped, before, while and after it is run
SCENARIO(cancel_task, "C06,C17") {
  Chain ch; ch.n = 0;
  pc::packaged_task<Val(int)> task{[b = Body(ch, 0)](int x) mutable { b.go(); return Val{x}; }};
  auto f = task.get_future();
  sim::Threads th;
  bool ordered = choose(2);
  if (ordered) {
    drop(f);
    ch.dropped.here();
    if (ch.st[0].dead.get() != 1) sim::violation("not-destroyed", "the function of a cancelled task is still alive");
    ch.enter(); task(5); ch.leave();
    if (ch.st[0].started.get()) sim::violation("not-cancelled", "a cancelled task ran");
  } else {
    th.start([&ch, t = std::move(task)]() mutable { if (choose(2)) sim::yield(); ch.enter(); t(5); ch.leave(); });
    if (choose(2)) sim::yield();
    drop(f);
    ch.dropped.here();
    th.join_all();
    if (ch.st[0].started.get() != ch.st[0].finished.get()) sim::violation("partial", "a function started but did not run to its end");
    if (ch.st[0].dead.get() != 1) sim::violation("leak", "the function of a task was destroyed %d times", ch.st[0].dead.get());
  }
}

// ---------------------------------------------------------------- C07: cancel actions
namespace {
struct CancelCtx {
  Count ran; Mark begun;
  Mark set_begun, set_done;      // a result is stored or the promise abandoned
  Mark drop_begun, drop_done;    // the last future is dropped
};
template <class T> struct CancelAct {
  CancelCtx *c; Token t;
  explicit CancelAct(CancelCtx &c_) : c(&c_) {}
  CancelAct(CancelAct &&) = default;
  CancelAct(const CancelAct &o) : c(o.c) {}
  void operator()() { t.check(); if (c->ran.inc() != 1) sim::violation("cancel-twice", "the cancel action ran twice"); c->begun.here(); if (!c->drop_begun.set()) sim::violation("cancel-early", "the cancel action ran while a future exists"); if (c->set_done.before_me()) sim::violation("cancel-late", "the cancel action ran after a result was stored"); }
};
} // namespace

SCENARIO_W(cancel_action, "C07,C17,C09,C21,C22", 2) {
  CancelCtx c;
  std::pair<pc::promise<Val>, pc::future<Val>> pf = [&]() -> std::pair<pc::promise<Val>, pc::future<Val>> {
    if (choose(2)) return pc::make_promise<Val>(pc::canceler_arg, CancelAct<Val>{c});
    pc::promise<Val> p{pc::canceler_arg, CancelAct<Val>{c}}; auto f = p.get_future(); return {std::move(p), std::move(f)};
  }();
  int mode = (int)choose(3);     // 0: race, 1: drop first, 2: set first
  int setk = (int)choose(5);     // value, exception, abandon, nothing, an attempt that fails
  bool failing = setk == 4;
  if (failing) setk = 3;
  Event dropped, was_set;
  bool stored = false;
  Count left;
  {
    sim::Threads th;
    th.start([&, p = std::move(pf.first)]() mutable {
      if (mode == 1) dropped.wait();
      if (choose(2)) { pc::promise<Val> q = std::move(p); p = std::move(q); }
      c.set_begun.here();
      Val v{77};
      switch (setk) {
      case 0: p.set_value(std::move(v)); stored = v.id() == -1; break; // moved from if and only if it was stored
      case 1: { p.set_exception(err_ptr(3)); break; }
      case 2: { pc::promise<Val> q = std::move(p); break; }
      default:
        if (failing) {
          Faulty::countdown() = 1;
          Out o = outcome([&] { p.set_value(v); return 0; });
          Faulty::countdown() = 0;
          if (o.kind != OTHER && !(o.kind == VALUE && c.drop_begun.set())) sim::violation("wrong-report", "an exception of the value's constructor was not passed on");
          if (v.id() != 77) sim::violation("consumed", "set_value() took the value although it failed");
        }
        break;
      }
      if (setk != 3) c.set_done.here();
      was_set.signal();
      if (setk != 3 && choose(2)) sim::yield();
      if (setk == 3) { // hold it until everybody is gone
        dropped.wait();
        if (p.is_awaiten()) sim::violation("awaiten", "is_awaiten() is true although all futures are gone");
        p.set_value(std::move(v)); // harmless
        if (v.id() != 77) sim::violation("consumed", "set_value() took the value although nobody can receive it");
      }
    });
    int n = 1 + (int)choose(3);
    auto sf = pf.second.share();
    auto drop_one = [&](pc::shared_future<Val> &f) {
      // only the last one to begin its drop may be the one that destroys the state
      if (left.inc() == n) c.drop_begun.here();
      sim::count_fault(sim::F_CANCEL);
      drop(f);
    };
    Count gone; 
    for (int i = 1; i < n; ++i)
      th.start([&, f = sf]() mutable {
        if (mode == 2) was_set.wait();
        if (choose(3) == 0 && mode == 2 && setk < 2) { Out o = outcome([&] { return f.get().id(); }); if (setk == 0) expect_out(o, {VALUE, 77}, "get()"); else expect_out(o, {ERROR, 3}, "get()"); }
        drop_one(f);
        gone.inc(); sim::hb_release(&gone); sim::wake(&gone);
      });
    if (mode == 2 && setk != 3) was_set.wait();
    if (choose(2)) sim::yield();
    drop_one(sf);
    while (gone.get() != n - 1) sim::block_on(&gone);
    sim::hb_acquire(&gone);
    c.drop_done.here();
    dropped.signal();
    th.join_all();
  }
  int ran = c.ran.get();
  if (mode == 1 || setk == 3) { if (ran != 1) sim::violation("cancel-lost", "all futures were dropped before a result was stored, but the cancel action ran %d times", ran); }
  else if (mode == 2) { if (ran) sim::violation("cancel-late", "the cancel action ran although a result had been stored"); }
  else if (setk == 0 && stored == (ran == 1)) sim::violation("cancel-race", "value stored: %d, cancel action ran: %d", stored, ran);
  if (mode == 1 && stored) sim::violation("consumed", "a value was stored although nobody can receive it");
}

// a cancelled computation cancels what it was waiting for: the action releases another future
SCENARIO(cancel_nested, "C07,C06,C17") {
  CancelCtx inner, outer;
  inner.drop_begun.here(); // its future goes away with the other computation, at the latest
  auto a = pc::make_promise<Val>(pc::canceler_arg, CancelAct<Val>{inner});
  struct Release { CancelCtx *in, *out; std::shared_ptr<pc::future<Val>> f; void operator()() { if (out->ran.inc() != 1) sim::violation("cancel-twice", "the cancel action ran twice"); *f = {}; } };
  auto held = std::make_shared<pc::future<Val>>(std::move(a.second));
  auto b = pc::make_promise<Val>(pc::canceler_arg, Release{&inner, &outer, held});
  held.reset();
  Core core; core.randomise();
  auto chain = b.second.next(Exec{core}, [t = Token{}](Val v) { t.used(); return v.id(); }).then([t = Token{}](pc::future<int> f) { t.used(); return f.get(); });
  sim::Threads th;
  bool race = choose(2);
  bool stored = false;
  if (race) th.start([&, p = std::move(b.first)]() mutable { Val v{4}; p.set_value(std::move(v)); stored = v.id() == -1; });
  if (choose(2)) sim::yield();
  sim::count_fault(sim::F_CANCEL);
  drop(chain);
  th.join_all();
  core.close();
  core.discard();
  if (!race && outer.ran.get() != 1) sim::violation("cancel-lost", "the cancel action did not run");
  if (race && stored == (outer.ran.get() == 1)) sim::violation("cancel-race", "value stored: %d, cancel action ran: %d", stored, outer.ran.get());
  if (outer.ran.get() && inner.ran.get() != 1) sim::violation("cancel-lost", "the nested cancel action did not run");
  a.first.set_value(Val{1});
}

// ---------------------------------------------------------------- C09: is_awaiten
SCENARIO_W(awaiten, "C09,C06,C07", 2) {
  Core core; core.randomise(); core.p_inline = 0;
  auto pf = choose(2) ? pc::make_promise<Val>() : [] { pc::promise<Val> p; auto f = p.get_future(); return std::pair<pc::promise<Val>, pc::future<Val>>{std::move(p), std::move(f)}; }();
  Count last_drop_begun; Mark last_drop_done;
  Event seen_false(false);
  int shape = (int)choose(7);
  bool direct = shape < 2 || shape == 6; Event checked;
  sim::Threads th;
  bool keep = choose(3) == 0; // nobody drops
  Event got(true);
  auto check = [&](pc::promise<Val> &p) {
    bool must_false = last_drop_done.before_me();
    bool a = p.is_awaiten();
    if (!a && !last_drop_begun.get()) sim::violation("not-awaiten", "is_awaiten() is false although a future exists");
    if (a && must_false) sim::violation("awaiten", "is_awaiten() is true although all futures are gone");
    return a;
  };
  Event go_on;
  th.start([&, p = std::move(pf.first)]() mutable {
    for (unsigned k = 1 + choose(3); k > 0; --k) { if (choose(4) == 0) { pc::promise<Val> q = std::move(p); p = std::move(q); } check(p); if (choose(2)) sim::yield(); }
    if (!keep) { go_on.wait(); check(p); }
    Val v{5};
    bool a = check(p);
    p.set_value(std::move(v));
    if (keep && (!a || v.id() != -1)) sim::violation("not-awaiten", "a result was discarded although a future exists");
    if (keep && direct) { if (!p.is_awaiten()) sim::violation("not-awaiten", "is_awaiten() is false although a future exists (result already stored)"); checked.signal(); }
    if (!keep && last_drop_done.before_me() && v.id() != 5) sim::violation("consumed", "set_value() took the value although nobody can receive it");
  });
  sim::Threads th2;
  auto finish = [&](auto &f, auto get) {
    if (keep) { if (direct) checked.wait(); Out o = outcome([&] { return get(f); }); expect_out(o, {VALUE, 5}, "get()"); return; }
    sim::count_fault(sim::F_CANCEL);
    last_drop_begun.inc();
    drop(f);
    th2.join_all(); // a function that is running may keep the state for a moment
    last_drop_done.here();
    go_on.signal();
  };
  auto gv = [](auto &f) { return Val(f.get()).id(); };
  switch (shape) {
  case 0: { auto f = std::move(pf.second); if (choose(2)) sim::yield(); finish(f, gv); break; }
  case 1: { auto s = pf.second.share(); auto s2 = s; if (choose(2)) sim::yield(); drop(s); finish(s2, gv); break; }
  case 2: { auto f = pf.second.then([](pc::future<Val> f) { return f.get(); }); if (choose(2)) sim::yield(); finish(f, gv); break; }
  case 3: { auto f = pf.second.next([](Val v) { return v; }).then([](pc::future<Val> f) { return f.get(); }).share(); if (choose(2)) sim::yield(); finish(f, gv); break; }
  case 4: { auto s = pf.second.share(); auto f = s.next([](const Val &v) { return Val{v.id()}; }); auto g = s.then([](pc::shared_future<Val> f) { return Val{f.get().id()}; }); drop(s); drop(f); if (choose(2)) sim::yield(); finish(g, gv); break; }
  case 5: { // unwrapped
    auto outer = pc::make_promise<int>();
    auto f = outer.second.next([in = std::make_shared<pc::future<Val>>(std::move(pf.second))](int) { return std::move(*in); });
    if (choose(2)) { outer.first.set_value(1); if (choose(2)) sim::yield(); finish(f, gv); }
    else { th2.start([p = std::move(outer.first)]() mutable { p.set_value(1); }); if (choose(2)) sim::yield(); finish(f, gv); }
    break;
  }
  default: { pc::timed_waiter w{pf.second}; if (choose(2)) sim::yield(); auto f = std::move(pf.second); finish(f, gv); if (!keep) w.wait_for(std::chrono::nanoseconds(0)); break; }
  }
  th.join_all();
}

// interruptible continuations: the promise is bound to the result of the continuation
SCENARIO_W(interruptible, "C09,C03,C05,C17,C01,C06,C07,C22", 2) {
  Env e(20);
  Core core; core.randomise();
  sim::Threads workers, th;
  core.start(workers, 1);
  pc::future<Val> src;
  auto prod = make_source<Val>(e, src, nullptr);
  bool shared = choose(2), on_exec = choose(2);
  int what = (int)choose(6); // 0 set at once, 1 set later from another thread, 2 exception, 3 never, 4 polls is_awaiten, 5 move to a struct and drop from another thread
  bool drop = choose(3) == 0;
  Count ran, dropped_begun; Mark dropped;
  Event drop_ev; int owner = sim::self();
  struct Handoff { std::unique_ptr<pc::promise<Val>> p; Event ev; } hand;
  auto body = [&](pc::promise<Val> p, Out got) {
    if (ran.inc() != 1) sim::violation("ran-twice", "an interruptible continuation ran twice");
    e.ready_seen("interruptible continuation");
    expect_out(got, e.want<Val>(), "interruptible continuation");
    if (drop && sim::self() != owner && choose(2)) drop_ev.wait(); // long running function: the result is dropped meanwhile
    bool must_false = dropped.before_me();
    bool a = p.is_awaiten();
    if (!a && !dropped_begun.get()) sim::violation("not-awaiten", "is_awaiten() is false although a future exists");
    if (a && must_false) sim::violation("awaiten", "is_awaiten() is true although all futures are gone");
    switch (what) {
    case 0: p.set_value(Val{900}); break;
    case 1: case 5: hand.p.reset(new pc::promise<Val>(std::move(p))); hand.ev.signal(); break;
    case 2: p.set_exception(err_ptr(901)); break;
    case 3: break;
    default: for (int i = 0; i < 3; ++i) { bool b = p.is_awaiten(); if (!b && !dropped_begun.get()) sim::violation("not-awaiten", "is_awaiten() is false although a future exists"); if (!b && !a) break; a = b; sim::yield(); } p.set_value(Val{900});
    }
  };
  pc::future<Val> res;
  auto uf = [body, t = Token{}](pc::promise<Val> p, pc::future<Val> f) { t.used(); if (!f.is_ready()) sim::violation("unready", "continuation received a future that is not ready"); body(std::move(p), outcome([&] { return f.get().id(); })); };
  auto sfn = [body, t = Token{}](pc::promise<Val> p, pc::shared_future<Val> f) { t.used(); if (!f.is_ready()) sim::violation("unready", "continuation received a future that is not ready"); body(std::move(p), outcome([&] { return f.get().id(); })); };
  auto attach = [&] {
    if (shared) { auto s = src.share(); res = on_exec ? s.then(Exec{core}, std::move(sfn)) : s.then(std::move(sfn)); if (!s.valid()) sim::violation("invalidated", "interruptible then() invalidated the shared_future"); }
    else res = on_exec ? src.then(Exec{core}, std::move(uf)) : src.then(std::move(uf));
  };
  bool late = choose(2);
  if (!late) attach();
  th.start([p = std::move(prod)]() mutable { p->run(); });
  if (late) { if (choose(2)) sim::yield(); attach(); }
  if ((what == 1 || what == 5) && !drop) // with a drop the continuation may never run
    th.start([&] { hand.ev.wait(); if (choose(2)) sim::yield(); if (what == 1) { hand.p->set_value(Val{900}); } hand.p.reset(); });
  if (drop) {
    if (choose(2)) sim::yield();
    sim::count_fault(sim::F_CANCEL);
    dropped_begun.inc();
    h::drop(res);
    dropped.here();
    drop_ev.signal();
  } else {
    Out o = outcome([&] { return res.get().id(); });
    switch (what) {
    case 0: case 1: case 4: expect_out(o, {VALUE, 900}, "interruptible then()"); break;
    case 2: expect_out(o, {ERROR, 901}, "interruptible then()"); break;
    default: expect_out(o, {BROKEN, 0}, "interruptible then() whose promise was dropped");
    }
    if (ran.get() != 1) sim::violation("lost-continuation", "interruptible continuation ran %d times", ran.get());
  }
  th.join_all();
  core.close();
  workers.join_all();
}
