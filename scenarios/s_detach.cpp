// detach(): the work behind a detached future is never cancelled.
#include "source.h"
using namespace h;

namespace {
struct Work { Count started, finished; Side *side = new Side; ~Work() { delete side; } };
struct Do {
  Work *w; Token t;
  explicit Do(Work &w_) : w(&w_) {}
  Do(Do &&) = default;
  void go() { t.used(); if (w->started.inc() != 1) sim::violation("ran-twice", "a stage ran twice"); if (choose(2)) sim::yield(); w->side->x++; w->finished.inc(); }
};
// random continuation of a future, yielding a future again
pc::future<Val> stage(pc::future<Val> f, Work &w, Core &core) {
  switch (choose(5)) {
  case 0: return f.then([d = Do(w)](pc::future<Val> f) mutable { d.go(); return Val{f.get().id() + 1}; });
  case 1: return f.then(Exec{core}, [d = Do(w)](pc::future<Val> f) mutable { d.go(); return Val{f.get().id() + 1}; });
  case 2: return f.next([d = Do(w)](Val v) mutable { d.go(); return Val{v.id() + 1}; });
  case 3: return f.next(Exec{core}, [d = Do(w)](Val v) mutable { d.go(); return Val{v.id() + 1}; });
  default: { auto s = f.share(); return s.next([d = Do(w)](const Val &v) mutable { d.go(); return Val{v.id() + 1}; }); }
  }
}
} // namespace

SCENARIO_W(detach_chain, "C08,C17,C21", 3) {
  Work w[6];
  Core core; core.randomise();
  sim::Threads workers;
  int before = 1 + (int)choose(2), after = (int)choose(3);
  int srck = (int)choose(5);
  Count cancels; Arena arena;
  pc::future<Val> f;
  std::unique_ptr<Producer> prod;
  Event detached; // the promise may only rely on the future once it is protected
  bool wait_for_detach = true;
  Mark det;
  Work src_work;
  if (srck == 0) { core.p_inline = 0; f = pc::async(Exec{core}, [d = Do(src_work)]() mutable { d.go(); return Val{10}; }); }
  else if (srck == 4) {
    pc::packaged_task<Val()> t{[d = Do(src_work)]() mutable { d.go(); return Val{10}; }};
    f = t.get_future();
    prod = make_producer([t = std::move(t)]() mutable { t(); });
  } else {
    auto pf = srck == 1 ? pc::make_promise<Val>() : srck == 2 ? pc::make_promise<Val>(Alloc<char>{arena}) : pc::make_promise<Val>(pc::canceler_arg, [&] { cancels.inc(); });
    f = std::move(pf.second);
    prod = make_producer([&, p = std::move(pf.first)]() mutable {
      if (det.before_me() && !p.is_awaiten()) sim::violation("not-awaiten", "is_awaiten() is false although the future was detached");
      src_work.started.inc(); src_work.side->x++; src_work.finished.inc();
      Val v{10};
      bool prot = det.before_me();
      p.set_value(std::move(v));
      if (prot && v.id() != -1) sim::violation("lost-work", "the result of detached work was discarded");
    });
  }
  for (int i = 0; i < before; ++i) f = stage(std::move(f), w[i], core);
  bool racing = prod && choose(3) == 0; // completion races with detach() itself
  {
    sim::Threads th;
    if (racing) th.start([&] { prod->run(); });
    // detach, keep attaching, notify, drop
    Count notified; bool notify = choose(3) == 0;
    int dk = (int)choose(3);
    pc::future<Val> g; pc::shared_future<Val> sg;
    if (dk == 0) { auto s = f.share(); auto s2 = s; sg = s.detach(); if (s.valid()) sim::violation("still-valid", "detach() left the original valid"); if (!sg.valid()) sim::violation("invalid", "detach() returned an invalid future"); if (choose(2)) s2 = {}; }
    else { g = f.detach(); if (f.valid()) sim::violation("still-valid", "detach() left the original valid"); if (!g.valid()) sim::violation("invalid", "detach() returned an invalid future"); if (dk == 2 && choose(2)) g = g.detach(); }
    det.here();
    if (notify) { if (dk == 0) sg.notify([&] { notified.inc(); }); else g.notify([&] { notified.inc(); }); }
    if (dk == 0) {
      if (after) { auto x = sg.next([d = Do(w[3])](const Val &v) mutable { d.go(); return Val{v.id() + 1}; }); if (choose(2)) sim::yield(); }
    } else {
      for (int i = 0; i < after; ++i) g = stage(std::move(g), w[3 + i], core);
    }
    core.start(workers, 1 + (int)choose(2));
    bool keep = choose(3) == 0;
    if (prod && !racing) th.start([&] { if (choose(2)) sim::yield(); prod->run(); });
    if (!keep) { if (choose(2)) sim::yield(); sim::count_fault(sim::F_CANCEL); drop(g); drop(sg); }
    else if (dk == 0) expect_out(outcome([&] { return sg.get().id(); }), {VALUE, 10 + before}, "detached shared_future");
    else expect_out(outcome([&] { return g.get().id(); }), {VALUE, 10 + before + after}, "detached future");
    th.join_all();
    core.close();
    workers.join_all();
    if (notify && notified.get() != 1) sim::violation("lost-notify", "a notification of detached work ran %d times", notified.get());
  }
  prod.reset();
  if (src_work.finished.get() != 1) sim::violation("lost-work", "the source of detached work ran %d times", src_work.finished.get());
  for (int i = 0; i < before; ++i) {
    if (w[i].started.get() != 1 || w[i].finished.get() != 1) sim::violation("lost-work", "a detached stage ran %d times", w[i].finished.get());
    if (w[i].side->x != 1) sim::violation("lost-work", "side effects of detached work are missing");
  }
  for (int i = 3; i < 6; ++i) if (w[i].started.get() != w[i].finished.get()) sim::violation("partial", "a function started but did not run to its end");
  if (cancels.get()) sim::violation("cancelled", "detached work was cancelled");
  if (arena.get()) sim::violation("leak", "memory not returned to the user's allocator");
  if (sim::obj_live(sim::O_FUNC)) sim::violation("leak", "objects kept alive by detach() are not released");
}

// stages attached after detach() are cancelled by dropping them
SCENARIO(detach_not_after, "C08,C06") {
  Work a, b;
  auto pf = pc::make_promise<Val>();
  pc::promise<Val> p = std::move(pf.first);
  auto f = pf.second.next([d = Do(a)](Val v) mutable { d.go(); return v; }).detach().next([d = Do(b)](Val v) mutable { d.go(); return v; });
  sim::count_fault(sim::F_CANCEL);
  if (choose(2)) { drop(f); p.set_value(Val{1}); if (b.started.get()) sim::violation("not-cancelled", "a stage attached after detach() ran although it was dropped"); }
  else { sim::Threads th; th.start([&] { p.set_value(Val{1}); }); if (choose(2)) sim::yield(); drop(f); }
  if (a.finished.get() != 1) sim::violation("lost-work", "detached work was cancelled");
}

// abandoned and failing detached work releases everything
SCENARIO(detach_abandon, "C08,C05,C17") {
  Work a;
  Core core; core.randomise(true);
  core.p_drop = choose(2) ? 1000 : 0;
  int k = (int)choose(4);
  Count notified;
  sim::Threads th, workers;
  {
    auto pf = pc::make_promise<Val>();
    auto f = pf.second.then(Exec{core}, [&a, t = Token{}](pc::future<Val> f) { t.used(); a.started.inc(); Val v = f.get(); a.finished.inc(); return v; }).detach();
    f.notify([&] { notified.inc(); });
    if (k == 3) { auto g = f.share().detach(); g = g.detach(); } // twice, then dropped
    else if (choose(2)) { drop(f); }
    core.start(workers, 1);
    th.start([&, p = std::move(pf.first)]() mutable {
      switch (k) {
      case 0: p.set_value(Val{1}); break;
      case 1: p.set_exception(err_ptr(2)); break;
      default: { sim::count_fault(sim::F_ABANDON); pc::promise<Val> q = std::move(p); }
      }
    });
    th.join_all();
  }
  core.close();
  workers.join_all();
  if (notified.get() != 1) sim::violation("lost-notify", "a notification of detached work ran %d times", notified.get());
  if (core.p_drop == 0 && a.started.get() != 1) sim::violation("lost-work", "a detached stage ran %d times", a.started.get());
  if (sim::obj_live(sim::O_FUNC)) sim::violation("leak", "objects kept alive by detach() are not released");
}

// detached results of unwrapping, when_all and when_any
SCENARIO(detach_compound, "C08,C10,C11,C12,C17") {
  Core core; core.randomise();
  sim::Threads workers, th;
  core.start(workers, 1);
  Env a(1), b(2);
  pc::future<Val> fa, fb;
  auto pa = make_source<Val>(a, fa, nullptr), pb = make_source<Val>(b, fb, nullptr);
  Count ran;
  int k = (int)choose(3);
  auto done = [&ran, t = Token{}] { t.used(); ran.inc(); };
  if (k == 0) {
    auto f = fa.then([in = std::make_shared<pc::future<Val>>(std::move(fb)), t = Token{}](pc::future<Val>) { t.used(); return std::move(*in); })
                 .then(Exec{core}, [done = std::move(done), &b](pc::future<Val> f) { done(); expect_out(outcome([&] { return f.get().id(); }), b.want<Val>(), "detached unwrap"); })
                 .detach();
    if (choose(2)) sim::yield();
  } else if (k == 1) {
    auto f = pc::when_all(std::move(fa), fb.share()).next(Exec{core}, [done = std::move(done), &a, &b](auto t) {
      done();
      expect_out(outcome([&] { return std::get<0>(t).get().id(); }), a.want<Val>(), "detached when_all");
      expect_out(outcome([&] { return std::get<1>(t).get().id(); }), b.want<Val>(), "detached when_all");
    }).detach();
  } else {
    auto f = pc::when_any(std::move(fa), fb.share()).next([done = std::move(done)](auto r) { done(); if (!(r.index == 0 ? std::get<0>(r.futures).is_ready() : std::get<1>(r.futures).is_ready())) sim::violation("wrong-index", "when_any names an input that is not ready"); }).detach();
  }
  th.start([&] { pa->run(); });
  th.start([&] { pb->run(); });
  th.join_all();
  pa.reset(); pb.reset();
  core.close();
  workers.join_all();
  if (ran.get() != 1) sim::violation("lost-work", "detached work ran %d times", ran.get());
}
