// Whole computations (sources, chains, waits) started, completed and awaited from inside continuations, notifications
// and tasks of other computations, on the same or another thread.
#include "source.h"
using namespace h;

namespace {
struct World {
  Core core; sim::Threads workers; Count ran, due; int budget = 9;
  NOSAN bool spend() { return budget-- > 0; }
};
void activity(World &w, int depth);

// what a continuation does before it returns
struct Inner {
  World *w; int depth; Token t;
  void operator()() { t.used(); w->ran.inc(); activity(*w, depth - 1); }
};
Inner inner(World &w, int depth) { w.due.inc(); return Inner{&w, depth, Token{}}; }

// an own source, completed on this thread; everything behind it has to be there as soon as it is asked for
void own_source(World &w, int depth) {
  auto pf = pc::make_promise<Val>();
  bool err = choose(3) == 0;
  Out want = err ? Out{ERROR, 3} : Out{VALUE, 3};
  auto set = [&] { in_context([&] { if (err) pf.first.set_exception(err_ptr(3)); else pf.first.set_value(Val{3}); }); };
  Out after = err ? Out{VALUE, 503} : Out{VALUE, 4};
  auto body = [&] { return [in = inner(w, depth)](pc::future<Val> f) mutable { in(); Out o = outcome([&] { return K<Val>::get(f); }); return Val{o.kind == VALUE ? o.id + 1 : 500 + o.id}; }; };
  switch (choose(8)) {
  case 0: { // one stage
    auto g = pf.second.then(body());
    set();
    expect_out(outcome([&] { return K<Val>::get(g); }), after, "stage behind a source completed on this thread");
    break;
  }
  case 1: { // two stages, the second of them nested
    auto g = pf.second.then(body()).next([in = inner(w, depth)](Val v) mutable { in(); return pc::make_ready_future(std::move(v)); });
    set();
    expect_out(outcome([&] { return K<Val>::get(g); }), after, "nested stage behind a source completed on this thread");
    break;
  }
  case 2: { // through an executor with threads of its own
    auto g = pf.second.then(Exec{w.core}, body());
    set();
    expect_out(outcome([&] { return K<Val>::get(g); }), after, "stage on an executor");
    break;
  }
  case 3: { // notification plus several stages of a shared future
    auto sf = pf.second.share();
    Count told;
    sf.notify([&told, in = std::make_unique<Inner>(inner(w, depth))]() mutable { (*in)(); told.inc(); });
    auto a = sf.then([in = inner(w, depth)](pc::shared_future<Val> f) mutable { in(); return outcome([&] { return K<Val>::get(f); }).id; });
    // attaches to the very future that is being delivered, and asks for the result at once
    auto b = sf.then([in = inner(w, depth)](pc::shared_future<Val> f) mutable {
      in();
      auto late = f.then([t = Token{}](pc::shared_future<Val> g) { t.used(); return outcome([&] { return K<Val>::get(g); }).id; });
      int r = late.get();
      Count n; f.notify([&n] { n.inc(); });
      if (n.get() != 1) sim::violation("late-notify", "notify() on a ready future ran its function %d times", n.get());
      f.wait();
      return r;
    });
    set();
    expect_out(outcome([&] { return K<Val>::get(sf); }), want, "shared source");
    expect_out(outcome([&] { return b.get(); }), {VALUE, 3}, "stage that attaches more");
    expect_out(outcome([&] { return a.get(); }), {VALUE, 3}, "stage of a shared source");
    if (told.get() != 1) sim::violation("lost-notification", "notification ran %d times", told.get());
    break;
  }
  case 4: { // when_all with a ready and a pending input
    auto all = pc::when_all(std::move(pf.second), pc::make_ready_future(5)).next([in = inner(w, depth)](std::tuple<pc::future<Val>, pc::future<int>> r) mutable { in(); int x = std::get<1>(r).get(); return x + K<Val>::get(std::get<0>(r)); });
    set();
    expect_out(outcome([&] { return all.get(); }), err ? want : Out{VALUE, 8}, "when_all completed on this thread");
    break;
  }
  case 5: { // when_any
    auto never = pc::make_promise<int>();
    auto any = pc::when_any(std::move(pf.second), std::move(never.second)).next([in = inner(w, depth)](pc::when_any_result<std::tuple<pc::future<Val>, pc::future<int>>> r) mutable { in(); if (r.index != 0) sim::violation("wrong-index", "when_any chose a pending input"); return K<Val>::get(std::get<0>(r.futures)); });
    set();
    expect_out(outcome([&] { return any.get(); }), want, "when_any completed on this thread");
    break;
  }
  case 6: { // the inner future of an outer one is completed here
    auto outer = pc::make_promise<int>();
    auto g = outer.second.next([f = std::move(pf.second), in = inner(w, depth)](int) mutable { in(); return std::move(f); });
    if (choose(2)) { set(); outer.first.set_value(1); } else { outer.first.set_value(1); set(); }
    expect_out(outcome([&] { return K<Val>::get(g); }), want, "unwrapped on this thread");
    break;
  }
  default: { // abandoned here
    auto g = pf.second.then([in = inner(w, depth)](pc::future<Val> f) mutable { in(); return outcome([&] { return K<Val>::get(f); }).kind; });
    pf.first = pc::promise<Val>{};
    int k = g.get();
    if (k != BROKEN) sim::violation("wrong-outcome", "a stage behind an abandoned promise received %s", out_name(k));
  }
  }
}
// somebody else completes the source; this thread blocks, possibly in the middle of another completion
void foreign_source(World &w, int depth) {
  auto pf = pc::make_promise<Val>();
  auto g = pf.second.then([in = inner(w, depth)](pc::future<Val> f) mutable { in(); return K<Val>::get(f); });
  post(Exec{w.core}, [p = std::move(pf.first), t = Token{}]() mutable { t.used(); if (choose(2)) sim::yield(); p.set_value(Val{6}); });
  if (choose(2)) g.wait();
  expect_out(outcome([&] { return g.get(); }), {VALUE, 6}, "stage behind a source completed by another thread");
}
// a task run in place
void own_task(World &w, int depth) {
  if (choose(2)) {
    auto g = pc::async(pc::inplace_executor, [in = inner(w, depth)]() mutable { in(); return pc::make_ready_future(Val{2}); });
    expect_out(outcome([&] { return K<Val>::get(g); }), {VALUE, 2}, "async in place");
  } else {
    pc::packaged_task<int()> task{[in = inner(w, depth)]() mutable { in(); return 2; }};
    auto g = task.get_future().then([in = inner(w, depth)](pc::future<int> f) mutable { in(); return f.get() + 1; });
    task();
    expect_out(outcome([&] { return g.get(); }), {VALUE, 3}, "task run on this thread");
  }
}
void activity(World &w, int depth) {
  if (depth <= 0) return;
  for (unsigned n = choose(3); n > 0 && w.spend(); --n)
    switch (choose(5)) {
    case 0: foreign_source(w, depth); break;
    case 1: own_task(w, depth); break;
    default: own_source(w, depth);
    }
}
void reent(int threads) {
  World w; sim::Threads th;
  w.core.check_alloc = false;
  w.core.p_inline = choose(3) * 300; w.core.reorder = choose(2);
  // enough workers for every level to block at once
  w.core.start(w.workers, 6);
  for (int i = 0; i < threads; ++i) th.start([&w] { own_source(w, 3); });
  if (!threads) { own_source(w, 3); activity(w, 3); }
  th.join_all();
  w.core.close();
  w.workers.join_all();
  if (w.ran.get() != w.due.get()) sim::violation("ran-wrong", "%d functions were attached, %d ran", w.due.get(), w.ran.get());
}
} // namespace
SCENARIO(reent_one, "C02,C03,C04,C17") { reent(0); }
SCENARIO(reent_many, "C02,C03,C10,C11,C12") { reent(1 + (int)choose(2)); }
