// Work goes to the named executor, exactly once, when it is due; executors that refuse or lose work.
#include "source.h"
using namespace h;

namespace {
struct Where { // the function under test
  Core *core; Env *e; Count *ran; int attached_by; Token t;
  void enter() {
    t.used();
    if (ran->inc() != 1) sim::violation("ran-twice", "a function ran twice");
    e->ready_seen("function");
    if (core) { if (!core->running_here()) sim::violation("wrong-executor", "a function runs outside of its executor"); }
    else if (sim::self() != e->started.fiber() && sim::self() != attached_by) sim::violation("wrong-thread", "a function without executor runs neither on the completing nor on the attaching thread");
  }
};
Where where(Core *c, Env &e, Count &ran) { return Where{c, &e, &ran, sim::self(), Token{}}; }
// hands an executor over as a temporary, a variable or a constant; the caller's variable stays usable
template <class F> auto with_exec(Core *c, F &&f) -> decltype(f(Exec{*c})) {
  struct Still { Exec &e; ~Still() { e.core(); } };
  switch (choose(3)) {
  case 0: return f(Exec{*c});
  case 1: { Exec e{*c}; Still s{e}; return f(e); }
  default: { const Exec e{*c}; return f(e); }
  }
}
enum { OP_THEN, OP_NEXT, OP_NOTIFY, OP_INTERRUPTIBLE, OP_UNWRAP_THEN, OP_UNWRAP_NEXT, OP_COUNT };

// attaches one function to f; returns the future of its result (invalid for notify)
template <class F> pc::future<int> attach(F &f, int op, Core *c, Env &e, Count &ran, Event &noted) {
  Where w = where(c, e, ran);
  auto go = [&](auto fn, auto member) { return member(std::move(fn)); };
  switch (op) {
  case OP_THEN: { auto fn = [w = std::move(w)](F f) mutable { w.enter(); return outcome([&] { return K<Val>::get(f); }).kind; }; return c ? with_exec(c, [&](auto &&x) { return f.then(std::forward<decltype(x)>(x), std::move(fn)); }) : f.then(std::move(fn)); }
  case OP_NEXT: { auto fn = [w = std::move(w)](const Val &) mutable { w.enter(); return (int)VALUE; }; return c ? with_exec(c, [&](auto &&x) { return f.next(std::forward<decltype(x)>(x), std::move(fn)); }) : f.next(std::move(fn)); }
  case OP_INTERRUPTIBLE: { auto fn = [w = std::move(w)](pc::promise<int> p, F f) mutable { w.enter(); p.set_value(outcome([&] { return K<Val>::get(f); }).kind); }; return c ? with_exec(c, [&](auto &&x) { return f.then(std::forward<decltype(x)>(x), std::move(fn)); }) : f.then(std::move(fn)); }
  case OP_UNWRAP_THEN: { auto fn = [w = std::move(w)](F f) mutable { w.enter(); return pc::make_ready_future(outcome([&] { return K<Val>::get(f); }).kind); }; return c ? with_exec(c, [&](auto &&x) { return f.then(std::forward<decltype(x)>(x), std::move(fn)); }) : f.then(std::move(fn)); }
  case OP_UNWRAP_NEXT: { auto fn = [w = std::move(w)](const Val &) mutable { w.enter(); return pc::make_ready_future((int)VALUE); }; return c ? with_exec(c, [&](auto &&x) { return f.next(std::forward<decltype(x)>(x), std::move(fn)); }) : f.next(std::move(fn)); }
  default: {
    struct Note { Where w; Event *ev; };
    auto n = std::make_unique<Note>(Note{std::move(w), &noted});
    auto fn = [n = std::move(n)]() mutable { n->w.enter(); n->ev->signal(); };
    if (c) with_exec(c, [&](auto &&x) { f.notify(std::forward<decltype(x)>(x), std::move(fn)); }); else f.notify(std::move(fn));
    return {};
  }
  }
  (void)go;
}
bool is_next(int op) { return op == OP_NEXT || op == OP_UNWRAP_NEXT; }
} // namespace

SCENARIO_W(exec_where, "C18,C03,C01,C06,C09,C10,C21", 3) {
  Env e(11 + (int)choose(50));
  Core mine, src; mine.randomise(); src.randomise();
  mine.due = &e.started;
  bool use = choose(4) != 3;
  bool shared = choose(2);
  int op = (int)choose(OP_COUNT);
  sim::Threads workers;
  Count ran; Event noted;
  {
    sim::Threads th;
    pc::future<Val> f;
    auto prod = make_source<Val>(e, f, use ? &src : nullptr);
    mine.start(workers, 1 + (int)choose(2)); src.start(workers, 1);
    th.start([p = std::move(prod)]() mutable { p->run(); if (choose(2)) p.reset(); });
    th.start([&, f = std::move(f)]() mutable {
      if (choose(2)) sim::yield();
      pc::future<int> r;
      pc::shared_future<Val> s;
      if (shared) { s = f.share(); r = attach(s, op, use ? &mine : nullptr, e, ran, noted); }
      else r = attach(f, op, use ? &mine : nullptr, e, ran, noted);
      if (op != OP_NOTIFY) s = {};
      if (op == OP_NOTIFY) noted.wait();
      else {
        int k = (int)choose(3);
        Out want = is_next(op) ? (e.kind == VALUE ? Out{VALUE, VALUE} : Out{e.kind, e.id}) : Out{VALUE, e.kind};
        if (k == 2) { sim::count_fault(sim::F_CANCEL); r = {}; return; }
        expect_out(outcome([&] { return r.get(); }), want, "stage");
      }
      if (ran.get() != (is_next(op) ? e.kind == VALUE : 1)) sim::violation("ran-wrong", "the function ran %d times", ran.get());
      if (use && mine.posts.get() != 1) sim::violation("posts", "the function was posted %d times", mine.posts.get());
    });
    th.join_all();
    mine.close(); src.close();
  }
  workers.join_all();
  mine.discard(); src.discard(); // a cancelled source may still have posted to a worker that was already gone
  if (mine.posts.get() > (use ? 1 : 0)) sim::violation("posts", "the function was posted %d times", mine.posts.get());
}

// async: posted once by the caller, runs only in the executor, arguments are handed over
SCENARIO(exec_async, "C18,C01") {
  Core mine, other; mine.randomise(); other.randomise();
  sim::Threads workers;
  Count ran;
  {
    Side side;
    sim::Threads th;
    mine.start(workers, 1 + (int)choose(2));
    unsigned n = 1 + choose(2);
    Count posted[2];
    for (unsigned i = 0; i < n; ++i)
      th.start([&] {
        auto data = std::make_unique<Side>();
        data->x = 77;
        Exec ex{mine};
        auto f = pc::async(ex, [&, t = Token{}](std::unique_ptr<Side> d, int k, MVal m) {
          t.used(); ran.inc();
          if (!mine.running_here()) sim::violation("wrong-executor", "an async function runs outside of its executor");
          if (d->x != 77) sim::violation("not-published", "the poster's writes are not visible");
          return Val{d->x + k + m.id()};
        }, std::move(data), 5, MVal{3});
        ex.core();
        if (choose(3) == 2) { sim::count_fault(sim::F_CANCEL); f = {}; return; }
        expect_out(outcome([&] { return f.get().id(); }), {VALUE, 85}, "async");
      });
    th.join_all();
    if (mine.posts.get() != (int)n) sim::violation("posts", "%d async calls posted %d tasks", n, mine.posts.get());
    mine.close();
  }
  workers.join_all();
  if (other.posts.get()) sim::violation("wrong-executor", "work was posted to an executor that was not named");
}

// a chain over several executors: every stage in its own
SCENARIO(exec_chain, "C18,C04,C03") {
  Core c[3]; for (auto &x : c) x.randomise();
  sim::Threads workers;
  Count ran[3];
  pc::future<Val> f;
  auto stage = [&](int i) { return [&, i, t = Token{}](Val v) { t.used(); if (ran[i].inc() != 1) sim::violation("ran-twice", "a stage ran twice"); if (!c[i].running_here()) sim::violation("wrong-executor", "a stage runs outside of its executor"); return Val{v.id() * 2}; }; };
  {
    sim::Threads th;
    auto pf = pc::make_promise<Val>();
    Exec ex[3] = {Exec{c[0]}, Exec{c[1]}, Exec{c[2]}};
    f = pf.second.next(ex[0], stage(0)).next(ex[1], stage(1)).next(ex[2], stage(2));
    for (auto &x : ex) x.core();
    for (auto &x : c) x.start(workers, 1);
    th.start([p = std::move(pf.first)]() mutable { p.set_value(Val{1}); });
    expect_out(outcome([&] { return f.get().id(); }), {VALUE, 8}, "chain over executors");
    th.join_all();
    for (auto &x : c) { if (x.posts.get() != 1) sim::violation("posts", "a stage was posted %d times", x.posts.get()); x.close(); }
  }
  workers.join_all();
}

// executors that drop work or refuse it (post throws): every dependent future is released
SCENARIO_W(exec_lossy, "C05,C17,C02,C03", 3) {
  Core bad; bad.randomise(true);
  bool refuse = choose(2), attach_first = choose(2);
  if (refuse) bad.p_refuse = choose(2) ? 1000 : 500; else bad.p_drop = choose(2) ? 1000 : 500;
  Core good; good.randomise();
  sim::Threads workers;
  Env e(9 + (int)choose(20));
  {
    sim::Threads th;
    pc::future<Val> f;
    auto prod = make_source<Val>(e, f, nullptr);
    auto s = f.share();
    bad.start(workers, 1); good.start(workers, 1);
    int nstage = 1 + (int)choose(2);
    Event attached;
    th.start([&, p = std::move(prod)]() mutable { if (attach_first) attached.wait(); p->run(); if (choose(2)) p.reset(); });
    for (int i = 0; i < nstage; ++i)
      th.start([&, s, i]() mutable {
        Count ran; Event noted;
        bool deep = choose(2);
        pc::future<int> r;
        auto body = [&ran, t = Token{}](pc::shared_future<Val> f) { t.used(); ran.inc(); return outcome([&] { return K<Val>::get(f); }).kind; };
        try {
          if (deep) r = s.then([](pc::shared_future<Val> f) { f.wait(); return f; }).then(Exec{bad}, std::move(body)); // an inline stage in front: refused while it completes
          else r = s.then(Exec{bad}, std::move(body));
        } catch (const ExecRefused &) { // refused while attaching to a ready future: reported to the caller
          if (attach_first && i == 0) sim::violation("escaped", "refusal reported to the attaching thread although the future was not ready");
          if (ran.get()) sim::violation("ran", "a refused function ran");
          return;
        }
        if (attach_first && i == 0) attached.signal();
        Count after;
        auto r2 = r.then([&after, t = Token{}](pc::future<int> f) { t.used(); after.inc(); return outcome([&] { return f.get(); }).kind; });
        Out o = outcome([&] { return r2.get(); });
        if (o.kind != VALUE || (o.id != VALUE && o.id != BROKEN)) sim::violation("wrong-outcome", "a stage behind a lossy executor got %s", out_name(o.id));
        if (o.id == BROKEN && ran.get()) sim::violation("replaced", "a stage that ran reports broken_promise");
        if (o.id == VALUE && ran.get() != 1) sim::violation("ran-wrong", "the function ran %d times", ran.get());
        if (o.id == BROKEN && !bad.drops.get() && !bad.refusals.get()) sim::violation("broken", "broken_promise although nothing was lost");
        if (after.get() != 1) sim::violation("lost-continuation", "continuation behind a lost stage ran %d times", after.get());
      });
    // bystanders: other users of the same result are not affected by somebody else's executor
    th.start([&, s]() mutable { s.wait(); e.ready_seen("wait()"); expect_out(outcome([&] { return K<Val>::get(s); }), e.want<Val>(), "bystander get()"); });
    th.start([&, s]() mutable { Count ran; auto g = s.then(Exec{good}, [&, t = Token{}](pc::shared_future<Val> f) { t.used(); ran.inc(); return outcome([&] { return K<Val>::get(f); }).kind; }); expect_out(outcome([&] { return g.get(); }), {VALUE, e.kind}, "bystander then()"); if (ran.get() != 1) sim::violation("lost-continuation", "bystander continuation ran %d times", ran.get()); });
    s = {};
    th.join_all();
    bad.close(); good.close();
  }
  workers.join_all();
}

// the same for every way of attaching a function, to unique and to shared futures
SCENARIO_W(exec_lossy_ops, "C05,C17,C03,C02,C09,C10,C18", 2) {
  Core bad; bad.randomise(true);
  bool refuse = choose(2), attach_first = choose(2), shared = choose(2);
  if (refuse) bad.p_refuse = choose(2) ? 1000 : 500; else bad.p_drop = choose(2) ? 1000 : 500;
  sim::Threads workers;
  Env e(9 + (int)choose(20));
  Count ran; Event noted;
  {
    sim::Threads th;
    pc::future<Val> f;
    auto prod = make_source<Val>(e, f, nullptr);
    int op = (int)choose(OP_COUNT);
    bad.start(workers, 1);
    auto attach_it = [&]() -> bool {
      pc::future<int> r;
      pc::shared_future<Val> s;
      Event after_ev; Count after;
      try {
        if (shared) { s = f.share(); r = attach(s, op, &bad, e, ran, noted); } else r = attach(f, op, &bad, e, ran, noted);
      } catch (const ExecRefused &) {
        if (attach_first) sim::violation("escaped", "refusal reported to the attaching thread although the future was not ready");
        if (ran.get()) sim::violation("ran", "a refused function ran");
        return true;
      }
      if (attach_first) th.start([p = std::move(prod)]() mutable { p->run(); if (choose(2)) p.reset(); });
      if (op == OP_NOTIFY) { if (shared) { s.wait(); e.ready_seen("wait()"); } else { f.wait(); e.ready_seen("wait()"); } return true; }
      if (choose(2)) { r.notify([&] { if (after.inc() != 1) sim::violation("ran-twice", "a notification ran twice"); after_ev.signal(); }); after_ev.wait(); if (!r.is_ready()) sim::violation("unready", "notification on a future that is not ready"); }
      Out o = outcome([&] { return r.get(); });
      bool lost = bad.drops.get() || bad.refusals.get();
      if (ran.get()) expect_out(o, {VALUE, is_next(op) ? (int)VALUE : e.kind}, "function behind a lossy executor");
      else if (lost) { if (o.kind != BROKEN && !(is_next(op) && o.kind == e.kind && e.kind != VALUE)) sim::violation("wrong-outcome", "a lost function leaves %s", out_name(o.kind)); }
      else if (is_next(op) && e.kind != VALUE) expect_out(o, {e.kind, e.id}, "error passed by next()");
      else sim::violation("lost", "a function did not run although its executor lost nothing");
      return true;
    };
    if (attach_first) attach_it();
    else { th.start([p = std::move(prod)]() mutable { p->run(); if (choose(2)) p.reset(); }); if (choose(2)) th.join_all(); attach_it(); }
    th.join_all();
    bad.close();
  }
  workers.join_all();
}

// async on a refusing executor: the caller gets the exception, nothing leaks, nothing runs
SCENARIO(exec_async_lossy, "C05,C17,C18") {
  Core bad; bad.randomise(true, true);
  if (choose(2)) bad.p_refuse = 1000; else bad.p_drop = 1000;
  sim::Threads workers;
  bad.start(workers, 1);
  Count ran;
  bool got = true;
  pc::future<Val> f;
  try { f = pc::async(Exec{bad}, [&, t = Token{}] { t.used(); ran.inc(); if (!bad.running_here()) sim::violation("wrong-place", "a task runs outside of its executor"); return Val{3}; }); } catch (const ExecRefused &) { got = false; }
  if (got) {
    pc::future<Val> g = choose(2) ? f.then([](pc::future<Val> f) { return f.get(); }) : std::move(f);
    Out o = outcome([&] { return g.get().id(); });
    if (ran.get()) expect_out(o, {VALUE, 3}, "async"); else expect_out(o, {BROKEN, 0}, "async task lost by its executor");
  } else if (ran.get()) sim::violation("ran", "a refused task ran");
  if (got == (bad.refusals.get() != 0)) sim::violation("refusal", "the executor %s the task, async() %s", got ? "refused" : "accepted", got ? "returned" : "threw");
  if (bad.posts.get() != 1) sim::violation("posts", "the task was posted %d times", bad.posts.get());
  bad.close();
  workers.join_all();
}

// an executor with one typed slot per task type: posting again overwrites (move-assigns) the task that has not been run
namespace {
struct Slots {
  struct Base { virtual void run() = 0; virtual ~Base() = default; };
  template <class F> struct Slot final : Base { F f; explicit Slot(F &&x) : f(std::move(x)) {} void run() override { f(); } };
  template <class F> static void tag() {}
  std::unique_ptr<Base> slot; void (*type)() = nullptr; Count posts;
  template <class F> void put(F &&f) {
    using T = std::decay_t<F>;
    posts.inc();
    if (slot && type == &tag<T>) { sim::count_fault(sim::F_EXEC_DROP); static_cast<Slot<T> &>(*slot).f = std::move(f); }
    else { slot.reset(new Slot<T>(std::move(f))); type = &tag<T>; }
  }
};
struct SlotExec { Slots *s; };
template <class F> void post(SlotExec e, F &&f) { e.s->put(std::forward<F>(f)); }
} // namespace
namespace portable_concurrency { template <> struct is_executor<SlotExec> : std::true_type {}; }

SCENARIO(exec_overwrite, "C05,C17") {
  Slots slots;
  int n = 2 + (int)choose(2), kind = (int)choose(3);
  Count ran[3];
  pc::future<int> f[3];
  for (int i = 0; i < n; ++i) {
    auto body = [&ran, i, t = Token{}](pc::future<Val> f) { t.used(); ran[i].inc(); return f.get().id(); };
    if (kind == 0) f[i] = pc::make_ready_future(Val{10 + i}).then(SlotExec{&slots}, std::move(body));
    else if (kind == 1) { auto pf = pc::make_promise<Val>(); f[i] = pf.second.then(SlotExec{&slots}, std::move(body)); pf.first.set_value(Val{10 + i}); }
    else f[i] = pc::async(SlotExec{&slots}, [&ran, i, t = Token{}] { t.used(); ran[i].inc(); return 10 + i; });
  }
  int extra = 0;
  if (choose(2)) { slots.slot.reset(); extra = 1; } // the last one is lost as well
  sim::Threads th;
  for (int i = 0; i < n; ++i)
    th.start([&, i] { Out o = outcome([&] { return f[i].get(); }); if (i + 1 < n || extra) { expect_out(o, {BROKEN, 0}, "overwritten task"); if (ran[i].get()) sim::violation("ran", "a lost task ran"); } else expect_out(o, {VALUE, 10 + i}, "task"); });
  if (slots.slot) slots.slot->run();
  th.join_all();
  if (slots.posts.get() != n) sim::violation("posts", "%d tasks posted %d times", n, slots.posts.get());
}
