// Results are set once and taken once; misuse is reported and disturbs nobody.
#include "source.h"
using namespace h;

namespace {
template <class F> Out act(F &&f) { return outcome([&] { f(); return 0; }); }
void want(const Out &o, int kind, const char *what) { if (o.kind != kind) sim::violation("wrong-report", "%s: reported %s instead of %s", what, out_name(o.kind), out_name(kind)); }

template <class T> void set_again(pc::promise<T> &p, Env &e, const char *what) {
  if (choose(2)) want(act([&] { K<T>::set(p, e.id + 5, e.target); }), SATISFIED, what);
  else want(act([&] { p.set_exception(err_ptr(e.id + 6)); }), SATISFIED, what);
}

template <class T> void once() {
  Env e(30, false);
  Core core; core.randomise();
  sim::Threads workers, th;
  core.start(workers, 1);
  pc::promise<T> p;
  pc::future<T> f;
  bool old_style = choose(2);
  if (old_style) { f = p.get_future(); want(act([&] { (void)p.get_future(); }), RETRIEVED, "second get_future()"); }
  else { auto pf = pc::make_promise<T>(); p = std::move(pf.first); f = std::move(pf.second); want(act([&] { (void)p.get_future(); }), RETRIEVED, "get_future() after make_promise()"); }
  pc::shared_future<T> sf = f.share();
  if (f.valid()) sim::violation("still-valid", "share() left the future valid");
  // observers, some of which try to set the result again from inside a notification or continuation
  Count inner;
  Count again;
  bool reenter = choose(2);
  auto cont = reenter ? sf.then([&, t = Token{}](pc::shared_future<T> s) { t.used(); inner.inc(); set_again(p, e, "setting from inside a continuation"); expect_out(outcome([&] { return K<T>::get(s); }), e.want<T>(), "continuation"); return 1; }) : pc::future<int>{};
  for (int i = 0; i < 1 + (int)choose(2); ++i) th.start([&, s = sf] { for (int k = 0; k < 2; ++k) { expect_out(outcome([&] { return K<T>::get(s); }), e.want<T>(), "get()"); e.ready_seen("get()"); if (choose(2)) sim::yield(); } });
  if (choose(2)) sim::yield();
  e.side->x = e.id;
  e.started.here();
  if (e.kind == VALUE) K<T>::set(p, e.id, e.target); else p.set_exception(err_ptr(e.id));
  e.done.here();
  for (unsigned k = 1 + choose(2); k > 0; --k) set_again(p, e, "second set");
  if (choose(2)) { pc::promise<T> q = std::move(p); set_again(q, e, "second set through a moved promise"); want(act([&] { K<T>::set(p, 1, e.target); }), NO_STATE, "moved-from promise"); want(act([&] { p.set_exception(err_ptr(1)); }), NO_STATE, "moved-from promise"); want(act([&] { (void)p.is_awaiten(); }), NO_STATE, "moved-from promise"); }
  if (choose(3) == 0) { // a promise without state is assigned
    pc::promise<T> gone, keep = std::move(gone);
    p = std::move(gone);
    want(act([&] { K<T>::set(p, 1, e.target); }), NO_STATE, "a promise after an empty one was assigned to it");
    want(act([&] { (void)p.is_awaiten(); }), NO_STATE, "a promise after an empty one was assigned to it");
    want(act([&] { (void)p.get_future(); }), NO_STATE, "a promise after an empty one was assigned to it");
  }
  expect_out(outcome([&] { return K<T>::get(sf); }), e.want<T>(), "result after further attempts");
  th.join_all();
  if (reenter && inner.get() != 1) sim::violation("ran-wrong", "continuation ran %d times", inner.get());
  core.close();
}
} // namespace
SCENARIO(once_val, "C22,C03") { once<Val>(); }
SCENARIO(once_void, "C22,C03") { once<void>(); }
SCENARIO(once_ref, "C22") { once<Val &>(); }

SCENARIO_W(once_task, "C22", 2) {
  sim::Threads th;
  Count ran, cont;
  pc::packaged_task<Val(int)> task{[&, t = Token{}](int x) { t.used(); ran.inc(); if (x < 0) raise_err(-x); return Val{x}; }};
  if (!task.valid()) sim::violation("invalid", "a task with a function is invalid");
  bool err = choose(2);
  Out exp = err ? Out{ERROR, 7} : Out{VALUE, 7};
  auto f = task.get_future();
  want(act([&] { (void)task.get_future(); }), RETRIEVED, "second get_future()");
  auto sf = f.share();
  th.start([&, s = sf] { expect_out(outcome([&] { return s.get().id(); }), exp, "get()"); if (choose(2)) sim::yield(); expect_out(outcome([&] { return s.get().id(); }), exp, "get()"); });
  bool moved = choose(2);
  pc::packaged_task<Val(int)> other;
  pc::future<int> inner; Count inside; // runs the task again from inside its own continuation
  if (choose(2)) inner = sf.then([&, t = Token{}](pc::shared_future<Val> s) { t.used(); inside.inc(); want(act([&] { (moved ? other : task)(3); }), SATISFIED, "running a task from its own continuation"); expect_out(outcome([&] { return s.get().id(); }), exp, "continuation"); return 1; });
  if (moved) { if (choose(2)) other = std::move(task); else other.swap(task); }
  auto &t = moved ? other : task;
  want(act([&] { t(err ? -7 : 7); }), VALUE, "running a task");
  want(act([&] { t(9); }), SATISFIED, "running a task again");
  if (choose(2)) want(act([&] { t(-9); }), SATISFIED, "running a task again");
  if (ran.get() != 1) sim::violation("ran-twice", "the function of a task ran %d times", ran.get());
  if (inner.valid() && inside.get() != 1) sim::violation("lost-continuation", "continuation ran %d times", inside.get());
  if (moved) { if (task.valid()) sim::violation("still-valid", "a moved-from task is valid"); want(act([&] { task(3); }), NO_STATE, "running a moved-from task"); want(act([&] { (void)task.get_future(); }), NO_STATE, "future of a moved-from task"); }
  { pc::packaged_task<Val(int)> dflt; want(act([&] { dflt(1); }), NO_STATE, "running an empty task"); want(act([&] { (void)dflt.get_future(); }), NO_STATE, "future of an empty task"); }
  if (choose(2)) {
    if (choose(2)) t = {}; else { pc::packaged_task<Val(int)> gone{[](int x) { return Val{x}; }}, keep = std::move(gone); t = std::move(gone); }
    if (t.valid()) sim::violation("still-valid", "a task is valid after an empty one was assigned to it");
    want(act([&] { t(3); }), NO_STATE, "running a task after an empty one was assigned to it");
    want(act([&] { (void)t.get_future(); }), NO_STATE, "future of an empty task");
  }
  expect_out(outcome([&] { return sf.get().id(); }), exp, "result");
  th.join_all();
}

// the constructor of the stored value throws: the promise is still unset
SCENARIO_W(once_throwing_value, "C22,C02,C03,C17", 2) {
  sim::Threads th;
  auto pf = choose(2) ? pc::make_promise<Val>() : pc::make_promise<Val>(pc::canceler_arg, [] { sim::violation("cancelled", "cancel action ran"); });
  pc::promise<Val> p = std::move(pf.first);
  auto sf = pf.second.share();
  Mark second;
  Count ran;
  int how = (int)choose(3);
  Out exp = how == 0 ? Out{VALUE, 60} : how == 1 ? Out{ERROR, 61} : Out{BROKEN, 0};
  auto c = sf.then([&](pc::shared_future<Val> f) { if (!second.set()) sim::violation("early-ready", "a continuation ran although storing the value failed"); ran.inc(); expect_out(outcome([&] { return f.get().id(); }), exp, "continuation"); return 1; });
  th.start([&, s = sf] { expect_out(outcome([&] { return s.get().id(); }), exp, "get()"); if (!second.set()) sim::violation("early-ready", "get() returned although storing the value failed"); });
  if (choose(2)) sim::yield();
  Val v{59};
  for (unsigned n = 1 + choose(2); n > 0; --n) {
    Faulty::countdown() = 1;
    Out o = act([&] { p.set_value(v); });
    if (o.kind != OTHER) sim::violation("wrong-report", "an exception of the value's constructor was not passed on");
    if (sf.is_ready()) sim::violation("early-ready", "the future is ready although storing the value failed");
    if (!p.is_awaiten()) sim::violation("not-awaiten", "is_awaiten() is false although a future exists");
  }
  Faulty::countdown() = 0;
  second.here();
  if (how == 0) { Val w{60}; if (choose(2)) p.set_value(w); else p.set_value(std::move(w)); }
  else if (how == 1) p.set_exception(err_ptr(61));
  else { sim::count_fault(sim::F_ABANDON); pc::promise<Val> q = std::move(p); }
  expect_out(outcome([&] { return sf.get().id(); }), exp, "get()");
  if (ran.get() != 1) { c.wait(); if (ran.get() != 1) sim::violation("lost-continuation", "continuation ran %d times", ran.get()); }
  if (how < 2) want(act([&] { p.set_value(Val{1}); }), SATISFIED, "second set");
  th.join_all();
}

// a task that returns a future: the result is not there yet, but the task has run
namespace {
template <class T> void task_nested() {
  Env e(40);
  sim::Threads th;
  Count ran;
  pc::future<T> inner;
  auto prod = make_source<T>(e, inner);
  bool shared = choose(2), err = choose(4) == 3;
  auto body = [&](int k) { ran.inc(); if (k == 2) sim::violation("ran-twice", "the function of a task ran again"); if (err) raise_err(77); };
  auto use = [&](auto task) {
    auto f = task.get_future();
    Out exp = err ? Out{ERROR, 77} : e.want<T>();
    pc::shared_future<T> sf;
    if constexpr (std::is_same<decltype(f), pc::future<T>>::value) sf = f.share(); else sf = std::move(f);
    th.start([&, s = sf] { expect_out(outcome([&] { return K<T>::get(s); }), exp, "get()"); });
    bool late = choose(2);
    std::unique_ptr<Producer> pr = std::move(prod);
    if (choose(2)) { th.start([p = std::move(pr)]() mutable { p->run(); }); late = false; } else if (!late) { pr->run(); pr.reset(); }
    want(act([&] { task(1); }), VALUE, "running a task");
    for (unsigned n = 1 + choose(2); n > 0; --n) want(act([&] { task(2); }), SATISFIED, "running a task again");
    if (ran.get() != 1) sim::violation("ran-twice", "the function of a task ran %d times", ran.get());
    if (late) { if (!err && sf.is_ready()) sim::violation("early-ready", "ready before the nested future"); pr->run(); pr.reset(); }
    if (choose(2)) { auto gone = std::move(task); }
    expect_out(outcome([&] { return K<T>::get(sf); }), exp, "result");
    th.join_all();
  };
  if (shared) use(pc::packaged_task<pc::shared_future<T>(int)>{[&, t = Token{}, in = inner.share()](int k) { t.used(); body(k); return in; }});
  else use(pc::packaged_task<pc::future<T>(int)>{[&, t = Token{}, in = std::move(inner)](int k) mutable { t.used(); body(k); return std::move(in); }});
}
} // namespace
SCENARIO(once_task_nested, "C22,C10") { switch (choose(3)) { case 0: task_nested<Val>(); break; case 1: task_nested<void>(); break; default: task_nested<Val &>(); } }
