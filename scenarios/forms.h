#pragma once
// Every form of continuation: kind of parent x then/next/interruptible x what the function returns x how the parent ended.
#include "source.h"
using namespace h;

namespace {
template <class T> struct Form {
  Env e, inner;                 // the parent's result, the result of a nested future
  Count ran; Mark returned;
  bool throws; int add;
  std::unique_ptr<Producer> inner_prod;
  pc::future<int> nested; pc::shared_future<int> snested;
  Core *core;                   // executor of the function, if any
  Val target{600};
  explicit Form(Core *c) : e(7 + (int)choose(50)), inner(100 + (int)choose(50)), core(c) {
    throws = choose(5) == 4; add = 1 + (int)choose(5);
    auto pf = pc::make_promise<int>();
    nested = std::move(pf.second);
    inner_prod = make_producer([this, p = std::move(pf.first)]() mutable {
      inner.side->x = inner.id; inner.started.here();
      in_context([&] { if (inner.kind == VALUE) p.set_value(inner.id); else if (inner.kind == ERROR) p.set_exception(err_ptr(inner.id)); else { sim::count_fault(sim::F_ABANDON); p = pc::promise<int>{}; } });
    });
    snested = pc::shared_future<int>{};
  }
  void enter() {
    if (ran.inc() != 1) sim::violation("ran-twice", "a continuation ran twice");
    if (core && !core->running_here()) sim::violation("wrong-executor", "a continuation runs outside of its executor");
    e.ready_seen("continuation");
  }
  // argument of then()
  template <class P> void arg_then(P &f) { if (!f.valid() || !f.is_ready()) sim::violation("unready", "a continuation received a future that is not ready"); expect_out(outcome([&] { return K<T>::get(f); }), e.want<T>(), "argument of then()"); }
  // argument of next()
  void arg_next() { if (e.kind != VALUE) sim::violation("skip", "next() function runs although its future holds an error"); }
  template <class V> void arg_next(V &v) { if (e.kind != VALUE) sim::violation("skip", "next() function runs although its future holds an error"); if (v.id() != e.id) sim::violation("wrong-value", "next() received %d instead of %d", v.id(), e.id); if (std::is_reference<T>::value && static_cast<const void *>(&v) != e.target) sim::violation("wrong-object", "next() received another object"); }
  void maybe_throw() { if (choose(2)) sim::yield(); if (throws) { sim::count_fault(sim::F_TASK_THROW); raise_err(70); } }
};
enum { R_INT, R_VOID, R_REF, R_VAL, R_FUT, R_SFUT, R_COUNT };
template <class R> struct Ret;
template <> struct Ret<int> { template <class X> static int go(X &x) { return x.add; } template <class X> static Out want(X &x) { return {VALUE, x.add}; } static int get(pc::future<int> &f) { return f.get(); } };
template <> struct Ret<void> { template <class X> static void go(X &) {} template <class X> static Out want(X &) { return {VALUE, 0}; } static int get(pc::future<void> &f) { f.get(); return 0; } };
template <> struct Ret<Val &> { template <class X> static Val &go(X &x) { return x.target; } template <class X> static Out want(X &) { return {VALUE, 600}; } static int get(pc::future<Val &> &f) { return f.get().id(); } };
template <> struct Ret<MVal> { template <class X> static MVal go(X &x) { return MVal{x.add + 20}; } template <class X> static Out want(X &x) { return {VALUE, x.add + 20}; } static int get(pc::future<MVal> &f) { return f.get().id(); } };
template <> struct Ret<pc::future<int>> { template <class X> static pc::future<int> go(X &x) { return std::move(x.nested); } template <class X> static Out want(X &x) { return {x.inner.kind, x.inner.id}; } static int get(pc::future<int> &f) { return f.get(); } };
template <> struct Ret<pc::shared_future<int>> { template <class X> static pc::shared_future<int> go(X &x) { return x.nested.share(); } template <class X> static Out want(X &x) { return {x.inner.kind, x.inner.id}; } static int get(pc::shared_future<int> &f) { return f.get(); } };

template <class T, class P, class R> void form(P parent, Form<T> &x, int op, Event &go) {
  Out want = x.throws ? Out{ERROR, 70} : Ret<R>::want(x);
  bool by_inner = !x.throws && (std::is_same<R, pc::future<int>>::value || std::is_same<R, pc::shared_future<int>>::value);
  auto finish = [&](auto r) {
    if (std::is_same<P, pc::future<T>>::value ? parent.valid() : !parent.valid()) sim::violation("valid", "attaching left a future valid or invalidated a shared_future");
    if (choose(2)) parent = P{};
    go.signal();
    if (choose(3) == 2) { r.wait(); if (by_inner && x.ran.get()) x.inner.ready_seen("wait()"); }
    expect_out(outcome([&] { return Ret<R>::get(r); }), want, op == 0 ? "then()" : op == 1 ? "next()" : "interruptible then()");
    if (by_inner) x.inner.ready_seen("get()");
  };
  Form<T> *px = &x;
  if (op == 0) {
    auto fn = [px, t = Token{}](P f) mutable -> R { t.used(); px->enter(); px->arg_then(f); px->maybe_throw(); return Ret<R>::go(*px); };
    if (x.core) finish(parent.then(Exec{*x.core}, std::move(fn))); else finish(parent.then(std::move(fn)));
    if (x.ran.get() != 1) sim::violation("ran-wrong", "continuation ran %d times", x.ran.get());
  } else {
    if (x.e.kind != VALUE) { want = {x.e.kind, x.e.id}; by_inner = false; }
    auto run = [&](auto fn) { if (x.core) finish(parent.next(Exec{*x.core}, std::move(fn))); else finish(parent.next(std::move(fn))); };
    if constexpr (std::is_void<T>::value) run([px, t = Token{}]() mutable -> R { t.used(); px->enter(); px->arg_next(); px->maybe_throw(); return Ret<R>::go(*px); });
    else {
      using A = std::conditional_t<std::is_reference<T>::value, T, std::conditional_t<std::is_same<P, pc::future<T>>::value, T, const T &>>;
      run([px, t = Token{}](A v) mutable -> R { t.used(); px->enter(); px->arg_next(v); px->maybe_throw(); return Ret<R>::go(*px); });
    }
    if (x.ran.get() != (x.e.kind == VALUE)) sim::violation("ran-wrong", "next() function ran %d times", x.ran.get());
  }
}
template <class T, class P> void form_result(P parent, Form<T> &x, Event &go) {
  int op = (int)choose(2);
  switch (choose(R_COUNT)) {
  case R_INT: form<T, P, int>(std::move(parent), x, op, go); break;
  case R_VOID: form<T, P, void>(std::move(parent), x, op, go); break;
  case R_REF: form<T, P, Val &>(std::move(parent), x, op, go); break;
  case R_VAL: form<T, P, MVal>(std::move(parent), x, op, go); break;
  case R_FUT: form<T, P, pc::future<int>>(std::move(parent), x, op, go); break;
  default: form<T, P, pc::shared_future<int>>(std::move(parent), x, op, go); break;
  }
}
template <class T> void forms() {
  Core core; core.randomise();
  sim::Threads workers;
  Form<T> x(choose(2) ? &core : nullptr);
  {
    sim::Threads th;
    core.start(workers, 1);
    pc::future<T> f;
    auto prod = make_source<T>(x.e, f, nullptr);
    Event go;
    int when = (int)choose(3); // parent completes before, after or while the function is attached
    if (when == 0) { prod->run(); if (choose(2)) prod.reset(); }
    else th.start([&, p = std::move(prod), when]() mutable { if (when == 1) go.wait(); p->run(); if (choose(2)) p.reset(); });
    if (choose(4) == 3) x.inner_prod->run(); else th.start([&] { if (choose(2)) go.wait(); x.inner_prod->run(); x.inner_prod.reset(); });
    if (choose(2)) form_result<T>(std::move(f), x, go); else form_result<T>(f.share(), x, go);
    go.signal();
    th.join_all();
    core.close();
  }
  workers.join_all();
  if (x.e.cancels.get()) sim::violation("cancelled", "the cancel action ran although a result was stored or the promise abandoned");
}
} // namespace
