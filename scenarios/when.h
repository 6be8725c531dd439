#pragma once
// when_all / when_any over every form of input.
#include "source.h"
using namespace h;

namespace {
struct World {
  Env *env[4]; int nenv = 0;
  std::unique_ptr<Producer> prod[4];
  bool held[4] = {};
  int map[8]; int n = 0;          // input -> environment
  Core core; bool async_inputs = false;
  Event release;
  ~World() { for (int k = 0; k < nenv; ++k) { prod[k].reset(); if (env[k]->arena.get()) sim::violation("leak", "memory not returned to the user's allocator"); } for (int i = 0; i < nenv; ++i) delete env[i]; }
  template <class T> pc::future<T> input(bool map_it = true) {
    int k = nenv++;
    env[k] = new Env(20 + k * 10 + (int)choose(5));
    pc::future<T> f;
    prod[k] = make_source<T>(*env[k], f, choose(4) == 3 ? &core : nullptr);
    if (map_it) map[n++] = k;
    return f;
  }
  void again(int k) { map[n++] = k; }
  Env &of(int i) { return *env[map[i]]; }
};
template <class F, class... T, size_t... I> void each_impl(std::tuple<T...> &t, F &f, std::index_sequence<I...>) { int d[] = {0, (f((int)I, std::get<I>(t)), 0)...}; (void)d; }
template <class F, class... T> void each(std::tuple<T...> &t, F f) { each_impl(t, f, std::index_sequence_for<T...>{}); }
template <class F, class V, class A> void each(std::vector<V, A> &v, F f) { for (size_t i = 0; i < v.size(); ++i) f((int)i, v[i]); }
template <class... T> size_t size_of(std::tuple<T...> &) { return sizeof...(T); }
template <class V, class A> size_t size_of(std::vector<V, A> &v) { return v.size(); }

template <class F> void take_input(World &w, int i, F &f, const char *how) {
  using T = typename F::value_type;
  if (!f.valid()) sim::violation("invalid-input", "%s: input %d is not valid", how, i);
  if (!f.is_ready()) sim::violation("unready", "%s: input %d is not ready", how, i);
  w.of(i).ready_seen(how);
  expect_out(outcome([&] { return K<T>::get(f); }), w.of(i).template want<T>(), how);
}
template <class Seq> void check_all(World &w, Seq &s) {
  if (size_of(s) != (size_t)w.n) sim::violation("wrong-size", "when_all result holds %zu futures instead of %d", size_of(s), w.n);
  each(s, [&](int i, auto &f) { take_input(w, i, f, "when_all"); });
}
template <class R> void check_any(World &w, R &r) { // returns with every producer released
  if (size_of(r.futures) != (size_t)w.n) sim::violation("wrong-size", "when_any result holds %zu futures instead of %d", size_of(r.futures), w.n);
  if (w.n == 0) { if (r.index != size_t(-1)) sim::violation("wrong-index", "when_any of nothing has index %zu", r.index); return; }
  if (r.index >= (size_t)w.n) sim::violation("wrong-index", "when_any names input %zu of %d", r.index, w.n);
  each(r.futures, [&](int i, auto &f) {
    if (!f.valid()) sim::violation("invalid-input", "when_any: input %d is not valid", i);
    if ((size_t)i == r.index) {
      if (!f.is_ready()) sim::violation("wrong-index", "when_any names an input that is not ready");
      take_input(w, i, f, "when_any");
    }
  });
}
// those not chosen remain usable
template <class R> void check_rest(World &w, R &r, bool drop_some) {
  each(r.futures, [&](int i, auto &f) {
    using F = std::decay_t<decltype(f)>;
    using T = typename F::value_type;
    if ((size_t)i == r.index) return;
    if (drop_some && choose(2)) { sim::count_fault(sim::F_CANCEL); f = F{}; return; }
    switch (choose(3)) {
    case 0: f.wait(); take_input(w, i, f, "input of when_any"); break;
    case 1: { Count ran; auto g = f.then([&, i](F x) { ran.inc(); take_input(w, i, x, "continuation of an input of when_any"); }); g.wait(); if (ran.get() != 1) sim::violation("lost-continuation", "continuation of an input of when_any ran %d times", ran.get()); break; }
    default: expect_out(outcome([&] { return K<T>::get(f); }), w.of(i).template want<T>(), "input of when_any"); w.of(i).ready_seen("input of when_any"); break;
    }
  });
}

template <bool All> struct Use;
template <> struct Use<true> {
  static bool must(World &w) { for (int i = 0; i < w.n; ++i) if (!w.of(i).must_be_ready()) return false; return true; }
  static void seen(World &w, const char *how) { for (int i = 0; i < w.n; ++i) w.of(i).ready_seen(how); }
  template <class S> static void result(World &w, S s) { check_all(w, s); w.release.signal(); }
};
template <> struct Use<false> {
  // another input's completion may have been first and still be about to announce itself: no claim then
  static bool must(World &w) { bool any = w.n == 0; for (int i = 0; i < w.n; ++i) { bool d = w.of(i).must_be_ready(); if (d) any = true; else if (w.of(i).started.set()) return false; } return any; }
  static void seen(World &w, const char *how) { if (!w.n) return; for (int i = 0; i < w.n; ++i) if (w.of(i).started.set()) return; sim::violation("early-ready", "%s: when_any is ready although no input is", how); }
  template <class R> static void result(World &w, R r) { check_any(w, r); w.release.signal(); check_rest(w, r, choose(2)); }
};

template <bool All, class FS> void consume_when(World &w, FS f, Event *finished) {
  using U = Use<All>;
  using S = typename FS::value_type;
  if (finished) finished->wait();
  auto poll = [&](const char *how) { bool m = U::must(w); bool r = f.is_ready(); if (r) U::seen(w, how); else if (m) sim::violation("late-ready", "the combined future is not ready although its inputs were before the call"); };
  for (unsigned i = choose(3); i > 0; --i) { poll("is_ready()"); if (choose(2)) sim::yield(); }
  Count ran;
  switch (choose(8)) {
  case 0: { sim::count_fault(sim::F_CANCEL); f = FS{}; w.release.signal(); return; }
  case 1: f.wait(); U::seen(w, "wait()"); U::result(w, f.get()); break;
  case 2: {
    Event done;
    f.notify([&] { U::seen(w, "notification"); if (ran.inc() != 1) sim::violation("ran-twice", "a notification ran twice"); done.signal(); });
    done.wait();
    U::result(w, f.get());
    break;
  }
  case 3: { auto g = f.then([&, t = Token{}](FS x) { t.used(); if (ran.inc() != 1) sim::violation("ran-twice", "a continuation ran twice"); if (!x.is_ready()) sim::violation("unready", "a continuation received a future that is not ready"); U::seen(w, "then()"); return x; }); U::result(w, g.get()); if (ran.get() != 1) sim::violation("lost-continuation", "continuation ran %d times", ran.get()); break; }
  case 4: { auto g = f.next(Exec{w.core}, [&, t = Token{}](S s) { t.used(); if (ran.inc() != 1) sim::violation("ran-twice", "a continuation ran twice"); U::seen(w, "next()"); return s; }); U::result(w, g.get()); if (ran.get() != 1) sim::violation("lost-continuation", "continuation ran %d times", ran.get()); break; }
  case 5: { pc::timed_waiter tw{f}; auto st = tw.wait_for(std::chrono::nanoseconds(choose(2) * 700)); if (st == pc::future_status::ready) U::seen(w, "timed wait"); U::result(w, f.get()); break; }
  case 6: { // the inputs are used and destroyed inside the continuation, on the completing thread
    auto g = f.next([&, t = Token{}](S s) { t.used(); ran.inc(); U::seen(w, "next()"); if constexpr (All) check_all(w, s); else check_any(w, s); });
    g.wait();
    if (ran.get() != 1) sim::violation("lost-continuation", "continuation ran %d times", ran.get());
    w.release.signal();
    break;
  }
  default: U::result(w, f.get()); break;
  }
}

template <bool All, class Make> void run_when(World &w, Make make) {
  using FS = decltype(make());
  sim::Threads workers;
  w.core.randomise();
  w.core.p_inline = 0;
  w.core.start(workers, 1);
  for (int k = 0; k < w.nenv; ++k) if (choose(4) == 3) { w.prod[k]->run(); w.prod[k] = make_producer([] {}); sim::probe("input ready before the call"); }
  if (!All && w.nenv > 1) { int keep = (int)choose(w.nenv); bool any = choose(2); for (int k = 0; k < w.nenv; ++k) if (k != keep && any) { w.held[k] = choose(2); if (w.held[k]) sim::probe("input held back until when_any fired"); } }
  {
    sim::Threads th, cons;
    Event finished;
    bool fin = choose(4) == 3;
    for (int k = 0; k < w.nenv; ++k)
      if (!w.held[k]) th.start([&, p = std::move(w.prod[k])]() mutable { p->run(); if (choose(2)) p.reset(); });
    cons.start([&, make = std::move(make), fin]() mutable {
      if (choose(2)) sim::yield();
      FS f = make();
      if (!f.valid()) sim::violation("invalid", "the combined future is not valid");
      consume_when<All>(w, std::move(f), fin ? &finished : nullptr);
    });
    for (int k = 0; k < w.nenv; ++k)
      if (w.held[k]) cons.start([&, p = std::move(w.prod[k])]() mutable { w.release.wait(); p->run(); });
    th.join_all();
    finished.signal();
    cons.join_all();
  }
  w.core.close();
  workers.join_all();
}
template <bool All> struct Call {
  template <class... A> static auto go(A &&...a) { if constexpr (All) return pc::when_all(std::forward<A>(a)...); else return pc::when_any(std::forward<A>(a)...); }
};

template <bool All> void when_tuple() {
  World w;
  switch (choose(5)) {
  case 0: run_when<All>(w, [] { return Call<All>::go(); }); break;
  case 1: { auto a = w.input<Val>(); run_when<All>(w, [a = std::move(a)]() mutable { return Call<All>::go(std::move(a)); }); break; }
  case 2: { auto a = w.input<void>(); auto b = w.input<Val>().share(); run_when<All>(w, [a = std::move(a), b]() mutable { auto f = Call<All>::go(std::move(a), b); if (a.valid() || !b.valid()) sim::violation("inputs", "a future was not moved or a shared_future was not copied"); return f; }); break; }
  case 3: { auto a = w.input<MVal>(); auto b = w.input<Val &>(); auto c = w.input<void>().share(); run_when<All>(w, [a = std::move(a), b = std::move(b), c]() mutable { return Call<All>::go(std::move(a), std::move(b), std::move(c)); }); break; }
  default: { auto a = w.input<Val>(); auto b = w.input<Val>().share(); auto c = w.input<MVal>().share(); w.again(1); run_when<All>(w, [a = std::move(a), b, c]() mutable { return Call<All>::go(std::move(a), b, std::move(c), b); }); break; }
  }
}
template <bool All> void when_range() {
  World w;
  int n = (int)choose(5);
  switch (choose(3)) {
  case 0: {
    std::vector<pc::future<Val>> v;
    for (int i = 0; i < n; ++i) v.push_back(w.input<Val>());
    run_when<All>(w, [v = std::move(v)]() mutable { auto f = Call<All>::go(v.begin(), v.end()); for (auto &x : v) if (x.valid()) sim::violation("inputs", "a future was not moved"); return f; });
    break;
  }
  case 1: {
    std::vector<pc::shared_future<MVal>> v;
    for (int i = 0; i < n; ++i) v.push_back(w.input<MVal>().share());
    if (n && choose(2)) { v.push_back(v[0]); w.again(0); }
    run_when<All>(w, [v = std::move(v)]() mutable { auto f = Call<All>::go(v.begin(), v.end()); for (auto &x : v) if (!x.valid()) sim::violation("inputs", "a shared_future was not copied"); if (choose(2)) v.clear(); return f; });
    break;
  }
  default: {
    std::vector<pc::future<void>> v;
    for (int i = 0; i < n; ++i) v.push_back(w.input<void>());
    run_when<All>(w, [v = std::move(v)]() mutable { return Call<All>::go(std::move(v)); });
  }
  }
}
template <bool All> void when_vector_alloc() {
  Arena ar;
  {
    World w;
    int n = (int)choose(4);
    if (choose(2)) {
      std::vector<pc::future<Val>, Alloc<pc::future<Val>>> v{Alloc<pc::future<Val>>{ar}};
      for (int i = 0; i < n; ++i) v.push_back(w.input<Val>());
      run_when<All>(w, [v = std::move(v)]() mutable { return Call<All>::go(std::move(v)); });
    } else {
      std::vector<pc::shared_future<void>, Alloc<pc::shared_future<void>>> v{Alloc<pc::shared_future<void>>{ar}};
      for (int i = 0; i < n; ++i) v.push_back(w.input<void>().share());
      run_when<All>(w, [v = std::move(v)]() mutable { return Call<All>::go(std::move(v)); });
    }
  }
  if (ar.get()) sim::violation("leak", "memory of the vector was not returned to its allocator");
}
// several combined futures over copies of the same shared inputs, built by different threads
template <int> void when_shared() {
  Env a(30 + (int)choose(5)), b(60 + (int)choose(5));
  pc::future<Val> fa, fb;
  auto pa = make_source<Val>(a, fa, nullptr), pb = make_source<Val>(b, fb, nullptr);
  auto sa = fa.share(), sb = fb.share();
  bool hold_b = choose(2);
  Event any_done;
  sim::Threads th, anys;
  th.start([p = std::move(pa)]() mutable { p->run(); });
  th.start([&, p = std::move(pb)]() mutable { if (hold_b) any_done.wait(); p->run(); });
  th.start([sa, sb, &a, &b] {
    auto f = pc::when_all(sb, sa);
    f.wait();
    a.ready_seen("when_all"); b.ready_seen("when_all");
    auto t = f.get();
    expect_out(outcome([&] { return std::get<0>(t).get().id(); }), b.want<Val>(), "when_all");
    expect_out(outcome([&] { return std::get<1>(t).get().id(); }), a.want<Val>(), "when_all");
  });
  unsigned n = 1 + choose(2);
  for (unsigned i = 0; i < n; ++i)
    anys.start([sa, sb, &a, &b, hold_b] {
      auto r = pc::when_any(sa, sb).get();
      if (r.index > 1) sim::violation("wrong-index", "when_any names input %zu", r.index);
      if (hold_b && r.index != 0) sim::violation("wrong-index", "when_any names an input that cannot be ready");
      auto &chosen = r.index == 0 ? std::get<0>(r.futures) : std::get<1>(r.futures);
      if (!chosen.is_ready()) sim::violation("wrong-index", "when_any names an input that is not ready");
      (r.index == 0 ? a : b).ready_seen("when_any");
    });
  anys.join_all();
  any_done.signal();
  if (choose(2)) { drop(sa); drop(sb); }
}
// the combination feeds further stages: nested combinations and chains
template <int> void when_nested() {
  World w;
  auto a = w.input<Val>(), b = w.input<Val>(), c = w.input<Val>();
  run_when<true>(w, [a = std::move(a), b = std::move(b), c = std::move(c)]() mutable {
    // (a && b) && c, flattened back into the argument order
    auto ab = pc::when_all(std::move(a), std::move(b));
    auto abc = pc::when_all(std::move(ab), std::move(c));
    return abc.next([](std::tuple<pc::future<std::tuple<pc::future<Val>, pc::future<Val>>>, pc::future<Val>> t) {
      auto ab = std::get<0>(t).get();
      return std::make_tuple(std::move(std::get<0>(ab)), std::move(std::get<1>(ab)), std::move(std::get<1>(t)));
    });
  });
}
} // namespace
