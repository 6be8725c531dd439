// Consumed, moved-from and empty futures.
#include "source.h"
using namespace h;

namespace {
template <class F> Out act(F &&f) { return outcome([&] { f(); return 0; }); }
void want(const Out &o, int kind, const char *what) { if (o.kind != kind) sim::violation("wrong-report", "%s: reported %s instead of %s", what, out_name(o.kind), out_name(kind)); }
} // namespace

// a future that was consumed or never had a state
namespace {
template <class F> void unusable(F &f, const char *who) {
  using T = typename F::value_type;
  if (f.valid()) sim::violation("still-valid", "%s is still valid", who);
  want(act([&] { (void)f.get(); }), NO_STATE, who);
  want(act([&] { f.wait(); }), NO_STATE, who);
  want(act([&] { (void)f.is_ready(); }), NO_STATE, who);
  want(act([&] { f.notify([] {}); }), NO_STATE, who);
  want(act([&] { f.notify(pc::inplace_executor, [] {}); }), NO_STATE, who);
  want(act([&] { (void)f.detach(); }), NO_STATE, who);
  want(act([&] { (void)f.wait_for(std::chrono::seconds(1)); }), NO_STATE, who);
  want(act([&] { (void)f.wait_until(std::chrono::steady_clock::now()); }), NO_STATE, who);
  want(act([&] { (void)f.then([](F) { return 1; }); }), NO_STATE, who);
  want(act([&] { (void)f.then([](pc::promise<int>, F) {}); }), NO_STATE, who);
  want(act([&] { (void)f.then(pc::inplace_executor, [](F) { return 1; }); }), NO_STATE, who);
  want(act([&] { (void)f.then(pc::inplace_executor, [](pc::promise<int>, F) {}); }), NO_STATE, who);
  if constexpr (std::is_void<T>::value) want(act([&] { (void)f.next([] { return 1; }); (void)f.next(pc::inplace_executor, [] { return 1; }); }), NO_STATE, who);
  else if constexpr (std::is_reference<T>::value) want(act([&] { (void)f.next([](T) { return 1; }); }), NO_STATE, who);
  else want(act([&] { (void)f.next([](const T &) { return 1; }); }), NO_STATE, who);
}
template <class T> T pass(pc::future<T> f) { return f.get(); }
template <class T> void taken() {
  Env e(12);
  sim::Threads th;
  pc::future<T> f;
  auto prod = make_source<T>(e, f, nullptr);
  if (choose(2)) th.start([&] { prod->run(); }); else prod->run();
  auto got = [&](pc::future<T> &g, const char *how) { expect_out(outcome([&] { return K<T>::get(g); }), e.want<T>(), how); unusable(g, "a future after get()"); };
  switch (choose(8)) {
  case 0: got(f, "get()"); break;
  case 1: { auto g = std::move(f); unusable(f, "a moved-from future"); got(g, "get()"); break; }
  case 2: { auto g = f.then(pass<T>); unusable(f, "a future after then()"); got(g, "then()"); break; }
  case 3: { pc::future<int> g; if constexpr (std::is_void<T>::value) g = f.next([] { return 0; }); else g = f.next([](T v) { return v.id(); }); unusable(f, "a future after next()"); expect_out(outcome([&] { return g.get(); }), e.want<T>(), "next()"); if (g.valid()) sim::violation("still-valid", "a future after get() is still valid"); break; }
  case 4: { auto s = f.share(); unusable(f, "a future after share()"); expect_out(outcome([&] { return K<T>::get(s); }), e.want<T>(), "share()"); auto s2 = std::move(s); unusable(s, "a moved-from shared_future"); expect_out(outcome([&] { return K<T>::get(s2); }), e.want<T>(), "share()"); expect_out(outcome([&] { return K<T>::get(s2); }), e.want<T>(), "get() again"); break; }
  case 5: { pc::shared_future<T> s; s = std::move(f); unusable(f, "a future turned into a shared_future"); auto d = s.detach(); unusable(s, "a shared_future after detach()"); expect_out(outcome([&] { return K<T>::get(d); }), e.want<T>(), "shared detach()"); break; }
  case 6: { auto g = f.then([](pc::promise<int> p, pc::future<T> x) { try { p.set_value(K<T>::get(x)); } catch (...) { p.set_exception(std::current_exception()); } }); unusable(f, "a future after interruptible then()"); expect_out(outcome([&] { return g.get(); }), e.want<T>(), "interruptible then()"); break; }
  default: { auto g = f.detach(); unusable(f, "a future after detach()"); got(g, "detach()"); }
  }
  pc::future<T> none; unusable(none, "a default constructed future");
  pc::shared_future<T> snone; unusable(snone, "a default constructed shared_future");
  th.join_all();
}
} // namespace
SCENARIO(taken_val, "C22,C21") { taken<Val>(); }
SCENARIO(taken_mval, "C22") { taken<MVal>(); }
SCENARIO(taken_void, "C22") { taken<void>(); }
SCENARIO(taken_ref, "C22") { taken<Val &>(); }


// the result is stored before the future is retrieved
namespace {
template <class T> void late() {
  Env e(14, false);
  sim::Threads th;
  if (choose(2)) {
    pc::promise<T> p = [&]() -> pc::promise<T> { switch (choose(3)) { case 0: return pc::promise<T>{std::allocator_arg, Alloc<char>{e.arena}}; case 1: return pc::promise<T>{pc::canceler_arg, [&e] { e.cancels.inc(); }}; default: return {}; } }();
    if (!p.is_awaiten()) sim::violation("not-awaiten", "is_awaiten() is false although a future can still be obtained");
    if (choose(2)) { pc::promise<T> q = std::move(p); if (choose(2)) p = pc::promise<T>{}; p = std::move(q); }
    auto store = [&] { fulfil(e, p); want(act([&] { K<T>::set(p, e.id + 1, e.target); }), SATISFIED, "second set, future not retrieved"); };
    if (choose(2)) { th.start(store); th.join_all(); } else store();
    if (!p.is_awaiten()) sim::violation("not-awaiten", "is_awaiten() is false although a future can still be obtained");
    auto f = p.get_future();
    want(act([&] { (void)p.get_future(); }), RETRIEVED, "second get_future()");
    if (!f.is_ready()) sim::violation("late-ready", "the future of a stored result is not ready");
    e.ready_seen("is_ready()");
    want(act([&] { p.set_exception(err_ptr(e.id + 1)); }), SATISFIED, "second set");
    if (choose(2)) p = pc::promise<T>{};
    th.start([&, f = std::move(f)]() mutable { expect_out(outcome([&] { return K<T>::get(f); }), e.want<T>(), "get()"); });
  } else {
    Count ran;
    pc::packaged_task<T()> task{[&e, &ran, t = Token{}]() -> T { t.used(); ran.inc(); e.side->x = e.id; e.started.here(); if (e.kind == ERROR) raise_err(e.id); return K<T>::make(e.id, e.target); }};
    if (choose(2)) { pc::packaged_task<T()> o; o.swap(task); if (choose(2)) task = pc::packaged_task<T()>{}; task = std::move(o); }
    if (choose(2)) { th.start([&] { task(); }); th.join_all(); } else task();
    want(act([&] { task(); }), SATISFIED, "second run, future not retrieved");
    auto f = task.get_future();
    want(act([&] { (void)task.get_future(); }), RETRIEVED, "second get_future()");
    if (!f.is_ready()) sim::violation("late-ready", "the future of a finished task is not ready");
    e.ready_seen("is_ready()");
    want(act([&] { task(); }), SATISFIED, "second run");
    if (choose(2)) task = pc::packaged_task<T()>{};
    th.start([&, f = std::move(f)]() mutable { expect_out(outcome([&] { return K<T>::get(f); }), e.want<T>(), "get()"); });
    if (ran.get() != 1) sim::violation("ran-twice", "the function of a task ran %d times", ran.get());
  }
  th.join_all();
  if (e.cancels.get()) sim::violation("cancel-ran", "a cancel action ran although the result was stored");
}
} // namespace
SCENARIO(late_retrieval, "C22,C01,C09,C17") { switch (choose(4)) { case 0: late<Val>(); break; case 1: late<MVal>(); break; case 2: late<void>(); break; default: late<Val &>(); } }

// future_get and future_ready in algorithms, over futures that become ready meanwhile
#include <algorithm>
#include <iterator>
namespace {
template <class T, bool SHARED> void adapters() {
  using F = std::conditional_t<SHARED, pc::shared_future<T>, pc::future<T>>;
  sim::Threads th;
  int n = 1 + (int)choose(4);
  std::vector<std::unique_ptr<Env>> e; std::vector<std::unique_ptr<Producer>> prod; std::vector<F> fs;
  for (int i = 0; i < n; ++i) { e.emplace_back(new Env(20 + i)); pc::future<T> f; prod.push_back(make_source<T>(*e.back(), f, nullptr)); fs.emplace_back(std::move(f)); }
  int early = (int)choose(n + 1);
  for (int i = 0; i < early; ++i) prod[i]->run();
  bool later = choose(2);
  if (later) th.start([&] { for (int i = early; i < n; ++i) prod[i]->run(); });
  int ready = (int)std::count_if(fs.begin(), fs.end(), pc::future_ready);
  if (ready < early || (!later && ready != early)) sim::violation("late-ready", "future_ready counts %d ready futures of %d", ready, early);
  auto it = std::find_if(fs.begin(), fs.end(), pc::future_ready);
  if (early && it != fs.begin()) sim::violation("late-ready", "future_ready misses a ready future");
  if (!later) for (int i = early; i < n; ++i) prod[i]->run();
  for (int i = 0; i < n; ++i) {
    expect_out(outcome([&] { if constexpr (std::is_void<T>::value) { pc::future_get(fs[i]); return 0; } else { auto &&v = pc::future_get(fs[i]); if constexpr (std::is_reference<T>::value) if (&v != e[i]->target) sim::violation("wrong-object", "future_get() returns another object"); return v.id(); } }), e[i]->template want<T>(), "future_get()");
    e[i]->ready_seen("future_get()");
    if (fs[i].valid() != SHARED) sim::violation("still-valid", "validity after future_get()");
    if constexpr (SHARED && !std::is_void<T>::value) if (e[i]->kind == VALUE && &pc::future_get(fs[i]) != &fs[i].get()) sim::violation("wrong-object", "future_get() returns another object");
  }
  th.join_all();
}
} // namespace
SCENARIO(adapters, "C01,C21,C22") { switch (choose(6)) { case 0: adapters<Val, false>(); break; case 1: adapters<Val, true>(); break; case 2: adapters<void, false>(); break; case 3: adapters<Val &, true>(); break; case 4: adapters<MVal, false>(); break; default: adapters<MVal, true>(); } }
