// Sizes the other workloads do not reach: many inputs, continuations, waiters, stages, tasks.
#include "source.h"
#include <deque>
#include <list>
using namespace h;

namespace {
int some_size() { static const int n[] = {5, 6, 8, 9, 12, 16, 17, 33}; int k = (int)choose(34); return k < 32 ? n[k % 8] : k == 32 ? 65 : 258; }
struct Sources {
  int n;
  std::vector<pc::promise<int>> p;
  std::vector<int> kind; // VALUE, ERROR, BROKEN
  std::vector<int> order;
  std::unique_ptr<Mark[]> begun;
  explicit Sources(int n_) : n(n_), begun(new Mark[n_]) {
    p.resize(n); kind.resize(n); order.resize(n);
    unsigned bad = choose(3);
    for (int i = 0; i < n; ++i) { order[i] = i; kind[i] = bad && choose(6) == 0 ? (bad == 1 ? ERROR : BROKEN) : VALUE; }
    switch (choose(3)) {
    case 0: break;
    case 1: for (int i = 0; i < n / 2; ++i) std::swap(order[i], order[n - 1 - i]); break;
    default: for (int k = 0; k < 6; ++k) std::swap(order[choose(n)], order[choose(n)]);
    }
  }
  pc::future<int> make(int i) { auto pf = pc::make_promise<int>(); p[i] = std::move(pf.first); return std::move(pf.second); }
  void finish(int i) {
    begun[i].here();
    if (kind[i] == VALUE) p[i].set_value(i); else if (kind[i] == ERROR) p[i].set_exception(err_ptr(i)); else { sim::count_fault(sim::F_ABANDON); p[i] = pc::promise<int>{}; }
  }
  Out want(int i) const { return {kind[i], i}; }
  NOSAN int missing() const { int m = 0; for (int i = 0; i < n; ++i) m += !begun[i].set(); return m; }
};
template <class F> int get_int(F &f) { return f.get(); }

template <class V> void check_all_many(Sources &s, V &v) {
  if ((int)v.size() != s.n) sim::violation("wrong-size", "when_all result holds %zu futures instead of %d", v.size(), s.n);
  for (int i = 0; i < s.n; ++i) {
    if (!v[i].valid() || !v[i].is_ready()) sim::violation("unready", "when_all: input %d is not ready", i);
    expect_out(outcome([&] { return get_int(v[i]); }), s.want(i), "when_all");
  }
}
template <bool All, class FS> void drive(Sources &s, FS f) {
  sim::Threads th;
  int cut = (int)choose(s.n + 1), pre = 0;
  bool two = choose(2);
  Count stop_at; stop_at.set(s.n);
  Event released;
  int hold = All ? s.n : 1 + (int)choose(s.n); // when_any: the rest completes after the result was taken
  if (cut > hold) cut = hold;
  auto part = [&](int a, int b) { for (int i = a; i < b; ++i) s.finish(s.order[i]); };
  if (two) { th.start([&, cut] { part(pre, cut); }); th.start([&, cut, hold] { part(cut, hold); }); }
  else th.start([&, hold] { part(pre, hold); });
  Count ran;
  auto seen = [&](const char *how) { if (All ? s.missing() != 0 : s.missing() == s.n) sim::violation("early-ready", "%s: the combined future is ready too early", how); };
  if (choose(2)) { bool r = f.is_ready(); if (r) seen("is_ready()"); }
  typename FS::value_type res = [&] {
    if (choose(2)) { auto g = f.next([&](typename FS::value_type v) { if (ran.inc() != 1) sim::violation("ran-twice", "a continuation ran twice"); seen("next()"); return v; }); return g.get(); }
    f.wait(); seen("wait()"); return f.get();
  }();
  if constexpr (All) check_all_many(s, res);
  else {
    if ((int)res.futures.size() != s.n) sim::violation("wrong-size", "when_any result holds %zu futures instead of %d", res.futures.size(), s.n);
    if (res.index >= (size_t)s.n || !s.begun[res.index].set() || !res.futures[res.index].is_ready()) sim::violation("wrong-index", "when_any names input %zu, which is not ready", res.index);
    th.join_all();
    part(hold, s.n);
    for (int i = 0; i < s.n; ++i) expect_out(outcome([&] { return get_int(res.futures[i]); }), s.want(i), "input of when_any");
  }
}
// a single pass iterator over futures
struct OnePass {
  using value_type = pc::future<int>; using difference_type = std::ptrdiff_t; using pointer = pc::future<int> *; using reference = pc::future<int> &; using iterator_category = std::input_iterator_tag;
  std::list<pc::future<int>> *l; bool end;
  reference operator*() const { return l->front(); }
  pointer operator->() const { return &l->front(); }
  OnePass &operator++() { l->pop_front(); return *this; }
  void operator++(int) { l->pop_front(); }
  bool done() const { return end || l->empty(); }
  bool operator==(const OnePass &o) const { return done() == o.done(); }
  bool operator!=(const OnePass &o) const { return !(*this == o); }
};
template <bool All> struct Call { template <class... A> static auto go(A &&...a) { if constexpr (All) return pc::when_all(std::forward<A>(a)...); else return pc::when_any(std::forward<A>(a)...); } };
template <bool All> void many_inputs() {
  Sources s(some_size());
  switch (choose(5)) {
  case 0: { std::list<pc::future<int>> l; for (int i = 0; i < s.n; ++i) l.push_back(s.make(i)); drive<All>(s, Call<All>::go(l.begin(), l.end())); break; }
  case 1: { std::deque<pc::shared_future<int>> l; for (int i = 0; i < s.n; ++i) l.push_back(s.make(i).share()); auto f = Call<All>::go(l.begin(), l.end()); for (auto &x : l) if (!x.valid()) sim::violation("inputs", "a shared_future was not copied"); if (choose(2)) l.clear(); drive<All>(s, std::move(f)); break; }
  case 2: { std::vector<pc::shared_future<int>> l; for (int i = 0; i < s.n; ++i) l.push_back(s.make(i).share()); drive<All>(s, Call<All>::go(std::move(l))); break; }
  case 3: { std::list<pc::future<int>> l; for (int i = 0; i < s.n; ++i) l.push_back(s.make(i)); drive<All>(s, Call<All>::go(OnePass{&l, false}, OnePass{&l, true})); break; }
  default: { std::vector<pc::future<int>> l; for (int i = 0; i < s.n; ++i) l.push_back(s.make(i)); const int k = s.n; if (choose(2)) drive<All>(s, Call<All>::go(l.data(), l.data() + k)); else drive<All>(s, Call<All>::go(std::move(l))); }
  }
}
} // namespace
SCENARIO(many_all, "C11,C17,C02,C05") { many_inputs<true>(); }
SCENARIO(many_any, "C12,C17") { many_inputs<false>(); }

// many functions on one result, attached by several threads before, while and after it is stored
SCENARIO(many_attached, "C03,C21,C17,C18,C02,C05") {
  Env e(40);
  Core core; core.randomise();
  sim::Threads workers;
  struct Slot { Count ran; };
  int n = some_size(); if (n > 70) n = 70;
  std::unique_ptr<Slot[]> slots(new Slot[n]);
  {
    pc::future<Val> f;
    auto prod = make_source<Val>(e, f, nullptr);
    auto s = f.share();
    core.start(workers, 1);
    sim::Threads th;
    unsigned nt = 1 + choose(3);
    std::vector<pc::future<int>> res[3];
    auto attach = [&](int t, pc::shared_future<Val> s) {
      for (int i = t; i < n; i += (int)nt) {
        auto *sl = &slots[i]; Env *ep = &e;
        auto enter = [sl, ep] { if (sl->ran.inc() != 1) sim::violation("ran-twice", "a function ran twice"); ep->ready_seen("attached function"); };
        switch (choose(5)) {
        case 0: s.notify([=] { enter(); }); break;
        case 1: s.notify(Exec{core}, [=] { enter(); }); break;
        case 2: res[t].push_back(s.then([=, tk = Token{}](pc::shared_future<Val> x) { tk.used(); enter(); return outcome([&] { return K<Val>::get(x); }).kind; })); break;
        case 3: res[t].push_back(s.then(Exec{core}, [=, tk = Token{}](pc::shared_future<Val> x) { tk.used(); enter(); return outcome([&] { return K<Val>::get(x); }).kind; })); break;
        default: res[t].push_back(s.then([=](pc::promise<int> p, pc::shared_future<Val> x) { enter(); p.set_value(outcome([&] { return K<Val>::get(x); }).kind); })); break;
        }
      }
      for (auto &r : res[t]) expect_out(outcome([&] { return r.get(); }), {VALUE, e.kind}, "attached function");
    };
    for (unsigned t = 1; t < nt; ++t) th.start([&, t, s] { attach((int)t, s); });
    th.start([p = std::move(prod)]() mutable { p->run(); });
    attach(0, s);
    s.wait();
    th.join_all();
    core.close();
  }
  workers.join_all();
  for (int i = 0; i < n; ++i) if (slots[i].ran.get() != 1) sim::violation("lost-continuation", "attached function %d of %d ran %d times", i, n, slots[i].ran.get());
}

// many threads in wait() and get() at once
SCENARIO(many_waiters, "C02,C21") {
  Env e(41);
  pc::future<Val> f;
  auto prod = make_source<Val>(e, f, nullptr);
  auto s = f.share();
  sim::Threads th;
  int n = 3 + (int)choose(10);
  Count woken;
  for (int i = 0; i < n; ++i)
    th.start([&, s] {
      switch (choose(3)) { case 0: s.wait(); break; case 1: { pc::timed_waiter w{const_cast<pc::shared_future<Val> &>(s)}; w.wait_for(std::chrono::hours(1)); break; } default: break; }
      expect_out(outcome([&] { return K<Val>::get(s); }), e.want<Val>(), "get()"); e.ready_seen("get()"); woken.inc(); });
  if (choose(2)) s = {};
  th.start([p = std::move(prod)]() mutable { p->run(); });
  th.join_all();
  if (woken.get() != n) sim::violation("hang", "%d of %d waiters returned", woken.get(), n);
}

// long chains: attached before or while the source completes, completed, abandoned, or dropped in the middle
SCENARIO(deep_chain, "C04,C05,C06,C17,C02") {
  Env e(1 + (int)choose(5));
  Core core; core.randomise();
  if (core.p_inline == 1000 && choose(2)) core.p_inline = 200;
  sim::Threads workers;
  int depth = 3 + (int)choose(2) * (int)choose(40);
  std::unique_ptr<Count[]> ran(new Count[depth]);
  std::unique_ptr<bool[]> expect(new bool[depth]());
  bool drop = choose(3) == 2;
  Out want = e.want<Val>();
  Mark dropped;
  {
    pc::future<Val> f;
    auto prod = make_source<Val>(e, f, nullptr);
    core.start(workers, 1);
    sim::Threads th;
    int start_at = (int)choose(depth + 1);
    auto start = [&] { th.start([p = std::move(prod)]() mutable { p->run(); }); };
    for (int i = 0; i < depth; ++i) {
      if (i == start_at) start();
      Count *r = &ran[i]; Mark *d = &dropped;
      auto enter = [r, d, t = Token{}] { t.used(); if (r->inc() != 1) sim::violation("ran-twice", "a stage ran twice"); if (d->before_me()) sim::violation("not-cancelled", "a stage started although the chain was dropped before"); };
      bool ex = choose(4) == 3;
      bool ok = want.kind == VALUE;
      switch (choose(5)) {
      case 0: { auto fn = [enter = std::move(enter)](Val v) { enter(); return Val{v.id() + 1}; }; f = ex ? f.next(Exec{core}, std::move(fn)) : f.next(std::move(fn)); if (ok) { want.id++; expect[i] = true; } break; }
      case 1: { auto fn = [enter = std::move(enter)](Val v) { enter(); if (v.id() % 7 == 3) raise_err(v.id()); return Val{v.id() + 2}; }; f = ex ? f.next(Exec{core}, std::move(fn)) : f.next(std::move(fn)); if (ok) { expect[i] = true; if (want.id % 7 == 3) want.kind = ERROR; else want.id += 2; } break; }
      case 2: { auto fn = [enter = std::move(enter)](pc::future<Val> x) { enter(); Out o = outcome([&] { return x.get().id(); }); return Val{o.kind == VALUE ? o.id + 3 : 1000}; }; f = ex ? f.then(Exec{core}, std::move(fn)) : f.then(std::move(fn)); expect[i] = true; want = {VALUE, ok ? want.id + 3 : 1000}; break; }
      case 3: { auto fn = [enter = std::move(enter)](Val v) { enter(); return pc::make_ready_future(Val{v.id() + 4}); }; f = ex ? f.next(Exec{core}, std::move(fn)) : f.next(std::move(fn)); if (ok) { expect[i] = true; want.id += 4; } break; }
      default: { auto fn = [enter = std::move(enter)](pc::future<Val> x) { enter(); return x; }; f = ex ? f.then(Exec{core}, std::move(fn)) : f.then(std::move(fn)); expect[i] = true; break; }
      }
    }
    if (start_at >= depth) start();
    if (drop) { sim::count_fault(sim::F_CANCEL); if (choose(2)) sim::yield(); f = {}; dropped.here(); }
    else expect_out(outcome([&] { return K<Val>::get(f); }), want, "long chain");
    th.join_all();
    core.close();
  }
  workers.join_all();
  core.discard();
  for (int i = 0; i < depth; ++i) if (drop ? ran[i].get() > 1 : ran[i].get() != expect[i]) sim::violation("ran-wrong", "stage %d ran %d times", i, ran[i].get());
  if (sim::obj_live(sim::O_FUNC)) sim::violation("leak", "function objects of a finished chain are alive");
}

// many tasks on pools of various sizes: nothing lost, order kept with one thread
SCENARIO(many_tasks, "C13,C14,C17") {
  size_t threads = 1 + choose(5);
  int n = some_size(); if (n > 140) n = 140;
  std::unique_ptr<Count[]> ran(new Count[n]), dead(new Count[n]);
  Count last; last.set(-1);
  struct Fut { int i; pc::future<int> f; };
  std::vector<Fut> futs;
  bool stop = choose(3) == 2, in_task = choose(2) && !stop;
  {
    pc::static_thread_pool pool{threads};
    struct Dead { Count *c; bool own = true; Dead(Count *x) : c(x) {} Dead(Dead &&o) noexcept : c(o.c), own(o.own) { o.own = false; } ~Dead() { if (own) c->inc(); } };
    auto post_all = [&] {
      for (int i = 0; i < n; ++i) {
        Count *r = &ran[i];
        auto body = [&, r, i, d = Dead{&dead[i]}] { if (r->inc() != 1) sim::violation("ran-twice", "a task ran twice"); if (threads == 1) { if (i != last.get() + 1) sim::violation("order", "task %d ran after task %d on a single thread", i, last.get()); last.set(i); } };
        if (!in_task && i % 8 == 7) { futs.push_back({i, pc::async(pool.executor(), [body = std::move(body), i]() { body(); return i; })}); }
        else post(pool.executor(), std::move(body));
        if (stop && i == n / 2) { sim::count_fault(sim::F_POOL_STOP); pool.stop(); }
      }
    };
    if (in_task) { pc::latch l{1}; post(pool.executor(), [&] { post_all(); l.count_down(); }); l.wait(); }
    else post_all();
    if (!stop) { pool.wait(); for (int i = 0; i < n; ++i) if (ran[i].get() != 1) sim::violation("lost-task", "task %d of %d ran %d times before wait() returned", i, n, ran[i].get()); }
  }
  for (int i = 0; i < n; ++i) { if (ran[i].get() > 1) sim::violation("ran-twice", "a task ran twice"); if (dead[i].get() != 1) sim::violation("leak", "a task was destroyed %d times", dead[i].get()); if (stop && i > n / 2 && ran[i].get()) sim::violation("accepted-after-stop", "a task posted to a stopped pool was executed"); }
  for (auto &f : futs) { Out o = outcome([&] { return f.f.get(); }); if (ran[f.i].get()) expect_out(o, {VALUE, f.i}, "executed task"); else expect_out(o, {BROKEN, 0}, "discarded task"); }
}

// a latch with many parties of both kinds
SCENARIO(many_latch, "C15") {
  int parts = 2 + (int)choose(7), waiters = 1 + (int)choose(5), bulk = (int)choose(4) * 50;
  pc::latch l(parts + bulk);
  Count counted, out;
  std::unique_ptr<Mark[]> begun(new Mark[parts]);
  Mark bulk_begun;
  auto released = [&](const char *how) { for (int i = 0; i < parts; ++i) if (!begun[i].set()) sim::violation("early-release", "%s returned before the counter reached zero", how); if (bulk && !bulk_begun.set()) sim::violation("early-release", "%s returned before the counter reached zero", how); out.inc(); };
  sim::Threads a, b;
  for (int i = 0; i < waiters; ++i) a.start([&] { l.wait(); released("wait()"); });
  for (int i = 0; i < parts; ++i) b.start([&, i] { begun[i].here(); if (choose(2)) { l.count_down_and_wait(); released("count_down_and_wait()"); } else l.count_down(); });
  if (bulk) { bulk_begun.here(); if (choose(2)) l.count_down(bulk); else { l.count_down(bulk - 1); l.count_down(1); } }
  a.join_all(); b.join_all();
  if (!l.is_ready()) sim::violation("not-ready", "is_ready() is false although the counter is zero");
}
