// static_thread_pool: execution of accepted work, shutdown, conservation of tasks.
#include "source.h"
#include <portable_concurrency/latch>
using namespace h;

namespace {
// one posted function: every task must end up either executed once or destroyed unexecuted
struct Ledger {
  enum { N = 40 };
  int n = 0;
  struct Item { Count ran, dead; Mark posted, started, ended; bool to_stopped = false; int poster = -1; int order = -1; Side *side = nullptr; } it[N];
  Count exec_order;
  Count started_after_stop[24];
  Mark stopped; // stop() has returned
  bool user_thread[24] = {}; // may not execute tasks
  NOSAN int add() { if (n >= N) sim::violation("harness", "ledger full"); it[n].poster = sim::self(); return n++; }
  NOSAN void mark_user() { user_thread[sim::self()] = true; }
  NOSAN void mark_user(bool v) { user_thread[sim::self()] = v; }
  NOSAN bool is_user() const { return user_thread[sim::self()]; }
  NOSAN bool full(int want) const { return n + want > N; }
  Ledger() { for (auto &i : it) i.side = new Side; }
  ~Ledger() { for (auto &i : it) delete i.side; }
  // in the task
  void start(int k) {
    Item &i = it[k];
    if (i.ran.inc() != 1) sim::violation("ran-twice", "a posted task was executed twice");
    if (is_user()) sim::violation("wrong-thread", "a pool task runs on a thread that does not belong to the pool");
    if (i.side->x != 1) sim::violation("not-published", "what the poster wrote before post() is not visible in the task");
    i.started.here();
    note_order(k);
    if (stop_done()) { if (started_after_stop[sim::self()].inc() > (sim::stale_mode() ? 2 : 1)) sim::violation("stop-ignored", "a worker keeps starting queued tasks after stop()"); }
  }
  NOSAN void note_order(int k) { it[k].order = exec_order.inc(); }
  NOSAN bool stop_done() const { return stopped.set(); }
  void end(int k) { it[k].side->x = 2; it[k].ended.here(); }
  void before_post(int k) { it[k].side->x = 1; }
};
// a task with a traced lifetime
struct Task {
  Ledger *l; int k; Token t;
  Task(Ledger &led, int k_) : l(&led), k(k_), t(dead(led, k_)) {}
  static NOSAN int *dead(Ledger &led, int k) { return reinterpret_cast<int *>(&led.it[k].dead); }
  Task(Task &&) = default;
  void operator()() { t.used(); l->start(k); if (choose(3) == 0) sim::yield(); l->end(k); }
};
int post_plain(Ledger &l, pc::static_thread_pool &p) {
  int k = l.add();
  l.before_post(k);
  l.it[k].posted.here();
  post(p.executor(), Task{l, k});
  return k;
}
} // namespace

// ---------------------------------------------------------------- everything accepted runs before wait() returns
SCENARIO(pool_wait, "C13,C17,C03,C18") {
  Ledger l;
  l.mark_user();
  int nthreads = 1 + (int)choose(3);
  bool attach = choose(3) == 0;
  {
    pc::static_thread_pool pool{(size_t)nthreads};
    sim::Threads th, att;
    if (attach) att.start([&] { pool.attach(); l.mark_user(); });
    int nposters = (int)choose(3);
    Mark before_wait;
    std::vector<pc::future<Val>> futs[3];
    for (int i = 0; i < nposters; ++i)
      th.start([&, i] {
        l.mark_user();
        for (unsigned n = 1 + choose(3); n > 0; --n)
          switch (choose(4)) {
          case 0: { // a task that posts another task
            int k = l.add(), k2 = l.add();
            l.before_post(k);
            post(pool.executor(), [&l, &pool, k, k2, t = Token{}] { t.used(); l.start(k); l.before_post(k2); post(pool.executor(), Task{l, k2}); l.end(k); });
            break;
          }
          case 1: {
            int k = l.add(); l.before_post(k);
            futs[i].push_back(pc::async(pool.executor(), [&l, k, t = Token{}](int a) { t.used(); l.start(k); l.end(k); return Val{a}; }, 100 + k));
            break;
          }
          case 2: { // continuation on the pool
            auto pf = pc::make_promise<Val>();
            int k = l.add(); l.before_post(k);
            futs[i].push_back(pf.second.next(pool.executor(), [&l, k, t = Token{}](Val v) { t.used(); l.start(k); l.end(k); return Val{v.id() + k}; }));
            pf.first.set_value(Val{100});
            break;
          }
          default: post_plain(l, pool);
          }
      });
    for (unsigned n = choose(4); n > 0; --n) post_plain(l, pool);
    th.join_all();
    bool by_future = choose(4) == 0;
    if (by_future) for (auto &v : futs) for (auto &f : v) { Out o = outcome([&] { return f.get().id(); }); if (o.kind != VALUE || o.id < 100) sim::violation("wrong-outcome", "task on the pool: got %s %d", out_name(o.kind), o.id); }
    before_wait.here();
    pool.wait();
    for (int k = 0; k < l.n; ++k) {
      auto &it = l.it[k];
      bool inner = !it.posted.set() && false;
      (void)inner;
      if (it.started.set() && !it.ended.before_me()) sim::violation("wait-early", "wait() returned while a task is still running");
      if (it.started.set() && it.side->x != 2) sim::violation("not-published", "effects of a task are not visible after wait()");
      if (it.posted.set() && it.ran.get() != 1) sim::violation("lost-task", "a task accepted before wait() was executed %d times", it.ran.get());
    }
    if (!by_future)
      for (auto &v : futs)
        for (auto &f : v) { // posted before wait(): executed, so the futures are ready
          if (!f.is_ready()) sim::violation("lost-task", "the future of an accepted task is not ready after wait()");
          Out o = outcome([&] { return f.get().id(); });
          if (o.kind != VALUE || o.id < 100) sim::violation("wrong-outcome", "task on the pool: got %s %d", out_name(o.kind), o.id);
        }
    att.join_all(); // released by the shutdown
    if (choose(2)) pool.wait(); // again: returns at once
  }
}

// one thread: first in, first out
SCENARIO(pool_fifo, "C13") {
  Ledger l;
  l.mark_user();
  pc::static_thread_pool pool{1};
  sim::Threads th;
  int per[2][6], cnt[2] = {0, 0};
  bool two = choose(2);
  auto poster = [&](int w) { for (unsigned n = 2 + choose(4); n > 0; --n) per[w][cnt[w]++] = post_plain(l, pool); };
  if (two) th.start([&] { l.mark_user(); poster(1); });
  poster(0);
  th.join_all();
  pool.wait();
  for (int w = 0; w < 2; ++w)
    for (int i = 0; i < cnt[w]; ++i) {
      if (l.it[per[w][i]].ran.get() != 1) sim::violation("lost-task", "a posted task was executed %d times", l.it[per[w][i]].ran.get());
      if (i && l.it[per[w][i]].order < l.it[per[w][i - 1]].order) sim::violation("reordered", "a single-threaded pool ran tasks out of order");
      if (i && l.it[per[w][i]].side->x != 2) sim::violation("not-published", "effects of a task are not visible after wait()");
    }
}

// one blocked worker must not keep the others from working: tasks that need each other on a pool with two threads
SCENARIO(pool_parallel, "C13") {
  Ledger l;
  l.mark_user();
  int n = 2 + (int)choose(2);
  bool via_attach = choose(2);
  pc::static_thread_pool pool{(size_t)(via_attach ? n - 1 : n)};
  sim::Threads att;
  if (via_attach) att.start([&] { pool.attach(); });
  pc::latch meet(n);
  for (int i = 0; i < n; ++i) { int k = l.add(); l.before_post(k); post(pool.executor(), [&l, &meet, k, t = Token{}] { t.used(); l.start(k); meet.count_down_and_wait(); l.end(k); }); if (choose(2)) sim::yield(); }
  meet.wait();
  pool.wait();
  for (int k = 0; k < l.n; ++k) if (l.it[k].ran.get() != 1 || l.it[k].side->x != 2) sim::violation("lost-task", "a posted task was not executed completely before wait() returned");
  att.join_all();
}

// tasks that wait for other tasks: as long as one thread of the pool is free, accepted work makes progress
SCENARIO(pool_dependent, "C13") {
  Ledger l;
  l.mark_user();
  int n = 2 + (int)choose(2);
  bool via_attach = choose(3) == 0;
  pc::static_thread_pool pool{(size_t)(via_attach ? n - 1 : n)};
  sim::Threads att, th;
  if (via_attach) att.start([&] { pool.attach(); });
  int blockers = 1 + (int)choose(n - 1); // at most n - 1 threads are blocked at any time
  std::vector<pc::future<Val>> fs;
  std::vector<std::shared_ptr<pc::promise<Val>>> ps;
  for (unsigned q = choose(3); q > 0; --q) post_plain(l, pool);
  for (int i = 0; i < blockers; ++i) {
    int k = l.add(); l.before_post(k);
    switch (choose(3)) {
    case 0: // waits for a task it posts itself
      fs.push_back(pc::async(pool.executor(), [&l, &pool, k, t = Token{}] {
        t.used(); l.start(k);
        int k2 = l.add(); l.before_post(k2);
        auto f = pc::async(pool.executor(), [&l, k2, t = Token{}] { t.used(); l.start(k2); l.end(k2); return Val{k2}; });
        if (choose(2)) post_plain(l, pool);
        if (f.get().id() != k2) sim::violation("wrong-outcome", "task on the pool");
        l.end(k);
        return Val{k};
      }));
      break;
    case 1: { // waits for a result that a task posted later delivers
      auto pf = pc::make_promise<Val>();
      ps.push_back(std::make_shared<pc::promise<Val>>(std::move(pf.first)));
      fs.push_back(pc::async(pool.executor(), [&l, k, f = std::move(pf.second), t = Token{}]() mutable { t.used(); l.start(k); int id = f.get().id(); l.end(k); return Val{id}; }));
      break;
    }
    default: // a continuation on the pool that waits for another continuation on the pool
      fs.push_back(pc::async(pool.executor(), [&l, k, t = Token{}] { t.used(); l.start(k); l.end(k); return Val{k}; }).next(pool.executor(), [&l, &pool, t = Token{}](Val v) {
        t.used();
        return Val{pc::make_ready_future(std::move(v)).next(pool.executor(), [t = Token{}](Val w) { t.used(); return Val{w.id() + 1}; }).get().id()};
      }));
    }
    if (choose(2)) sim::yield();
  }
  auto deliver = [&] { for (auto &p : ps) { int k = l.add(); l.before_post(k); post(pool.executor(), [&l, k, p, t = Token{}] { t.used(); l.start(k); p->set_value(Val{k}); l.end(k); }); } };
  if (choose(2)) th.start([&] { l.mark_user(); deliver(); }); else deliver();
  for (unsigned q = choose(3); q > 0; --q) post_plain(l, pool);
  for (auto &f : fs) { Out o = outcome([&] { return f.get().id(); }); if (o.kind != VALUE) sim::violation("wrong-outcome", "task on the pool: got %s", out_name(o.kind)); }
  th.join_all();
  pool.wait();
  for (int k = 0; k < l.n; ++k) if (l.it[k].ran.get() != 1 || l.it[k].side->x != 2) sim::violation("lost-task", "a posted task was not executed completely before wait() returned");
  att.join_all();
}

// As many tasks as the pool has threads meet each other: none of them can end before all have started.
SCENARIO(pool_meet, "C13") {
  Ledger l;
  l.mark_user();
  int n = choose(4) ? 2 + (int)choose(4) : 2 + (int)choose(18);
  int helpers = choose(3) ? 0 : 1 + (int)choose(n > 6 ? 4 : n - 1);
  pc::static_thread_pool pool{(size_t)(n - helpers)};
  sim::Threads att;
  for (int i = 0; i < helpers; ++i) att.start([&] { pool.attach(); });
  auto pf = pc::make_promise<Val>();
  auto p = std::make_shared<pc::promise<Val>>(std::move(pf.first)); pc::shared_future<Val> all = pf.second.share();
  Count arrived; bool by_latch = choose(2); pc::latch meet{n};
  std::vector<pc::future<Val>> fs;
  for (int i = 0; i < n; ++i) {
    int k = l.add(); l.before_post(k);
    auto body = [&, k, p, all, t = Token{}] { t.used(); l.start(k); if (by_latch) meet.count_down_and_wait(); else { if (arrived.inc() == n) p->set_value(Val{77}); all.wait(); } l.end(k); return Val{k}; };
    if (choose(2)) fs.push_back(pc::async(pool.executor(), std::move(body))); else post(pool.executor(), std::move(body));
  }
  p.reset();
  for (auto &f : fs) f.wait();
  pool.wait();
  for (int k = 0; k < l.n; ++k) if (l.it[k].ran.get() != 1 || l.it[k].side->x != 2) sim::violation("lost-task", "a posted task was not executed completely before wait() returned");
  att.join_all();
}

// Threads that joined the pool with attach(): wait() and the destructor wait for them like for the pool's own threads,
// also when the pool has no thread of its own. The helper owns nothing of the pool afterwards.
SCENARIO(pool_helpers, "C13,C14,C17") {
  Ledger l;
  l.mark_user();
  sim::Threads th;
  int own = (int)choose(3), helpers = 1 + (int)choose(2);
  auto pool = std::make_unique<pc::static_thread_pool>((size_t)own);
  for (int i = 0; i < helpers; ++i) th.start([&l, p = pool.get()] { p->attach(); l.mark_user(); });
  // every helper is known to be attached once it has executed something together with all the others
  pc::latch meet(own + helpers);
  for (int i = 0; i < own + helpers; ++i) { int k = l.add(); l.before_post(k); post(pool->executor(), [&l, &meet, k, t = Token{}] { t.used(); l.start(k); meet.count_down_and_wait(); l.end(k); }); }
  meet.wait();
  for (unsigned n = choose(5); n > 0; --n) {
    if (choose(3)) { post_plain(l, *pool); continue; }
    int k = l.add(), k2 = l.add(); l.before_post(k); l.it[k2].poster = -1;
    post(pool->executor(), [&l, p = pool.get(), k, k2, t = Token{}] { t.used(); l.start(k); l.before_post(k2); l.it[k2].posted.here(); post(p->executor(), Task{l, k2}); if (choose(2)) sim::yield(); l.end(k); });
    l.it[k].posted.here();
  }
  switch (choose(4)) {
  case 0: sim::count_fault(sim::F_POOL_STOP); pool->stop(); l.stopped.here(); if (choose(2)) pool->wait(); break;
  case 1: break; // destructor
  default: {
    int n0 = l.n;
    pool->wait();
    for (int k = 0; k < n0; ++k) {
      auto &it = l.it[k];
      if (it.started.set() && !it.ended.before_me()) sim::violation("wait-early", "wait() returned while a task is still running");
      if (it.started.set() && it.side->x != 2) sim::violation("not-published", "effects of a task are not visible after wait()");
      if (it.posted.set() && it.poster == sim::self() && it.ran.get() != 1) sim::violation("lost-task", "a task accepted before wait() was executed %d times", it.ran.get());
    }
    if (choose(2)) pool->wait();
  }
  }
  pool.reset();
  for (int k = 0; k < l.n; ++k) {
    auto &it = l.it[k];
    if (it.ran.get() > 1) sim::violation("ran-twice", "a posted task was executed twice");
    if (it.ran.get() && (!it.ended.before_me() || it.side->x != 2)) sim::violation("running-after-destroy", "a task is still running after the pool was destroyed");
  }
  th.join_all();
  if (sim::obj_live(sim::O_FUNC)) sim::violation("leak", "%d function objects are still alive after the pool was destroyed", sim::obj_live(sim::O_FUNC));
}

// ---------------------------------------------------------------- stop and destruction
namespace {
// posts something when it is destroyed
struct PostOnDestroy {
  Ledger *l; pc::static_thread_pool::executor_type ex; bool armed = true;
  PostOnDestroy(Ledger &led, pc::static_thread_pool &p) : l(&led), ex(p.executor()) {}
  PostOnDestroy(PostOnDestroy &&o) noexcept : l(o.l), ex(o.ex), armed(std::exchange(o.armed, false)) {}
  ~PostOnDestroy() { if (armed && !l->full(1)) { int k = l->add(); l->before_post(k); post(ex, Task{*l, k}); } }
};
} // namespace

SCENARIO_W(pool_stop, "C14,C13,C17,C05", 2) {
  Ledger l;
  l.mark_user();
  int nthreads = 1 + (int)choose(3);
  struct Fut { pc::future<Val> f; int k; };
  std::vector<Fut> futs;
  int stopper = (int)choose(4); // 0: destructor only, 1: this thread, 2: another thread, 3: a task
  bool attach = choose(4) == 0;
  int mark_n = 0;
  {
    sim::Threads th, att;
    pc::static_thread_pool pool{(size_t)nthreads};
    if (attach) att.start([&] { pool.attach(); l.mark_user(); });
    int ntasks = 1 + (int)choose(4);
    for (int i = 0; i < ntasks; ++i) {
      switch (choose(6)) {
      case 0: { int k = l.add(); l.before_post(k); futs.push_back({pc::async(pool.executor(), [&l, k, t = Token{}] { t.used(); l.start(k); l.end(k); return Val{k}; }), k}); break; }
      case 1: { // posts more work
        int k = l.add(); l.before_post(k);
        post(pool.executor(), [&l, &pool, k, t = Token{Task::dead(l, k)}] { t.used(); l.start(k); for (int q = 0; q < 2; ++q) { int k2 = l.add(); l.before_post(k2); post(pool.executor(), Task{l, k2}); } l.end(k); });
        break;
      }
      case 2: { // its destructor posts more work
        int k = l.add(); l.before_post(k);
        post(pool.executor(), [&l, k, p = PostOnDestroy{l, pool}, t = Token{Task::dead(l, k)}] { t.used(); l.start(k); l.end(k); });
        break;
      }
      case 3: { // keeps a promise of a future somebody waits for; a continuation hops on the pool
        int k = l.add(); l.before_post(k);
        auto pf = pc::make_promise<Val>();
        int k2 = l.add(); l.before_post(k2);
        futs.push_back({pf.second.next(pool.executor(), [&l, k2, t = Token{}](Val v) { t.used(); l.start(k2); l.end(k2); return Val{k2}; }), k2});
        post(pool.executor(), [&l, k, p = std::make_shared<pc::promise<Val>>(std::move(pf.first)), t = Token{Task::dead(l, k)}] { t.used(); l.start(k); p->set_value(Val{k}); l.end(k); });
        break;
      }
      default: post_plain(l, pool);
      }
    }
    if (stopper == 3) { int k = l.add(); l.before_post(k); post(pool.executor(), [&l, &pool, k, t = Token{Task::dead(l, k)}] { t.used(); l.start(k); pool.stop(); l.stopped.here(); l.end(k); }); }
    if (stopper == 2) th.start([&] { l.mark_user(); sim::count_fault(sim::F_POOL_STOP); pool.stop(); l.stopped.here(); if (choose(2)) post_plain(l, pool); });
    if (choose(2)) th.start([&] { l.mark_user(); for (unsigned n = 1 + choose(2); n > 0; --n) post_plain(l, pool); });
    if (stopper == 1) {
      sim::count_fault(sim::F_POOL_STOP);
      pool.stop();
      l.stopped.here();
      int k = post_plain(l, pool); // discarded
      if (l.it[k].ran.get()) sim::violation("accepted-after-stop", "a task posted to a stopped pool was executed");
      l.it[k].to_stopped = true;
      if (choose(2)) { int k2 = l.add(); l.before_post(k2); l.it[k2].to_stopped = true; post(pool.executor(), [&l, k2, p = PostOnDestroy{l, pool}, t = Token{Task::dead(l, k2)}] { t.used(); l.start(k2); l.end(k2); }); if (l.it[k2].dead.get() != 1) sim::violation("kept", "a task posted to a stopped pool was not discarded"); }
      if (choose(2)) pool.stop();
    }
    if (choose(2)) th.join_all();
    if (attach && stopper != 1 && stopper != 3) { th.join_all(); pool.stop(); l.stopped.here(); }
    att.join_all(); // a helper has to leave before the pool is destroyed
    th.join_all();
    if (choose(3) == 0) { pool.wait(); }
    sim::count_fault(sim::F_POOL_STOP);
    mark_n = l.n;
    (void)mark_n;
  }
  // the pool is gone: conservation
  for (int k = 0; k < l.n; ++k) {
    auto &it = l.it[k];
    int ran = it.ran.get();
    if (ran > 1) sim::violation("ran-twice", "a posted task was executed twice");
    if (ran && !it.ended.before_me()) sim::violation("running-after-destroy", "a task is still running after the pool was destroyed");
    if (ran && it.side->x != 2) sim::violation("not-published", "effects of a task are not visible after the pool was destroyed");
    if (ran && it.to_stopped) sim::violation("accepted-after-stop", "a task posted to a stopped pool was executed");
  }
  for (auto &f : futs) {
    if (!f.f.is_ready()) sim::violation("hang", "a future of a destroyed pool never becomes ready");
    Out o = outcome([&] { return f.f.get().id(); });
    int ran = l.it[f.k].ran.get();
    if (ran) expect_out(o, {VALUE, f.k}, "executed task");
    else expect_out(o, {BROKEN, 0}, "discarded task");
  }
  for (int k = 0; k < l.n; ++k) {
    auto &it = l.it[k];
    if (it.dead.get() > 1) sim::violation("double-destroy", "a task was destroyed twice");
  }
  if (sim::obj_live(sim::O_FUNC)) sim::violation("leak", "%d function objects are still alive after the pool was destroyed", sim::obj_live(sim::O_FUNC));
}

// destroying a pool wakes everybody who waits for its work
SCENARIO(pool_waiters, "C14,C05,C02") {
  sim::Threads th;
  Count done;
  int nw = 1 + (int)choose(2);
  std::vector<pc::shared_future<Val>> fs;
  Count ran;
  {
    pc::static_thread_pool pool{1 + (size_t)choose(2)};
    for (int i = 0; i < nw; ++i) fs.push_back(pc::async(pool.executor(), [&, i, t = Token{}] { t.used(); ran.inc(); return Val{i}; }).next(pool.executor(), [&, t = Token{}](Val v) { t.used(); return Val{v.id() + 10}; }).share());
    for (int i = 0; i < nw; ++i)
      th.start([&, i, f = fs[i]] {
        Out o = outcome([&] { return f.get().id(); });
        if (!(o.kind == BROKEN || (o.kind == VALUE && o.id == i + 10))) sim::violation("wrong-outcome", "waiter got %s %d", out_name(o.kind), o.id);
        done.inc();
      });
    if (choose(2)) sim::yield();
    sim::count_fault(sim::F_POOL_STOP);
    if (choose(2)) pool.stop();
  }
  th.join_all(); // hang is reported if somebody is never released
  if (done.get() != nw) sim::violation("hang", "waiter not released");
}

// a task destructor that posts to the same pool while the pool runs and while it is destroyed
SCENARIO(pool_reenter, "C14,C17") {
  Ledger l;
  l.mark_user();
  {
    pc::static_thread_pool pool{1 + (size_t)choose(2)};
    for (unsigned n = 1 + choose(3); n > 0; --n) {
      int k = l.add(); l.before_post(k);
      post(pool.executor(), [&l, k, p = PostOnDestroy{l, pool}, q = PostOnDestroy{l, pool}, t = Token{}] { t.used(); l.start(k); l.end(k); });
      if (choose(2)) sim::yield();
    }
    switch (choose(3)) { case 0: pool.wait(); break; case 1: sim::count_fault(sim::F_POOL_STOP); pool.stop(); l.stopped.here(); break; default: break; }
  }
  for (int k = 0; k < l.n; ++k) if (l.it[k].ran.get() > 1) sim::violation("ran-twice", "a posted task was executed twice");
  if (sim::obj_live(sim::O_FUNC)) sim::violation("leak", "%d function objects are still alive after the pool was destroyed", sim::obj_live(sim::O_FUNC));
}
