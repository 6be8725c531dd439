// Results whose copy or move constructor throws: somebody is told, nobody waits for ever, nobody else is affected.
#include "source.h"
using namespace h;

namespace {
struct TMov { // moving may throw
  Val v;
  explicit TMov(int id) : v(id) {}
  TMov(TMov &&o) : v(std::move(fire(o).v)) {}
  TMov(const TMov &o) : v(fire(const_cast<TMov &>(o)).v.id()) {}
  static TMov &fire(TMov &o) { if (Faulty::fire()) { sim::count_fault(sim::F_VALUE_THROW); throw ValueThrew{o.v.id()}; } return o; }
};
// value, the exception of the constructor or a broken promise
void settled(const Out &o, int id, const char *how, bool may_break = false) {
  if ((o.kind == VALUE && o.id == id) || o.kind == OTHER || (o.kind == BROKEN && may_break)) { sim::probe(o.kind == VALUE ? "value arrived" : o.kind == BROKEN ? "broken promise" : "constructor's exception"); return; }
  sim::violation("wrong-outcome", "%s: outcome %d %d after a throwing constructor", how, o.kind, o.id);
}
} // namespace

SCENARIO_W(throwing_result, "C04,C05,C02,C03,C17", 2) {
  sim::Threads th;
  Count siblings, runs;
  {
    auto pf = pc::make_promise<Val>();
    auto sf = pf.second.share();
    pc::future<TMov> f;
    int want_siblings = 0, op = (int)choose(6);
    auto sibling = [&] { if (choose(2)) { ++want_siblings; sf.notify([&siblings, t = Token{}] { t.used(); siblings.inc(); }); } };
    sibling();
    auto body = [&runs, t = Token{}](auto &&...) { t.used(); runs.inc(); return TMov{7}; };
    switch (op) {
    case 0: f = sf.next(std::move(body)); break;
    case 1: f = sf.then(std::move(body)); break;
    case 2: { auto q = pc::make_promise<Val>(); f = q.second.next(std::move(body)); sf.notify([p = std::move(q.first)]() mutable { p.set_value(Val{1}); }); break; }
    case 3: f = sf.next([body = std::move(body)](const Val &) mutable { return pc::make_ready_future(body()); }); break;
    case 4: { pc::packaged_task<TMov()> task{[body = std::move(body)]() mutable { return body(); }}; f = task.get_future(); sf.notify([task = std::move(task)]() mutable { task(); }); break; }
    default: f = sf.then([body = std::move(body)](pc::promise<TMov> p, pc::shared_future<Val>) mutable { try { p.set_value(body()); } catch (const ValueThrew &) {} });
    }
    sibling();
    bool wait_here = choose(2);
    auto take = [op](pc::future<TMov> f) { settled(outcome([&] { TMov v = f.get(); return v.v.id(); }), 7, "get()", op == 5); };
    if (!wait_here) th.start([f = std::move(f), take]() mutable { take(std::move(f)); });
    unsigned after = choose(3);
    th.start([p = std::move(pf.first), after]() mutable {
      Faulty::countdown() = (int)after; // the first, the second or no move of the result throws
      Out o = outcome([&] { p.set_value(Val{1}); return 0; });
      Faulty::countdown() = 0;
      if (o.kind != VALUE) sim::violation("wrong-report", "set_value() reports a failure of somebody else's continuation");
    });
    if (wait_here) take(std::move(f));
    th.join_all();
    if (siblings.get() != want_siblings) sim::violation("lost-continuation", "%d of %d other notifications ran", siblings.get(), want_siblings);
    if (runs.get() != 1) sim::violation("ran-wrong", "the function ran %d times", runs.get());
  }
}

SCENARIO(throwing_task, "C04,C05,C02,C13,C17,C01") {
  Core core; core.randomise();
  sim::Threads workers, th;
  core.start(workers, 1 + (int)choose(2));
  Count runs;
  {
    auto body = [&runs, t = Token{}] { t.used(); runs.inc(); return TMov{7}; };
    Faulty::countdown() = (int)choose(4);
    pc::future<TMov> f;
    bool pool = choose(3) == 2;
    std::unique_ptr<pc::static_thread_pool> tp;
    if (pool) { tp.reset(new pc::static_thread_pool(1)); f = pc::async(tp->executor(), std::move(body)); }
    else if (choose(2)) f = pc::async(Exec{core}, std::move(body));
    else { pc::packaged_task<TMov()> task{std::move(body)}; f = task.get_future(); if (choose(2)) th.start([task = std::move(task)]() mutable { task(); }); else task(); }
    if (choose(2)) settled(outcome([&] { TMov v = f.get(); return v.v.id(); }), 7, "get()");
    else { auto s = f.share(); settled(outcome([&] { return s.get().v.id(); }), 7, "shared get()"); }
    Faulty::countdown() = 0;
    if (runs.get() != 1) sim::violation("ran-wrong", "the function ran %d times", runs.get());
    th.join_all();
    if (tp) tp->wait();
    core.close();
  }
  workers.join_all();
}
