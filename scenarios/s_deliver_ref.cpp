#include "source.h"
using namespace h;

// references: next() receives the object itself
namespace {
void deliver_ref_body() {
  Env e(7 + (int)choose(90));
  Core core; core.randomise();
  sim::Threads workers;
  {
    sim::Threads th;
    pc::future<Val &> fut;
    auto prod = make_source<Val &>(e, fut, &core);
    core.start(workers, 1);
    Count ran;
    th.start([p = std::move(prod)]() mutable { p->run(); if (choose(2)) p.reset(); });
    th.start([&, f = std::move(fut)]() mutable {
      for (unsigned i = choose(3); i > 0; --i) observe(f, e);
      switch (choose(4)) {
      case 0: { Out o = outcome([&] { Val &v = f.get(); if (&v != e.target) sim::violation("wrong-object", "get() returned another object"); return v.id(); }); expect_out(o, e.want<Val &>(), "get()"); break; }
      case 1: {
        auto g = f.then([&, t = Token{}](pc::future<Val &> f) -> Val & { t.used(); if (ran.inc() != 1 || !f.is_ready()) sim::violation("unready", "continuation not run once with a ready future"); e.ready_seen("continuation"); return f.get(); });
        Out o = outcome([&] { Val &v = g.get(); if (&v != e.target) sim::violation("wrong-object", "get() returned another object"); return v.id(); }); expect_out(o, e.want<Val &>(), "then()"); break;
      }
      case 2: {
        auto g = f.next(Exec{core}, [&, t = Token{}](Val &v) -> Val & { t.used(); e.ready_seen("next()"); if (&v != e.target) sim::violation("wrong-object", "next() received another object"); return v; });
        Out o = outcome([&] { Val &v = g.get(); if (&v != e.target) sim::violation("wrong-object", "get() returned another object"); return v.id(); }); expect_out(o, e.want<Val &>(), "next()"); break;
      }
      default: {
        auto s = f.share();
        Out o = outcome([&] { Val &v = s.get(); if (&v != e.target || &s.get() != &v) sim::violation("wrong-object", "get() returned another object"); return v.id(); }); expect_out(o, e.want<Val &>(), "shared get()"); break;
      }
      }
    });
    th.join_all();
    core.close();
  }
}
} // namespace
SCENARIO(deliver_ref, "C01,C02,C03,C05,C17") { deliver_ref_body(); }

