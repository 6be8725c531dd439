// Timed waits against a virtual monotonic and a jumping wall clock.
#include "source.h"
using namespace h;

namespace {
using namespace std::chrono;

// a user clock that runs three times as fast as the monotonic one
struct FastClock {
  using rep = int64_t; using period = std::nano; using duration = std::chrono::nanoseconds; using time_point = std::chrono::time_point<FastClock>;
  static constexpr bool is_steady = true;
  static time_point now() noexcept { return time_point(duration(sim::mono_ns() * 3)); }
};
// highest value the wall clock had while somebody was interested
struct Wall {
  int64_t max_ = 0;
  NOSAN void see() { int64_t w = sim::wall_ns(); if (w > max_) max_ = w; }
  NOSAN void reset() { max_ = sim::wall_ns(); }
  NOSAN int64_t max() { see(); return max_; }
};
struct Ctx { Env &e; Wall wall[4]; int64_t stored = -1; NOSAN void store() { stored = sim::mono_ns(); } NOSAN int64_t when() const { return stored; } };

const int64_t durs[] = {0, 1, 700, 5000, -300, 1000000000ll, 3600ll * 1000000000ll};

template <class W> void timed_op(W &&w, Ctx &c, int me) {
  int64_t d = durs[choose(7)];
  bool must = c.e.must_be_ready();
  int64_t t0 = sim::mono_ns(), dl = 0, slack = 0;
  pc::future_status st;
  int how = (int)choose(8);
  switch (how) {
  case 0: dl = t0 + d; st = w.wait_for(nanoseconds(d)); break;
  case 1: dl = t0 + d; st = w.wait_until(steady_clock::time_point(nanoseconds(t0 + d))); break;
  case 2: { c.wall[me].reset(); dl = sim::wall_ns() + d; st = w.wait_until(system_clock::time_point(nanoseconds(dl))); break; }
  case 3: { dl = t0 * 3 + d; st = w.wait_until(FastClock::time_point(nanoseconds(dl))); break; }
  case 5: { duration<double> s(d * 1e-9); dl = t0 + (int64_t)(s.count() * 1e9) - 1; st = w.wait_for(s); break; }
  case 6: { int m = (int)(d / 60000000000ll); dl = t0 + m * 60000000000ll; st = w.wait_for(duration<int, std::ratio<60>>(m)); break; }
  case 7: { float ms = (float)(d / 1e6); dl = t0 + (int64_t)((double)ms * 1e6) - 1 - (slack = d > 0 ? d / 1000000 : 0); /* the standard library converts in float */ if (choose(2)) st = w.wait_for(duration<float, std::milli>(ms)); else st = w.wait_until(time_point<steady_clock, duration<double, std::milli>>(duration<double, std::milli>((t0 + d) / 1e6))), dl = (int64_t)((t0 + d) / 1e6 * 1e6) - 300; break; }
  default: { int64_t us = d / 1000; dl = t0 + us * 1000; st = w.wait_for(duration<int64_t, std::micro>(us)); break; }
  }
  int64_t t1 = sim::mono_ns();
  if (st == pc::future_status::ready) {
    c.e.ready_seen("timed wait");
    // no timer ran ahead of runnable threads in this run: then a woken waiter returns at the very time of completion
    if (!sim::time_skewed() && how != 2 && c.when() >= 0) {
      int64_t since = c.when() > t0 ? c.when() : t0;
      if (t1 > since + 100000) sim::violation("late-return", "timed wait returned %lld ns after the result was available", (long long)(t1 - since));
    }
  } else if (st == pc::future_status::timeout) {
    if (must) sim::violation("late-ready", "timed wait reports timeout although the result was stored before the call");
    bool passed = how == 2 ? c.wall[me].max() >= dl : how == 3 ? t1 * 3 >= dl : t1 >= dl;
    if (!passed) sim::violation("early-timeout", "timed wait (kind %d) timed out before the requested time", how);
    if (!sim::time_skewed() && how != 2 && how != 3) { // the standard library measures foreign clocks in steady time
      int64_t lim = dl < t0 ? t0 : dl;
      if (t1 > lim + 100000 + 2 * slack) sim::violation("late-timeout", "timed wait timed out %lld ns late", (long long)(t1 - lim));
    }
  } else sim::violation("bad-status", "unexpected future_status");
}

template <class F> struct Members {
  F &f;
  template <class D> pc::future_status wait_for(D d) { return f.wait_for(d); }
  template <class T> pc::future_status wait_until(T t) { return f.wait_until(t); }
};
template <class F> void use_timed(F &f, Ctx &c, int me) {
  unsigned n = 1 + choose(3);
  switch (choose(3)) {
  case 0: { // deprecated members
    Members<F> w{f};
    while (n--) timed_op(w, c, me);
    break;
  }
  case 1: { pc::timed_waiter w{f}; while (n--) timed_op(w, c, me); break; }
  default: { // waiters come and go, are copied and moved
    pc::timed_waiter w;
    { pc::timed_waiter tmp{f}; w = std::move(tmp); }
    pc::timed_waiter v = w;
    while (n--) timed_op(choose(2) ? v : w, c, me);
    break;
  }
  }
}

template <class T> void timed(bool shared) {
  Env e(7 + (int)choose(90));
  Ctx c{e};
  sim::Threads th;
  pc::future<T> fut;
  auto prod = make_source<T>(e, fut, nullptr);
  int64_t delay = choose(2) ? durs[choose(7)] : 0;
  th.start([&, p = std::move(prod), delay]() mutable {
    if (delay > 0) sim::sleep_ns(delay);
    p->run();
    c.store();
    if (choose(2)) p.reset();
  });
  if (!shared)
    th.start([&, f = std::move(fut)]() mutable {
      use_timed(f, c, 0);
      if (choose(2)) { expect_out(outcome([&] { return K<T>::get(f); }), e.want<T>(), "get()"); }
      else if (choose(2)) { pc::timed_waiter w{f}; f = {}; if (choose(2)) w.wait_for(nanoseconds(500)); } // outlives the future
    });
  else {
    pc::shared_future<T> sf = fut.share();
    for (int i = 0; i < 2; ++i)
      th.start([&, i, f = sf]() mutable {
        use_timed(f, c, i);
        if (choose(2)) expect_out(outcome([&] { return K<T>::get(f); }), e.want<T>(), "get()");
      });
  }
  if (choose(2))
    th.start([&] { // the administrator steps the wall clock
      for (unsigned k = 1 + choose(2); k > 0; --k) {
        sim::sleep_ns((int64_t)choose(3) * 400);
        for (auto &w : c.wall) w.see();
        static const int64_t j[] = {2000000000ll, -2000000000ll, 5000, -5000};
        sim::jump_wall(j[choose(4)]);
        for (auto &w : c.wall) w.see();
      }
    });
  th.join_all();
}
} // namespace

SCENARIO(timed_unique, "C16,C01") { timed<Val>(false); }
SCENARIO(timed_shared, "C16,C21") { timed<Val>(true); }
SCENARIO(timed_void, "C16") { timed<void>(choose(2)); }

// a waiter that is polled until the result is there; the result must be noticed although every poll times out
SCENARIO(timed_poll, "C16,C02,C01") {
  Env e(5);
  sim::Threads th;
  pc::future<Val> fut;
  auto prod = make_source<Val>(e, fut, nullptr);
  th.start([&, p = std::move(prod)]() mutable { sim::sleep_ns((int64_t)choose(5) * 1000); p->run(); });
  pc::timed_waiter w{fut};
  int n = 0;
  for (;;) {
    auto st = choose(2) ? w.wait_for(nanoseconds(900)) : w.wait_until(steady_clock::now() + nanoseconds(900));
    if (st == pc::future_status::ready) break;
    if (++n > 200) sim::violation("hang", "polling never notices the result");
  }
  e.ready_seen("poll");
  if (w.wait_for(nanoseconds(0)) != pc::future_status::ready) sim::violation("late-ready", "a waiter that has reported ready reports timeout");
  if (!fut.is_ready()) sim::violation("unready", "is_ready() is false after a timed wait reported ready");
  expect_out(outcome([&] { return K<Val>::get(fut); }), e.want<Val>(), "get()");
}

// ready before the waiter exists
SCENARIO(timed_ready, "C16") {
  Env e(9, false);
  pc::future<Val> fut;
  auto prod = make_source<Val>(e, fut, nullptr);
  prod->run();
  Ctx c{e};
  c.store();
  int64_t t0 = sim::mono_ns();
  if (choose(2)) { auto sf = fut.share(); use_timed(sf, c, 0); } else use_timed(fut, c, 0);
  if (!sim::time_skewed() && sim::mono_ns() > t0 + 100000) sim::violation("late-return", "timed wait on a ready future takes time");
}
