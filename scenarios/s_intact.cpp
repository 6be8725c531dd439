// What is passed as an lvalue is copied and stays as it was; what is made ready holds exactly what was given.
#include "source.h"
#include <string>
using namespace h;

namespace {
// a function object whose state tells whether it was moved from
struct Fn {
  Val k; Count *ran;
  template <class A> int operator()(A &&a) const { if (ran) ran->inc(); return k.id() + as(a); }
  int operator()() const { if (ran) ran->inc(); return k.id(); }
  static int as(const Val &v) { return v.id(); }
  static int as(int v) { return v; }
  static int as(pc::future<Val> &v) { return v.get().id(); }
  static int as(const pc::shared_future<Val> &v) { return v.get().id(); }
};
void intact(const Fn &f, const char *how) { if (f.k.id() != 100) sim::violation("consumed", "%s took a function it was only shown", how); }
void intact(const Val &v, int id, const char *how) { if (v.id() != id) sim::violation("consumed", "%s took a value it was only shown", how); }
} // namespace

SCENARIO_W(intact_args, "C01,C03,C04,C17,C18", 2) {
  Core core; core.randomise();
  sim::Threads workers, th;
  core.start(workers, 1 + (int)choose(2));
  Count ran;
  {
    // the caller's own function objects may go away right after the call
    std::unique_ptr<Fn> fp(new Fn{Val{100}, &ran}); std::unique_ptr<const Fn> cfp(new Fn{Val{100}, &ran});
    Fn &f = *fp; const Fn &cf = *cfp;
    auto drop = [&](const char *how) { intact(f, how); intact(cf, how); if (choose(2)) { fp.reset(); cfp.reset(); } };
    Val v{7}; const Val cv{7};
    bool c = choose(2);
    int want = 1; // calls of the function
    auto is = [](pc::future<int> r, int w, const char *how) { expect_out(outcome([&] { return r.get(); }), {VALUE, w}, how); };
    pc::promise<Val> p; pc::future<Val> src; bool parent = false;
    int op = (int)choose(15);
    if (op >= 6 && op <= 10) { auto pf = pc::make_promise<Val>(); src = std::move(pf.second); parent = true; if (choose(2)) th.start([p = std::move(pf.first)]() mutable { p.set_value(Val{5}); }); else { pf.first.set_value(Val{5}); } }
    switch (op) {
    case 0: { auto r = c ? pc::async(Exec{core}, cf, cv) : pc::async(Exec{core}, f, v); drop("async()"); intact(v, 7, "async()"); is(std::move(r), 107, "async(lvalues)"); break; }
    case 1: { pc::packaged_task<int(Val)> t = c ? pc::packaged_task<int(Val)>{cf} : pc::packaged_task<int(Val)>{f}; drop("packaged_task"); auto r = t.get_future(); if (choose(2)) t(v); else t(cv); intact(v, 7, "packaged_task"); is(std::move(r), 107, "task(lvalue)"); break; }
    case 2: { auto r = c ? pc::make_ready_future(cv) : pc::make_ready_future(v); intact(v, 7, "make_ready_future()"); if (!r.is_ready()) sim::violation("late-ready", "make_ready_future() is not ready"); expect_out(outcome([&] { return r.get().id(); }), {VALUE, 7}, "make_ready_future(lvalue)"); want = 0; break; }
    case 3: { auto r = pc::make_ready_future(std::ref(v)); if (&r.get() != &v) sim::violation("wrong-value", "make_ready_future(ref) refers to something else"); intact(v, 7, "make_ready_future(ref)"); pc::make_ready_future().get(); auto m = pc::make_ready_future(std::make_unique<int>(4)); if (*m.get() != 4) sim::violation("wrong-value", "make_ready_future(move-only)"); want = 0; break; }
    case 4: { auto e = err_ptr(9); auto r = c ? pc::make_exceptional_future<int>(e) : pc::make_exceptional_future<int>(Err{9}); if (!e) sim::violation("consumed", "make_exceptional_future() took the exception"); if (!r.is_ready()) sim::violation("late-ready", "make_exceptional_future() is not ready"); expect_out(outcome([&] { return r.get(); }), {ERROR, 9}, "make_exceptional_future()"); auto s = pc::make_exceptional_future<void>(e); expect_out(outcome([&] { s.get(); return 0; }), {ERROR, 9}, "make_exceptional_future<void>()"); auto q = pc::make_exceptional_future<Val &>(e); expect_out(outcome([&] { return q.get().id(); }), {ERROR, 9}, "make_exceptional_future<T&>()"); want = 0; break; }
    case 5: { auto pf = pc::make_promise<Val>(); auto e = err_ptr(9); if (c) { pf.first.set_exception(e); if (!e) sim::violation("consumed", "set_exception() took the exception"); } else { pf.first.set_value(cv); } expect_out(outcome([&] { return pf.second.get().id(); }), c ? Out{ERROR, 9} : Out{VALUE, 7}, "promise"); want = 0; break; }
    case 6: { auto r = choose(2) ? (c ? src.next(Exec{core}, cf) : src.next(Exec{core}, f)) : (c ? src.next(cf) : src.next(f)); drop("next()"); is(std::move(r), 105, "next(lvalue)"); break; }
    case 7: { auto r = choose(2) ? (c ? src.then(Exec{core}, cf) : src.then(Exec{core}, f)) : (c ? src.then(cf) : src.then(f)); drop("then()"); is(std::move(r), 105, "then(lvalue)"); break; }
    case 8: { auto s = src.share(); auto r = choose(2) ? (c ? s.next(Exec{core}, cf) : s.next(Exec{core}, f)) : (c ? s.next(cf) : s.next(f)); drop("next()"); if (!s.valid()) sim::violation("valid", "next() on a shared_future consumed it"); is(std::move(r), 105, "shared next(lvalue)"); break; }
    case 9: { auto s = src.share(); auto r = choose(2) ? (c ? s.then(Exec{core}, cf) : s.then(Exec{core}, f)) : (c ? s.then(cf) : s.then(f)); drop("then()"); if (!s.valid()) sim::violation("valid", "then() on a shared_future consumed it"); is(std::move(r), 105, "shared then(lvalue)"); break; }
    case 10: { // shared_futures given to when_all and when_any as lvalues, alone and in ranges
      auto s = src.share(); auto s2 = s; const auto s3 = s; want = 0;
      switch (choose(4)) {
      case 0: { auto r = pc::when_all(s, s3).get(); expect_out(outcome([&] { return std::get<1>(r).get().id(); }), {VALUE, 5}, "when_all(lvalues)"); break; }
      case 1: { auto r = pc::when_any(s, s3).get(); expect_out(outcome([&] { return std::get<0>(r.futures).get().id(); }), {VALUE, 5}, "when_any(lvalues)"); break; }
      case 2: { std::vector<pc::shared_future<Val>> l{s, s2}; auto r = pc::when_all(l.begin(), l.end()).get(); for (auto &x : l) if (!x.valid()) sim::violation("consumed", "when_all() took a shared_future of the range"); expect_out(outcome([&] { return r.at(1).get().id(); }), {VALUE, 5}, "when_all(range)"); break; }
      default: { const std::vector<pc::shared_future<Val>> l{s, s2}; auto r = pc::when_any(l.begin(), l.end()).get(); for (auto &x : l) if (!x.valid()) sim::violation("consumed", "when_any() took a shared_future of the range"); expect_out(outcome([&] { return r.futures.at(1).get().id(); }), {VALUE, 5}, "when_any(range)"); }
      }
      if (!s.valid() || !s2.valid() || !s3.valid()) sim::violation("consumed", "a shared_future given as an lvalue was taken");
      expect_out(outcome([&] { return s3.get().id(); }), {VALUE, 5}, "shared_future");
      break;
    }
    case 11: { pc::unique_function<int(Val)> u = c ? pc::unique_function<int(Val)>{cf} : pc::unique_function<int(Val)>{f}; drop("unique_function"); expect_out(outcome([&] { return u(v); }), {VALUE, 107}, "unique_function"); intact(v, 7, "unique_function"); break; }
    case 12: { // functions that return references: the task stores a copy
      pc::packaged_task<Val()> t = c ? pc::packaged_task<Val()>{[&cv]() -> const Val & { return cv; }} : pc::packaged_task<Val()>{[&v]() -> Val & { return v; }};
      auto r = t.get_future(); if (choose(2)) post(Exec{core}, std::move(t)); else t();
      expect_out(outcome([&] { return r.get().id(); }), {VALUE, 7}, "task returning an lvalue"); intact(v, 7, "packaged_task"); want = 0; break; }
    case 13: { // the same for a shared_future that somebody else goes on using
      auto pf = pc::make_promise<Val>(); auto s = pf.second.share();
      pc::packaged_task<pc::shared_future<Val>()> t{[&s]() -> pc::shared_future<Val> & { return s; }};
      auto r = t.get_future(); t();
      if (!s.valid()) sim::violation("consumed", "packaged_task took a shared_future it was only shown");
      pf.first.set_value(v);
      expect_out(outcome([&] { return r.get().id(); }), {VALUE, 7}, "task returning a shared_future"); expect_out(outcome([&] { return s.get().id(); }), {VALUE, 7}, "the shared_future"); if (&r.get() != &s.get()) sim::violation("wrong-object", "an unwrapped shared_future holds another object"); want = 0; break; }
    default: { // cancel action and notification given as lvalues
      struct On { Val k; Count *n; void operator()() { if (k.id() != 100) sim::violation("consumed", "an action was taken although it was only shown"); n->inc(); } };
      On on{Val{100}, &ran};
      { auto pf = pc::make_promise<Val>(pc::canceler_arg, on); pc::promise<Val> q{pc::canceler_arg, on}; if (on.k.id() != 100) sim::violation("consumed", "make_promise() took the cancel action"); if (c) { auto g = q.get_future(); pf.first.set_value(Val{1}); q.set_value(Val{1}); want = 0; } else { { auto g = q.get_future(); } pf.second = {}; want = 2; } }
      auto pf = pc::make_promise<Val>(); if (choose(2)) pf.second.notify(on); else { auto s = pf.second.share(); s.notify(on); s.notify(on); ++want; pf.second = {}; pf.first.set_value(v); ++want; intact(v, 7, "set_value()"); break; }
      if (on.k.id() != 100) sim::violation("consumed", "notify() took the notification");
      pf.first.set_value(v); ++want; intact(v, 7, "set_value()");
    }
    }
    (void)parent;
    if (fp) { intact(f, "the library"); intact(cf, "the library"); } intact(v, 7, "the library"); intact(cv, 7, "the library");
    th.join_all();
    core.close();
    workers.join_all();
    if (ran.get() != want) sim::violation("ran-wrong", "functions ran %d times instead of %d", ran.get(), want);
  }
}
