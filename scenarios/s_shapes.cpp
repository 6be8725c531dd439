// Unusual functions and arguments.
#include "source.h"
#include <string>
using namespace h;

// ---------------------------------------------------------------- functions and their arguments
namespace {
int plain(int a) { return a + 1; }
Val plain_val(Val v) { return Val{v.id() + 1}; }
int from_future(pc::future<Val> f) { return f.get().id() + 1; }
struct Obj { int base; int add(int k) { return base + k; } int get() const { return base; } };
struct MoveOnlyCall { std::unique_ptr<Box> b; Token t; int operator()(int k) && { t.used(); auto x = std::move(b); return x->id + k; } };
struct BigFn { long pad[20]; Token t; int operator()(int k) { t.used(); long s = 0; for (long x : pad) s += x; return (int)s + k; } };
struct CountingFn { int calls = 0; int operator()(int k) { return k + ++calls; } };
int by_ref(int &a) { return ++a; }
} // namespace
SCENARIO_W(shape_calls, "C18,C01,C17,C04,C03", 2) {
  Core core; core.randomise();
  sim::Threads workers;
  core.start(workers, 1 + (int)choose(2));
  {
    auto want = [&](pc::future<int> f, int w, const char *how) { expect_out(outcome([&] { return f.get(); }), {VALUE, w}, how); };
    BigFn big{{}, Token{}}; for (auto &x : big.pad) x = 2;
    switch (choose(12)) {
    case 0: want(pc::async(Exec{core}, plain, 4), 5, "async(function)"); break;
    case 1: { Obj o{10}; want(pc::async(Exec{core}, &Obj::add, &o, 5), 15, "async(member function, pointer)"); break; }
    case 2: { Obj o{10}; auto f = pc::async(Exec{core}, &Obj::add, o, 5); o.base = 99; want(std::move(f), 15, "async(member function, copy of the object)"); break; }
    case 3: { Obj o{10}; want(pc::async(Exec{core}, &Obj::add, std::ref(o), 7), 17, "async(member function, reference)"); break; }
    case 4: want(pc::async(Exec{core}, MoveOnlyCall{std::make_unique<Box>(Box{20, 0}), Token{}}, 3), 23, "async(rvalue call)"); break;
    case 5: want(pc::async(Exec{core}, std::move(big), 2), 42, "async(large function object)"); break;
    case 6: { CountingFn c; auto f = pc::async(Exec{core}, std::ref(c), 5); want(std::move(f), 6, "async(ref)"); if (c.calls != 1) sim::violation("ran-wrong", "function object called %d times", c.calls); break; }
    case 7: { std::string text(40, 'x'); auto f = pc::async(Exec{core}, [](const std::string &s, std::unique_ptr<int> p, int k) { return (int)s.size() + *p + k; }, text, std::make_unique<int>(3), 4); text.assign("short"); want(std::move(f), 47, "async(arguments)"); break; }
    case 8: { // packaged_task with arguments of every kind
      int x = 5;
      pc::packaged_task<int(int &)> a{by_ref}; auto fa = a.get_future(); a(x); want(std::move(fa), 6, "task(int&)"); if (x != 6) sim::violation("wrong-value", "a reference argument was copied");
      pc::packaged_task<int(std::unique_ptr<int>, const std::string &)> b{[t = Token{}](std::unique_ptr<int> p, const std::string &s) { t.used(); return *p + (int)s.size(); }}; auto fb = b.get_future();
      std::string s(12, 'y'); b(std::make_unique<int>(7), s); want(std::move(fb), 19, "task(unique_ptr, const string&)");
      break;
    }
    case 9: { auto f = pc::make_ready_future(Val{8}); auto g = f.then(Exec{core}, from_future); want(std::move(g), 9, "then(function)"); auto h = pc::make_ready_future(Val{8}).next(plain_val); expect_out(outcome([&] { return h.get().id(); }), {VALUE, 9}, "next(function)"); break; }
    case 10: { auto f = pc::make_ready_future(Obj{31}); want(f.next(&Obj::get), 31, "next(member function)"); break; }
    default: { // large function objects straight into an executor and as continuation
      auto f = pc::make_ready_future(2).next(Exec{core}, std::move(big)); want(std::move(f), 42, "next(large function object)");
      CountingFn c; auto g = pc::make_ready_future(2).next(std::ref(c)); want(std::move(g), 3, "next(ref)"); if (c.calls != 1) sim::violation("ran-wrong", "function object called %d times", c.calls);
    }
    }
    core.close();
  }
  workers.join_all();
}
