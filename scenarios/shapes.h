#pragma once
// Unusual types of results, functions and arguments.
#include "source.h"
#include <string>
using namespace h;

namespace {
// ---------------------------------------------------------------- result types
__attribute__((noinline)) inline bool misaligned(const void *p, unsigned a) { asm volatile("" : "+r"(p)); return (uintptr_t)p % a; } // the compiler must not conclude anything from the type
struct alignas(64) Wide { int v[24]; explicit Wide(int k = 0) { for (auto &x : v) x = k; } };
struct Big { char text[300]; int id; };
struct NoDefault { int id; NoDefault() = delete; explicit NoDefault(int i) : id(i) {} };
struct Poly { virtual int id() const { return 1; } virtual ~Poly() = default; };
struct Derived final : Poly { Box *b; explicit Derived(int i) : b(new Box{i, ~i}) {} int id() const override { return b->id; } ~Derived() override { delete b; } };

template <class T> struct V; // make(id) and id(value)
template <> struct V<int> { static int make(int i) { return i; } static int id(const int &v) { return v; } };
template <> struct V<bool> { static bool make(int i) { return i & 1; } static int id(const bool &v) { return v; } };
template <> struct V<Wide> { static Wide make(int i) { return Wide{i}; } static int id(const Wide &v) { if (misaligned(&v, 64)) sim::violation("alignment", "an over-aligned value is misaligned"); for (int x : v.v) if (x != v.v[0]) sim::violation("torn-value", "value is damaged"); return v.v[0]; } };
template <> struct V<Big> { static Big make(int i) { Big b; std::memset(b.text, i, sizeof b.text); b.id = i; return b; } static int id(const Big &v) { for (char c : v.text) if (c != (char)v.id) sim::violation("torn-value", "value is damaged"); return v.id; } };
template <> struct V<NoDefault> { static NoDefault make(int i) { return NoDefault{i}; } static int id(const NoDefault &v) { return v.id; } };
template <> struct V<std::unique_ptr<Poly>> { static std::unique_ptr<Poly> make(int i) { return std::make_unique<Derived>(i); } static int id(const std::unique_ptr<Poly> &v) { return v ? v->id() : -1; } };
template <> struct V<std::shared_ptr<Val>> { static std::shared_ptr<Val> make(int i) { return std::make_shared<Val>(i); } static int id(const std::shared_ptr<Val> &v) { return v ? v->id() : -1; } };
template <> struct V<std::string> { static std::string make(int i) { return std::string(i % 3 ? 40 : 3, (char)('a' + i % 20)); } static int id(const std::string &v) { if (v.empty()) return -1; for (char c : v) if (c != v[0]) sim::violation("torn-value", "value is damaged"); return v[0]; } };
template <> struct V<std::vector<Val>> { static std::vector<Val> make(int i) { std::vector<Val> v; for (int k = 0; k < 3; ++k) v.emplace_back(i + k); return v; } static int id(const std::vector<Val> &v) { return v.size() == 3 && v[1].id() == v[0].id() + 1 ? v[0].id() : -1; } };
template <> struct V<std::tuple<int, Val>> { static std::tuple<int, Val> make(int i) { return std::make_tuple(i, Val{i}); } static int id(const std::tuple<int, Val> &v) { return std::get<1>(v).id() == std::get<0>(v) ? std::get<0>(v) : -1; } };
template <> struct V<pc::unique_function<int()>> { static pc::unique_function<int()> make(int i) { return [i, b = std::make_unique<Box>(Box{i, ~i}), pad = std::array<long, 6>{}] { return b->id + (int)pad[0]; }; } static int id(const pc::unique_function<int()> &v) { return v ? v() : -1; } };
// errors of other types
int err_id(const std::exception_ptr &p) { try { std::rethrow_exception(p); } catch (int i) { return i; } catch (const std::exception &e) { return std::atoi(e.what()); } catch (const Box &b) { return b.id; } catch (const char *s) { return std::atoi(s); } }
std::exception_ptr make_err(int how, int id) { switch (how) { case 0: return std::make_exception_ptr(id); case 1: return std::make_exception_ptr(std::runtime_error(std::to_string(id))); default: return std::make_exception_ptr(Box{id, ~id}); } }
[[noreturn]] void throw_err(int how, int id) { switch (how) { case 0: throw id; case 1: throw std::runtime_error(std::to_string(id)); default: throw Box{id, ~id}; } }

template <class F, class Id> void expect_result(F &&get, Id, int want, bool error, const char *how) {
  int got = -2; bool err = false;
  try { got = get(); } catch (...) { err = true; got = err_id(std::current_exception()); }
  if (err != error || got != want) sim::violation("wrong-outcome", "%s: got %s %d, expected %s %d", how, err ? "error" : "value", got, error ? "error" : "value", want);
}

template <class T> void shape() {
  int id = 3 + (int)choose(60), how = (int)choose(3);
  bool error = choose(4) == 3;
  int want = error ? id : V<T>::id(V<T>::make(id));
  Core core; core.randomise();
  sim::Threads workers, th;
  core.start(workers, 1);
  Arena arena;
  Side *side = new Side;
  Count ran;
  {
    pc::future<T> f;
    std::unique_ptr<Producer> prod = make_producer([] {});
    auto fn = [=, t = Token{}]() -> T { t.used(); side->x = id; if (error) throw_err(how, id); return V<T>::make(id); };
    switch (choose(6)) {
    case 0: f = pc::async(Exec{core}, std::move(fn)); break;
    case 1: { pc::packaged_task<T()> task{std::move(fn)}; f = task.get_future(); prod = make_producer([task = std::move(task)]() mutable { task(); }); break; }
    case 2: { auto pf = pc::make_promise<int>(); f = pf.second.next(Exec{core}, [fn = std::move(fn)](int) mutable { return fn(); }); prod = make_producer([p = std::move(pf.first)]() mutable { p.set_value(1); }); break; }
    case 3: { auto pf = pc::make_promise<T>(Alloc<char>{arena}); f = std::move(pf.second); prod = make_producer([fn = std::move(fn), p = std::move(pf.first)]() mutable { try { p.set_value(fn()); } catch (...) { p.set_exception(std::current_exception()); } }); break; }
    case 4: { auto pf = pc::make_promise<void>(); f = pf.second.next([fn = std::move(fn), &core]() mutable { return pc::async(Exec{core}, std::move(fn)); }); prod = make_producer([p = std::move(pf.first)]() mutable { p.set_value(); }); break; }
    default: { auto pf = pc::make_promise<T>(); f = std::move(pf.second); prod = make_producer([=, fn = std::move(fn), p = std::move(pf.first)]() mutable { side->x = id; if (error) p.set_exception(make_err(how, id)); else p.set_value(V<T>::make(id)); }); }
    }
    if (choose(2)) prod->run(); else th.start([p = std::move(prod)]() mutable { p->run(); });
    auto seen = [&] { if (side->x != id) sim::violation("not-published", "effects of the producer are not visible"); };
    switch (choose(6)) {
    case 0: expect_result([&] { T v = f.get(); return V<T>::id(v); }, 0, want, error, "get()"); seen(); break;
    case 1: expect_result([&] { return f.next([&, t = Token{}](T v) { t.used(); ran.inc(); seen(); return V<T>::id(v); }).get(); }, 0, want, error, "next()"); if (ran.get() != !error) sim::violation("ran-wrong", "next() function ran %d times", ran.get()); break;
    case 2: expect_result([&] { return f.then(Exec{core}, [&, t = Token{}](pc::future<T> x) { t.used(); seen(); return V<T>::id(x.get()); }).get(); }, 0, want, error, "then()"); break;
    case 3: { auto s = f.share(); auto c = s; for (int k = 0; k < 2; ++k) expect_result([&] { return V<T>::id(s.get()); }, 0, want, error, "shared get()"); s = {}; expect_result([&] { return c.next([&, t = Token{}](const T &v) { t.used(); seen(); return V<T>::id(v); }).get(); }, 0, want, error, "shared next()"); expect_result([&] { return V<T>::id(c.get()); }, 0, want, error, "shared get()"); break; }
    case 4: expect_result([&] { return f.then([&](pc::promise<int> p, pc::future<T> x) { try { p.set_value(V<T>::id(x.get())); } catch (...) { p.set_exception(std::current_exception()); } }).get(); }, 0, want, error, "interruptible then()"); break;
    default: { auto r = pc::when_all(std::move(f), pc::make_ready_future(1)).get(); expect_result([&] { return V<T>::id(std::get<0>(r).get()); }, 0, want, error, "when_all()"); }
    }
    th.join_all();
    core.close();
  }
  workers.join_all();
  delete side;
  if (arena.get()) sim::violation("leak", "memory not returned to the user's allocator");
}
} // namespace
