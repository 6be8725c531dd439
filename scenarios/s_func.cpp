// unique_function against a small model: what it holds, what it calls, what it keeps alive.
#include "source.h"
#include <functional>
#include <string>
using namespace h;

namespace {
// callables that return id + argument; every kind of size, alignment and move constructor
__attribute__((noinline)) bool misaligned(const void *p, unsigned a) { asm volatile("" : "+r"(p)); return (uintptr_t)p % a; } // the compiler must not conclude anything from the type
struct Small { Token t; int id; int operator()(int k) const { t.used(); return id + k; } };
struct Mutable { Token t; int id; int calls = 0; int operator()(int k) { t.used(); ++calls; return id + k; } };
struct Large { Token t; int id; long pad[12] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}; int operator()(int k) const { t.used(); for (int i = 0; i < 12; ++i) if (pad[i] != i + 1) sim::violation("torn-value", "a function object is damaged"); return id + k; } };
struct alignas(64) Aligned { Token t; int id; int operator()(int k) const { t.used(); if (misaligned(this, 64)) sim::violation("alignment", "an over-aligned function object is misaligned"); return id + k; } };
struct alignas(32) AlignedSmall { Token t; int id; int operator()(int k) const { t.used(); if (misaligned(this, 32)) sim::violation("alignment", "an over-aligned function object is misaligned"); return id + k; } };
struct alignas(16) Aligned16 { int id; int operator()(int k) const { if (misaligned(this, 16)) sim::violation("alignment", "an over-aligned function object is misaligned"); return id + k; } };
struct BigWrapper { // function wrapper too big for the small buffer, may be empty
  std::function<int(int)> f; long pad[6] = {};
  int operator()(int k) const { return f(k); }
  friend bool operator==(const BigWrapper &b, std::nullptr_t) { return !b.f; }
};
struct ThrowMove { // must not be moved once it is stored
  Token t; int id;
  ThrowMove(Token t_, int i) : t(std::move(t_)), id(i) {}
  ThrowMove(ThrowMove &&o) : t(std::move(fire(o).t)), id(o.id) {}
  static ThrowMove &fire(ThrowMove &o) { if (Faulty::fire()) { sim::count_fault(sim::F_VALUE_THROW); throw ValueThrew{o.id}; } return o; }
  int operator()(int k) const { t.used(); return id + k; }
};
struct Copied { Val v; int operator()(int k) const { return v.id() + k; } };
struct CopiedLarge { Val v; long pad[10] = {}; int operator()(int k) const { return v.id() + k; } };
struct SelfPointer { // notices when it is moved bytewise
  const SelfPointer *self; Token t{}; int id;
  SelfPointer(int i) : self(this), id(i) {}
  SelfPointer(SelfPointer &&o) noexcept : self(this), t(std::move(o.t)), id(o.id) {}
  int operator()(int k) const { t.used(); if (self != this) sim::violation("bytewise", "a function object was relocated without its move constructor"); return id + k; }
};
struct Composite { // can be made from a list of functions, which is not how a copy or a move of it is made
  std::vector<std::function<int(int)>> fs;
  Composite(std::initializer_list<std::function<int(int)>> l) : fs(l) {}
  Composite(const Composite &o) : fs(o.fs) {}
  Composite(Composite &&o) noexcept : fs(std::move(o.fs)) {}
  int operator()(int k) const { if (fs.size() != 2) sim::violation("wrong-function", "a function object was not copied or moved but wrapped"); return fs[0](k) + fs[1](0); }
};
int plain3(int k) { return 3 + k; }
int plain4(int k) { return 4 + k; }

using Fn = pc::unique_function<int(int)>;
enum { EMPTY = -1, UNKNOWN = -2 };
struct Slot { Fn f; int id = EMPTY; };

void check_slot(Slot &s) {
  if (s.id == UNKNOWN) return;
  if ((s.id == EMPTY) == (bool)s.f || (s.id == EMPTY) != (s.f == nullptr)) sim::violation("emptiness", "a unique_function reports wrongly whether it holds a function");
  int k = (int)choose(50);
  if (s.id == EMPTY) {
    bool threw = false;
    try { s.f(k); } catch (const std::bad_function_call &) { threw = true; }
    if (!threw) sim::violation("emptiness", "calling an empty unique_function does not throw bad_function_call");
  } else { const Fn &c = s.f; int r = c(k); if (r != s.id + k) sim::violation("wrong-function", "a unique_function called another function: %d instead of %d", r, s.id + k); }
}
// stores a new function; an allocation or a constructor may fail, then nothing changes
void fill(Slot &s, int id) {
  int kind = (int)choose(21), fault = (int)choose(6);
  Copied lv{Val{id}}; CopiedLarge lvl{Val{id}, {}}; Mutable m{Token{}, id};
  std::function<int(int)> sf = [id](int k) { return id + k; }, none;
  int (*nullf)(int) = nullptr;
  ThrowMove tm{Token{}, id};
  bool no_alloc = kind == 5 || kind == 6 || kind == 9;
  if (fault == 5) sim::arm_alloc_fault(1); else if (fault == 4) Faulty::arm(1 + (int)choose(2));
  size_t before = sim::alloc_count();
  int got = id; bool failed = false;
  try {
    Fn f = [&]() -> Fn {
      switch (kind) {
      case 0: return Small{Token{}, id};
      case 1: return Large{Token{}, id};
      case 2: return Aligned{Token{}, id};
      case 3: return SelfPointer{id};
      case 4: return std::move(tm);
      case 5: got = 3; return plain3;
      case 6: got = 4; return &plain4;
      case 7: return lv;
      case 8: return lvl;
      case 9: got = EMPTY; return nullf;
      case 10: return sf;
      case 11: got = EMPTY; return none;
      case 13: return AlignedSmall{Token{}, id};
      case 14: return Aligned16{id};
      case 15: got = EMPTY; return BigWrapper{};
      case 16: return BigWrapper{sf};
      case 17: { pc::unique_function<short(int)> g; if (id & 1) g = pc::unique_function<short(int)>{[id](int k) { return (short)(id + k); }}; else got = EMPTY; return std::move(g); }
      case 18: { std::unique_ptr<Large> big(new Large{Token{}, id}); return [big = std::move(big)](int k) { return (*big)(k); }; }
      case 19: return Composite{[id](int k) { return id + k; }, [](int k) { return k; }};
      case 20: { Composite c{[id](int k) { return id + k; }, [](int k) { return k; }}; return c; }
      default: return std::move(m);
      }
    }();
    if (no_alloc && sim::alloc_count() != before) sim::violation("allocates", "a function pointer is not stored in the small buffer");
    s.f = std::move(f);
  } catch (const std::bad_alloc &) { failed = true; sim::probe("allocation failed"); } catch (const ValueThrew &) { failed = true; sim::probe("constructor threw"); }
  sim::arm_alloc_fault(0); Faulty::arm(0);
  if (!failed) s.id = got;
  if (lv.v.id() != id || lvl.v.id() != id || !sf) sim::violation("consumed", "unique_function took a function it was only shown");
}
} // namespace

SCENARIO_W(func_ops, "C23,C17", 3) {
  sim::Threads th;
  Slot box; std::mutex mtx; // functions are handed over between threads
  auto work = [&](int base) {
    std::vector<Slot> s(3);
    for (int n = 4 + (int)choose(8); n > 0; --n) {
      Slot &a = s[choose(3)];
      unsigned bi = choose(2); Slot &b = s[(&a - s.data() + 1 + bi) % 3];
      switch (choose(10)) {
      case 0: case 1: fill(a, base + n); break;
      case 8: { Fn &self = a.f; a.f = std::move(self); break; } // onto itself
      case 9: { Fn &self = a.f; std::swap(self, a.f); break; }
      case 2: a.f = std::move(b.f); a.id = b.id; if (b.id != EMPTY) b.id = UNKNOWN; break;
      case 3: { Fn t = std::move(a.f); a.f = Fn{nullptr}; if (t == nullptr && a.id >= 0) sim::violation("emptiness", "a moved function got lost"); b.f = std::move(t); b.id = a.id; a.id = EMPTY; break; }
      case 4: std::swap(a.f, b.f); std::swap(a.id, b.id); break;
      case 5: a.f = choose(2) ? Fn{} : Fn{nullptr}; a.id = EMPTY; break;
      case 6: { std::lock_guard<std::mutex> l{mtx}; std::swap(a.f, box.f); std::swap(a.id, box.id); break; }
      default: break;
      }
      check_slot(a); check_slot(b);
      if (choose(4) == 3) sim::yield();
    }
    if (choose(2)) { std::vector<Slot> moved; for (auto &x : s) moved.push_back(std::move(x)); for (auto &x : moved) check_slot(x); }
  };
  th.start([&] { work(1000); });
  work(2000);
  th.join_all();
  check_slot(box);
}

// signatures: arguments and results pass through unchanged
namespace {
struct Pad { long pad[10] = {}; };
template <bool Big> struct Maybe : std::conditional_t<Big, Pad, std::tuple<>> { Token t{}; };
struct Holder { Val v{41}; Val &get() { return v; } const Val &cget() const { return v; } int add(int k) { return v.id() + k; } int field = 17; };
template <bool Big> void signatures() {
  Val x{7}; const Val cx{8};
  using M = Maybe<Big>;
  switch (choose(14)) {
  case 0: { pc::unique_function<const Val &()> f = [m = M{}, &x]() -> const Val & { m.t.used(); return x; }; auto g = std::move(f); if (&g() != &x) sim::violation("wrong-object", "a returned const reference refers to something else"); if (g().id() != 7) sim::violation("wrong-value", "returned reference"); break; }
  case 1: { pc::unique_function<Val(Val)> f = [m = M{}](Val v) { m.t.used(); return Val{v.id() + 1}; }; if (f(x).id() != 8 || f(cx).id() != 9 || f(Val{1}).id() != 2 || x.id() != 7) sim::violation("wrong-value", "argument by value"); break; }
  case 2: { pc::unique_function<void(Val &)> f = [m = M{}](Val &v) { m.t.used(); v = Val{9}; }; f(x); if (x.id() != 9) sim::violation("wrong-value", "argument by reference"); break; }
  case 3: { pc::unique_function<const void *(const Val &)> f = [m = M{}](const Val &v) -> const void * { m.t.used(); return &v; }; if (f(cx) != &cx) sim::violation("wrong-object", "an argument by const reference was copied"); break; }
  case 4: { pc::unique_function<int(MVal)> f = [m = M{}](MVal v) { m.t.used(); return v.id(); }; if (f(MVal{5}) != 5) sim::violation("wrong-value", "move-only argument"); break; }
  case 5: { pc::unique_function<MVal(MVal &&)> f = [m = M{}](MVal &&v) { m.t.used(); return std::move(v); }; MVal a{6}; MVal r = f(std::move(a)); if (r.id() != 6 || a.id() != -1) sim::violation("wrong-value", "rvalue reference argument"); break; }
  case 6: { Count n; pc::unique_function<void(int)> f = [m = M{}, &n](int k) { m.t.used(); n.inc(); return Val{k}; }; f(1); f(2); if (n.get() != 2) sim::violation("ran-wrong", "called %d times", n.get()); break; }
  case 7: { pc::unique_function<long(int)> f = [m = M{}](int k) -> short { m.t.used(); return (short)(k + 1); }; if (f(5) != 6) sim::violation("wrong-value", "converted result"); break; }
  case 8: { Holder h; pc::unique_function<Val &(Holder &)> f = &Holder::get; if (&f(h) != &h.v) sim::violation("wrong-object", "member function"); pc::unique_function<int(Holder *, int)> g = &Holder::add; if (g(&h, 2) != 43) sim::violation("wrong-value", "member function through a pointer"); pc::unique_function<int &(Holder &)> d = &Holder::field; if (&d(h) != &h.field) sim::violation("wrong-object", "data member"); int (Holder::*none)(int) = nullptr; pc::unique_function<int(Holder &, int)> e = none; if (e) sim::violation("emptiness", "a null member pointer makes a non-empty function"); break; }
  case 9: { Mutable m{Token{}, 1}; pc::unique_function<int(int)> f = std::ref(m); f(1); auto g = std::move(f); g(1); if (m.calls != 2) sim::violation("ran-wrong", "a reference_wrapper was not called on its object"); break; }
  case 10: { pc::unique_function<int(int)> f = [m = M{}, n = 0](int k) mutable { m.t.used(); return n += k; }; f(1); auto g = std::move(f); if (g(2) != 3) sim::violation("wrong-value", "state of a function object was lost"); break; }
  case 11: { pc::unique_function<int(int)> f = [m = M{}](int k) -> int { m.t.used(); raise_err(k); }; Out o = outcome([&] { return f(4); }); expect_out(o, {ERROR, 4}, "throwing function"); expect_out(outcome([&] { return f(5); }), {ERROR, 5}, "throwing function"); break; }
  case 12: { pc::unique_function<int(int, const Val &, MVal, Val &)> f = [m = M{}](int a, const Val &b, MVal c, Val &d) { m.t.used(); return a + b.id() + c.id() + d.id(); }; if (f(1, cx, MVal{2}, x) != 18) sim::violation("wrong-value", "several arguments"); break; }
  default: { // a function that owns another one, and functions in containers
    pc::unique_function<int()> in = [m = M{}] { m.t.used(); return 5; };
    pc::unique_function<int()> out = [in = std::move(in), m = M{}] { m.t.used(); return in() + 1; };
    std::vector<pc::unique_function<int()>> v; for (int i = 0; i < 4; ++i) v.emplace_back([i, m = M{}] { m.t.used(); return i; });
    v.erase(v.begin() + 1);
    if (out() != 6 || v[0]() != 0 || v[1]() != 2 || v[2]() != 3) sim::violation("wrong-function", "functions in a container");
  }
  }
}
} // namespace
SCENARIO(func_signatures, "C23,C17") { sim::Threads th; th.start([] { signatures<false>(); signatures<true>(); }); signatures<true>(); signatures<false>(); th.join_all(); }
