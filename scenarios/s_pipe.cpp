// Random graphs of sources, continuations, executors, nested futures and combinators against a sequential model.
#include "source.h"
using namespace h;

namespace {
struct Graph {
  enum { MAXN = 16, MAXF = 32 };
  Core core[2];
  Env *env[6]; bool unused[6] = {}; int nenv = 0;
  std::unique_ptr<Producer> prod[6];
  // live futures with the outcome the model predicts
  pc::future<Val> u[MAXN]; pc::shared_future<Val> s[MAXN]; Out want[MAXN]; bool shared[MAXN]; int n = 0;
  Count ran[MAXF]; int expect_runs[MAXF]; int nf = 0;
  ~Graph() { for (int i = 0; i < MAXN; ++i) { u[i] = {}; s[i] = {}; } for (auto &p : prod) p.reset(); for (int i = 0; i < nenv; ++i) delete env[i]; }
  void add(pc::future<Val> f, Out w) { u[n] = std::move(f); want[n] = w; shared[n] = false; ++n; }
  void add(pc::shared_future<Val> f, Out w) { s[n] = std::move(f); want[n] = w; shared[n] = true; ++n; }
  pc::future<Val> source(Out &w) {
    int k = nenv++;
    env[k] = new Env(1 + (int)choose(9));
    pc::future<Val> f;
    prod[k] = make_source<Val>(*env[k], f, choose(3) == 2 ? &core[0] : nullptr);
    w = env[k]->want<Val>();
    return f;
  }
  void take(int i) { --n; u[i] = std::move(u[n]); s[i] = std::move(s[n]); u[n] = {}; s[n] = {}; want[i] = want[n]; shared[i] = shared[n]; }
  Core *exec() { int k = (int)choose(4); return k < 2 ? nullptr : &core[k - 2]; }
};
// what a user function does with its input
enum { F_ADD, F_THROW, F_NEST_READY, F_NEST_SOURCE, F_KINDS };
struct Body {
  Graph *g; int f, kind, arg; Token t; std::shared_ptr<pc::future<Val>> nested; std::shared_ptr<pc::shared_future<Val>> snested;
  void enter() { t.used(); if (g->ran[f].inc() != 1) sim::violation("ran-twice", "a function of the pipeline ran twice"); }
};
Out apply(const Body &b, Out in, Out nested) { // sequential meaning of the body for an input it accepts
  switch (b.kind) {
  case F_THROW: return {ERROR, b.arg};
  case F_NEST_READY: return {VALUE, in.id + 100};
  case F_NEST_SOURCE: return nested;
  default: return {VALUE, in.id + b.arg};
  }
}
int recover(const Out &o) { return o.kind == VALUE ? o.id : o.kind == ERROR ? 500 + o.id : 900; }

template <class F> int as_id(F &f) { return recover(outcome([&] { return K<Val>::get(f); })); }
template <class P> auto attach_then(P &p, Core *c, Body b) -> pc::future<Val> {
  switch (b.kind) {
  case F_NEST_READY: { auto fn = [b = std::move(b)](P f) mutable { b.enter(); return pc::make_ready_future(Val{as_id(f) + 100}); }; return c ? p.then(Exec{*c}, std::move(fn)) : p.then(std::move(fn)); }
  case F_NEST_SOURCE: { auto fn = [b = std::move(b)](P) mutable { b.enter(); return std::move(*b.nested); }; return c ? p.then(Exec{*c}, std::move(fn)) : p.then(std::move(fn)); }
  default: { auto fn = [b = std::move(b)](P f) mutable { b.enter(); int x = as_id(f); if (b.kind == F_THROW) raise_err(b.arg); return Val{x + b.arg}; }; return c ? p.then(Exec{*c}, std::move(fn)) : p.then(std::move(fn)); }
  }
}
template <class P> auto attach_next(P &p, Core *c, Body b) -> pc::future<Val> {
  switch (b.kind) {
  case F_NEST_READY: { auto fn = [b = std::move(b)](const Val &v) mutable { b.enter(); return pc::make_ready_future(Val{v.id() + 100}); }; return c ? p.next(Exec{*c}, std::move(fn)) : p.next(std::move(fn)); }
  case F_NEST_SOURCE: { auto fn = [b = std::move(b)](const Val &) mutable { b.enter(); return std::move(*b.nested); }; return c ? p.next(Exec{*c}, std::move(fn)) : p.next(std::move(fn)); }
  default: { auto fn = [b = std::move(b)](const Val &v) mutable { b.enter(); int x = v.id(); if (b.kind == F_THROW) raise_err(b.arg); return Val{x + b.arg}; }; return c ? p.next(Exec{*c}, std::move(fn)) : p.next(std::move(fn)); }
  }
}
template <class P> pc::future<Val> attach_interruptible(P &p, Core *c, Body b) {
  auto fn = [b = std::move(b)](pc::promise<Val> pr, P f) mutable { b.enter(); int x = as_id(f); if (b.kind == F_THROW) pr.set_exception(err_ptr(b.arg)); else pr.set_value(Val{x + b.arg}); };
  return c ? p.then(Exec{*c}, std::move(fn)) : p.then(std::move(fn));
}
// both results needed: the first failure (in argument order) wins
template <class A, class B> int sum_of(A &a, B &b) { int x = K<Val>::get(a); return x + K<Val>::get(b); }
Out sum_want(Out a, Out b) { if (a.kind != VALUE) return a; if (b.kind != VALUE) return b; return {VALUE, a.id + b.id}; }
template <class A, class B> pc::future<Val> both(A a, B b, Core *c, bool any) {
  if (!any) {
    auto f = pc::when_all(std::move(a), std::move(b));
    auto fn = [t = Token{}](std::tuple<A, B> r) { t.used(); return Val{sum_of(std::get<0>(r), std::get<1>(r))}; };
    return c ? f.next(Exec{*c}, std::move(fn)) : f.next(std::move(fn));
  }
  auto f = pc::when_any(std::move(a), std::move(b));
  auto fn = [t = Token{}](pc::when_any_result<std::tuple<A, B>> r) {
    t.used();
    bool ok = r.index == 0 ? std::get<0>(r.futures).is_ready() : r.index == 1 && std::get<1>(r.futures).is_ready();
    if (!ok) sim::violation("wrong-index", "when_any names an input that is not ready");
    return pc::when_all(std::move(std::get<0>(r.futures)), std::move(std::get<1>(r.futures))).next([](std::tuple<A, B> r) { return Val{sum_of(std::get<0>(r), std::get<1>(r))}; });
  };
  return c ? f.next(Exec{*c}, std::move(fn)) : f.next(std::move(fn));
}

void step(Graph &g) {
  int i = (int)choose(g.n);
  Out in = g.want[i];
  int what = (int)choose(8);
  Core *c = g.exec();
  switch (what) {
  case 0: // share
    if (!g.shared[i]) { g.s[i] = choose(2) ? g.u[i].share() : pc::shared_future<Val>(std::move(g.u[i])); g.shared[i] = true; }
    else { pc::shared_future<Val> copy = g.s[i]; g.add(std::move(copy), in); }
    return;
  case 1: // detach
    if (g.shared[i]) g.s[i] = g.s[i].detach(); else g.u[i] = g.u[i].detach();
    return;
  case 2: case 3: { // combine two
    if (g.n < 2) return;
    int j = (int)choose(g.n); if (j == i) j = (i + 1) % g.n;
    Out w = sum_want(in, g.want[j]);
    bool any = what == 3;
    pc::future<Val> r;
    if (g.shared[i]) { if (g.shared[j]) r = both(g.s[i], g.s[j], c, any); else r = both(g.s[i], std::move(g.u[j]), c, any); }
    else { if (g.shared[j]) r = both(std::move(g.u[i]), g.s[j], c, any); else r = both(std::move(g.u[i]), std::move(g.u[j]), c, any); }
    // consumed inputs leave the set (the higher index first)
    int a = i > j ? i : j, b = i > j ? j : i;
    if (!g.shared[a]) g.take(a);
    if (!g.shared[b]) g.take(b);
    g.add(std::move(r), w);
    return;
  }
  default: {
    bool then = what < 6, intr = what == 5;
    Body b{&g, g.nf, (int)choose(F_KINDS), 1 + (int)choose(9), Token{}, nullptr, nullptr};
    if (intr && b.kind > F_THROW) b.kind = F_ADD;
    Out nested{VALUE, 0};
    if (b.kind == F_NEST_SOURCE) { if (g.nenv >= 4) b.kind = F_ADD; else { Out w; b.nested = std::make_shared<pc::future<Val>>(g.source(w)); nested = w; } }
    if (b.kind == F_NEST_SOURCE && !then && in.kind != VALUE) g.unused[g.nenv - 1] = true; // dropped together with the function that would have returned it
    g.expect_runs[g.nf++] = then || in.kind == VALUE;
    Out w = then ? apply(b, {VALUE, recover(in)}, nested) : in.kind == VALUE ? apply(b, in, nested) : in;
    pc::future<Val> r;
    if (g.shared[i]) r = intr ? attach_interruptible(g.s[i], c, std::move(b)) : then ? attach_then(g.s[i], c, std::move(b)) : attach_next(g.s[i], c, std::move(b));
    else r = intr ? attach_interruptible(g.u[i], c, std::move(b)) : then ? attach_then(g.u[i], c, std::move(b)) : attach_next(g.u[i], c, std::move(b));
    if (!g.shared[i]) { if (g.u[i].valid()) sim::violation("valid", "a consumed future is still valid"); g.u[i] = std::move(r); g.want[i] = w; }
    else g.add(std::move(r), w);
    return;
  }
  }
}
void pipeline(int nsrc, int nsteps, bool early) {
  Graph g;
  g.core[0].randomise(); g.core[1].randomise();
  sim::Threads workers;
  {
    sim::Threads th, leaf;
    for (int k = 0; k < nsrc; ++k) { Out w; auto f = g.source(w); g.add(std::move(f), w); }
    int started = 0;
    g.core[0].start(workers, 1); g.core[1].start(workers, 1);
    auto start_one = [&] { if (started < g.nenv) { th.start([p = std::move(g.prod[started])]() mutable { p->run(); if (choose(2)) p.reset(); }); ++started; } };
    for (int i = 0; i < nsteps && g.n < Graph::MAXN - 2 && g.nf < Graph::MAXF - 2; ++i) { if (early && choose(3) == 2) start_one(); step(g); }
    while (started < g.nenv) start_one();
    // leaves: some are taken by another thread
    int split = (int)choose(g.n + 1);
    auto check = [&](int from, int to) { for (int i = from; i < to; ++i) { Out o = g.shared[i] ? outcome([&] { return K<Val>::get(g.s[i]); }) : outcome([&] { return K<Val>::get(g.u[i]); }); expect_out(o, g.want[i], "pipeline"); } };
    if (split) leaf.start([&, split] { check(0, split); });
    check(split, g.n);
    leaf.join_all();
    th.join_all();
    for (int i = 0; i < g.nf; ++i) if (g.ran[i].get() != g.expect_runs[i]) sim::violation("ran-wrong", "a function of the pipeline ran %d times instead of %d", g.ran[i].get(), g.expect_runs[i]);
    g.core[0].close(); g.core[1].close();
  }
  workers.join_all();
  for (int k = 0; k < g.nenv; ++k) if (g.env[k]->cancels.get() && !g.unused[k]) sim::violation("cancelled", "a source was cancelled although its result was used");
}
} // namespace

SCENARIO_W(pipe_small, "C04,C01,C03,C05,C10,C11,C12,C18,C21", 2) { pipeline(1 + (int)choose(2), 1 + (int)choose(4), choose(2)); }
SCENARIO_W(pipe_big, "C04,C17", 2) { pipeline(1 + (int)choose(3), 4 + (int)choose(8), choose(2)); }
