// Sizes beyond 16 bits: counters and indices must not wrap. Mostly without preemptions, for speed.
#include "source.h"
using namespace h;

namespace {
struct Quiet { Quiet() { sim::quiet_begin(); } ~Quiet() { sim::quiet_end(); } };
// mostly small, so that the rare huge runs do not use up the time of a search
int huge_size() { int k = (int)choose(2000); return k == 1999 ? 65600 : k > 1994 ? 4100 : k > 1960 ? (k & 1 ? 520 : 1030) : k > 1900 ? 300 : 3 + k % 20; }
} // namespace

// copies of a few shared futures: one of them completes last
static void huge_shared(bool All) {
  int n = huge_size(), odd = choose(2) ? n - 1 - (int)choose(3) : (int)choose(n);
  auto a = pc::make_promise<int>(), b = pc::make_promise<int>();
  pc::shared_future<int> sa = a.second.share(), sb = b.second.share();
  sim::Threads th;
  bool calm = n > 5000 || choose(2); // then only blocking operations switch threads
  struct Calm { bool on; Calm(bool o) : on(o) { if (on) sim::quiet_begin(); } ~Calm() { if (on) sim::quiet_end(); } } calm_here{calm};
  std::vector<pc::shared_future<int>> f;
  { Quiet q; f.reserve(n); for (int i = 0; i < n; ++i) f.push_back(i == odd ? sb : sa); }
  if (All) {
    pc::future<std::vector<pc::shared_future<int>>> all;
    { Quiet q; all = pc::when_all(std::move(f)); a.first.set_value(1); if (all.is_ready()) sim::violation("early-ready", "when_all of %d futures is ready although one of them is not", n); }
    th.start([&] { Calm c{calm}; b.first.set_value(2); });
    auto v = all.get();
    Quiet q;
    if ((int)v.size() != n) sim::violation("wrong-size", "when_all result holds %zu futures instead of %d", v.size(), n);
    for (int i = 0; i < n; ++i) if (!v[i].is_ready() || ((i % 97 == 0 || i == odd) && v[i].get() != 1 + (i == odd))) sim::violation("wrong-outcome", "when_all: input %d", i);
  } else {
    pc::future<pc::when_any_result<std::vector<pc::shared_future<int>>>> any;
    { Quiet q; any = pc::when_any(std::move(f)); if (any.is_ready()) sim::violation("early-ready", "when_any of %d futures is ready although none of them is", n); }
    th.start([&] { Calm c{calm}; b.first.set_value(2); });
    auto r = any.get();
    Quiet q;
    if (r.index != (size_t)odd || (int)r.futures.size() != n || r.futures[odd].get() != 2) sim::violation("wrong-index", "when_any names input %zu of %zu, ready is %d of %d", r.index, r.futures.size(), odd, n);
    a.first.set_value(1);
    for (int i = 0; i < n; ++i) if (!r.futures[i].is_ready() || ((i % 97 == 0 || i == odd) && r.futures[i].get() != 1 + (i == odd))) sim::violation("wrong-outcome", "input %d of when_any", i);
  }
}
SCENARIO(huge_all_shared, "C11,C21") { huge_shared(true); }
SCENARIO(huge_any_shared, "C12") { huge_shared(false); }
SCENARIO(huge_all, "C11") {
  int n = huge_size(); if (n > 1100) n = 1100;
  std::vector<pc::promise<int>> p(n);
  std::vector<pc::future<int>> f; f.reserve(n);
  pc::future<std::vector<pc::future<int>>> all;
  int held = (int)choose(n), tail = (int)choose(2);
  {
    Quiet q;
    for (int i = 0; i < n; ++i) { auto pf = pc::make_promise<int>(); p[i] = std::move(pf.first); f.push_back(std::move(pf.second)); }
    if (choose(2)) for (int i = 0; i < n / 2; ++i) if (i != held) p[i].set_value(i);
    bool half = f[held ? 0 : 1].is_ready();
    all = pc::when_all(std::move(f));
    for (int i = half ? n / 2 : 0; i < n; ++i) if (i != held) p[i].set_value(i);
    if (all.is_ready()) sim::violation("early-ready", "when_all of %d futures is ready although one of them is not", n);
  }
  sim::Threads th;
  th.start([&] { p[held].set_value(held); });
  if (tail) all.wait();
  auto v = all.get();
  Quiet q;
  if ((int)v.size() != n) sim::violation("wrong-size", "when_all result holds %zu futures instead of %d", v.size(), n);
  for (int i = 0; i < n; ++i) if (!v[i].is_ready() || v[i].get() != i) sim::violation("wrong-outcome", "when_all: input %d", i);
}
SCENARIO(huge_any, "C12") {
  int n = huge_size(); if (n > 1100) n = 1100;
  std::vector<pc::promise<int>> p(n);
  std::vector<pc::future<int>> f; f.reserve(n);
  { Quiet q; for (int i = 0; i < n; ++i) { auto pf = pc::make_promise<int>(); p[i] = std::move(pf.first); f.push_back(std::move(pf.second)); } }
  int first = choose(2) ? n - 1 - (int)choose(3) : (int)choose(n);
  pc::future<pc::when_any_result<std::vector<pc::future<int>>>> any;
  { Quiet q; any = pc::when_any(std::move(f)); if (any.is_ready()) sim::violation("early-ready", "when_any of %d futures is ready although none of them is", n); }
  sim::Threads th;
  th.start([&] { p[first].set_value(first); });
  auto r = any.get();
  th.join_all();
  Quiet q;
  if (r.index != (size_t)first || (int)r.futures.size() != n || r.futures[first].get() != first) sim::violation("wrong-index", "when_any names input %zu of %zu, ready is %d of %d", r.index, r.futures.size(), first, n);
  for (int i = 0; i < n; ++i) if (i != first) p[i].set_value(i);
  for (int i = 0; i < n; ++i) if (i != first && r.futures[i].get() != i) sim::violation("wrong-outcome", "input %d of when_any", i);
}
SCENARIO(huge_attached, "C03,C17") {
  int n = huge_size();
  auto pf = pc::make_promise<int>();
  auto s = pf.second.share();
  std::vector<unsigned char> ran(n);
  Count total;
  sim::Threads th;
  {
    Quiet q;
    for (int i = 0; i < n; ++i) s.notify([&, i] { if (ran[i]++) sim::violation("ran-twice", "a notification ran twice"); total.inc(); });
    if (total.get()) sim::violation("early-ready", "a notification ran before the result was stored");
  }
  bool drop = choose(4) == 3;
  if (drop) s = {};
  th.start([&, p = std::move(pf.first)]() mutable { if (n > 1100) sim::quiet_begin(); if (choose(2)) p.set_value(1); else p.set_exception(err_ptr(1)); if (n > 1100) sim::quiet_end(); });
  if (!drop) s.wait();
  th.join_all();
  if (!drop && total.get() != n) sim::violation("lost-continuation", "%d of %d notifications ran", total.get(), n);
}
SCENARIO(huge_pool, "C13") {
  int n = huge_size();
  Count total; std::vector<unsigned char> ran(n);
  {
    pc::static_thread_pool pool{1};
    auto ex = pool.executor();
    { Quiet q; for (int i = 0; i < n; ++i) post(ex, [&, i, n] { if (total.get() != i) sim::violation("reordered", "a single-threaded pool ran task %d of %d in position %d", i, n, total.get()); total.inc(); if (ran[i]++) sim::violation("ran-twice", "a posted task was executed twice"); if (i == 5 && n > 30) sim::quiet_begin(); if (i == n - 5 && n > 30) sim::quiet_end(); }); }
    pool.wait();
  }
  if (total.get() != n) sim::violation("lost-task", "%d of %d posted tasks were executed", total.get(), n);
}
SCENARIO(huge_latch, "C15") {
  static const std::ptrdiff_t sizes[] = {300, 70000, 1 << 20, (std::ptrdiff_t)1 << 33, PTRDIFF_MAX};
  std::ptrdiff_t n = sizes[choose(5)] - (std::ptrdiff_t)choose(3);
  pc::latch l{n};
  sim::Threads th;
  Count down;
  for (int i = 0; i < 1 + (int)choose(2); ++i) th.start([&] { l.wait(); if (!down.get()) sim::violation("early-release", "latch of %td released early", n); if (!l.is_ready()) sim::violation("unready", "latch"); });
  std::ptrdiff_t k = n - 1 - (std::ptrdiff_t)choose(2), left = n;
  static const std::ptrdiff_t cuts[] = {1, 255, 256, 65535, 65536, (std::ptrdiff_t)1 << 31, ((std::ptrdiff_t)1 << 32) - 1, (std::ptrdiff_t)1 << 32};
  for (int i = 0; i < 3; ++i) { std::ptrdiff_t c = cuts[choose(8)]; if (left - c < 1) continue; l.count_down(c); left -= c; if (l.is_ready()) sim::violation("early-release", "latch of %td is ready after %td", n, n - left); }
  if (choose(2) && left > 1) { l.count_down(left - 1); left = 1; if (l.is_ready()) sim::violation("early-release", "latch of %td is ready after %td", n, n - left); }
  (void)k;
  down.set(1);
  if (choose(2)) l.count_down(left); else if (left == 1 && choose(2)) l.count_down_and_wait(); else l.count_down(left);
  if (!l.is_ready()) sim::violation("unready", "latch of %td is not ready after %td", n, n);
  th.join_all();
}
