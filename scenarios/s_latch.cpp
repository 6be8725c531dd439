// Latch: release exactly at zero, visibility, destruction as soon as a waiter has returned.
#include "harness.h"
using namespace h;

namespace {
struct LatchRun {
  pc::latch *l;
  int parts = 0;           // threads that count down
  Side *side[4] = {};      // written before count_down by each of them
  Mark begun[4], ended[4]; // around their count_down
  Event last_use{false};
  LatchRun() { for (auto &s : side) s = new Side; }
  ~LatchRun() { for (auto *s : side) delete s; }
  // called by a thread whose wait has returned
  void released(const char *how, int skip = -1) {
    for (int i = 0; i < parts; ++i) {
      if (!begun[i].set()) sim::violation("early-release", "%s returned before the counter reached zero", how);
      if (side[i]->x != 1) sim::violation("not-published", "%s: effects before count_down are not visible", how);
    }
  }
  NOSAN bool all_done_before_me() const { for (int i = 0; i < parts; ++i) if (!ended[i].before_me()) return false; return true; }
  NOSAN bool any_missing() const { for (int i = 0; i < parts; ++i) if (!begun[i].set()) return true; return false; }
};
} // namespace

// several threads count down (some of them waiting as well), some only wait or poll; the first waiter released
// may destroy the latch at once
SCENARIO(latch_mix, "C15") {
  LatchRun r;
  r.parts = 1 + (int)choose(3);
  int steps[4]; int total = 0;
  for (int i = 0; i < r.parts; ++i) { steps[i] = 1 + (int)choose(2); total += steps[i]; }
  int waiters = (int)choose(3);
  bool waiting_part[4]; for (int i = 0; i < r.parts; ++i) waiting_part[i] = steps[i] == 1 && choose(3) == 0;
  // who destroys: one of the waiting threads right after it was released, or the main thread at the end
  auto latch = std::make_unique<pc::latch>(total);
  r.l = latch.get();
  int destroyer = (int)choose(3);
  Count destroyed;
  Event gone(false);
  int nwait = waiters; for (int i = 0; i < r.parts; ++i) nwait += waiting_part[i];
  // the others must not touch the latch after it is destroyed, so only a lone waiting thread may destroy it, unless
  // the others are already inside wait(): ~latch() waits for those
  auto release = [&](const char *how) {
    r.released(how);
    if (destroyer == 1 && nwait == 1 && destroyed.inc() == 1) { sim::probe("latch destroyed by its waiter"); latch.reset(); }
  };
  {
    sim::Threads th;
    for (int i = 0; i < r.parts; ++i)
      th.start([&, i] {
        if (choose(2)) sim::yield();
        r.side[i]->x = 1;
        if (waiting_part[i]) {
          r.begun[i].here();
          r.l->count_down_and_wait();
          r.ended[i].here();
          release("count_down_and_wait()");
        } else if (steps[i] == 2 && choose(2)) {
          r.l->count_down(1);
          if (choose(2)) sim::yield();
          r.begun[i].here();
          r.l->count_down(1);
          r.ended[i].here();
        } else { r.begun[i].here(); r.l->count_down(steps[i]); r.ended[i].here(); }
      });
    for (int i = 0; i < waiters; ++i)
      th.start([&] {
        if (nwait > 1 || destroyer != 1)
          for (unsigned k = choose(3); k > 0; --k) {
            bool must = r.all_done_before_me(), miss = r.any_missing();
            bool ready = r.l->is_ready();
            if (ready) r.released("is_ready()");
            else if (must) sim::violation("not-ready", "is_ready() is false although the counter is zero");
            (void)miss;
          }
        r.l->wait();
        release("wait()");
      });
    th.join_all();
  }
  if (latch) {
    if (!latch->is_ready()) sim::violation("not-ready", "is_ready() is false although the counter is zero");
    latch->wait();
    r.released("wait()");
  }
}

// stack latch: the owner creates helpers, waits and leaves; the helpers may still be inside count_down()
SCENARIO(latch_scope, "C15") {
  int n = 1 + (int)choose(3);
  Side *sides[3]; for (auto &s : sides) s = new Side;
  sim::Threads th;
  {
    pc::latch *l = new pc::latch(n);
    bool self = choose(2);
    pc::latch *target = l;
    Mark begun[3];
    Mark *b = begun;
    int parties = self ? n - 1 : n;
    struct Shared { Side *s[3]; } sh{{sides[0], sides[1], sides[2]}};
    auto shp = std::make_shared<Shared>(sh);
    auto marks = std::make_shared<std::array<Mark, 3>>();
    (void)b;
    for (int i = 0; i < parties; ++i)
      th.start([target, i, shp, marks] { bool w = choose(2); shp->s[i]->x = 1; (*marks)[i].here(); if (w) target->count_down_and_wait(); else target->count_down(); });
    if (self) l->count_down_and_wait(); else l->wait();
    for (int i = 0; i < parties; ++i) {
      if (!(*marks)[i].set()) sim::violation("early-release", "wait() returned before the counter reached zero");
      if (sides[i]->x != 1) sim::violation("not-published", "effects before count_down are not visible after wait()");
    }
    delete l; // allowed: this waiter has returned
  }
  th.join_all();
  for (auto *s : sides) delete s;
}

// two waiters inside wait() when the owner, released first, destroys the latch: the destructor waits for them
SCENARIO(latch_destroy_waits, "C15") {
  auto l = std::make_unique<pc::latch>(1 + (ptrdiff_t)choose(2));
  pc::latch *p = l.get();
  Side *side = new Side;
  Mark inside[2];
  sim::Threads th;
  int id[2];
  for (int i = 0; i < 2; ++i)
    id[i] = th.start([&, i, p] {
      inside[i].here(); // no scheduling point between this and the call
      p->wait();
      if (side->x != 1) sim::violation("not-published", "effects before count_down are not visible after wait()");
    });
  bool both = false;
  for (int n = 0; n < 3000 && !both; ++n) { sim::yield(); both = true; for (int i = 0; i < 2; ++i) both = both && inside[i].set() && sim::blocked(id[i]); }
  side->x = 1;
  while (!p->is_ready()) p->count_down();
  if (both) { sim::probe("latch destroyed with waiters inside"); l.reset(); }
  th.join_all();
  delete side;
}

// counters that do not fit in a small integer
SCENARIO(latch_large, "C15") {
  static const ptrdiff_t n[] = {127, 128, 255, 256, 32767, 32768, 65535, 65536, 2147483647ll, 2147483648ll, 4294967295ll, 4294967296ll, 4294967297ll, 9223372036854775807ll};
  ptrdiff_t total = n[choose(14)], first;
  switch (choose(3)) { case 0: first = total - 1; break; case 1: first = total / 2; break; default: first = 1; }
  pc::latch l(total);
  Side *s = new Side;
  Mark last;
  sim::Threads th;
  for (unsigned k = 1 + choose(2); k > 0; --k)
    th.start([&] { l.wait(); if (!last.set()) sim::violation("early-release", "wait() returned before the counter reached zero"); if (s->x != 3) sim::violation("not-published", "effects are not visible"); });
  if (l.is_ready()) sim::violation("early-release", "is_ready() before zero");
  l.count_down(first);
  if (l.is_ready()) sim::violation("early-release", "is_ready() before zero");
  if (choose(2) && total - first > 1) { l.count_down(total - first - 1); if (l.is_ready()) sim::violation("early-release", "is_ready() before zero"); first = total - 1; }
  s->x = 3;
  last.here();
  if (total - first == 1 && choose(2)) l.count_down_and_wait(); else l.count_down(total - first);
  if (!l.is_ready()) sim::violation("not-ready", "is_ready() is false at zero");
  th.join_all();
  delete s;
}

// counters other than one, zero from the start, bulk count down
SCENARIO(latch_zero, "C15") {
  pc::latch z(0);
  if (!z.is_ready()) sim::violation("not-ready", "a latch constructed with zero is not ready");
  sim::Threads th;
  th.start([&] { z.wait(); });
  z.wait();
  pc::latch l((ptrdiff_t)5);
  Side *s = new Side;
  Mark done;
  th.start([&] { l.wait(); if (!done.set()) sim::violation("early-release", "wait() returned before the counter reached zero"); if (s->x != 3) sim::violation("not-published", "effects are not visible"); });
  l.count_down(2);
  if (l.is_ready()) sim::violation("early-release", "is_ready() before zero");
  l.count_down(0);
  if (l.is_ready()) sim::violation("early-release", "is_ready() before zero");
  s->x = 3;
  done.here();
  l.count_down(3);
  if (!l.is_ready()) sim::violation("not-ready", "is_ready() is false at zero");
  l.count_down(0); // no effect
  th.join_all();
  delete s;
}
