// vp: profile=sched mods=thread extra=detsched.cpp wrap=@wraps.txt
// Semaphores under generated programs and schedules.
#include "threads.hpp"
#include <icl_core/TimeSpan.h>
#include <icl_core/TimeStamp.h>
#include <icl_core_thread/Sem.h>
#include <cstring>
#include <memory>
using namespace vp;
using icl_core::TimeSpan;
using icl_core::TimeStamp;

namespace {

const int NS = 2;

struct World
{
  std::unique_ptr<icl_core::thread::Semaphore> s[NS];
  int64_t initial[NS] = {0, 0};
  int64_t begun[NS] = {0, 0}, posted[NS] = {0, 0}, taken[NS] = {0, 0};
  int waiting[NS] = {0, 0}; //!< threads in wait() without timeout
  Usage use[NS];
  int blocked = 0, timeouts = 0, refused = 0, stuck = 0, passed = 0;
  int64_t value(int i) const { return initial[i] + posted[i] - taken[i]; }
};

void took(World &w, int i)
{
  w.taken[i]++;
  w.passed++;
  DS_CHECK(w.taken[i] <= w.initial[i] + w.begun[i], "a semaphore of " << w.initial[i] << " let " << w.taken[i] << " waits through after " << w.begun[i] << " posts");
}

void program(World &w, int t, const std::vector<const Op *> &ops)
{
  for (const Op *po : ops)
  {
    const Op &o = *po;
    int i = (int)(N(o, 1) % NS);
    switch (o.k)
    {
    case 1: // wait
    {
      Attempt a(w.use[i], t);
      w.waiting[i]++;
      DS_CHECK(w.s[i]->wait(), "wait without timeout failed");
      w.waiting[i]--;
      took(w, i);
      w.use[i].leave(t);
      break;
    }
    case 2: // try
    {
      Attempt a(w.use[i], t);
      int64_t v = w.value(i);
      int64_t before = ds::now() - ds::starved();
      bool r = w.s[i]->tryWait();
      DS_CHECK(ds::now() - ds::starved() - before < Attempt::slack, "tryWait waited");
      if (a.undisturbed())
        DS_CHECK(r == (v > 0), "tryWait returned " << r << " at the value " << v);
      if (r)
        took(w, i);
      else
        w.refused++;
      w.use[i].leave(t);
      break;
    }
    case 3: // wait for, wait until
    {
      Attempt a(w.use[i], t);
      int64_t v = w.value(i);
      TimeSpan d = TimeSpan(N(o, 2) / 1000000000, N(o, 2) % 1000000000);
      int64_t end = ds::now() + N(o, 2), delay = ds::starved();
      bool r = N(o, 3) & 1 ? w.s[i]->wait(d) : w.s[i]->wait(TimeStamp::now() + d);
      int64_t now = ds::now(), late = now - end - (ds::starved() - delay);
      bool alone = a.undisturbed();
      if (alone)
        DS_CHECK(r == (v > 0), "wait with a timeout returned " << r << " at the value " << v);
      DS_CHECK(late <= Attempt::slack || (r && alone), "wait with a timeout of " << N(o, 2) << " ns returned " << late << " ns late");
      if (r)
        took(w, i);
      else
      {
        w.timeouts++;
        DS_CHECK(now >= end - 1000, "wait with a timeout of " << N(o, 2) << " ns gave up " << end - now << " ns early");
        w.use[i].leave(t);
        DS_CHECK(w.use[i].others(t) || w.use[i].last_end >= end - 1000 || w.value(i) <= 0, "the semaphore had the value " << w.value(i) << " when the timeout came");
        break;
      }
      w.use[i].leave(t);
      break;
    }
    case 4: // post
      for (int64_t k = 0; k <= N(o, 2) % 3; ++k)
      {
        w.use[i].enter(t);
        w.begun[i]++;
        w.s[i]->post();
        w.posted[i]++;
        w.use[i].leave(t);
      }
      break;
    case 6:
      if (N(o, 3) & 1)
        ds::sleepNs(N(o, 2));
      else
        for (int64_t k = 0; k < N(o, 2) % 8; ++k)
          ds::point();
      break;
    }
  }
}

void run(const Case &c, Ctx &x)
{
  World w;
  int threads = 2;
  for (const Op &o : c.ops)
    if (o.k == OP_HEAD)
    {
      threads = (int)(1 + (N(o, 0) & 3));
      for (int i = 0; i < NS; ++i)
        w.initial[i] = std::max<int64_t>(0, N(o, 6 + i)) % 2000;
    }
  std::vector<std::vector<const Op *>> p((size_t)threads);
  for (const Op &o : c.ops)
    if (o.k >= 1 && o.k <= 6)
      p[(size_t)(N(o, 0) % threads)].push_back(&o);
  ds::on_block = [&w](int, const char *what) { w.blocked += strncmp(what, "sem_", 4) == 0; };
  ds::run(scheduleOf(c), [&] {
    for (int i = 0; i < NS; ++i)
      w.s[i].reset(new icl_core::thread::Semaphore((size_t)w.initial[i]));
    std::vector<int> ids;
    for (int t = 0; t < threads; ++t)
      ids.push_back(ds::spawn([&w, &p, t] { program(w, t, p[(size_t)t]); }));
    for (;;)
    {
      ds::awaitStuck();
      bool any = false;
      for (int i = 0; i < NS && !any; ++i)
        if (w.waiting[i] > 0)
        {
          w.stuck++;
          DS_CHECK(w.value(i) <= 0, w.waiting[i] << " threads wait for ever for a semaphore of the value " << w.value(i));
          w.use[i].enter(99);
          w.begun[i]++;
          w.s[i]->post();
          w.posted[i]++;
          w.use[i].leave(99);
          any = true;
        }
      if (!any)
        break;
    }
    for (int i : ids)
      ds::join(i);
    for (int i = 0; i < NS; ++i)
    {
      int64_t v = w.value(i), n = 0;
      DS_CHECK(v >= 0, "the value is " << v);
      while (n < v + 1 && w.s[i]->tryWait())
        ++n;
      DS_CHECK(n == v, "the semaphore has the value " << n << " in the end, should be " << v);
      w.s[i].reset();
    }
  });
  x.nontrivial(w.passed >= 1 && (w.blocked || w.refused || w.timeouts) && ds::stats().preemptions > 0);
  if (w.blocked)
    x.label("waited");
  if (w.timeouts)
    x.label("timeout");
  if (w.refused)
    x.label("try refused");
  if (w.stuck)
    x.label("stuck until the last posts");
}

Op gen()
{
  int w = (int)pick(0, 99);
  int64_t t = pick(0, 3);
  int64_t i = oneOf<int64_t>({0, 0, 0, 1});
  int64_t ns = oneOf<int64_t>({0, 100, 1000, 20000, 1000000, 1500000000, 3000000000LL, pick(0, 5000), pick(0, 4000000000LL)});
  if (w < 22)
    return mk(1, {t, i});
  if (w < 35)
    return mk(2, {t, i});
  if (w < 52)
    return mk(3, {t, i, ns, pick(0, 1)});
  if (w < 75)
    return mk(4, {t, i, oneOf<int64_t>({0, 0, 1, 2})});
  if (w < 88)
    return mk(6, {t, 0, coin(50) ? pick(0, 7) : ns, coin(50)});
  return decisionOp();
}

} // namespace

int main(int argc, char **argv)
{
  Sub s{"semaphores", headCase(opGen([] {
          return headOp(oneOf<int64_t>({0, 1, 1, 1, 2, 2, 3}), {oneOf<int64_t>({0, 0, 1, 2, 3, 7, 1000}), oneOf<int64_t>({0, 1, 2})});
        }), opGen(gen)), run, 40000, 400000};
  s.fork = true;
  s.timeout = 60;
  s.max_size = 60;
  return checkMain(argc, argv, "C21",
                   "programs of one to four threads on two semaphores with initial values up to 1000 (wait, try, absolute and relative timeouts, posts, work, sleep) under "
                   "generated schedules that switch threads between any two basic blocks of the library or primitives and let timers fire early. "
                   "Non-trivial: a wait passed, a preemption, and a thread waited, was refused or ran into a timeout",
                   {s}, "exploration", {"POSIX primitives and clocks are models on virtual time; memory is sequentially consistent"});
}
