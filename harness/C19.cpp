// vp: profile=sched mods=thread extra=detsched.cpp wrap=@wraps.txt flags=-fsanitize-coverage=trace-pc
// Mutexes, spin locks and their scoped forms under generated programs and schedules.
#include "threads.hpp"
#include <icl_core/TimeSpan.h>
#include <icl_core/TimeStamp.h>
#include <icl_core_thread/Mutex.h>
#include <icl_core_thread/ScopedMutexLock.h>
#include <icl_core_thread/ScopedSpinLock.h>
#include <icl_core_thread/SpinLock.h>
#include <cstring>
#include <memory>
using namespace vp;
using icl_core::TimeSpan;
using icl_core::TimeStamp;

namespace {

#define LIB(...) ([&] { ds::InLib in_lib; return __VA_ARGS__; }())

const int NM = 2, NL = 3; // two mutexes and a spin lock

struct World
{
  std::unique_ptr<icl_core::thread::Mutex> m[NM];
  std::unique_ptr<icl_core::thread::SpinLock> s;
  int owner[NL] = {-1, -1, -1}, depth[NL] = {0, 0, 0};
  Usage use[NL];
  int blocked = 0, timeouts = 0, refused = 0, nested = 0, acquired = 0;
};

struct Prog
{
  World &w;
  int t;
  std::vector<const Op *> ops;
  size_t pc = 0;

  void got(int l)
  {
    DS_CHECK(w.owner[l] == -1 || w.owner[l] == t, "thread " << t << " locked " << (l < NM ? "mutex " : "spin lock ") << l << " while thread " << w.owner[l] << " holds it");
    w.owner[l] = t;
    if (w.depth[l]++)
      w.nested++;
    w.acquired++;
  }
  void release(int l)
  {
    if (--w.depth[l] == 0)
      w.owner[l] = -1;
  }
  bool mine(int l) const { return w.owner[l] == t; }
  bool mayBlock(int l) const
  {
    if (mine(l))
      return l < NM;
    for (int i = l + 1; i < NL; ++i)
      if (mine(i))
        return false;
    return true;
  }
  void unlock(int l)
  {
    release(l);
    if (l < NM)
      LIB(w.m[l]->unlock());
    else
      LIB(w.s->unlock());
    w.use[l].leave(t);
  }
  void pass(const Op &o)
  {
    if (N(o, 3) & 1)
      ds::sleepNs(N(o, 2));
    else
      for (int64_t i = 0; i < N(o, 2) % 8; ++i)
        ds::point();
  }
  void block(size_t end)
  {
    while (pc < ops.size() && pc < end)
    {
      const Op &o = *ops[pc++];
      int l = (int)(N(o, 1) % NL);
      switch (o.k)
      {
      case 1: // lock
        if (mayBlock(l))
        {
          Attempt a(w.use[l], t);
          bool r = l < NM ? LIB(w.m[l]->lock()) : LIB(w.s->lock());
          DS_CHECK(r, "lock of " << l << " without timeout failed");
          got(l);
        }
        break;
      case 2: // try
      {
        Attempt a(w.use[l], t);
        bool was_mine = mine(l);
        int64_t before = ds::now() - ds::starved();
        bool r = l < NM ? LIB(w.m[l]->tryLock()) : LIB(w.s->tryLock());
        if (r)
        {
          DS_CHECK(l < NM || !was_mine, "the spin lock was locked twice by one thread");
          got(l);
        }
        else
        {
          w.refused++;
          DS_CHECK(!(l < NM && was_mine), "tryLock of a mutex failed in the thread that holds it");
          DS_CHECK(was_mine || !a.undisturbed(), "tryLock of the free " << (l < NM ? "mutex " : "spin lock ") << l << " failed");
          w.use[l].leave(t);
        }
        DS_CHECK(ds::now() - ds::starved() - before < Attempt::slack, "tryLock waited for " << ds::now() - ds::starved() - before << " ns");
        break;
      }
      case 3: // lock until / for
        if (l < NM)
        {
          Attempt a(w.use[l], t);
          bool was_mine = mine(l);
          TimeSpan d = TimeSpan(N(o, 2) / 1000000000, N(o, 2) % 1000000000);
          int64_t end = ds::now() + N(o, 2), delay = ds::starved();
          bool r = N(o, 3) & 1 ? LIB(w.m[l]->lock(d)) : LIB(w.m[l]->lock(TimeStamp::now() + d));
          int64_t now = ds::now(), late = now - end - (ds::starved() - delay);
          if (r)
          {
            got(l);
            DS_CHECK(late <= Attempt::slack || a.undisturbed() || N(o, 2) < 0, "mutex locked " << late << " ns after the timeout of " << N(o, 2));
          }
          else
          {
            w.timeouts++;
            DS_CHECK(now >= end - 1000, "locking with a timeout of " << N(o, 2) << " ns gave up " << end - now << " ns early");
            DS_CHECK(!a.undisturbed() && !was_mine, "locking the free mutex " << l << " with a timeout failed");
            DS_CHECK(late <= Attempt::slack || N(o, 2) < 0, "locking with a timeout of " << N(o, 2) << " ns failed " << late << " ns late");
            w.use[l].leave(t);
            DS_CHECK(w.use[l].others(t) || w.use[l].last_end >= end - 1000, "the mutex was free when the timeout came");
          }
        }
        break;
      case 4: // scoped
        if (mayBlock(l))
        {
          size_t inner = pc + (size_t)(N(o, 2) % 5);
          {
            w.use[l].enter(t);
            int outer = scopes[l];
            if (l < NM)
            {
              icl_core::thread::ScopedMutexLock lock(*w.m[l], N(o, 3) & 1);
              DS_CHECK(lock.isLocked() && lock, "scoped lock without the lock");
              got(l);
              int d = w.depth[l];
              scopes[l] = d;
              block(inner);
              while (w.depth[l] > d)
                unlock(l);
              release(l);
            }
            else
            {
              std::unique_ptr<icl_core::thread::ScopedSpinLock> held(LIB(new icl_core::thread::ScopedSpinLock(*w.s)));
              icl_core::thread::ScopedSpinLock &lock = *held;
              DS_CHECK(lock.isLocked() && lock, "scoped lock without the lock");
              got(l);
              scopes[l] = 1;
              block(inner);
              release(l);
              LIB(held.reset());
            }
            scopes[l] = outer;
            // the destructor unlocks
          }
          w.use[l].leave(t);
        }
        break;
      case 5:
        if (mine(l) && !scoped(l))
          unlock(l);
        break;
      case 6:
        pass(o);
        break;
      }
    }
  }
  //! Is the innermost hold of this lock one of a scope? The scopes unlock what was locked inside on their own.
  bool scoped(int l) const { return scopes[l] >= w.depth[l]; }
  int scopes[NL] = {0, 0, 0};
};

void run(const Case &c, Ctx &x)
{
  World w;
  ds::blocks_only_in_lib = true;
  int threads = 2;
  for (const Op &o : c.ops)
    if (o.k == OP_HEAD)
      threads = (int)(1 + (N(o, 0) & 3));
  std::vector<Prog> p;
  p.reserve(4);
  for (int t = 0; t < threads; ++t)
    p.push_back(Prog{w, t, {}});
  for (const Op &o : c.ops)
    if (o.k >= 1 && o.k <= 6)
      p[(size_t)(N(o, 0) % threads)].ops.push_back(&o);
  ds::on_block = [&w](int, const char *what) { w.blocked += strcmp(what, "pthread_mutex_lock") == 0; };
  ds::run(scheduleOf(c), [&] {
    for (auto &m : w.m)
      m.reset(new icl_core::thread::Mutex);
    w.s.reset(new icl_core::thread::SpinLock);
    std::vector<int> ids;
    for (auto &q : p)
    {
      Prog *pq = &q;
      ids.push_back(ds::spawn([pq, &w] {
        pq->block(pq->ops.size());
        for (int l = NL - 1; l >= 0; --l)
          while (w.owner[l] == pq->t)
            pq->unlock(l);
      }));
    }
    for (int i : ids)
      ds::join(i);
    // afterwards all of them are free
    for (auto &m : w.m)
    {
      DS_CHECK(m->tryLock(), "a mutex is locked after the last thread unlocked it");
      m->unlock();
      m.reset();
    }
    DS_CHECK(LIB(w.s->tryLock()), "the spin lock is locked after the last thread unlocked it");
    DS_CHECK(!LIB(w.s->tryLock()), "the spin lock can be locked twice");
    LIB(w.s->unlock());
    DS_CHECK(LIB(w.s->lock()), "spin lock");
    LIB(w.s->unlock());
  });
  x.nontrivial(w.acquired >= 2 && (w.blocked || w.refused || w.timeouts) && ds::stats().preemptions > 0);
  if (w.blocked)
    x.label("waited for a mutex");
  if (w.timeouts)
    x.label("timeout");
  if (w.refused)
    x.label("try refused");
  if (w.nested)
    x.label("locked recursively");
}

Op gen()
{
  int w = (int)pick(0, 99);
  int64_t t = pick(0, 3);
  int64_t l = oneOf<int64_t>({0, 0, 0, 1, 2, 2});
  int64_t ns = oneOf<int64_t>({0, 100, 1000, 20000, 1000000, 1500000000, 3000000000LL, pick(0, 5000), pick(0, 4000000000LL)});
  if (w < 20)
    return mk(1, {t, l});
  if (w < 35)
    return mk(2, {t, l});
  if (w < 50)
    return mk(3, {t, l, ns, pick(0, 1)});
  if (w < 58)
    return mk(4, {t, l, pick(0, 4), pick(0, 1)});
  if (w < 75)
    return mk(5, {t, l});
  if (w < 88)
    return mk(6, {t, 0, coin(50) ? pick(0, 7) : ns, coin(50)});
  return decisionOp();
}

} // namespace

int main(int argc, char **argv)
{
  Sub s{"locks", headCase(opGen([] { return headOp(oneOf<int64_t>({0, 1, 1, 1, 2, 2, 3})); }), opGen(gen)), run, 40000, 400000};
  s.fork = true;
  s.timeout = 60;
  s.max_size = 60;
  return checkMain(argc, argv, "C19",
                   "programs of one to four threads on two mutexes and a spin lock (lock, try, absolute and relative timeouts, scopes, recursion, work, sleep) under "
                   "generated schedules that switch threads between any two basic blocks or primitives and let timers fire early. Non-trivial: at least two "
                   "acquisitions, a wait, refusal or timeout, and a preemption",
                   {s}, "exploration",
                   {"POSIX primitives and clocks are models on virtual time; memory is sequentially consistent", "blocking calls are made in lock order, so that waiting always ends"});
}
