// vp: profile=sched mods=thread extra=detsched.cpp wrap=@wraps.txt
// Read/write locks and their scoped form under generated programs and schedules.
#include "threads.hpp"
#include <icl_core/TimeSpan.h>
#include <icl_core/TimeStamp.h>
#include <icl_core_thread/RWLock.h>
#include <icl_core_thread/ScopedRWLock.h>
#include <cstring>
#include <memory>
using namespace vp;
using icl_core::TimeSpan;
using icl_core::TimeStamp;

namespace {

const int NL = 2;

struct World
{
  std::unique_ptr<icl_core::thread::RWLock> l[NL];
  int writer[NL] = {-1, -1};
  std::map<int, int> readers[NL];
  Usage any[NL], writing[NL]; //!< who uses the lock at all, and who for writing
  int blocked = 0, timeouts = 0, refused = 0, shared = 0, acquired = 0;
};

//! An attempt in its two roles.
struct Try
{
  Usage &any, &writing;
  int t;
  bool write;
  Attempt a;
  bool w_before;
  int64_t w_events;
  Try(Usage &any, Usage &writing, int t, bool write) : any(any), writing(writing), t(t), write(write), a(any, t)
  {
    w_before = writing.others(t);
    if (write)
      writing.enter(t);
    w_events = writing.events;
  }
  //! Nobody was there that this attempt has to wait for.
  bool undisturbed() const { return write ? a.undisturbed() : !w_before && writing.events == w_events; }
  bool freeAt(int64_t when) const
  {
    const Usage &u = write ? any : writing;
    return !u.others(t) && u.last_end < when - 1000;
  }
  void refused()
  {
    any.leave(t);
    if (write)
      writing.leave(t);
  }
};

struct Prog
{
  World &w;
  int t;
  std::vector<const Op *> ops;
  size_t pc = 0;

  bool holds(int l) const { return w.writer[l] == t || w.readers[l].count(t); }
  void got(int l, bool write)
  {
    DS_CHECK(w.writer[l] == -1, "thread " << t << " locked rwlock " << l << " for " << (write ? "writing" : "reading") << " while thread " << w.writer[l] << " writes");
    if (write)
    {
      DS_CHECK(w.readers[l].empty(), "thread " << t << " locked rwlock " << l << " for writing while thread " << w.readers[l].begin()->first << " reads");
      w.writer[l] = t;
    }
    else
    {
      if (!w.readers[l].empty())
        w.shared++;
      w.readers[l][t]++;
    }
    w.acquired++;
  }
  bool release(int l)
  {
    bool write = w.writer[l] == t;
    if (write)
      w.writer[l] = -1;
    else if (--w.readers[l][t] == 0)
      w.readers[l].erase(t);
    return write;
  }
  void done(int l, bool write)
  {
    w.any[l].leave(t);
    if (write)
      w.writing[l].leave(t);
  }
  void unlock(int l)
  {
    bool write = release(l);
    w.l[l]->unlock();
    done(l, write);
  }
  //! Blocking calls: in lock order and never by a thread that already holds the lock.
  bool mayBlock(int l) const
  {
    for (int i = l; i < NL; ++i)
      if (holds(i))
        return false;
    return true;
  }
  void block(size_t end)
  {
    while (pc < ops.size() && pc < end)
    {
      const Op &o = *ops[pc++];
      int l = (int)(N(o, 1) % NL);
      bool write = N(o, 4) & 1;
      switch (o.k)
      {
      case 1:
        if (mayBlock(l))
        {
          Try a(w.any[l], w.writing[l], t, write);
          DS_CHECK(write ? w.l[l]->writeLock() : w.l[l]->readLock(), "locking for " << (write ? "writing" : "reading") << " without timeout failed");
          got(l, write);
        }
        break;
      case 2:
      {
        bool mine = holds(l);
        Try a(w.any[l], w.writing[l], t, write);
        int64_t before = ds::now() - ds::starved();
        bool r = write ? w.l[l]->tryWriteLock() : w.l[l]->tryReadLock();
        if (r)
          got(l, write);
        else
        {
          w.refused++;
          DS_CHECK(mine || !a.undisturbed(), (write ? "tryWriteLock" : "tryReadLock") << " failed although nothing was in its way");
          a.refused();
        }
        DS_CHECK(ds::now() - ds::starved() - before < Attempt::slack, (write ? "tryWriteLock" : "tryReadLock") << " waited");
        break;
      }
      case 3:
      {
        bool mine = holds(l);
        Try a(w.any[l], w.writing[l], t, write);
        TimeSpan d = TimeSpan(N(o, 2) / 1000000000, N(o, 2) % 1000000000);
        int64_t end = ds::now() + N(o, 2), delay = ds::starved();
        bool r;
        if (N(o, 3) & 1)
          r = write ? w.l[l]->writeLock(d) : w.l[l]->readLock(d);
        else
        {
          TimeStamp until = TimeStamp::now() + d;
          r = write ? w.l[l]->writeLock(until) : w.l[l]->readLock(until);
        }
        int64_t now = ds::now(), late = now - end - (ds::starved() - delay);
        DS_CHECK(late <= Attempt::slack || (r && !mine && a.undisturbed()), "locking with a timeout of " << N(o, 2) << " ns returned " << late << " ns late");
        if (r)
          got(l, write);
        else
        {
          w.timeouts++;
          if (mine)
          {
            // it may be refused at once because of the deadlock
            a.refused();
            break;
          }
          DS_CHECK(now >= end - 1000, "locking with a timeout of " << N(o, 2) << " ns gave up " << end - now << " ns early");
          DS_CHECK(!a.undisturbed(), "locking for " << (write ? "writing" : "reading") << " with a timeout failed although nothing was in its way");
          a.refused();
          DS_CHECK(!a.freeAt(end), "the rwlock was free when the timeout came");
        }
        break;
      }
      case 4:
        if (mayBlock(l))
        {
          size_t inner = pc + (size_t)(N(o, 2) % 5);
          {
            Try a(w.any[l], w.writing[l], t, write);
            icl_core::thread::ScopedRWLock lock(*w.l[l], write ? icl_core::thread::ScopedRWLock::eLM_WRITE_LOCK : icl_core::thread::ScopedRWLock::eLM_READ_LOCK, N(o, 3) & 1);
            DS_CHECK(lock.isLocked() && lock, "scoped lock without the lock");
            got(l, write);
            scope[l] = write ? 0 : w.readers[l][t];
            if (write)
              scope_write[l] = true;
            block(inner);
            while (!write && w.readers[l].count(t) && w.readers[l][t] > scope[l])
              unlock(l);
            scope[l] = 0;
            scope_write[l] = false;
            release(l);
          }
          done(l, write);
        }
        break;
      case 5:
        if (holds(l) && !scope_write[l] && (w.writer[l] == t || w.readers[l][t] > scope[l]))
          unlock(l);
        break;
      case 6:
        if (N(o, 3) & 1)
          ds::sleepNs(N(o, 2));
        else
          for (int64_t i = 0; i < N(o, 2) % 8; ++i)
            ds::point();
        break;
      }
    }
  }
  int scope[NL] = {0, 0};
  bool scope_write[NL] = {false, false};
};

void run(const Case &c, Ctx &x)
{
  World w;
  int threads = 2;
  for (const Op &o : c.ops)
    if (o.k == OP_HEAD)
      threads = (int)(1 + (N(o, 0) & 3));
  std::vector<Prog> p;
  for (int t = 0; t < threads; ++t)
    p.push_back(Prog{w, t, {}});
  for (const Op &o : c.ops)
    if (o.k >= 1 && o.k <= 6)
      p[(size_t)(N(o, 0) % threads)].ops.push_back(&o);
  ds::on_block = [&w](int, const char *what) { w.blocked += strncmp(what, "pthread_rwlock", 14) == 0; };
  ds::run(scheduleOf(c), [&] {
    for (auto &l : w.l)
      l.reset(new icl_core::thread::RWLock);
    std::vector<int> ids;
    for (auto &q : p)
    {
      Prog *pq = &q;
      ids.push_back(ds::spawn([pq] {
        pq->block(pq->ops.size());
        for (int l = NL - 1; l >= 0; --l)
          while (pq->holds(l))
            pq->unlock(l);
      }));
    }
    for (int i : ids)
      ds::join(i);
    for (auto &l : w.l)
    {
      DS_CHECK(l->tryWriteLock(), "a rwlock is locked after the last thread unlocked it");
      DS_CHECK(!l->tryReadLock() && !l->tryWriteLock(), "a rwlock locked for writing can be locked once more");
      l->unlock();
      DS_CHECK(l->tryReadLock() && l->tryReadLock(), "a free rwlock cannot be locked for reading twice");
      DS_CHECK(!l->tryWriteLock(), "a rwlock locked for reading can be locked for writing");
      l->unlock();
      DS_CHECK(!l->tryWriteLock(), "a rwlock locked for reading twice is free after one unlock");
      l->unlock();
      DS_CHECK(l->tryWriteLock(), "a rwlock is not free after its readers are gone");
      l->unlock();
      l.reset();
    }
  });
  x.nontrivial(w.acquired >= 2 && (w.blocked || w.refused || w.timeouts || w.shared) && ds::stats().preemptions > 0);
  if (w.blocked)
    x.label("waited");
  if (w.timeouts)
    x.label("timeout");
  if (w.refused)
    x.label("try refused");
  if (w.shared)
    x.label("readers side by side");
}

Op gen()
{
  int w = (int)pick(0, 99);
  int64_t t = pick(0, 3);
  int64_t l = oneOf<int64_t>({0, 0, 0, 1});
  int64_t write = coin(45);
  int64_t ns = oneOf<int64_t>({0, 100, 1000, 20000, 1000000, 1500000000, 3000000000LL, pick(0, 5000), pick(0, 4000000000LL)});
  if (w < 20)
    return mk(1, {t, l, 0, 0, write});
  if (w < 35)
    return mk(2, {t, l, 0, 0, write});
  if (w < 50)
    return mk(3, {t, l, ns, pick(0, 1), write});
  if (w < 58)
    return mk(4, {t, l, pick(0, 4), pick(0, 1), write});
  if (w < 75)
    return mk(5, {t, l});
  if (w < 88)
    return mk(6, {t, 0, coin(50) ? pick(0, 7) : ns, coin(50)});
  return decisionOp();
}

} // namespace

int main(int argc, char **argv)
{
  Sub s{"rwlocks", headCase(opGen([] { return headOp(oneOf<int64_t>({0, 1, 1, 1, 2, 2, 3})); }), opGen(gen)), run, 40000, 400000};
  s.fork = true;
  s.timeout = 60;
  s.max_size = 60;
  return checkMain(argc, argv, "C20",
                   "programs of one to four threads on two read/write locks (both modes: blocking, try, absolute and relative timeouts, scopes, nested reading, work, "
                   "sleep) under generated schedules that switch threads between any two basic blocks of the library or primitives and let timers fire early. "
                   "Non-trivial: at least two acquisitions, a preemption, and a wait, refusal, timeout or shared reading",
                   {s}, "exploration",
                   {"POSIX primitives and clocks are models on virtual time; memory is sequentially consistent",
                    "blocking calls without a timeout are made in lock order and not by a thread that already holds the lock, so that waiting always ends"});
}
