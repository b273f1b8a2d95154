// vp: profile=schedasan mods=thread extra=detsched.cpp wrap=@wraps.txt
// The life of threads: start, run, stop, wait, join, cancel, start again, destruction.
#include "threads.hpp"
#include <icl_core/TimeSpan.h>
#include <icl_core/TimeStamp.h>
#include <icl_core_thread/Thread.h>
#include <cstring>
#include <memory>
#include <set>
using namespace vp;
using icl_core::TimeSpan;
using icl_core::TimeStamp;

namespace {

const int NO = 2;

struct Obj;
struct T : public icl_core::thread::Thread
{
  Obj *o;
  T(Obj *o, const std::string &name) : Thread(name), o(o) {}
  virtual void run();
};

struct Obj
{
  std::unique_ptr<T> t;
  int begun = 0, ended = 0, created = 0;
  int tid = -1;             //!< of the last thread made
  std::set<int> tids;       //!< of all of them
  bool in_run = false;
  bool stop_begun = false, cancelled = false;
  int stopped_tid = -1;     //!< stop() returned for this thread
  bool stopped() const { return tid >= 0 && stopped_tid == tid; }
  bool in_start = false;
  bool endless = false;
  int observers = 0;        //!< calls of other threads that are under way
  int64_t plan = 0, plan_n = 0, plan_ns = 0;
  std::string name;
  bool over() const { return tid < 0 || ds::finishedAt(tid) >= 0; }
};

struct World
{
  Obj o[NO];
  int runs = 0, cancels = 0, waited = 0, timeouts = 0, restarts = 0, failed = 0, destroyed_running = 0, joined = 0;
};
World *world;

void T::run()
{
  Obj &b = *o; // not a member of this object: it may be destroyed while this goes on
  DS_CHECK(!b.in_run, "run() is entered a second time before it returned");
  b.in_run = true;
  b.begun++;
  world->runs++;
  struct End
  {
    Obj &b;
    ~End()
    {
      b.in_run = false;
      b.ended++;
    }
  } end{b};
  DS_CHECK(threadSelf() && threadId() == selfId(), "the thread does not know itself");
  DS_CHECK(running() || b.cancelled, "running() is false within run()");
  auto going = [&] {
    bool stopped = b.stopped_tid == ds::self(), undisturbed = !b.stop_begun && !b.cancelled;
    bool e = execute();
    DS_CHECK(!(stopped && e), "execute() is true after stop()");
    DS_CHECK(!(undisturbed && !e && !b.stop_begun && !b.cancelled), "execute() is false but nobody stopped the thread");
    return e;
  };
  going();
  switch (b.plan % 7)
  {
  case 0:
    break;
  case 1:
    for (int64_t i = 0; i < b.plan_n % 20; ++i)
      ds::point();
    break;
  case 2:
  {
    struct timespec ts = {(time_t)(b.plan_ns / 1000000000), (long)(b.plan_ns % 1000000000)};
    nanosleep(&ts, nullptr);
    break;
  }
  case 3:
    while (going())
    {
      struct timespec ts = {0, (long)(1000 + b.plan_ns % 1000000000)};
      nanosleep(&ts, nullptr);
    }
    break;
  case 4:
    while (going())
      ds::point();
    break;
  case 5:
    b.stop_begun = true;
    stop();
    b.stopped_tid = ds::self();
    break;
  case 6:
    ds::await([&b] { return b.stop_begun || b.cancelled; }, -1, "wait for stop");
    break;
  }
  going();
}
bool endless(int64_t plan) { return plan % 7 == 3 || plan % 7 == 4 || plan % 7 == 6; }

bool willEnd(const Obj &b) { return !b.endless || b.stopped() || b.cancelled; }

void checkOver(Obj &b, const char *after)
{
  DS_CHECK(!b.in_run && b.begun == b.ended, "run() still goes on after " << after);
  DS_CHECK(b.over(), "the thread is not finished after " << after);
  DS_CHECK(b.cancelled || b.begun == b.created, "run() was not executed, says " << after);
}

void doWait(Obj &b, const Op &o)
{
  T &t = *b.t;
  int tid = b.tid;
  switch (N(o, 4) % 4)
  {
  case 0:
    if (willEnd(b))
    {
      DS_CHECK(t.wait(), "wait() without timeout returned false");
      checkOver(b, "wait()");
      world->waited++;
    }
    break;
  case 1:
    if (willEnd(b))
    {
      t.join();
      checkOver(b, "join()");
      world->joined++;
    }
    break;
  default:
  {
    TimeSpan d = TimeSpan(N(o, 2) / 1000000000, N(o, 2) % 1000000000);
    int64_t end = ds::now() + N(o, 2), delay = ds::starved();
    bool r = N(o, 4) % 4 == 2 ? t.wait(d) : t.wait(TimeStamp::now() + d);
    int64_t now = ds::now(), late = now - end - (ds::starved() - delay);
    if (r)
    {
      checkOver(b, "wait() with a timeout");
      world->waited++;
    }
    else
    {
      world->timeouts++;
      DS_CHECK(now >= end - 1000, "wait() with a timeout of " << N(o, 2) << " ns gave up " << end - now << " ns early");
      DS_CHECK(late <= Attempt::slack, "wait() with a timeout of " << N(o, 2) << " ns gave up " << late << " ns late");
      DS_CHECK(tid >= 0 && !(ds::finishedAt(tid) >= 0 && ds::finishedAt(tid) < end - 1000), "wait() failed though the thread had finished " << end - ds::finishedAt(tid) << " ns before the timeout");
    }
  }
  }
}

void doStop(Obj &b)
{
  b.stop_begun = true;
  int c = b.created;
  bool was_starting = b.in_start;
  b.t->stop();
  if (c == b.created && !was_starting && !b.in_start)
    b.stopped_tid = b.tid;
}

void observe(World &w, const std::vector<const Op *> &ops)
{
  for (const Op *po : ops)
  {
    const Op &o = *po;
    Obj &b = w.o[N(o, 1) % NO];
    if (o.k == 6)
    {
      if (N(o, 4) & 1)
        ds::sleepNs(N(o, 2));
      else
        for (int64_t k = 0; k < N(o, 2) % 8; ++k)
          ds::point();
      continue;
    }
    if (!b.t || b.in_start)
      continue;
    b.observers++;
    switch (o.k)
    {
    case 2:
      doStop(b);
      break;
    case 3:
      doWait(b, o);
      break;
    case 4:
    {
      bool in = b.in_run, cancelled = b.cancelled, over = b.tid < 0;
      int begun = b.begun;
      bool r = b.t->running();
      DS_CHECK(r || !(in && b.in_run && begun == b.begun) || cancelled || b.cancelled, "running() is false within run()");
      DS_CHECK(!r || !over || b.tid >= 0, "running() is true before the first start");
      break;
    }
    case 7:
      DS_CHECK(!b.t->threadSelf(), "threadSelf() in another thread");
      break;
    }
    b.observers--;
  }
}

void destroy(World &w, Obj &b)
{
  // Until run() has been entered the object has to keep its class.
  if (b.cancelled && b.begun < b.created)
    b.t->join();
  else
    ds::await([&b] { return b.begun >= b.created; }, -1, "wait for run()");
  if (b.in_run)
    w.destroyed_running++;
  b.stop_begun = true;
  b.t.reset();
  checkOver(b, "destruction");
  int begun = b.begun;
  DS_CHECK(begun == b.begun && ds::finishedAt(b.tid < 0 ? 0 : b.tid) >= (b.tid < 0 ? -1 : 0), "the thread outlives its object");
}

void control(World &w, const Op &o)
{
  Obj &b = w.o[N(o, 1) % NO];
  switch (o.k)
  {
  case 1: // start
  {
    if (b.observers)
      break;
    b.in_start = true;
    struct Done
    {
      bool &b;
      ~Done() { b = false; }
    } done{b.in_start};
    if (!b.t)
    {
      b.name = "t" + std::to_string(N(o, 3));
      b.created = b.begun = b.ended = 0;
      b.tid = -1;
      b.t.reset(new T(&b, b.name));
      DS_CHECK(!b.t->running() && b.t->getDescription() == b.name, "a new thread object");
      DS_CHECK(b.t->wait() && !b.t->execute(), "wait() of a thread that was not started");
    }
    bool idle = b.over(), in = b.in_run;
    bool fail = idle && N(o, 5) % 11 == 0;
    if (idle)
    {
      if (b.created)
        w.restarts++;
      b.stop_begun = b.cancelled = b.endless = false;
      b.plan = N(o, 3) % 7;
      b.plan_n = N(o, 4);
      b.plan_ns = N(o, 2);
      b.endless = endless(b.plan);
    }
    else
    {
      // it may finish or not before start() looks
      b.stop_begun = true;
      if (!b.in_run || b.cancelled)
        break;
    }
    if (fail)
      ds::failCreate(1);
    // counted before the thread can begin
    b.created++;
    bool r = b.t->start();
    int tid = ds::idOf(b.t->threadId().m_thread_id);
    bool created = tid >= 0 && !b.tids.count(tid);
    ds::failCreate(0);
    if (!created)
      b.created--;
    else
    {
      b.tid = tid;
      b.tids.insert(tid);
    }
    if (fail)
    {
      w.failed++;
      DS_CHECK(!r && !b.t->running(), "start() succeeded without a thread");
      DS_CHECK(b.t->wait() && !b.t->execute(), "wait() after a failed start");
      if (b.tid >= 0)
        b.cancelled = true; // no run this time
      b.begun = b.ended = b.created;
      break;
    }
    if (idle)
      DS_CHECK(created && r, "start() did not start the thread");
    if (created)
    {
      DS_CHECK(r, "start() failed but there is a thread");
      if (!idle)
        b.endless = endless(b.plan);
    }
    else
    {
      DS_CHECK(r || !(in && b.in_run), "start() of a running thread returned false");
    }
    break;
  }
  case 2:
    if (b.t)
      doStop(b);
    break;
  case 3:
    if (b.t)
      doWait(b, o);
    break;
  case 4:
    if (b.t)
    {
      bool in = b.in_run;
      bool r = b.t->running();
      DS_CHECK(r || !(in && b.in_run) || b.cancelled, "running() is false within run()");
      DS_CHECK(!r || b.tid >= 0, "running() is true before the first start");
    }
    break;
  case 5: // cancel
    if (b.t && b.tid >= 0 && !b.observers)
    {
      b.cancelled = true;
      b.stop_begun = true;
      b.in_start = true;
      b.t->cancel();
      b.in_start = false;
      w.cancels++;
      DS_CHECK(!b.t->running(), "running() after cancel()");
      DS_CHECK(!b.t->execute() || b.over(), "execute() after cancel()");
      if (b.in_run && (b.plan % 7 == 1 || b.plan % 7 == 4))
        b.endless = false;
    }
    break;
  case 6:
    if (N(o, 4) & 1)
      ds::sleepNs(N(o, 2));
    else
      for (int64_t k = 0; k < N(o, 2) % 8; ++k)
        ds::point();
    break;
  case 8: // destroy
    if (b.t && !b.observers)
    {
      b.in_start = true;
      destroy(w, b);
      b.in_start = false;
    }
    break;
  }
}

void run(const Case &c, Ctx &x)
{
  World w;
  world = &w;
  int observers = 1;
  for (const Op &o : c.ops)
    if (o.k == OP_HEAD)
      observers = (int)(N(o, 0) & 3);
  std::vector<std::vector<const Op *>> p((size_t)observers + 1);
  for (const Op &o : c.ops)
    if (o.k >= 1 && o.k <= 8)
    {
      size_t who = (size_t)(N(o, 0) % (observers + 1));
      if (o.k == 1 || o.k == 5 || o.k == 8)
        who = 0;
      p[who].push_back(&o);
    }
  int waited = 0;
  ds::on_block = [&waited](int, const char *what) { waited += strcmp(what, "pthread_join") == 0 || strcmp(what, "pthread_mutex_lock") == 0; };
  ds::run(scheduleOf(c), [&] {
    std::vector<int> ids;
    for (int t = 1; t <= observers; ++t)
      ids.push_back(ds::spawn([&w, &p, t] { observe(w, p[(size_t)t]); }));
    for (const Op *o : p[0])
      control(w, *o);
    for (Obj &b : w.o)
      if (b.t)
        doStop(b);
    for (int i : ids)
      ds::join(i);
    for (Obj &b : w.o)
      if (b.t)
        destroy(w, b);
    for (Obj &b : w.o)
      for (int i : b.tids)
      {
        DS_CHECK(ds::finishedAt(i) >= 0, "a thread outlives its object");
        DS_CHECK(ds::wasJoined(i), "a thread was never joined");
      }
  });
  x.nontrivial(w.runs >= 1 && ds::stats().preemptions > 0 && (w.waited || w.joined || w.timeouts || w.cancels || w.destroyed_running || w.restarts));
  if (w.waited)
    x.label("waited for the end");
  if (w.timeouts)
    x.label("timeout");
  if (w.cancels)
    x.label("cancelled");
  if (w.restarts)
    x.label("started again");
  if (w.failed)
    x.label("start failed");
  if (w.destroyed_running)
    x.label("destroyed while running");
}

Op gen()
{
  int w = (int)pick(0, 99);
  int64_t t = pick(0, 3);
  int64_t i = oneOf<int64_t>({0, 0, 0, 1});
  // in microseconds: TimeStamp::now() knows no less
  int64_t ns = 1000 * oneOf<int64_t>({0, 1, 5, 20, 1000, 1500000, 3000000LL, pick(0, 50), pick(0, 4000000LL)});
  if (w < 24)
    return mk(1, {0, i, ns, pick(0, 6), pick(0, 19), coin(70) ? 1 : pick(0, 10)});
  if (w < 36)
    return mk(2, {t, i});
  if (w < 60)
    return mk(3, {t, i, ns, 0, pick(0, 3)});
  if (w < 66)
    return mk(4, {t, i});
  if (w < 71)
    return mk(5, {0, i});
  if (w < 84)
    return mk(6, {t, 0, coin(50) ? pick(0, 7) : ns, 0, coin(50)});
  if (w < 86)
    return mk(7, {t, i});
  if (w < 91)
    return mk(8, {0, i});
  return decisionOp();
}

} // namespace

int main(int argc, char **argv)
{
  Sub s{"lifecycle", headCase(opGen([] { return headOp(oneOf<int64_t>({0, 0, 1, 1, 2, 3})); }), opGen(gen)), run, 5000, 90000};
  s.fork = true;
  s.timeout = 60;
  s.max_size = 50;
  return checkMain(argc, argv, "C23",
                   "histories of two thread objects: one thread starts, stops, waits, joins, cancels, destroys and makes them anew (with failing thread creation), up to "
                   "three others stop, wait, join and ask at the same time; the bodies return at once, work, sleep, run until stopped or stop themselves; under generated "
                   "schedules. Non-trivial: a run, a preemption, and a wait, join, timeout, cancel, restart or destruction of a running thread",
                   {s}, "exploration",
                   {"POSIX primitives and clocks are models on virtual time; memory is sequentially consistent",
                    "one thread at a time starts, cancels or destroys an object, with no other call on it under way",
                    "an object is destroyed only after its run() was entered, as a C++ object has to keep its class until then"});
}
