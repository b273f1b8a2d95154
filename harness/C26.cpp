// vp: profile=schedasan mods=dispatch extra=detsched.cpp wrap=@wraps.txt
// Periodic dispatch: every cycle executes the operations, once each and in order.
#include "threads.hpp"
#include <icl_core/TimeSpan.h>
#include <icl_core_dispatch/CallbackOperation.h>
#include <icl_core_dispatch/PeriodicDispatchThread.h>
#include <memory>
#include <set>
using namespace vp;
using icl_core::TimeSpan;
using namespace icl_core::dispatch;

namespace {

const int64_t slack = 1000000;

struct Obj;
struct Entry
{
  std::unique_ptr<Operation> op;
  int64_t done = 0;  //!< how often it was executed since the last start
  int64_t work = 0;  //!< how long it takes
  int adds = 0;      //!< operations it adds when executed
  bool at_start = false; //!< registered before the thread was started
  bool known = false; //!< addOperation() has returned
  int cycle_known = 0; //!< the number of cycles that had begun then
};
struct Obj
{
  std::unique_ptr<PeriodicDispatchThread> t;
  std::vector<std::unique_ptr<Entry>> e; //!< in the order of registration
  int tid = -1;
  std::set<int> tids, executed_in;
  int64_t started = 0, unfair_start = 0, period = 0, lo = 0, hi = -1, unfair = 0, load = 0;
  bool on = false, inside = false, adding = false;
  int cycles = 0;      //!< begun since the start
  size_t next = 0;     //!< expected next, the number of executions in this cycle
  bool grid = true;    //!< so far the work of every cycle was shorter than the period
};
struct World
{
  Obj o[2];
  int64_t executed = 0, cycles = 0, live_adds = 0, self_adds = 0, restarts = 0, destroyed_running = 0, late = 0, callbacks = 0;
};
World *world;

TimeSpan span(int64_t ns) { return TimeSpan(ns / 1000000000, ns % 1000000000); }
void add(World &w, Obj &b, int64_t kind, int64_t work, int adds);

void beginCycle(World &w, Obj &b)
{
  int64_t now = ds::now(), unfair = ds::delay();
  if (b.cycles == 0)
  {
    b.hi = now;
    b.unfair = unfair;
    b.grid = true;
  }
  else
  {
    // a cycle begins only when its period has begun, and if there is time for the work, it begins right then
    DS_CHECK(now >= b.lo + b.cycles * b.period, "cycle " << b.cycles << " begins " << now - b.lo << " ns after the start, the period is " << b.period);
    if (b.load >= b.period)
      b.grid = false;
    if (b.grid)
      DS_CHECK(now - (unfair - b.unfair) <= b.hi + b.cycles * b.period + slack, "cycle " << b.cycles << " begins only " << now - b.hi << " ns after the first, the period is " << b.period);
    else
      w.late++;
  }
  b.cycles++;
  b.next = 0;
  b.load = 0;
  w.cycles++;
}
//! A cycle is over: it executed all that was registered before it began.
void endCycle(Obj &b)
{
  for (size_t i = b.next; i < b.e.size(); ++i)
    DS_CHECK(!b.e[i]->known || b.e[i]->cycle_known >= b.cycles, "cycle " << b.cycles - 1 << " did not execute operation " << i);
}

void executed(World &w, Obj &b, Entry *x)
{
  DS_CHECK(!b.inside, "two operations are executed at the same time");
  DS_CHECK(b.t->threadSelf(), "an operation is executed in the wrong thread");
  b.executed_in.insert(ds::self());
  size_t i = 0;
  while (i < b.e.size() && b.e[i].get() != x)
    ++i;
  if (i == 0)
  {
    if (b.cycles > 0)
      endCycle(b);
    beginCycle(w, b);
  }
  DS_CHECK(b.cycles > 0 && i == b.next, "operation " << i << " is executed when it was the turn of operation " << b.next);
  b.next = i + 1;
  b.inside = true;
  x->done++;
  w.executed++;
  if (x->work > 0)
    ds::sleepNs(x->work);
  else
    ds::point();
  b.load += x->work;
  int n = x->adds;
  x->adds = 0;
  for (int k = 0; k < n; ++k)
  {
    w.self_adds++;
    add(w, b, k, 0, 0);
  }
  b.inside = false;
}

struct TheOp : public Operation
{
  Obj &b;
  Entry *e;
  TheOp(Obj &b, Entry *e) : b(b), e(e) {}
  virtual void execute() { executed(*world, b, e); }
};

void add(World &w, Obj &b, int64_t kind, int64_t work, int adds)
{
  if (b.adding || b.e.size() >= 8)
    return; // one at a time, so that the order is known
  b.adding = true;
  Entry *e = new Entry;
  e->work = work;
  e->adds = adds;
  if (kind & 1)
  {
    e->op.reset(new CallbackOperation([&w, &b, e] { w.callbacks++; executed(w, b, e); }));
  }
  else
    e->op.reset(new TheOp(b, e));
  if (b.on)
    w.live_adds++;
  b.e.push_back(std::unique_ptr<Entry>(e));
  b.t->addOperation(e->op.get());
  e->known = true;
  e->cycle_known = b.cycles;
  b.adding = false;
}

void make(Obj &b, int64_t p)
{
  if (b.t)
    return;
  b.period = p;
  b.t.reset(new PeriodicDispatchThread("dispatch", span(p)));
}
//! The cycles that should have begun until now have begun.
void progress(Obj &b)
{
  if (!b.on || b.e.empty() || b.inside || b.adding || !b.e[0]->at_start)
    return;
  int64_t load = 0;
  for (auto &e : b.e)
    load += e->work;
  int64_t now = ds::now(), unfair = ds::delay();
  if (b.cycles == 0)
    DS_CHECK(now - (unfair - b.unfair_start) <= b.started + slack, "no operation was executed within " << now - b.started << " ns of the start");
  else if (b.grid && load < b.period)
    DS_CHECK(now - (unfair - b.unfair) <= b.hi + b.cycles * b.period + slack, b.cycles << " cycles have begun " << now - b.hi << " ns after the first, the period is " << b.period);
}

void end(World &w, Obj &b, bool destroy)
{
  if (!b.t)
    return;
  progress(b);
  ds::await([&b] { return !b.adding || b.inside; }, -1, "wait for addOperation()");
  if (destroy)
  {
    w.destroyed_running += b.on;
    delete b.t.get(); // operations that are executed use it until then
    (void)b.t.release();
  }
  else if (b.on)
  {
    b.t->stop();
    DS_CHECK(b.t->wait(), "wait() failed");
  }
  DS_CHECK(!b.inside, "an operation is executed after " << (destroy ? "destruction" : "wait()"));
  DS_CHECK(b.tid < 0 || ds::finishedAt(b.tid) >= 0, "the thread goes on after " << (destroy ? "destruction" : "wait()"));
  b.on = false;
  if (destroy)
  {
    b.tid = -1;
    b.e.clear(); // the operations stay with the one who made them
  }
}

void control(World &w, const Op &o)
{
  Obj &b = w.o[N(o, 0) & 1];
  int64_t p = std::max<int64_t>(1000, N(o, 1));
  switch (o.k)
  {
  case 1: // start
    if (b.on)
      break;
    make(b, p);
    if (b.tid >= 0)
      w.restarts++;
    for (auto &e : b.e)
    {
      e->done = e->cycle_known = 0;
      e->at_start = true;
    }
    b.cycles = 0;
    b.next = 0;
    b.load = 0;
    b.lo = ds::now();
    b.on = true;
    DS_CHECK(b.t->start(), "start() failed");
    b.tid = ds::idOf(b.t->threadId().m_thread_id);
    b.tids.insert(b.tid);
    b.started = ds::now();
    b.unfair_start = ds::delay();
    break;
  case 2:
    end(w, b, false);
    break;
  case 3:
    if (b.tid >= 0)
      end(w, b, true);
    break;
  case 4:
    make(b, p);
    add(w, b, N(o, 2), b.period / 1000 * (std::max<int64_t>(0, N(o, 3)) % 3000), (int)(N(o, 4) & 3));
    break;
  case 6:
    if (N(o, 2) & 1)
      ds::sleepNs(N(o, 1));
    else
      for (int64_t i = 0; i < N(o, 1) % 20; ++i)
        ds::point();
    for (Obj &each : w.o)
      progress(each);
    break;
  }
}

void run(const Case &c, Ctx &x)
{
  World w;
  world = &w;
  ds::run(scheduleOf(c), [&] {
    for (const Op &o : c.ops)
      if (o.k >= 1 && o.k <= 6)
        control(w, o);
    for (Obj &b : w.o)
    {
      end(w, b, true);
      for (int i : b.tids)
        DS_CHECK(ds::finishedAt(i) >= 0 && ds::wasJoined(i), "a thread was not joined");
      for (int i : b.executed_in)
        DS_CHECK(b.tids.count(i), "an operation was executed in a thread that is not the object's");
    }
    DS_CHECK(ds::stats().timer_fds == 0, ds::stats().timer_fds << " timers are still open when all the threads are destroyed");
  });
  x.nontrivial(w.cycles >= 2 && w.executed > w.cycles);
  if (w.live_adds)
    x.label("added while running");
  if (w.self_adds)
    x.label("added by an operation");
  if (w.restarts)
    x.label("started again");
  if (w.late)
    x.label("period missed");
  if (w.callbacks)
    x.label("callback");
  if (w.destroyed_running)
    x.label("destroyed while running");
}

Op gen()
{
  int w = (int)pick(0, 99);
  int64_t i = oneOf<int64_t>({0, 0, 1});
  int64_t p = oneOf<int64_t>({50000, 1000000, 20000000, 20000000, 100000000, 100000000, 1000000000, 2500000000LL, pick(10000, 100000), pick(1000000, 4000000000LL)});
  if (w < 18)
    return mk(1, {i, p});
  if (w < 23)
    return mk(2, {i});
  if (w < 27)
    return mk(3, {i});
  if (w < 62)
    return mk(4, {i, p, pick(0, 1), oneOf<int64_t>({0, 0, 0, 100, 300, 700, 1500, pick(0, 999), pick(0, 2999)}), oneOf<int64_t>({0, 0, 0, 1, 2})});
  if (w < 92)
    return mk(6, {0, coin(30) ? pick(0, 19) : coin(50) ? p : p * pick(2, 6), coin(85)});
  return decisionOp();
}

} // namespace

int main(int argc, char **argv)
{
  Sub s{"dispatch", headCase(opGen([] { return headOp(0); }), opGen(gen)), run, 5000, 100000};
  s.fork = true;
  s.timeout = 60;
  s.max_size = 40;
  return checkMain(argc, argv, "C26",
                   "histories of two periodic dispatch threads with up to eight operations each (of both kinds, which take none to three periods, and can add further ones; "
                   "added before, between and during runs), started again, stopped and destroyed while running, on virtual time under generated schedules. "
                   "Non-trivial: two cycles, and one with more than one operation",
                   {s}, "exploration", {"timers and clocks are models on virtual time; memory is sequentially consistent", "operations are added by one thread at a time"});
}
