// vp: profile=schedasan mods=thread extra=detsched.cpp wrap=@wraps.txt
// Periodic threads on virtual time.
#include "threads.hpp"
#include <icl_core/TimeSpan.h>
#include <icl_core_thread/PeriodicThread.h>
#include <memory>
#include <set>
using namespace vp;
using icl_core::TimeSpan;

namespace {

struct Obj;
struct P : public icl_core::thread::PeriodicThread
{
  Obj *o;
  P(Obj *o, const TimeSpan &p) : PeriodicThread("periodic", p), o(o) {}
  virtual void run();
  void next() { waitPeriod(); }
};
const int64_t slack = 1000000;

struct Obj
{
  std::unique_ptr<P> t;
  int begun = 0, ended = 0, created = 0, tid = -1;
  std::set<int> tids;
  bool in_run = false, stop_begun = false;
  std::vector<int64_t> work; //!< what the body does in each cycle, in turn
  int64_t cycles = -1;       //!< it ends after so many, -1: when it is stopped
  // The timer was set with this period at some time of this window.
  int64_t period = 0, lo = 0, hi = -1;
  int sets = 0; //!< calls of setPeriod or start that have begun, or ended
};
struct World
{
  Obj o[2];
  int64_t cycles = 0, overruns = 0, waits = 0, changes = 0, restarts = 0, destroyed_running = 0, in_phase = 0;
};
World *world;

TimeSpan span(int64_t ns) { return TimeSpan(ns / 1000000000, ns % 1000000000); }
int64_t index(int64_t t, int64_t base, int64_t p) { return t < base ? -1 - (base - t) / p : (t - base) / p; }

void P::run()
{
  Obj &b = *o;
  World &w = *world;
  b.hi = ds::now();
  b.sets++;
  DS_CHECK(!b.in_run, "run() entered twice");
  b.in_run = true;
  b.begun++;
  struct End
  {
    Obj &b;
    ~End()
    {
      b.in_run = false;
      b.ended++;
    }
  } end{b};
  size_t k = 0;
  int64_t last_c = 0, last_r = 0, n = 0;
  int last_sets = -1;
  while (execute() && n != b.cycles)
  {
    if (!b.work.empty())
    {
      int64_t work = b.work[k++ % b.work.size()];
      if (work > 0)
        ds::sleepNs(work);
    }
    int sets = b.sets;
    int64_t p_before = b.period, c = ds::now(), unfair = ds::delay();
    next();
    int64_t r = ds::now();
    bool fair = ds::delay() == unfair;
    ++n;
    w.cycles++;
    bool stable = sets == b.sets && sets % 2 == 0;
    if (!stable)
    {
      // the period changes
      int64_t limit = std::max(c, b.hi > c ? b.hi : c) + std::max(p_before, b.period);
      DS_CHECK(b.sets % 2 || b.sets > sets + 2 || r - limit - (ds::delay() - unfair) <= slack, "waitPeriod() took " << r - c << " ns, the periods are " << p_before << " and " << b.period);
      last_sets = -1;
      continue;
    }
    int64_t p = b.period, lo = b.lo, hi = b.hi;
    DS_CHECK(r - c - (ds::delay() - unfair) <= p + slack, "waitPeriod() took " << r - c << " ns, the period is " << p);
    DS_CHECK(r >= lo + p, "the first period of " << p << " ns ended after " << r - lo);
    // at most one return in every period
    if (last_sets == sets)
    {
      int64_t i = index(last_c, lo, p);
      DS_CHECK(!(index(last_r, lo, p) == i && index(c, lo, p) == i && index(r, lo, p) == i && index(last_c, hi, p) == index(r, hi, p) && index(r, hi, p) == i),
               "waitPeriod() returned twice within the period number " << i << " (at " << last_r - lo << " and " << r - lo << " ns, the period is " << p << ")");
      if (index(c, lo, p) > index(last_r, lo, p))
        w.overruns++;
    }
    // the ends of the periods are a grid
    if (r - c > 2 * slack)
      w.waits++;
    if (fair && r - c > 2 * slack && p > 10 * slack)
    {
      int64_t phase = (r - hi) % p;
      w.in_phase++;
      DS_CHECK(r >= hi && (phase <= slack + hi - lo || phase >= p - (hi - lo)), "waitPeriod() returned " << phase << " ns after the end of a period of " << p << " ns");
    }
    last_c = c;
    last_r = r;
    last_sets = sets;
  }
}

void setPeriod(World &w, Obj &b, int64_t p)
{
  bool first = b.sets % 2 == 0;
  if (!first)
    return; // one at a time, and not while it starts
  bool was_running = b.in_run;
  int64_t lo = ds::now();
  b.sets++;
  int64_t old = b.period;
  b.period = std::max(old, p); // for the limit, as it can be either now
  bool r = b.t->setPeriod(span(p));
  b.period = p;
  b.lo = lo;
  b.hi = ds::now();
  b.sets++;
  w.changes++;
  DS_CHECK(r, "setPeriod() failed " << (was_running ? "while the thread runs" : "before the thread runs"));
  DS_CHECK(b.t->period() == span(p), "period() after setPeriod()");
}

void end(World &w, Obj &b, bool destroy)
{
  if (!b.t)
    return;
  ds::await([&b] { return b.begun >= b.created; }, -1, "wait for run()");
  if (destroy)
  {
    w.destroyed_running += b.in_run;
    b.stop_begun = true;
    b.t.reset();
  }
  else
  {
    b.stop_begun = true;
    b.t->stop();
    DS_CHECK(b.t->wait(), "wait() failed");
  }
  DS_CHECK(!b.in_run && b.begun == b.ended, "run() goes on after " << (destroy ? "destruction" : "wait()"));
  DS_CHECK(b.tid < 0 || ds::finishedAt(b.tid) >= 0, "the thread goes on after " << (destroy ? "destruction" : "wait()"));
  if (destroy)
    b.tid = -1;
}

void make(Obj &b, int64_t p)
{
  if (b.t)
    return;
  b.created = b.begun = b.ended = 0;
  b.period = p;
  b.t.reset(new P(&b, span(p)));
  DS_CHECK(b.t->period() == span(p), "period() of a new thread");
}

void control(World &w, const Op &o)
{
  Obj &b = w.o[N(o, 0) & 1];
  int64_t p = std::max<int64_t>(1000, N(o, 1));
  switch (o.k)
  {
  case 1: // start
    make(b, p);
    if (b.in_run || b.begun < b.created)
      break;
    if (b.created)
    {
      DS_CHECK(b.t->wait(), "wait() failed");
      w.restarts++;
    }
    b.stop_begun = false;
    b.cycles = N(o, 2) % 12;
    if (b.cycles == 0)
      b.cycles = -1;
    b.work.clear();
    for (size_t i = 3; i < o.n.size(); ++i)
      b.work.push_back(b.period / 1000 * (std::max<int64_t>(0, N(o, i)) % 5000)); // in thousandths of the period
    b.lo = ds::now();
    b.sets = b.sets / 2 * 2 + 1;
    b.created++;
    DS_CHECK(b.t->start(), "start() failed");
    b.tid = ds::idOf(b.t->threadId().m_thread_id);
    b.tids.insert(b.tid);
    break;
  case 2:
    end(w, b, false);
    break;
  case 3:
    if (b.t && b.created)
      end(w, b, true);
    break;
  case 4:
    make(b, N(o, 2) > 0 ? N(o, 2) : 1000000);
    if (b.begun == b.created)
      setPeriod(w, b, p);
    break;
  case 6:
    if (N(o, 2) & 1)
      ds::sleepNs(N(o, 1));
    else
      for (int64_t i = 0; i < N(o, 1) % 20; ++i)
        ds::point();
    break;
  }
}

void run(const Case &c, Ctx &x)
{
  World w;
  world = &w;
  ds::run(scheduleOf(c), [&] {
    for (const Op &o : c.ops)
      if (o.k >= 1 && o.k <= 6)
        control(w, o);
    for (Obj &b : w.o)
    {
      end(w, b, true);
      for (int i : b.tids)
        DS_CHECK(ds::finishedAt(i) >= 0 && ds::wasJoined(i), "a thread was not joined");
    }
    DS_CHECK(ds::stats().timer_fds == 0, ds::stats().timer_fds << " timers are still open when all the threads are destroyed");
  });
  x.nontrivial(w.cycles >= 2 && w.waits >= 1);
  if (w.overruns)
    x.label("period missed");
  if (w.in_phase > 2)
    x.label("grid checked");
  if (w.changes)
    x.label("period changed");
  if (w.restarts)
    x.label("started again");
  if (w.destroyed_running)
    x.label("destroyed while running");
}

Op gen()
{
  int w = (int)pick(0, 99);
  int64_t i = oneOf<int64_t>({0, 0, 1});
  int64_t p = oneOf<int64_t>({1000, 50000, 1000000, 20000000, 20000000, 100000000, 100000000, 1000000000, 2500000000LL, 60000000000LL, pick(1000, 100000), pick(1000000, 4000000000LL)});
  if (w < 30)
  {
    Op o = mk(1, {i, p, oneOf<int64_t>({0, 0, pick(1, 11)})});
    for (int64_t n = pick(0, 5); n > 0; --n)
      o.n.push_back(oneOf<int64_t>({0, 300, 500, 700, 990, 1500, 4200, pick(0, 999), pick(0, 4999)}));
    return o;
  }
  if (w < 38)
    return mk(2, {i});
  if (w < 45)
    return mk(3, {i});
  if (w < 60)
    return mk(4, {i, p, pick(1000, 4000000000LL)});
  if (w < 90)
    return mk(6, {0, coin(30) ? pick(0, 19) : coin(50) ? p : p * pick(2, 6), coin(85)});
  return decisionOp();
}

} // namespace

int main(int argc, char **argv)
{
  Sub s{"periods", headCase(opGen([] { return headOp(0); }), opGen(gen)), run, 4000, 100000};
  s.fork = true;
  s.timeout = 60;
  s.max_size = 40;
  return checkMain(argc, argv, "C24",
                   "histories of two periodic threads (periods of 1 us to 60 s, bodies that take none to five periods, a number of cycles or until stopped, changes of the "
                   "period, restarts, destruction while running) on virtual time under generated schedules. Non-trivial: two cycles, and a wait for the end of a period",
                   {s}, "exploration", {"timers and clocks are models on virtual time; memory is sequentially consistent", "the Linux implementation (timerfd)",
                                        "an object is destroyed only after its run() was entered"});
}
