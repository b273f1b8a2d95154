// vp: profile=schedasan mods=thread extra=detsched.cpp wrap=@wraps.txt
// Active objects: what is queued is executed once, in order, in the object's thread, or disposed of.
#include "threads.hpp"
#include <icl_core_thread/ActiveObject.h>
#include <cstring>
#include <map>
#include <memory>
#include <set>
using namespace vp;

namespace {

struct World;
World *world;

struct Obj;
struct Item
{
  Obj *o = nullptr;
  int number = 0, producer = 0;
  bool called = false;     //!< queue() has been called ...
  bool queued = false;     //!< ... and returned
  int invoked = 0, deleted = 0;
  bool may_be_refused = false;
  int64_t before = 0, after = -1; //!< a clock at the call and the return of queue()
};
struct Obj;
struct AO : public icl_core::thread::ActiveObject
{
  Obj *o;
  explicit AO(Obj *o) : ActiveObject("active"), o(o) {}
  virtual void onThreadStart();
  virtual void onThreadStop();
  void put(icl_core::thread::ActiveOperation *op) { queue(op); }
};
struct Obj
{
  std::unique_ptr<AO> t;
  int tid = -1;
  std::set<int> tids, executed_in;
  int starts = 0, started = 0, stops = 0, stopped = 0; //!< onThreadStart/Stop called
  bool on = false;            //!< start() has returned, and nobody has begun to stop it since
  int turn_offs = 0;          //!< how often that ended
  bool inside = false;        //!< an operation is executed
  std::vector<int> order;     //!< invoked, as they came
  int users = 0, stopping = 0;
  bool busy = false;          //!< the controller starts or destroys
};
struct World
{
  Obj o[2];
  int64_t clock = 0;
  std::map<int, Item> items;
  int next = 0, invoked = 0, refused = 0, nested = 0, restarts = 0, destroyed_running = 0, self_stops = 0;
};

void AO::onThreadStart()
{
  o->started++;
  DS_CHECK(o->started == o->stopped + 1, "onThreadStart() called twice");
  ds::point();
}
void AO::onThreadStop()
{
  ds::point();
  DS_CHECK(!o->inside, "onThreadStop() while an operation is executed");
  o->stopped++;
  DS_CHECK(o->started == o->stopped, "onThreadStop() without onThreadStart()");
}

void put(World &w, Obj &b, int producer, int64_t kind, int64_t n);
void turnOff(Obj &b);

struct TheOp : public icl_core::thread::ActiveOperation
{
  Obj &b;
  int number;
  int64_t kind, n;
  TheOp(Obj &b, int number, int64_t kind, int64_t n) : b(b), number(number), kind(kind), n(n) {}
  ~TheOp() override
  {
    Item &i = world->items[number];
    DS_CHECK(i.deleted == 0, "an operation is deleted twice");
    i.deleted++;
    world->refused += !i.invoked;
    DS_CHECK(i.invoked || i.may_be_refused || !b.on, "an operation is thrown away although the object runs");
  }
  void invoke() override
  {
    World &w = *world;
    Item &i = w.items[number];
    DS_CHECK(i.invoked == 0 && i.deleted == 0, "an operation is executed twice");
    i.invoked++;
    w.invoked++;
    DS_CHECK(!b.inside, "two operations are executed at the same time");
    DS_CHECK(b.t->threadSelf(), "an operation is executed in the wrong thread");
    DS_CHECK(b.started == b.stopped + 1, "an operation is executed before onThreadStart() or after onThreadStop()");
    b.inside = true;
    b.executed_in.insert(ds::self());
    b.order.push_back(number);
    switch (kind % 6)
    {
    case 1:
      ds::sleepNs(n);
      break;
    case 2:
      for (int64_t k = 0; k < n % 10; ++k)
        ds::point();
      break;
    case 3: // queues more
      w.nested++;
      put(w, b, 100 + number, n % 3 ? 0 : 2, n);
      if (n % 2)
        put(w, b, 100 + number, 0, n);
      break;
    case 4:
      if (n % 4 == 0)
      {
        w.self_stops++;
        turnOff(b);
        b.t->stop();
      }
      break;
    case 5:
    {
      Obj &other = w.o[&b == &w.o[0]];
      if (other.t && !other.busy)
        put(w, other, 100 + number, 0, 0);
      break;
    }
    }
    b.inside = false;
  }
};

void put(World &w, Obj &b, int producer, int64_t kind, int64_t n)
{
  int number = w.next++;
  Item &i = w.items[number];
  i.number = number;
  i.producer = producer;
  i.o = &b;
  i.called = true;
  i.before = w.clock++;
  i.may_be_refused = !b.on;
  b.users++;
  b.t->put(new TheOp(b, number, kind, n));
  b.users--;
  i.queued = true;
  i.after = w.clock++;
}
void turnOff(Obj &b)
{
  b.on = false;
  b.turn_offs++;
  // what is queued now may be executed or not
  for (auto &i : world->items)
    if (i.second.o == &b && !i.second.invoked && !i.second.deleted)
      i.second.may_be_refused = true;
}

void checkOrder(World &w, Obj &b)
{
  // operations of one producer stay in order, and those of which one was queued before the other was created
  std::map<int, int> last;
  for (int n : b.order)
  {
    Item &i = w.items[n];
    DS_CHECK(!last.count(i.producer) || last[i.producer] < n, "the operations of one thread are executed in another order than they were queued");
    last[i.producer] = n;
  }
  // an operation that was queued (queue() returned) before another was made precedes it, whoever made it
  int64_t latest = -1;
  for (int n : b.order)
  {
    Item &i = w.items[n];
    DS_CHECK(i.after < 0 || i.after >= latest, "an operation that was queued later was executed before one whose queueing was over");
    latest = std::max<int64_t>(latest, i.before);
  }
}

void finish(World &w, Obj &b, bool destroy)
{
  if (!b.t)
    return;
  b.busy = true;
  turnOff(b);
  if (destroy)
  {
    ds::await([&b] { return b.users == 0; }, -1, "wait for the other threads to leave");
    w.destroyed_running += b.tid >= 0 && ds::finishedAt(b.tid) < 0;
    delete b.t.get(); // the operations that are still executed use it until then
    (void)b.t.release();
  }
  else
  {
    b.t->stop();
    DS_CHECK(b.t->wait(), "wait() failed");
  }
  DS_CHECK(b.tid < 0 || ds::finishedAt(b.tid) >= 0, "the thread goes on after " << (destroy ? "destruction" : "wait()"));
  DS_CHECK(!b.inside && b.started == b.stopped + (destroy ? b.started - b.stopped : 0), "onThreadStop() was not called");
  if (destroy)
    b.tid = -1;
  b.busy = false;
}

void use(World &w, int t, const std::vector<const Op *> &ops)
{
  for (const Op *po : ops)
  {
    const Op &o = *po;
    Obj &b = w.o[N(o, 1) & 1];
    switch (o.k)
    {
    case 1:
      if (t == 0 && !(b.t && b.on))
      {
        b.busy = true;
        if (!b.t)
        {
          b.started = b.stopped = 0;
          b.tid = -1;
          b.t.reset(new AO(&b));
        }
        else if (b.tid >= 0)
        {
          // a stop() that came while the object was started may have had no effect
          b.t->stop();
          DS_CHECK(b.t->wait(), "wait() failed");
          w.restarts++;
        }
        b.busy = false;
        int offs = b.stopping ? -1 : b.turn_offs; // a stop() under way may come before or after
        b.starts++;
        DS_CHECK(b.t->start(), "start() failed");
        b.tid = ds::idOf(b.t->threadId().m_thread_id);
        b.tids.insert(b.tid);
        b.on = offs == b.turn_offs;
      }
      break;
    case 2:
      if (t == 0)
        finish(w, b, false);
      break;
    case 3:
      if (t == 0)
        finish(w, b, true);
      break;
    case 4:
      for (int64_t k = 0; k <= N(o, 4) % 3; ++k)
        if (b.t && !b.busy)
          put(w, b, t, N(o, 2), N(o, 3));
      break;
    case 5:
      if (b.t && !b.busy)
      {
        turnOff(b);
        b.users++;
        b.stopping++;
        b.t->stop();
        b.stopping--;
        b.users--;
      }
      break;
    case 6:
      if (N(o, 3) & 1)
        ds::sleepNs(N(o, 2));
      else
        for (int64_t k = 0; k < N(o, 2) % 20; ++k)
          ds::point();
      break;
    }
  }
}

void run(const Case &c, Ctx &x)
{
  World w;
  world = &w;
  int producers = 1;
  for (const Op &o : c.ops)
    if (o.k == OP_HEAD)
      producers = (int)(N(o, 0) & 3);
  std::vector<std::vector<const Op *>> p((size_t)producers + 1);
  for (const Op &o : c.ops)
    if (o.k >= 1 && o.k <= 6)
      p[o.k <= 3 ? 0 : (size_t)(N(o, 0) % (producers + 1))].push_back(&o);
  ds::run(scheduleOf(c), [&] {
    std::vector<int> ids;
    for (int t = 1; t <= producers; ++t)
      ids.push_back(ds::spawn([&w, &p, t] { use(w, t, p[(size_t)t]); }));
    use(w, 0, p[0]);
    for (int i : ids)
      ds::join(i);
    // left alone, objects that run get everything done
    ds::awaitStuck();
    for (auto &i : w.items)
      DS_CHECK(i.second.invoked || i.second.deleted || i.second.may_be_refused, "operation " << i.first << " is not executed, though the object runs and waits");
    for (Obj &b : w.o)
      finish(w, b, true);
    for (auto &i : w.items)
      DS_CHECK(i.second.deleted == 1, "operation " << i.first << " was " << (i.second.invoked ? "executed but " : "") << "never deleted");
    for (Obj &b : w.o)
    {
      checkOrder(w, b);
      for (int i : b.executed_in)
        DS_CHECK(b.tids.count(i), "an operation is executed in a thread that is not the object's");
      for (int i : b.tids)
        DS_CHECK(ds::finishedAt(i) >= 0 && ds::wasJoined(i), "a thread was not joined");
    }
  });
  x.nontrivial(w.invoked >= 2 && ds::stats().preemptions > 0);
  if (w.refused)
    x.label("thrown away");
  if (w.nested)
    x.label("queued by an operation");
  if (w.restarts)
    x.label("started again");
  if (w.destroyed_running)
    x.label("destroyed while running");
  if (w.self_stops)
    x.label("stopped by an operation");
}

Op gen()
{
  int w = (int)pick(0, 99);
  int64_t t = pick(0, 3);
  int64_t i = oneOf<int64_t>({0, 0, 0, 1});
  int64_t ns = oneOf<int64_t>({0, 100, 1000, 20000, 1000000, 1500000000, pick(0, 5000), pick(0, 4000000000LL)});
  if (w < 16)
    return mk(1, {0, i});
  if (w < 21)
    return mk(2, {0, i});
  if (w < 26)
    return mk(3, {0, i});
  if (w < 66)
    return mk(4, {t, i, pick(0, 5), ns, oneOf<int64_t>({0, 0, 1, 2})});
  if (w < 74)
    return mk(5, {t, i});
  if (w < 88)
    return mk(6, {t, 0, coin(50) ? pick(0, 19) : ns, coin(50)});
  return decisionOp();
}

} // namespace

int main(int argc, char **argv)
{
  Sub s{"active", headCase(opGen([] { return headOp(oneOf<int64_t>({0, 1, 1, 2, 3})); }), opGen(gen)), run, 9000, 90000};
  s.fork = true;
  s.timeout = 60;
  s.max_size = 50;
  return checkMain(argc, argv, "C25",
                   "histories of two active objects with up to four threads that queue operations (which work, sleep, queue further ones or stop the object), stop, wait, "
                   "start again and destroy, under generated schedules. Non-trivial: two operations executed, and a preemption",
                   {s}, "exploration", {"POSIX primitives and clocks are models on virtual time; memory is sequentially consistent",
                                        "one thread starts and destroys an object, with no other call on it under way"});
}
