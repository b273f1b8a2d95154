// vp: profile=sched mods=thread extra=detsched.cpp wrap=@wraps.txt flags=-fsanitize-coverage=trace-pc libs=-Xlinker,--wrap=atexit
// Singletons: one instance, whoever asks first and however many ask, until it is destroyed at exit.
#include "threads.hpp"
#include <icl_core/Singleton.h>
#include <icl_core/Singleton.hpp>
#include <icl_core_logging/SingletonThreadingModels.h>
#include <icl_core_thread/SingletonThreadingModels.h>
#include <stdexcept>
using namespace vp;
using namespace icl_core;

namespace {

struct World;
World *world;
struct Handler
{
  void (*f)();
  int entry;
};
std::vector<Handler> *at_exit; //!< what would be called at exit
thread_local int current = -1; //!< the singleton asked for

} // namespace

extern "C" int __real_atexit(void (*f)());
extern "C" int __wrap_atexit(void (*f)())
{
  if (!at_exit)
    return __real_atexit(f);
  ds::OutLib out;
  at_exit->push_back({f, current});
  return 0;
}

namespace {

enum Creation { NEW, STATIC, MALLOC };
enum Lifetime { DEFAULT, NODESTROY, PHOENIX };

struct Entry
{
  Creation creation;
  Lifetime lifetime;
  bool single;
  void *(*get)();
  // what happened
  int constructing = 0, constructed = 0, destructed = 0, threw = 0;
  int fail = 0;            //!< the next so many constructors throw
  int64_t uses = -1;       //!< the constructor gets this other one
  int64_t at_destruction = -1; //!< the destructor gets this other one
  int64_t slow = 0;
  // the model
  void *instance = nullptr;
  bool dying = false;
  bool dead = false;       //!< destroyed at exit, and not made again
  int made = 0, killed = 0;
};
struct World
{
  std::vector<Entry> e;
  int gets = 0, first = 0, throws = 0, dead = 0, reborn = 0, contended = 0, nested = 0, destroyed = 0;
  int inside = 0, exits = 0;
  bool exiting = false;
};

struct ConstructorFailed
{
};
void access(World &w, int64_t i);

struct Thing
{
  char data[24];
  int which;
  void construct(int n)
  {
    ds::OutLib out;
    which = n;
    Entry &e = world->e[(size_t)n];
    DS_CHECK(!e.constructing, "two instances of singleton " << n << " are constructed at the same time");
    DS_CHECK(e.constructed == e.destructed || (e.creation == MALLOC), "a second instance of singleton " << n << " is constructed");
    e.constructing++;
    if (e.slow & 1)
      ds::sleepNs(e.slow);
    else
      for (int64_t k = 0; k < e.slow % 10; ++k)
        ds::point();
    if (e.uses > n)
    {
      world->nested++;
      access(*world, e.uses);
    }
    e.constructing--;
    if (e.fail)
    {
      e.fail--;
      e.threw++;
      throw ConstructorFailed();
    }
    e.constructed++;
    for (char &c : data)
      c = (char)(n + 1);
  }
  void destruct()
  {
    ds::OutLib out;
    Entry &e = world->e[(size_t)which];
    e.destructed++;
    world->destroyed++;
    DS_CHECK(e.destructed == e.constructed, "an instance is destroyed that does not exist");
    DS_CHECK(world->exiting, "a singleton is destroyed before the exit");
    if (e.at_destruction >= 0 && e.at_destruction != which && e.destructed < 4) // two that recreate each other would go on for ever
    {
      world->nested++;
      access(*world, e.at_destruction);
    }
  }
};
template <int n>
struct T : Thing
{
  T() { construct(n); }
  ~T()
  {
    if (world && world->e[n].creation == NEW)
      destruct();
  }
};

template <class U>
struct Phoenix
{
  static void scheduleDestruction(DestructionFuncPtr f) { atexit(f); }
  static void onDeadReference() {}
};
template <class S>
void *get()
{
  return &S::instance();
}
#define E(n, c, C, l, L, M) {c, l, false, &get<Singleton<T<n>, C, L, M>>}

void setUp(World &w)
{
  using icl_core::logging::STMMultiThreadedWithSemaphore;
  using icl_core::thread::STMMultiThreadedWithMutex;
  w.e = {
    E(0, NEW, SCPCreateUsingNew, DEFAULT, SLPDefaultLifetime, STMMultiThreadedWithMutex),
    E(1, NEW, SCPCreateUsingNew, NODESTROY, SLPNoDestroy, STMMultiThreadedWithMutex),
    E(2, NEW, SCPCreateUsingNew, PHOENIX, Phoenix, STMMultiThreadedWithMutex),
    E(3, STATIC, SCPCreateStatic, DEFAULT, SLPDefaultLifetime, STMMultiThreadedWithMutex),
    E(4, STATIC, SCPCreateStatic, NODESTROY, SLPNoDestroy, STMMultiThreadedWithSemaphore),
    E(5, NEW, SCPCreateUsingNew, DEFAULT, SLPDefaultLifetime, STMMultiThreadedWithSemaphore),
    E(6, MALLOC, SCPCreateUsingMalloc, DEFAULT, SLPDefaultLifetime, STMMultiThreadedWithMutex),
    E(7, MALLOC, SCPCreateUsingMalloc, NODESTROY, SLPNoDestroy, STMMultiThreadedWithSemaphore),
    E(8, STATIC, SCPCreateStatic, PHOENIX, Phoenix, STMMultiThreadedWithMutex),
    E(9, NEW, SCPCreateUsingNew, PHOENIX, Phoenix, STMMultiThreadedWithSemaphore),
    // the defaults; for one thread only
    {NEW, DEFAULT, true, &get<Singleton<T<10>>>},
  };
  w.e[10].single = true;
}
const int NE = 11;

void access(World &w, int64_t i)
{
  Entry &e = w.e[(size_t)(i % NE)];
  if (e.dying || (e.single && ds::self() != 0))
    return;
  w.gets++;
  void *before = e.instance;
  bool dead = e.dead;
  int threw = e.threw;
  if (w.inside++)
    w.contended++;
  void *p = nullptr;
  int outcome = 0, outer = current;
  current = (int)(i % NE);
  try
  {
    ds::InLib in_lib;
    p = e.get();
  }
  catch (ConstructorFailed)
  {
    outcome = 1;
  }
  catch (const std::logic_error &)
  {
    outcome = 2;
  }
  current = outer;
  w.inside--;
  if (outcome == 1)
  {
    w.throws++;
    DS_CHECK(e.threw > threw && !before, "instance() threw the constructor's exception though it was not called");
    return;
  }
  if (outcome == 2)
  {
    w.dead++;
    DS_CHECK(dead && e.lifetime == DEFAULT, "instance() reports an access after the destruction that did not take place");
    return;
  }
  DS_CHECK(!(dead && e.lifetime == DEFAULT), "instance() returns an instance that was destroyed");
  DS_CHECK(p, "instance() returns a null reference");
  if (dead)
    w.reborn++;
  if (before)
    DS_CHECK(p == before, "instance() returns another instance than before");
  else if (e.instance)
    DS_CHECK(p == e.instance, "two threads got different instances");
  else
  {
    w.first++;
    e.instance = p;
    e.made++;
    e.dead = false;
  }
  if (e.creation != MALLOC)
  {
    DS_CHECK(!e.constructing && e.constructed == e.destructed + 1, "instance() returned before the instance was constructed");
    Thing *t = static_cast<Thing *>(p);
    DS_CHECK(t->which == i % NE && t->data[23] == (char)(i % NE + 1), "the instance is not the one that was constructed");
  }
}

//! What happens at the end of a program.
void exitNow(World &w)
{
  w.exiting = true;
  w.exits++;
  // who was made when is seen in the order of the handlers; each singleton with a lifetime has one
  size_t expected = 0;
  for (Entry &e : w.e)
    expected += e.instance && e.lifetime != NODESTROY && !e.dead;
  DS_CHECK(at_exit->size() == expected, at_exit->size() << " functions are registered for the exit, " << expected << " singletons have to be destroyed then");
  for (int guard = 0; !at_exit->empty(); ++guard)
  {
    DS_CHECK(guard < 1000, "the handlers do not end");
    Handler h = at_exit->back();
    at_exit->pop_back();
    DS_CHECK(h.entry >= 0, "a handler is registered without need");
    Entry &e = w.e[(size_t)h.entry];
    DS_CHECK(e.instance && !e.dead, "a handler is registered for a singleton that does not exist");
    int destructed = w.destroyed, mine = e.destructed;
    e.dying = true;
    {
      ds::InLib in_lib;
      h.f();
    }
    e.dying = false;
    DS_CHECK(e.destructed == mine + (e.creation == NEW) && w.destroyed == destructed + (e.creation == NEW), "the handler of singleton " << h.entry << " destroyed it " << e.destructed - mine << " times, and " << w.destroyed - destructed << " singletons in all");
    e.dead = true;
    e.killed++;
    e.instance = nullptr;
  }
  for (int i = 0; i < NE; ++i)
  {
    Entry &e = w.e[(size_t)i];
    if (e.creation == NEW)
      DS_CHECK(e.lifetime == NODESTROY ? e.destructed == 0 : e.destructed == e.constructed, "singleton " << i << " was constructed " << e.constructed << " times and destroyed " << e.destructed << " times");
  }
  w.exiting = false;
}

void use(World &w, const std::vector<const Op *> &ops)
{
  for (const Op *po : ops)
  {
    const Op &o = *po;
    switch (o.k)
    {
    case 1:
      access(w, N(o, 1) < 0 ? 0 : N(o, 1));
      break;
    case 2: // sets what its constructor does
    {
      Entry &e = w.e[(size_t)(N(o, 1) % NE)];
      if (e.constructing || e.instance)
        break;
      e.fail = e.creation == MALLOC ? 0 : (int)(N(o, 2) % 3);
      e.slow = N(o, 3);
      break;
    }
    case 6:
      if (N(o, 3) & 1)
        ds::sleepNs(N(o, 2));
      else
        for (int64_t k = 0; k < N(o, 2) % 20; ++k)
          ds::point();
      break;
    }
  }
}

void run(const Case &c, Ctx &x)
{
  World w;
  setUp(w);
  world = &w;
  std::vector<Handler> handlers;
  ds::blocks_only_in_lib = true;
  int others = 0;
  for (const Op &o : c.ops)
    if (o.k == OP_HEAD)
      others = (int)(N(o, 0) & 3);
  // several rounds; at the end of each the program ends, so to speak
  std::vector<std::vector<std::vector<const Op *>>> p(1, std::vector<std::vector<const Op *>>((size_t)others + 1));
  for (const Op &o : c.ops)
  {
    if (o.k == 5)
    {
      if (p.size() < 3)
        p.emplace_back((size_t)others + 1);
    }
    else if (o.k == 3)
    {
      // relations between singletons are fixed from the start
      Entry &e = w.e[(size_t)(N(o, 1) % NE)];
      int64_t u = N(o, 2) % NE;
      if (N(o, 3) & 1)
        e.at_destruction = u;
      else if (u > N(o, 1) % NE && !w.e[(size_t)u].single && e.creation != MALLOC)
        e.uses = u;
    }
    else if (o.k == 1 || o.k == 2 || o.k == 6)
      p.back()[o.k == 2 ? 0 : (size_t)(N(o, 0) % (others + 1))].push_back(&o);
  }
  ds::run(scheduleOf(c), [&] {
    at_exit = &handlers;
    for (auto &round : p)
    {
      std::vector<int> ids;
      for (int t = 1; t <= others; ++t)
        ids.push_back(ds::spawn([&w, &round, t] { use(w, round[(size_t)t]); }));
      use(w, round[0]);
      for (int i : ids)
        ds::join(i);
      exitNow(w);
    }
    at_exit = nullptr;
  });
  world = nullptr;
  x.nontrivial(w.first >= 1 && w.gets > w.first && (others == 0 || ds::stats().preemptions > 0));
  if (w.contended)
    x.label("accessed while accessed");
  if (w.throws)
    x.label("constructor failed");
  if (w.dead)
    x.label("dead reference");
  if (w.reborn)
    x.label("created again");
  if (w.nested)
    x.label("used by another singleton");
  if (w.destroyed)
    x.label("destroyed");
}

Op gen()
{
  int w = (int)pick(0, 99);
  int64_t t = pick(0, 3);
  int64_t i = oneOf<int64_t>({0, 1, 2, 5, pick(0, NE - 1), pick(0, NE - 1), pick(0, NE - 1), 10});
  int64_t ns = oneOf<int64_t>({0, 100, 1001, 20000, 1000001, pick(0, 5000)});
  if (w < 50)
    return mk(1, {t, i});
  if (w < 60)
    return mk(2, {t, i, oneOf<int64_t>({0, 0, 1, 2}), ns});
  if (w < 72)
    return mk(3, {t, i, pick(0, NE - 1), coin(40)});
  if (w < 78)
    return mk(5, {});
  if (w < 88)
    return mk(6, {t, 0, coin(50) ? pick(0, 19) : ns, coin(50)});
  return decisionOp();
}

} // namespace

int main(int argc, char **argv)
{
  Sub s{"singletons", headCase(opGen([] { return headOp(oneOf<int64_t>({0, 1, 1, 2, 3})); }), opGen(gen)), run, 50000, 1500000};
  s.fork = true;
  s.timeout = 60;
  s.max_size = 40;
  return checkMain(argc, argv, "C22",
                   "histories of eleven singletons (three creation policies, the library's two lifetime policies and one that recreates, the mutex, semaphore and "
                   "unsynchronised threading models) used by up to four threads under generated schedules, with constructors that are slow, fail or use other "
                   "singletons, destructors that use other singletons, and one to three exits. Non-trivial: an instance was asked for again, and with several threads a preemption",
                   {s}, "exploration", {"memory is sequentially consistent", "exit handlers are collected by a stand-in for atexit and called in reverse order in one thread"});
}
