#include "detsched.hpp"
#include <algorithm>
#include <cerrno>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <memory>
#include <pthread.h>
#include <semaphore.h>
#include <set>
#include <sys/time.h>
#include <sys/timerfd.h>
#include <time.h>
#include <unistd.h>

namespace vp { [[noreturn]] void failNow(const std::string &msg); }

#define REAL(ret, name, args) extern "C" ret __real_##name args
REAL(int, pthread_create, (pthread_t *, const pthread_attr_t *, void *(*)(void *), void *));
REAL(int, pthread_join, (pthread_t, void **));
REAL(int, pthread_detach, (pthread_t));
REAL(void, pthread_exit, (void *));
REAL(int, sem_init, (sem_t *, int, unsigned));
REAL(int, sem_wait, (sem_t *));
REAL(int, sem_post, (sem_t *));
REAL(int, clock_gettime, (clockid_t, struct timespec *));
REAL(int, gettimeofday, (struct timeval *, void *));
REAL(time_t, time, (time_t *));
REAL(ssize_t, read, (int, void *, size_t));
REAL(int, close, (int));
REAL(int, nanosleep, (const struct timespec *, struct timespec *));
REAL(int, __cxa_guard_acquire, (uint64_t *));
REAL(void, __cxa_guard_release, (uint64_t *));
REAL(void, __cxa_guard_abort, (uint64_t *));

namespace ds {

std::function<void(int, const char *)> on_block;
bool blocks_only_in_lib = false;
static thread_local int in_lib = 0;
InLib::InLib() { ++in_lib; }
InLib::~InLib() { --in_lib; }
OutLib::OutLib() : was(in_lib) { in_lib = 0; }
OutLib::~OutLib() { in_lib = was; }
int64_t time_limit = 100000LL * 1000000000LL;
int64_t step_limit = 10000000;

namespace {

const int64_t WALL0 = 1700000000LL * 1000000000LL;
const int64_t MONO0 = 5000LL * 1000000000LL;

struct Thread
{
  int id = 0;
  pthread_t real = 0;
  enum State { RUN, BLOCKED, DONE } state = RUN;
  const std::function<bool()> *ready = nullptr;
  int64_t deadline = -1;
  const char *what = "";
  sem_t go;
  void *(*fn)(void *) = nullptr;
  void *arg = nullptr;
  void *ret = nullptr;
  bool interrupted = false; // a signal handler ran while it waited
  bool is_pthread = false, joined = false, detached = false, cancel = false, cancellable = false, cancelled = false;
  std::function<void()> body;
  uint64_t prio = 0;
  int64_t last_run = 0;
  int64_t starved = 0; // how long others ran while this could have gone on
  int64_t finished = -1;
};

std::vector<std::unique_ptr<Thread>> threads;
thread_local Thread *me = nullptr;
Thread *cur = nullptr;
bool active = false;
bool inside = false; // the scheduler itself runs
int64_t vt = 0;      // virtual monotonic time
int64_t unfair = 0;
int64_t wall = WALL0;
Schedule sched;
size_t di = 0;
std::vector<Decision> forced;
size_t fi = 0;
int64_t since_sync = 0, since_block = 0; // since the last decision
int64_t spinning = 0, since_jump = 0; // steps, and those since time jumped
Stats st;
uint64_t rng = 1;
int fail_create = 0;

uint64_t rnd()
{
  rng ^= rng << 13;
  rng ^= rng >> 7;
  rng ^= rng << 17;
  return rng * 2685821657736338717ULL >> 11;
}

struct Mutex
{
  int type = PTHREAD_MUTEX_NORMAL;
  int owner = -1;
  int count = 0;
  int waiters = 0;
};
struct RW
{
  int writer = -1;
  std::map<int, int> readers;
  int waiters = 0;
};
struct Cond
{
  uint64_t seq = 0;                 // signals so far
  std::vector<int *> waiting;       // flags of the waiters, in order
};
struct Sem
{
  int64_t value = 0;
  int waiters = 0;
};
struct Timer
{
  int64_t next = -1, interval = 0;
  bool wall = false;
};
std::map<const void *, Mutex> &mutexesTable()
{
  static auto *all = new std::map<const void *, Mutex>; // static initialisers use it, too
  return *all;
}
//! Mutexes and rwlocks.
std::set<const void *> &destroyedTable()
{
  static auto *all = new std::set<const void *>; // static initialisers use it, too
  return *all;
}
std::map<const void *, RW> &rwsTable()
{
  static auto *all = new std::map<const void *, RW>; // static initialisers use it, too
  return *all;
}
std::map<const void *, Cond> &condsTable()
{
  static auto *all = new std::map<const void *, Cond>; // static initialisers use it, too
  return *all;
}
std::map<const void *, Sem> &semsTable()
{
  static auto *all = new std::map<const void *, Sem>; // static initialisers use it, too
  return *all;
}
std::map<int, Timer> &timersTable()
{
  static auto *all = new std::map<int, Timer>; // static initialisers use it, too
  return *all;
}

bool managed() { return active && me && !inside; }
int myId() { return me ? me->id : 0; }

bool enabled(Thread *t)
{
  if (t->state == Thread::RUN)
    return true;
  if (t->state == Thread::DONE)
    return false;
  return (*t->ready)() || (t->deadline >= 0 && t->deadline <= vt) || (t->cancel && t->cancellable);
}

std::string describe()
{
  std::string s;
  for (auto &t : threads)
    if (t->state == Thread::BLOCKED)
      s += " thread " + std::to_string(t->id) + " waits in " + t->what + ";";
  return s;
}

int64_t earliest()
{
  int64_t e = -1;
  for (auto &t : threads)
    if (t->state == Thread::BLOCKED && t->deadline >= 0 && (e < 0 || t->deadline < e))
      e = t->deadline;
  return e;
}

int64_t turn_start = 0; // since when the current thread runs, without time that jumped

void jump(int64_t to)
{
  if (to <= vt)
    return;
  // time that passes although a thread could go on
  for (auto &t : threads)
    if (enabled(t.get()) || (t->state == Thread::BLOCKED && t->deadline >= 0 && t->deadline < to))
    {
      unfair += to - vt;
      break;
    }
  turn_start += to - vt;
  vt = to;
  since_jump = 0;
  st.timers_fired++;
}

//! The threads that can go on, other than `not_me`; lets time pass until there is one if `must`.
std::vector<Thread *> candidates(Thread *not_me, bool must)
{
  for (;;)
  {
    std::vector<Thread *> v;
    for (auto &t : threads)
      if (t.get() != not_me && enabled(t.get()))
        v.push_back(t.get());
    if (!v.empty() || !must)
      return v;
    if (not_me && enabled(not_me))
      return v;
    int64_t e = earliest();
    if (e < 0)
      fail("deadlock:" + describe());
    jump(e);
    if (vt > time_limit)
      fail("never ends, threads only wait for time to pass:" + describe());
  }
}


void handOver(Thread *from, Thread *to, bool wait)
{
  st.switches++;
  for (auto &t : threads)
    if (t.get() != from && enabled(t.get()))
      t->starved += vt - (t->state == Thread::BLOCKED && t->deadline >= turn_start && t->deadline <= vt ? t->deadline : turn_start);
  turn_start = vt;
  if (from)
    from->last_run = st.steps + st.blocks;
  cur = to;
  if (from == to)
    return;
  __real_sem_post(&to->go);
  if (wait)
    while (__real_sem_wait(&from->go) != 0)
      ;
}

Thread *choose(const std::vector<Thread *> &v, int64_t who)
{
  if (sched.policy == 2)
  {
    Thread *b = v[0];
    for (Thread *t : v)
      if (t->prio > b->prio)
        b = t;
    return b;
  }
  // the threads in their order, beginning behind the current one
  std::vector<Thread *> w(v);
  int c = cur ? cur->id : 0;
  std::stable_sort(w.begin(), w.end(), [c](Thread *a, Thread *b) { return (a->id > c ? 0 : 1) < (b->id > c ? 0 : 1); });
  return w[(size_t)(who < 0 ? -who : who) % w.size()];
}

//! The running thread cannot go on (blocked or finished).
void away(Thread *t, bool wait)
{
  std::vector<Thread *> v = candidates(nullptr, true);
  int64_t who = 0;
  if (fi < forced.size())
    who = forced[fi++].who;
  else if (sched.policy == 1)
    who = (int64_t)(rnd() >> 8);
  if (sched.policy && earliest() >= 0 && rnd() % (uint64_t)sched.rate_time == 0)
  {
    jump(earliest());
    v = candidates(nullptr, true);
  }
  handOver(t, choose(v, who), wait);
}

void preempt(int64_t who, bool time)
{
  Thread *t = cur;
  if (time)
  {
    int64_t e = earliest();
    if (e >= 0)
      jump(e);
  }
  std::vector<Thread *> v = candidates(t, false);
  if (v.empty())
    return;
  st.preemptions++;
  Thread *n = sched.policy == 2 ? v[(size_t)(who < 0 ? -who : who) % v.size()] : choose(v, who);
  handOver(t, n, true);
}

void step(bool sync)
{
  if (sync)
  {
    st.steps++;
    vt += 20;
    since_sync++;
  }
  else
  {
    st.blocks++;
    vt += 1;
    since_block++;
  }
  spinning++;
  since_jump++;
  int64_t total = st.steps + st.blocks;
  if (total > 200000 && total % 1000 == 0)
    jump(vt + (1000000LL << std::min<int64_t>(10, total / 500000))); // threads that spin while others sleep for long
  if (total > step_limit)
    fail("never ends, threads keep running:" + describe());
  bool sw = false, time = false;
  int64_t who = 0;
  if (di < sched.list.size())
  {
    const Decision &d = sched.list[di];
    if ((d.kind == 1 ? !sync && since_block > d.gap : sync && since_sync > d.gap))
    {
      sw = true;
      who = d.who;
      time = d.kind == 2;
      ++di;
      since_sync = since_block = 0;
    }
  }
  else if (sched.policy == 1)
  {
    if (rnd() % (uint64_t)(sync ? sched.rate_sync : sched.rate_block) == 0)
    {
      sw = true;
      who = (int64_t)(rnd() >> 8);
      time = rnd() % (uint64_t)sched.rate_time == 0;
    }
  }
  else if (sched.policy == 2 && rnd() % (uint64_t)(sync ? sched.rate_sync * 4 : sched.rate_block * 4) == 0)
  {
    // the priority of the running thread changes
    cur->prio = rnd() % 2 ? 0 : rnd();
    std::vector<Thread *> v = candidates(nullptr, false);
    Thread *n = choose(v, 0);
    if (n != cur)
    {
      st.preemptions++;
      handOver(cur, n, true);
    }
    return;
  }
  if (spinning > 4000 && spinning % 4000 == 1)
  {
    // fairness: every thread gets its turn, and time passes
    if (since_jump > 40000 && earliest() >= 0)
      jump(earliest());
    std::vector<Thread *> v = candidates(cur, false);
    if (v.empty())
      return;
    Thread *n = v[0];
    uint64_t top = cur->prio;
    for (Thread *t : v)
    {
      if (t->last_run < n->last_run)
        n = t;
      top = std::max(top, t->prio);
    }
    if (total - n->last_run < 4000)
      return;
    n->prio = top + 1;
    st.preemptions++;
    handOver(cur, n, true);
    return;
  }
  if (sw)
    preempt(who, time);
}

struct In
{
  In() { inside = true; }
  ~In() { inside = false; }
};

//! A point before a primitive.
void syncPoint()
{
  if (!managed())
    return;
  In in;
  step(true);
}

struct Cancelled
{
};
void cancelPoint()
{
  if (me && me->cancel && !me->cancelled)
  {
    me->cancelled = true;
    me->cancel = false;
    throw Cancelled(); // unwinds as pthread_exit does
  }
}

bool wait(const std::function<bool()> &ready, int64_t deadline, const char *what, bool cancellable = false)
{
  if (!managed())
  {
    if (ready())
      return true;
    if (deadline >= 0)
      return false;
    fprintf(stderr, "unmanaged thread blocks in %s\n", what);
    abort();
  }
  if (cancellable)
    cancelPoint();
  bool r;
  {
    In in;
    Thread *t = me;
    r = ready();
    if (!r && !(deadline >= 0 && deadline <= vt))
    {
      if (on_block)
        on_block(t->id, what);
      t->state = Thread::BLOCKED;
      t->ready = &ready;
      t->deadline = deadline;
      t->what = what;
      t->cancellable = cancellable;
      away(t, true);
      t->state = Thread::RUN;
      t->cancellable = false;
      r = ready();
    }
  }
  if (!r && cancellable)
    cancelPoint();
  return r;
}

int64_t toMono(const struct timespec *ts, bool realtime)
{
  __int128 v = (__int128)ts->tv_sec * 1000000000 + ts->tv_nsec - (realtime ? wall : MONO0);
  if (v < 0)
    v = 0;
  if (v > INT64_MAX / 2)
    v = INT64_MAX / 2;
  return (int64_t)v;
}
bool badTs(const struct timespec *ts) { return ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000; }

void finish(Thread *t)
{
  t->state = Thread::DONE;
  t->finished = vt;
  inside = true;
  me = nullptr;
  away(t, false);
  // `inside` is reset by whoever goes on
}
struct Finisher
{
  Thread *t;
  ~Finisher() { finish(t); }
};

void *trampoline(void *p)
{
  Thread *t = (Thread *)p;
  while (__real_sem_wait(&t->go) != 0)
    ;
  me = t;
  inside = false;
  Finisher f{t};
  if (t->is_pthread)
    try
    {
      t->ret = t->fn(t->arg);
    }
    catch (Cancelled &)
    {
      t->ret = PTHREAD_CANCELED;
    }
  else
  {
    t->body();
    t->body = nullptr;
  }
  return t->ret;
}

Thread *newThread()
{
  threads.emplace_back(new Thread);
  Thread *t = threads.back().get();
  t->id = (int)threads.size() - 1;
  t->prio = rnd();
  __real_sem_init(&t->go, 0, 0);
  return t;
}
Thread *byReal(pthread_t p)
{
  Thread *f = nullptr;
  for (auto &t : threads)
    if (t->is_pthread && t->real == p && !t->joined)
      f = t.get();
  return f;
}

} // namespace

void run(const Schedule &s, const std::function<void()> &f)
{
  sched = s;
  sched.list.clear();
  for (auto &d : s.list)
    (d.kind == 3 ? forced : sched.list).push_back(d);
  if (sched.rate_sync < 1)
    sched.rate_sync = 1;
  if (sched.rate_block < 1)
    sched.rate_block = 1;
  if (sched.rate_time < 1)
    sched.rate_time = 1;
  rng = s.seed * 2654435769u + 88172645463325252ULL;
  Thread *t = newThread();
  t->real = pthread_self();
  me = cur = t;
  active = true;
  f();
  active = false;
  me = nullptr;
}
int spawn(const std::function<void()> &f)
{
  Thread *t;
  {
    In in;
    t = newThread();
    t->body = f;
    if (__real_pthread_create(&t->real, nullptr, trampoline, t) != 0)
      fail("harness thread not created");
  }
  syncPoint();
  return t->id;
}
void join(int id)
{
  syncPoint();
  Thread *t = threads[(size_t)id].get();
  wait([t] { return t->state == Thread::DONE; }, -1, "join of a test thread");
  if (!t->joined)
  {
    t->joined = true;
    __real_pthread_join(t->real, nullptr);
  }
}
void point() { syncPoint(); }
bool await(const std::function<bool()> &ready, int64_t deadline, const char *what)
{
  syncPoint();
  return wait(ready, deadline, what);
}
void awaitStuck()
{
  syncPoint();
  Thread *m = me;
  wait([m] {
    for (auto &t : threads)
      if (t.get() != m && t->state != Thread::DONE && (t->state == Thread::RUN || t->deadline >= 0 || enabled(t.get())))
        return false;
    return true;
  }, -1, "wait for the others to be stuck");
}
void sleepNs(int64_t ns)
{
  syncPoint();
  wait([] { return false; }, vt + std::max<int64_t>(ns, 0), "sleep");
}
int64_t now() { return vt; }
int64_t delay() { return unfair; }
int64_t starved() { return unfair + (cur ? cur->starved : 0); }
int64_t realtimeOffset() { return wall; }
bool interrupt(int id)
{
  for (auto &t : threads)
    if (t->id == id && t->state == Thread::BLOCKED && !strncmp(t->what, "sem_", 4))
      return t->interrupted = true;
  return false;
}
void setWallClock(int64_t d) { wall += d; }
int self() { return me ? me->id : -1; }
void fail(const std::string &msg)
{
  vp::failNow(msg);
  abort();
}
Stats stats()
{
  Stats s = st;
  s.live = 0;
  for (auto &t : threads)
    if (t->is_pthread)
    {
      s.created++;
      if (t->joined || t->detached)
        s.joined++;
      if (t->state != Thread::DONE)
        s.live++;
    }
  s.timer_fds = (int)timersTable().size();
  s.mutexes = (int)mutexesTable().size();
  return s;
}
int liveThreads()
{
  int n = 0;
  for (size_t i = 1; i < threads.size(); ++i)
    n += threads[i]->state != Thread::DONE;
  return n;
}
int64_t finishedAt(int id) { return threads[(size_t)id]->finished; }
bool wasJoined(int id) { return threads[(size_t)id]->joined || threads[(size_t)id]->detached; }
int idOf(unsigned long real)
{
  for (size_t i = threads.size(); i-- > 0;)
    if (threads[i]->is_pthread && (unsigned long)threads[i]->real == real)
      return (int)i;
  return -1;
}
void failCreate(int n) { fail_create = n; }

} // namespace ds

using namespace ds;

extern "C" {

void __sanitizer_cov_trace_pc()
{
  if (active && me && !inside && (in_lib || !blocks_only_in_lib))
  {
    In in;
    step(false);
  }
}

// ---- threads ------------------------------------------------------------------------------------
int __wrap_pthread_create(pthread_t *p, const pthread_attr_t *a, void *(*fn)(void *), void *arg)
{
  if (!active || !me)
    return __real_pthread_create(p, a, fn, arg);
  syncPoint();
  if (fail_create && --fail_create == 0)
    return EAGAIN;
  {
    In in;
    Thread *t = newThread();
    t->is_pthread = true;
    t->fn = fn;
    t->arg = arg;
    int detached = PTHREAD_CREATE_JOINABLE;
    if (a)
      pthread_attr_getdetachstate(a, &detached);
    t->detached = detached == PTHREAD_CREATE_DETACHED;
    if (int e = __real_pthread_create(&t->real, nullptr, trampoline, t))
    {
      threads.pop_back();
      return e;
    }
    *p = t->real;
  }
  syncPoint();
  return 0;
}
int __wrap_pthread_join(pthread_t p, void **ret)
{
  if (!active || !me)
    return __real_pthread_join(p, ret);
  syncPoint();
  Thread *t = byReal(p);
  if (!t)
    fail("pthread_join of something that is no thread, or was joined already");
  if (t->detached)
    fail("pthread_join of a detached thread");
  if (t == me)
    return EDEADLK;
  wait([t] { return t->state == Thread::DONE; }, -1, "pthread_join", true);
  if (t->joined)
    fail("a thread is joined twice");
  t->joined = true;
  if (ret)
    *ret = t->ret;
  return __real_pthread_join(p, nullptr);
}
int __wrap_pthread_detach(pthread_t p)
{
  if (!active || !me)
    return __real_pthread_detach(p);
  syncPoint();
  Thread *t = byReal(p);
  if (!t)
    fail("pthread_detach of something that is no thread");
  t->detached = true;
  return 0;
}
int __wrap_pthread_cancel(pthread_t p)
{
  syncPoint();
  Thread *t = byReal(p);
  if (!t)
    fail("pthread_cancel of something that is no thread");
  if (t->state != Thread::DONE)
    t->cancel = true;
  syncPoint();
  return 0;
}
void __wrap_pthread_testcancel() { syncPoint(); cancelPoint(); }
void __wrap_pthread_exit(void *r)
{
  if (me && me->is_pthread)
    throw Cancelled();
  __real_pthread_exit(r);
  abort();
}
int __wrap_sched_yield()
{
  if (!managed())
    return 0;
  syncPoint();
  In in;
  preempt(0, false);
  return 0;
}
int __wrap_pthread_yield() { return __wrap_sched_yield(); }

// ---- mutexes ------------------------------------------------------------------------------------
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{
  Mutex x;
  if (a)
    pthread_mutexattr_gettype(a, &x.type);
  mutexesTable()[m] = x;
  destroyedTable().erase(m);
  return 0;
}
static Mutex &mutexOf(pthread_mutex_t *m)
{
  auto it = mutexesTable().find(m);
  if (it == mutexesTable().end())
  {
    if (active && destroyedTable().count(m))
      fail("a mutex is used after it was destroyed");
    Mutex x;
    x.type = m->__data.__kind & 3;
    it = mutexesTable().insert({m, x}).first;
  }
  return it->second;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m)
{
  syncPoint();
  auto it = mutexesTable().find(m);
  if (it != mutexesTable().end())
  {
    if (active && it->second.waiters)
      fail("a mutex is destroyed while a thread waits for it");
    if (it->second.count)
    {
      if (active)
        fail("a mutex is destroyed while it is locked");
      return EBUSY;
    }
    mutexesTable().erase(it);
    destroyedTable().insert(m);
  }
  return 0;
}
static int mutexLock(pthread_mutex_t *m, int64_t deadline, bool try_only)
{
  syncPoint();
  Mutex &x = mutexOf(m);
  int id = myId();
  if (x.count && x.owner == id)
  {
    if (x.type == PTHREAD_MUTEX_RECURSIVE)
    {
      x.count++;
      return 0;
    }
    if (try_only)
      return EBUSY;
    if (x.type == PTHREAD_MUTEX_ERRORCHECK)
      return EDEADLK;
  }
  if (x.count && try_only)
    return EBUSY;
  if (x.count)
  {
    x.waiters++;
    Mutex *px = &x;
    bool ok = wait([px] { return px->count == 0; }, deadline, "pthread_mutex_lock");
    x.waiters--;
    if (!ok)
      return ETIMEDOUT;
  }
  x.owner = id;
  x.count = 1;
  return 0;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { return mutexLock(m, -1, false); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { return mutexLock(m, -1, true); }
int __wrap_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts)
{
  if (badTs(ts))
    return mutexLock(m, -1, true) == 0 ? 0 : EINVAL;
  return mutexLock(m, toMono(ts, true), false);
}
int __wrap_pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const struct timespec *ts)
{
  if (badTs(ts))
    return mutexLock(m, -1, true) == 0 ? 0 : EINVAL;
  return mutexLock(m, toMono(ts, c == CLOCK_REALTIME), false);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
  syncPoint();
  Mutex &x = mutexOf(m);
  if (!x.count || x.owner != myId())
  {
    if (x.type != PTHREAD_MUTEX_NORMAL)
      return EPERM;
    if (!x.count)
      return 0;
  }
  if (--x.count == 0)
    x.owner = -1;
  syncPoint();
  return 0;
}

// ---- read/write locks -----------------------------------------------------------------------------
int __wrap_pthread_rwlock_init(pthread_rwlock_t *m, const pthread_rwlockattr_t *) { rwsTable()[m] = RW(); destroyedTable().erase(m); return 0; }
int __wrap_pthread_rwlock_destroy(pthread_rwlock_t *m)
{
  syncPoint();
  RW &x = rwsTable()[m];
  if (active && (x.waiters || x.writer >= 0 || !x.readers.empty()))
    fail("a read/write lock is destroyed while it is in use");
  rwsTable().erase(m);
  destroyedTable().insert(m);
  return 0;
}
static int rwLock(pthread_rwlock_t *m, bool write, int64_t deadline, bool try_only)
{
  syncPoint();
  if (active && destroyedTable().count(m))
    fail("a read/write lock is used after it was destroyed");
  RW *x = &rwsTable()[m];
  int id = myId();
  if (x->writer == id && x->writer >= 0)
    return try_only ? EBUSY : EDEADLK;
  std::function<bool()> free = [x, write] { return x->writer < 0 && (!write || x->readers.empty()); };
  if (!free())
  {
    if (try_only)
      return EBUSY;
    x->waiters++;
    bool ok = wait(free, deadline, write ? "pthread_rwlock_wrlock" : "pthread_rwlock_rdlock");
    x->waiters--;
    if (!ok)
      return ETIMEDOUT;
  }
  if (write)
    x->writer = id;
  else
    x->readers[id]++;
  return 0;
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m) { return rwLock(m, false, -1, false); }
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t *m) { return rwLock(m, false, -1, true); }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m) { return rwLock(m, true, -1, false); }
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t *m) { return rwLock(m, true, -1, true); }
int __wrap_pthread_rwlock_timedrdlock(pthread_rwlock_t *m, const struct timespec *ts)
{
  if (badTs(ts))
    return rwLock(m, false, -1, true) == 0 ? 0 : EINVAL;
  return rwLock(m, false, toMono(ts, true), false);
}
int __wrap_pthread_rwlock_timedwrlock(pthread_rwlock_t *m, const struct timespec *ts)
{
  if (badTs(ts))
    return rwLock(m, true, -1, true) == 0 ? 0 : EINVAL;
  return rwLock(m, true, toMono(ts, true), false);
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *m)
{
  syncPoint();
  RW &x = rwsTable()[m];
  int id = myId();
  if (x.writer == id && x.writer >= 0)
    x.writer = -1;
  else if (x.readers.count(id))
  {
    if (--x.readers[id] == 0)
      x.readers.erase(id);
  }
  else if (active)
    fail("a read/write lock is unlocked by a thread that does not hold it");
  syncPoint();
  return 0;
}

// ---- condition variables ----------------------------------------------------------------------------
int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { condsTable()[c] = Cond(); return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t *c)
{
  if (active && condsTable().count(c) && !condsTable()[c].waiting.empty())
    fail("a condition variable is destroyed while a thread waits for it");
  condsTable().erase(c);
  return 0;
}
static int condWait(pthread_cond_t *c, pthread_mutex_t *m, int64_t deadline)
{
  Cond *x = &condsTable()[c];
  int flag = 0;
  x->waiting.push_back(&flag);
  Mutex &mx = mutexOf(m);
  int count = mx.count;
  mx.count = 0;
  mx.owner = -1;
  bool ok = wait([&flag] { return flag != 0; }, deadline, "pthread_cond_wait", true);
  auto it = std::find(x->waiting.begin(), x->waiting.end(), &flag);
  if (it != x->waiting.end())
    x->waiting.erase(it);
  mutexLock(m, -1, false);
  mutexOf(m).count = count;
  return ok ? 0 : ETIMEDOUT;
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { syncPoint(); return condWait(c, m, -1); }
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts)
{
  syncPoint();
  return badTs(ts) ? EINVAL : condWait(c, m, toMono(ts, true));
}
int __wrap_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts)
{
  syncPoint();
  return badTs(ts) ? EINVAL : condWait(c, m, toMono(ts, k == CLOCK_REALTIME));
}
int __wrap_pthread_cond_signal(pthread_cond_t *c)
{
  syncPoint();
  Cond &x = condsTable()[c];
  if (!x.waiting.empty())
  {
    *x.waiting.front() = 1;
    x.waiting.erase(x.waiting.begin());
  }
  return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t *c)
{
  syncPoint();
  Cond &x = condsTable()[c];
  for (int *f : x.waiting)
    *f = 1;
  x.waiting.clear();
  return 0;
}

// ---- semaphores ---------------------------------------------------------------------------------------
int __wrap_sem_init(sem_t *s, int, unsigned v)
{
  if (v > (unsigned)INT_MAX)
  {
    errno = EINVAL;
    return -1;
  }
  semsTable()[s] = Sem();
  semsTable()[s].value = v;
  return 0;
}
int __wrap_sem_destroy(sem_t *s)
{
  syncPoint();
  if (active && semsTable().count(s) && semsTable()[s].waiters)
    fail("a semaphore is destroyed while a thread waits for it");
  semsTable().erase(s);
  return 0;
}
static Sem *semOf(sem_t *s)
{
  auto it = semsTable().find(s);
  if (it == semsTable().end())
    fail("a semaphore is used that was not initialised or was destroyed already");
  return &it->second;
}
static int semWait(sem_t *s, int64_t deadline, bool try_only, const char *what)
{
  syncPoint();
  Sem *x = semOf(s);
  if (try_only && x->value == 0)
  {
    errno = EAGAIN;
    return -1;
  }
  if (x->value == 0)
  {
    struct Waiting // also when the thread is cancelled
    {
      sem_t *s;
      explicit Waiting(sem_t *s) : s(s) { semsTable()[s].waiters++; }
      ~Waiting()
      {
        if (semsTable().count(s))
          semsTable()[s].waiters--;
      }
    } w(s);
    Thread *t = me;
    bool ok = wait([s, t] { return (t && t->interrupted) || (semsTable().count(s) && semsTable()[s].value > 0); }, deadline, what, true);
    bool sig = t && t->interrupted;
    if (sig)
      t->interrupted = false;
    if (ok && sig && semOf(s)->value == 0)
    {
      errno = EINTR;
      return -1;
    }
    if (!ok)
    {
      errno = ETIMEDOUT;
      return -1;
    }
  }
  semOf(s)->value--;
  return 0;
}
int __wrap_sem_wait(sem_t *s) { return semWait(s, -1, false, "sem_wait"); }
int __wrap_sem_trywait(sem_t *s) { return semWait(s, -1, true, "sem_trywait"); }
int __wrap_sem_timedwait(sem_t *s, const struct timespec *ts)
{
  if (badTs(ts))
  {
    if (semWait(s, -1, true, "") == 0)
      return 0;
    errno = EINVAL;
    return -1;
  }
  return semWait(s, toMono(ts, true), false, "sem_timedwait");
}
int __wrap_sem_clockwait(sem_t *s, clockid_t c, const struct timespec *ts)
{
  return semWait(s, toMono(ts, c == CLOCK_REALTIME), false, "sem_clockwait");
}
int __wrap_sem_post(sem_t *s)
{
  syncPoint();
  semOf(s)->value++;
  syncPoint();
  return 0;
}
int __wrap_sem_getvalue(sem_t *s, int *v) { *v = (int)semOf(s)->value; return 0; }

// ---- time -----------------------------------------------------------------------------------------------
int __wrap_clock_gettime(clockid_t c, struct timespec *ts)
{
  if (!active || !me)
    return __real_clock_gettime(c, ts);
  syncPoint();
  vt += 10;
  int64_t t = vt + (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? wall : MONO0);
  ts->tv_sec = t / 1000000000;
  ts->tv_nsec = t % 1000000000;
  return 0;
}
int __wrap_gettimeofday(struct timeval *tv, void *z)
{
  if (!active || !me)
    return __real_gettimeofday(tv, z);
  struct timespec ts;
  __wrap_clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
time_t __wrap_time(time_t *t)
{
  if (!active || !me)
    return __real_time(t);
  struct timespec ts;
  __wrap_clock_gettime(CLOCK_REALTIME, &ts);
  if (t)
    *t = ts.tv_sec;
  return ts.tv_sec;
}
int __wrap_nanosleep(const struct timespec *ts, struct timespec *rem)
{
  if (!active || !me)
    return __real_nanosleep(ts, rem);
  if (badTs(ts) || ts->tv_sec < 0)
  {
    errno = EINVAL;
    return -1;
  }
  syncPoint();
  wait([] { return false; }, vt + ts->tv_sec * 1000000000LL + ts->tv_nsec, "nanosleep", true);
  return 0;
}
int __wrap_clock_nanosleep(clockid_t c, int flags, const struct timespec *ts, struct timespec *rem)
{
  if (!active || !me || !(flags & TIMER_ABSTIME))
    return __wrap_nanosleep(ts, rem) == 0 ? 0 : errno;
  syncPoint();
  wait([] { return false; }, toMono(ts, c == CLOCK_REALTIME), "clock_nanosleep", true);
  return 0;
}
int __wrap_usleep(useconds_t us)
{
  struct timespec ts = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
  return __wrap_nanosleep(&ts, nullptr);
}
unsigned __wrap_sleep(unsigned s)
{
  struct timespec ts = {(time_t)s, 0};
  __wrap_nanosleep(&ts, nullptr);
  return 0;
}
int __wrap_timerfd_create(int clock, int)
{
  syncPoint();
  if (fail_create && --fail_create == 0)
  {
    errno = EMFILE;
    return -1;
  }
  int fd = open("/dev/null", O_RDONLY);
  timersTable()[fd] = Timer();
  timersTable()[fd].wall = clock == CLOCK_REALTIME;
  return fd;
}
int __wrap_timerfd_settime(int fd, int flags, const struct itimerspec *v, struct itimerspec *old)
{
  syncPoint();
  if (!timersTable().count(fd))
  {
    errno = EBADF;
    return -1;
  }
  if (badTs(&v->it_value) || badTs(&v->it_interval) || v->it_value.tv_sec < 0 || v->it_interval.tv_sec < 0)
  {
    errno = EINVAL;
    return -1;
  }
  Timer &t = timersTable()[fd];
  if (old)
    memset(old, 0, sizeof *old);
  t.interval = v->it_interval.tv_sec * 1000000000LL + v->it_interval.tv_nsec;
  if (v->it_value.tv_sec == 0 && v->it_value.tv_nsec == 0)
    t.next = -1;
  else if (flags & TFD_TIMER_ABSTIME)
    t.next = toMono(&v->it_value, t.wall);
  else
    t.next = vt + v->it_value.tv_sec * 1000000000LL + v->it_value.tv_nsec;
  return 0;
}
ssize_t __wrap_read(int fd, void *buf, size_t n)
{
  if (!active || !me || !timersTable().count(fd))
    return __real_read(fd, buf, n);
  syncPoint();
  if (n < 8)
  {
    errno = EINVAL;
    return -1;
  }
  for (;;)
  {
    auto it = timersTable().find(fd);
    if (it == timersTable().end())
    {
      errno = EBADF;
      return -1;
    }
    Timer &t = it->second;
    if (t.next >= 0 && t.next <= vt)
    {
      uint64_t k = 1;
      if (t.interval > 0)
      {
        k += (uint64_t)((vt - t.next) / t.interval);
        t.next += (int64_t)k * t.interval;
      }
      else
        t.next = -1;
      memcpy(buf, &k, 8);
      return 8;
    }
    // may be set anew by another thread meanwhile
    int64_t seen = t.next;
    wait([fd, seen] { auto i = timersTable().find(fd); return i == timersTable().end() || i->second.next != seen; }, t.next, "read of a timer", true);
  }
}
int __wrap_close(int fd)
{
  timersTable().erase(fd);
  return __real_close(fd);
}

// ---- initialisation of local statics ------------------------------------------------------------------------
int __wrap___cxa_guard_acquire(uint64_t *g)
{
  volatile char *b = (volatile char *)g;
  if (!active || !me)
  {
    if (b[0])
      return 0;
    b[1] = 1;
    return 1;
  }
  if (b[0])
    return 0;
  wait([b] { return b[0] || !b[1]; }, -1, "initialisation of a static");
  if (b[0])
    return 0;
  b[1] = 1;
  return 1;
}
void __wrap___cxa_guard_release(uint64_t *g)
{
  volatile char *b = (volatile char *)g;
  b[0] = 1;
  b[1] = 0;
}
void __wrap___cxa_guard_abort(uint64_t *g) { ((volatile char *)g)[1] = 0; }

} // extern "C"
