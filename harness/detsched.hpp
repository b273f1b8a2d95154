// A deterministic scheduler for threads: the pthread, semaphore, clock and timer functions which the library calls are
// replaced (linker option --wrap, see wraps.txt) by models on top of a virtual clock. One thread runs at a time; where
// the next one takes over is decided by a schedule that is part of the generated case. The library is compiled with a
// callback in every basic block, so a thread can be stopped between any two of them.
#ifndef DETSCHED_HPP
#define DETSCHED_HPP
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace ds {

struct Decision
{
  int kind = 0;    //!< 0: after `gap` calls of primitives, 1: after `gap` basic blocks, 2: as 0, and the next timer fires first,
                   //!< 3: when the running thread blocks (these are used in turn)
  int64_t gap = 0;
  int64_t who = 0; //!< which of the threads that can go on
};
struct Schedule
{
  std::vector<Decision> list;
  int policy = 0;       //!< 0: only the list, then a thread runs until it blocks; 1: random walk; 2: random priorities
  uint64_t seed = 1;
  int rate_sync = 2;    //!< random walk: one switch in so many primitives
  int rate_block = 200; //!< and in so many basic blocks
  int rate_time = 40;   //!< a timer fires early in one of so many switches
};

//! Runs f as the first managed thread.
void run(const Schedule &s, const std::function<void()> &f);
//! A further thread of the test itself; returns its number.
int spawn(const std::function<void()> &f);
void join(int id);
//! A point at which another thread may take over.
void point();
//! Blocks until the condition holds; returns false if the deadline (now() based, -1 for none) comes first.
bool await(const std::function<bool()> &ready, int64_t deadline, const char *what);
//! Blocks until all the others are blocked for good (or finished).
void awaitStuck();
//! Lets virtual time pass for the calling thread.
void sleepNs(int64_t ns);
//! Virtual time since the start in nanoseconds (the monotonic clock).
int64_t now();
//! How much of it passed although some thread could have gone on, because the schedule let timers fire first.
int64_t delay();
//! The same and how long other threads ran while the calling one could have gone on.
int64_t starved();
//! CLOCK_REALTIME minus now().
int64_t realtimeOffset();
//! The system's wall clock is changed by so much.
void setWallClock(int64_t delta_ns);
int self();
//! Ends the case as failed.
[[noreturn]] void fail(const std::string &msg);

struct Stats
{
  int64_t steps = 0, blocks = 0, switches = 0, preemptions = 0, timers_fired = 0;
  int created = 0, joined = 0, live = 0;  //!< threads made with pthread_create: in total, joined or detached, not finished
  int timer_fds = 0;                      //!< open timers
  int mutexes = 0;                        //!< destroyed while locked counts as a failure
};
Stats stats();
//! Number of threads that are not finished, besides the first one.
int liveThreads();
//! When a thread had finished entirely (-1: not yet).
int64_t finishedAt(int id);
bool wasJoined(int id);
//! The number of the last thread with this pthread_t, -1 if there is none.
int idOf(unsigned long real);
//! A signal is handled by a thread that waits for a semaphore (false: it does not wait for one).
bool interrupt(int id);
//! Makes the next n-th call of pthread_create or timerfd_create fail (1: the next one).
void failCreate(int n);
//! For checks whose own code is compiled with the callback (header-only classes): basic blocks count only within an InLib.
extern bool blocks_only_in_lib;
struct InLib
{
  InLib();
  ~InLib();
  InLib(const InLib &) = delete;
};
//! Within an InLib, code of the check again (called from the library).
struct OutLib
{
  int was;
  OutLib();
  ~OutLib();
  OutLib(const OutLib &) = delete;
};
//! Called with the name of the primitive whenever a thread blocks.
extern std::function<void(int id, const char *what)> on_block;
//! Virtual time after which a case counts as never ending.
extern int64_t time_limit;
extern int64_t step_limit;

} // namespace ds
#endif
