// Generated schedules and programs for checks on the deterministic scheduler.
#ifndef THREADS_HPP
#define THREADS_HPP
#include "detsched.hpp"
#include "vp.hpp"

namespace vp {

enum { OP_HEAD = 0, OP_DECISION = 90 };

inline Op headOp(int64_t threads, std::vector<int64_t> more = {})
{
  // policy, seed, rates
  int policy = (int)oneOf<int64_t>({0, 0, 1, 1, 1, 2});
  Op o = mk(OP_HEAD, {threads, policy, pick(1, 1000000), oneOf<int64_t>({1, 2, 2, 3, 5, 10}), oneOf<int64_t>({5, 20, 50, 200, 1000}),
                      oneOf<int64_t>({5, 20, 100})});
  for (int64_t v : more)
    o.n.push_back(v);
  return o;
}
inline Op decisionOp()
{
  int kind = (int)oneOf<int64_t>({0, 0, 0, 1, 1, 2, 3, 3});
  int64_t gap = kind == 1 ? oneOf<int64_t>({pick(0, 10), pick(0, 60), pick(0, 400)}) : oneOf<int64_t>({pick(0, 3), pick(0, 10), pick(0, 40)});
  return mk(OP_DECISION, {kind, gap, pick(0, 5)});
}
inline ds::Schedule scheduleOf(const Case &c)
{
  ds::Schedule s;
  for (const Op &o : c.ops)
    if (o.k == OP_HEAD)
    {
      s.policy = (int)N(o, 1);
      s.seed = (uint64_t)N(o, 2);
      s.rate_sync = (int)N(o, 3);
      s.rate_block = (int)N(o, 4);
      s.rate_time = (int)N(o, 5);
    }
    else if (o.k == OP_DECISION)
      s.list.push_back({(int)N(o, 0), N(o, 1), N(o, 2)});
  return s;
}

#define DS_CHECK(cond, msg)                                                                        \
  do                                                                                               \
  {                                                                                                \
    if (!(cond))                                                                                   \
    {                                                                                              \
      std::ostringstream vp_o;                                                                     \
      vp_o << msg << "   [" #cond "]";                                                             \
      ::ds::fail(vp_o.str());                                                                      \
    }                                                                                              \
  } while (0)

//! What is known from outside about who uses a lock, with room for what goes on inside its functions.
struct Usage
{
  std::map<int, int> active;   //!< threads inside a function of the lock, or holding it (counted)
  int64_t events = 0;          //!< changes of `active`
  int64_t last_end = -1;       //!< when another thread was active last
  void enter(int t)
  {
    active[t]++;
    events++;
  }
  void leave(int t)
  {
    if (--active[t] == 0)
      active.erase(t);
    events++;
    last_end = ds::now();
  }
  bool others(int t) const { return active.size() > (active.count(t) ? 1u : 0u); }
};
//! An attempt to get something within a time.
struct Attempt
{
  Usage &u;
  int me;
  bool others_before;
  int64_t events, deadline;
  static const int64_t slack = 1000000;
  Attempt(Usage &u, int me) : u(u), me(me), deadline(-1)
  {
    others_before = u.others(me);
    u.enter(me);
    events = u.events;
  }
  //! Nobody else was there in the time of the call.
  bool undisturbed() const { return !others_before && u.events == events; }
};

} // namespace vp
#endif
