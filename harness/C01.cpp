// vp: profile=asanub mods=core wrap=gettimeofday,clock_gettime
// Time values: exact arithmetic, order and unit conversion against a 128 bit nanosecond count.
#include "vp.hpp"
#include <icl_core/TimeSpan.h>
#include <icl_core/TimeStamp.h>
#include <sys/time.h>
using namespace vp;
using icl_core::TimeSpan;
using icl_core::TimeStamp;
typedef __int128 I;

static int64_t fake_s = 1000, fake_us = 0;
extern "C" int __wrap_gettimeofday(struct timeval *tv, void *)
{
  tv->tv_sec = fake_s;
  tv->tv_usec = fake_us;
  return 0;
}
extern "C" int __wrap_clock_gettime(clockid_t, struct timespec *ts)
{
  ts->tv_sec = fake_s;
  ts->tv_nsec = fake_us * 1000;
  return 0;
}

static const I G = 1000000000;
static std::string show(I v)
{
  bool neg = v < 0;
  if (neg)
    v = -v;
  std::string r;
  do
  {
    r.insert(r.begin(), char('0' + (int)(v % 10)));
    v /= 10;
  } while (v);
  return (neg ? "-" : "") + r;
}
template <class T>
static I val(const T &t)
{
  return (I)(int64_t)t.tsSec() * G + (int32_t)t.tsNSec();
}
template <class T>
static void canonical(const T &t, const char *what)
{
  int64_t s = (int64_t)t.tsSec();
  int32_t n = (int32_t)t.tsNSec();
  VP_CHECK(n > -1000000000 && n < 1000000000, what << ": nanoseconds out of range: " << n);
  VP_CHECK(!(s > 0 && n < 0) && !(s < 0 && n > 0), what << ": mixed signs " << s << " " << n);
}
#define SAME(t, want, what)                                                                        \
  do                                                                                               \
  {                                                                                                \
    canonical(t, what);                                                                            \
    VP_CHECK(val(t) == (want), what << ": got " << show(val(t)) << " ns, expected " << show(want)); \
  } while (0)

static const int64_t LIM = 1LL << 60;

// value from an op argument pair
static TimeSpan span(const Op &o, size_t i) { return TimeSpan(N(o, i), (int32_t)N(o, i + 1)); }
static I ex(const Op &o, size_t i) { return (I)N(o, i) * G + N(o, i + 1); }

static void runPair(const Case &c, Ctx &x)
{
  for (const Op &o : c.ops)
  {
    TimeSpan a = span(o, 0), b = span(o, 2);
    I va = ex(o, 0), vb = ex(o, 2);
    SAME(a, va, "TimeSpan(sec,nsec)");
    SAME(b, vb, "TimeSpan(sec,nsec)");
    SAME(a + b, va + vb, "span + span");
    SAME(a - b, va - vb, "span - span");
    {
      TimeSpan t(a);
      TimeSpan &r = (t += b);
      VP_CHECK(&r == &t, "+= returns its object");
      SAME(t, va + vb, "span += span");
      t -= b;
      VP_CHECK(t == a, "(a+b)-b == a");
      t = a;
      t -= b;
      SAME(t, va - vb, "span -= span");
      t = a;
      t += t;
      SAME(t, va + va, "span += itself");
      t = a;
      t -= t;
      SAME(t, (I)0, "span -= itself");
      VP_CHECK(t == TimeSpan::cZERO, "zero");
    }
    SAME(abs(a), va < 0 ? -va : va, "abs");
    VP_EQ(a == b, va == vb, "==");
    VP_EQ(a != b, va != vb, "!=");
    VP_EQ(a < b, va < vb, "<");
    VP_EQ(a > b, va > vb, ">");
    VP_EQ(a <= b, va <= vb, "<=");
    VP_EQ(a >= b, va >= vb, ">=");
    // decomposition
    VP_EQ(a.tsUSec(), a.tsNSec() / 1000, "tsUSec");
    VP_CHECK((I)a.days() * 86400 + (I)a.hours() * 3600 + (I)a.minutes() * 60 + a.seconds() == va / G,
             "days/hours/minutes/seconds give back the seconds of " << show(va));
    VP_CHECK(a.hours() > -24 && a.hours() < 24 && a.minutes() > -60 && a.minutes() < 60 && a.seconds() > -60 &&
               a.seconds() < 60,
             "fields in range");
    VP_CHECK((int)a.milliSeconds() == (int)(va % G / 1000000), "milliSeconds");
    VP_CHECK((I)a.microSeconds() * 1000 + a.nanoSeconds() == va % G, "microSeconds/nanoSeconds");
    struct timespec ts = a.timespec();
    VP_CHECK((I)ts.tv_sec * G + ts.tv_nsec == va, "timespec()");
    SAME(TimeSpan(ts), va, "TimeSpan(timespec)");
    struct timespec raw;
    raw.tv_sec = N(o, 0);
    raw.tv_nsec = N(o, 1);
    SAME(TimeSpan(raw), va, "TimeSpan(unnormalised timespec)");
    if (va / G > -9000000 && va / G < 9000000)
    {
      VP_CHECK(a.toMSec() == (int64_t)(va / 1000000), "toMSec of " << show(va) << " gives " << a.toMSec());
      VP_CHECK(a.toUSec() == (int64_t)(va / 1000), "toUSec of " << show(va) << " gives " << a.toUSec());
      VP_CHECK(a.toNSec() == (int64_t)va, "toNSec of " << show(va) << " gives " << a.toNSec());
    }
    else if (va / G > -(I)9000000000000 && va / G < (I)9000000000000)
    {
      VP_CHECK(a.toMSec() == (int64_t)(va / 1000000), "toMSec");
      VP_CHECK(a.toUSec() == (int64_t)(va / 1000), "toUSec");
    }
    bool mixed = (va < 0) != (vb < 0) || N(o, 1) >= 1000000000 || N(o, 1) < 0;
    x.label(va < 0 ? "negative" : "non-negative");
    if (va / G == vb / G && va != vb)
      x.label("same second");
    if ((va % G + vb % G) >= G || (va % G + vb % G) <= -G)
      x.label("carry");
    x.nontrivial(mixed || va % G + vb % G >= G || va % G + vb % G <= -G || va / G == vb / G);
  }
}

static void runUnits(const Case &c, Ctx &x)
{
  for (const Op &o : c.ops)
  {
    int64_t v = N(o, 0);
    TimeSpan t(5, 7);
    SAME(TimeSpan::createFromSec(v), (I)v * G, "createFromSec");
    SAME(TimeSpan::createFromMSec(v), (I)v * 1000000, "createFromMSec");
    SAME(TimeSpan::createFromUSec(v), (I)v * 1000, "createFromUSec");
    VP_CHECK(&t.fromSec(v) == &t, "fromSec returns its object");
    SAME(t, (I)v * G, "fromSec");
    t = TimeSpan(-3, -4);
    SAME(t.fromMSec(v), (I)v * 1000000, "fromMSec");
    t = TimeSpan(9, 1);
    SAME(t.fromUSec(v), (I)v * 1000, "fromUSec");
    if (v > -(1LL << 50) && v < (1LL << 50))
    {
      VP_CHECK(TimeSpan::createFromMSec(v).toMSec() == v, "fromMSec/toMSec round trip of " << v);
      VP_CHECK(TimeSpan::createFromUSec(v).toUSec() == v, "fromUSec/toUSec round trip of " << v);
    }
    x.nontrivial(v % 1000 != 0 || v < 0);
  }
}

static void runStamp(const Case &c, Ctx &x)
{
  for (const Op &o : c.ops)
  {
    // n: sec, nsec (>= 0) of two stamps; sec, nsec of a span
    TimeStamp p((uint64_t)N(o, 0), (uint32_t)N(o, 1)), q((uint64_t)N(o, 2), (uint32_t)N(o, 3));
    I vp_ = ex(o, 0), vq = ex(o, 2), vs = ex(o, 4);
    TimeSpan s = span(o, 4);
    SAME(p, vp_, "TimeStamp(sec,nsec)");
    SAME(p + s, vp_ + vs, "stamp + span");
    SAME(s + p, vp_ + vs, "span + stamp");
    SAME(p - s, vp_ - vs, "stamp - span");
    SAME(p - q, vp_ - vq, "stamp - stamp");
    {
      TimeStamp t(p);
      t += s;
      SAME(t, vp_ + vs, "stamp += span");
      t -= s;
      VP_CHECK(t == p, "(t+s)-s == t");
      t = p;
      t -= s;
      SAME(t, vp_ - vs, "stamp -= span");
      VP_CHECK(q + (p - q) == p, "q + (p - q) == p");
    }
    VP_EQ(p == q, vp_ == vq, "==");
    VP_EQ(p != q, vp_ != vq, "!=");
    VP_EQ(p < q, vp_ < vq, "<");
    VP_EQ(p > q, vp_ > vq, ">");
    VP_EQ(p <= q, vp_ <= vq, "<=");
    VP_EQ(p >= q, vp_ >= vq, ">=");
    VP_CHECK(p <= TimeStamp::maxTime() && !(TimeStamp::maxTime() < p), "maxTime is the latest");
    VP_EQ(p.tsUSec(), p.tsNSec() / 1000, "tsUSec");
    VP_CHECK((I)p.days() * 86400 + (I)p.hours() * 3600 + (I)p.minutes() * 60 + p.seconds() == vp_ / G, "fields of a stamp");
    struct timespec ts = p.timespec();
    VP_CHECK((I)ts.tv_sec * G + ts.tv_nsec == vp_, "timespec()");
    ts = p.systemTimespec();
    VP_CHECK((I)ts.tv_sec * G + ts.tv_nsec == vp_, "systemTimespec()");
    SAME(TimeStamp(ts), vp_, "TimeStamp(timespec)");
    SAME(TimeStamp((time_t)N(o, 0)), (I)N(o, 0) * G, "TimeStamp(time_t)");
    // the clock
    fake_s = N(o, 0) & 0xffffffffff;
    fake_us = N(o, 3) % 1000000;
    I nowv = (I)fake_s * G + (I)fake_us * 1000;
    SAME(TimeStamp::now(), nowv, "now()");
    TimeStamp f(3, 4);
    f.fromNow();
    SAME(f, nowv, "fromNow()");
    uint64_t ms = (uint64_t)N(o, 2) & 0xffffffffffff;
    SAME(TimeStamp::futureMSec(ms), nowv + (I)ms * 1000000, "futureMSec");
    if (vp_ / G == vq / G && vp_ != vq)
      x.label("same second");
    if (vp_ < vq)
      x.label("negative difference");
    x.nontrivial(vs < 0 || (vp_ % G + vs % G >= G) || vp_ % G < vq % G || N(o, 1) >= 1000000000);
  }
}

static int64_t genNs(bool neg)
{
  switch (pick(0, 6))
  {
  case 0:
    return oneOf<int64_t>({0, 1, 999999999, 999999998, 500000000, 1000000000, 1999999999});
  case 1:
    return neg ? oneOf<int64_t>({-1, -999999999, -1000000000, -1000000001, -1999999999}) : pick(0, 1999999999);
  case 2:
    return pick(0, 999) * 1000000;
  case 3:
    return pick(0, 999999) * 1000;
  default:
    return neg ? pick(-1999999999, 1999999999) : pick(0, 1999999999);
  }
}

int main(int argc, char **argv)
{
  auto pairGen = opGen([]() {
    int64_t a = coin(40) ? pick(-5, 5) : wide(-LIM, LIM);
    int64_t b = coin(40) ? a + pick(-1, 1) : coin(30) ? pick(-5, 5) : wide(-LIM, LIM);
    int64_t an = genNs(true), bn = coin(15) ? an : genNs(true);
    return mk(0, {a, an, b, bn});
  });
  auto unitGen = opGen([]() { return mk(0, {coin(50) ? wide(-(1LL << 53), 1LL << 53) : wide(INT64_MIN / 2, INT64_MAX / 2)}); });
  auto stampGen = opGen([]() {
    int64_t a = coin(40) ? pick(0, 5) : wide(0, LIM);
    int64_t b = coin(50) ? std::max<int64_t>(0, a + pick(-1, 1)) : wide(0, LIM);
    int64_t s = coin(40) ? pick(-5, 5) : wide(-LIM, LIM);
    return mk(0, {a, genNs(false), b, genNs(false), s, genNs(true)});
  });
  std::vector<Sub> subs;
  subs.push_back({"span", opsCase(pairGen), runPair, 200000, 3000000});
  subs.push_back({"units", opsCase(unitGen), runUnits, 100000, 1500000});
  subs.push_back({"stamp", opsCase(stampGen), runStamp, 200000, 3000000});
  for (auto &s : subs)
    s.max_size = 20;
  return checkMain(argc, argv, "C01",
                   "Generated second/nanosecond pairs (small, boundary, 60 bit; unnormalised nanosecond parts of either sign) "
                   "and integer unit counts; every result is compared with a 128 bit nanosecond count. Non-trivial: the case "
                   "holds a pair with different signs, an unnormalised part, a carry or borrow, or equal seconds; for "
                   "unit counts one that is negative or not a multiple of 1000.",
                   subs);
}
