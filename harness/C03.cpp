// vp: profile=asanub mods=core
// Calendar text of time stamps, its parser, and conversion from boost time points.
#include "vp.hpp"
#include <boost/date_time/posix_time/posix_time.hpp>
#include <icl_core/TimeStamp.h>
#include <time.h>
using namespace vp;
using icl_core::TimeSpan;
using icl_core::TimeStamp;

struct Civil
{
  int64_t y;
  int mo, d, h, mi, s;
  int wday, yday;
};
static bool leap(int64_t y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
static int mdays(int64_t y, int m)
{
  static const int d[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  return m == 2 && leap(y) ? 29 : d[m - 1];
}
static Civil civil(int64_t sec)
{
  int64_t days = sec / 86400, rem = sec % 86400;
  if (rem < 0)
  {
    rem += 86400;
    days--;
  }
  Civil c;
  c.h = rem / 3600;
  c.mi = rem / 60 % 60;
  c.s = rem % 60;
  int64_t w = (days + 4) % 7;
  c.wday = (int)(w < 0 ? w + 7 : w);
  int64_t y = 1970;
  while (days < 0)
  {
    y--;
    days += leap(y) ? 366 : 365;
  }
  while (days >= (leap(y) ? 366 : 365))
  {
    days -= leap(y) ? 366 : 365;
    y++;
  }
  c.y = y;
  c.yday = (int)days;
  int m = 1;
  while (days >= mdays(y, m))
    days -= mdays(y, m++);
  c.mo = m;
  c.d = (int)days + 1;
  return c;
}
static int64_t secsOf(int64_t y, int mo, int d, int h, int mi, int s)
{
  int64_t days = 0;
  for (int64_t q = 1970; q < y; ++q)
    days += leap(q) ? 366 : 365;
  for (int64_t q = y; q < 1970; ++q)
    days -= leap(q) ? 366 : 365;
  for (int m = 1; m < mo; ++m)
    days += mdays(y, m);
  return (days + d - 1) * 86400 + h * 3600 + mi * 60 + s;
}
static std::string fmt(const char *f, ...)
{
  char b[300];
  va_list a;
  va_start(a, f);
  vsnprintf(b, sizeof b, f, a);
  va_end(a);
  return b;
}

static const char *kZones[] = {"UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "IST-5:30", "NPT-5:45", "AAA12", "BBB-14", "NST3:30NDT,M3.2.0,M11.1.0"};

static void runFormat(const Case &c, Ctx &x)
{
  for (const Op &o : c.ops)
  {
    int64_t s = N(o, 0);
    int32_t n = (int32_t)N(o, 1); // 0..999999999
    const char *tz = kZones[N(o, 2) % 8];
    setenv("TZ", tz, 1);
    tzset();
    struct timespec ts;
    ts.tv_sec = s;
    ts.tv_nsec = n;
    TimeStamp t(ts);
    Civil v = civil(s);
    VP_EQ(t.formatIso8601BasicUTC(), fmt("%04d%02d%02dT%02d%02d%02d,%09d", (int)v.y, v.mo, v.d, v.h, v.mi, v.s, n), "basic UTC text");
    struct tm l;
    time_t tt = s;
    localtime_r(&tt, &l);
    VP_EQ(t.formatIso8601Basic(),
          fmt("%04d%02d%02dT%02d%02d%02d,%09d", l.tm_year + 1900, l.tm_mon + 1, l.tm_mday, l.tm_hour, l.tm_min, l.tm_sec, n),
          "basic local text in " << tz);
    if (s >= 0)
    {
      VP_EQ(t.formatIso8601UTC(), fmt("%04d-%02d-%02d %02d:%02d:%02d", (int)v.y, v.mo, v.d, v.h, v.mi, v.s), "UTC text");
      VP_EQ(t.formatIso8601(), fmt("%04d-%02d-%02d %02d:%02d:%02d", l.tm_year + 1900, l.tm_mon + 1, l.tm_mday, l.tm_hour, l.tm_min, l.tm_sec),
            "local text in " << tz);
      // free formats, with a small and a sufficient buffer
      static const char *f[] = {"%Y%m%d", "%H:%M:%S", "%j %y", "x", "%Y-%m-%d %H:%M:%S"};
      std::string want[] = {fmt("%04d%02d%02d", (int)v.y, v.mo, v.d), fmt("%02d:%02d:%02d", v.h, v.mi, v.s),
                            fmt("%03d %02d", v.yday + 1, (int)(v.y % 100)), "x",
                            fmt("%04d-%02d-%02d %02d:%02d:%02d", (int)v.y, v.mo, v.d, v.h, v.mi, v.s)};
      int k = (int)(N(o, 3) % 5);
      std::vector<char> b(want[k].size() + 1 + 3, 'Z');
      t.strfTime(b.data(), want[k].size() + 1, f[k]);
      VP_EQ(std::string(b.data()), want[k], "strfTime of " << f[k]);
      VP_CHECK(b[want[k].size() + 1] == 'Z', "strfTime writes past its limit");
      std::vector<char> b2(64, 'Z');
      t.strfLocaltime(b2.data(), 64, "%Y-%m-%d %H:%M:%S");
      VP_EQ(std::string(b2.data()), t.formatIso8601(), "strfLocaltime");
      // round trip
      TimeStamp back = TimeStamp::fromIso8601BasicUTC(t.formatIso8601BasicUTC());
      VP_CHECK(back == t, "round trip of " << t.formatIso8601BasicUTC() << " gives " << back.formatIso8601BasicUTC());
    }
    bool edge = (v.mo == 2 && v.d >= 28) || (v.mo == 3 && v.d == 1) || (v.mo == 12 && v.d == 31) || (v.mo == 1 && v.d == 1);
    if (edge)
      x.label("year or leap boundary");
    if (s < 0)
      x.label("before 1970");
    if (l.tm_isdst > 0)
      x.label("daylight saving");
    x.nontrivial(n != 0 && (edge || s < 0 || N(o, 2) % 8));
  }
}

static void runParse(const Case &c, Ctx &x)
{
  for (const Op &o : c.ops)
  {
    int64_t y = 1970 + N(o, 0);
    int mo = 1 + (int)(N(o, 1) % 12);
    int d = 1 + (int)(N(o, 2) % mdays(y, mo));
    int h = (int)(N(o, 3) % 24), mi = (int)(N(o, 4) % 60), s = (int)(N(o, 5) % 60);
    int n = (int)N(o, 6);
    int parts = (int)(N(o, 7) % 8);   // how much of the text is given
    int digits = 1 + (int)(N(o, 8) % 9);
    std::string t = fmt("%04d", (int)y);
    int64_t want = secsOf(y, 1, 1, 0, 0, 0);
    int64_t wn = 0;
    if (parts >= 1)
      t += fmt("%02d", mo), want = secsOf(y, mo, 1, 0, 0, 0);
    if (parts >= 2)
      t += fmt("%02d", d), want = secsOf(y, mo, d, 0, 0, 0);
    if (parts >= 3)
      t += fmt("T%02d", h), want += h * 3600;
    if (parts >= 4)
      t += fmt("%02d", mi), want += mi * 60;
    if (parts >= 5)
      t += fmt("%02d", s), want += s;
    if (parts >= 6)
    {
      std::string f = fmt("%09d", n).substr(0, digits);
      t += "," + f;
      wn = atoi((f + "000000000").substr(0, 9).c_str());
    }
    TimeStamp r = TimeStamp::fromIso8601BasicUTC(t);
    VP_CHECK((int64_t)r.tsSec() == want && (int64_t)r.tsNSec() == wn,
             "parsing \"" << t << "\" gives " << r.tsSec() << "," << r.tsNSec() << ", expected " << want << "," << wn);
    x.label("parts " + std::to_string(parts));
    x.nontrivial(parts >= 2 && (mo > 2 || d > 27));
  }
}

static void runPtime(const Case &c, Ctx &x)
{
  for (const Op &o : c.ops)
  {
    int64_t s = N(o, 0);
    int64_t us = N(o, 1);
    boost::posix_time::ptime p(boost::gregorian::date(1970, 1, 1));
    p += boost::posix_time::hours(s / 3600);
    p += boost::posix_time::seconds(s % 3600);
    p += boost::posix_time::microseconds(us);
    TimeStamp a(p);
    TimeStamp b(77, 88);
    b = p;
    __int128 want = (__int128)s * 1000000000 + us * 1000;
    __int128 ga = (__int128)(int64_t)a.tsSec() * 1000000000 + (int32_t)a.tsNSec();
    VP_CHECK(ga == want, "TimeStamp(ptime) of " << boost::posix_time::to_iso_string(p) << " is " << (int64_t)a.tsSec() << "s " << (int32_t)a.tsNSec() << "ns");
    VP_CHECK(a == b, "assignment and construction agree for " << boost::posix_time::to_iso_string(p));
    if (s < 0)
      x.label("before 1970");
    x.nontrivial(us != 0);
  }
}

int main(int argc, char **argv)
{
  auto fgen = opGen([]() {
    int64_t s;
    switch (pick(0, 3))
    {
    case 0: // around a civil boundary
    {
      int64_t y = pick(1902, 2037);
      int mo = (int)pick(1, 12);
      int d = coin(50) ? mdays(y, mo) : 1;
      s = secsOf(y, mo, d, coin(50) ? 23 : 0, coin(50) ? 59 : 0, coin(50) ? 59 : 0) + pick(-1, 1);
      break;
    }
    case 1:
      s = secsOf(oneOf<int64_t>({1972, 1996, 2000, 2004, 2024, 2036}), 2, (int)pick(28, 29), (int)pick(0, 23), (int)pick(0, 59), (int)pick(0, 59));
      break;
    default:
      s = wide(-2147483648LL, 2147483647LL);
    }
    int64_t n = coin(30) ? oneOf<int64_t>({0, 1, 999999999, 100000000}) : pick(0, 999999999);
    return mk(0, {s, n, pick(0, 7), pick(0, 4)});
  });
  auto pgen = opGen([]() {
    return mk(0, {coin(70) ? pick(0, 80) : pick(0, 8029), pick(0, 11), coin(40) ? pick(27, 30) : pick(0, 30), pick(0, 23), pick(0, 59), pick(0, 59),
                  pick(0, 999999999), pick(0, 7), pick(0, 8)});
  });
  auto tgen = opGen([]() {
    return mk(0, {coin(70) ? wide(-2147483648LL, 4294967296LL) : wide(-15000000000LL, 15000000000LL), coin(30) ? oneOf<int64_t>({0, 1, 999999}) : pick(0, 999999)});
  });
  std::vector<Sub> subs;
  subs.push_back({"format", opsCase(fgen), runFormat, 240000, 3600000});
  subs.push_back({"parse", opsCase(pgen), runParse, 240000, 3600000});
  subs.push_back({"ptime", opsCase(tgen), runPtime, 240000, 3600000});
  for (auto &s : subs)
    s.max_size = 8;
  return checkMain(argc, argv, "C03",
                   "Generated instants (1901 to 2038 for formatting, 1970 to 9999 for parsing, +-475 years for boost time points), weighted "
                   "to month ends and leap days, in eight time zones with and without daylight saving; compared with an independent civil "
                   "calendar and libc's local time. Non-trivial: a sub-second part together with a calendar boundary, a date before 1970 or a "
                   "zone other than UTC; for parsing a day beyond the 27th or a month after February; for time points a microsecond part.",
                   subs, "exploration", {"libc's localtime_r is trusted for local time"});
}
