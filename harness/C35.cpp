// vp: profile=asanub mods=perf wrap=clock_gettime,gettimeofday extra=perfoff.cpp,perfrelease.cpp
// The performance monitor's numbers are those of the data of the enabled prefixes.
#define IC_PERFORMANCE_MONITOR
#include "logtest.hpp"
#include <algorithm>
#include <atomic>
#include <cmath>
#include <icl_core_performance_monitor/PerformanceMonitor.h>
#include <set>
#include <sys/time.h>
using namespace vp;
namespace lg = icl_core::logging;
using icl_core::perf_mon::PerformanceMonitor;

void perfOff(const char *t, const char *d, const char *p, double v);
void perfRelease(const char *t, const char *d, const char *p);

namespace {

std::atomic<int64_t> fake_us(0);
std::atomic<bool> fake(false);

typedef std::pair<std::string, std::string> Key; // prefix and name

std::string num(double v)
{
  std::ostringstream s;
  s << v;
  return s.str();
}

struct Model
{
  bool enabled = true, all = false, print = true;
  std::set<std::string> prefixes;
  std::map<std::string, int64_t> timers;
  std::map<Key, std::vector<double>> time, other;
  std::map<Key, double> fixed;
  bool on(const std::string &p) { return enabled && (all || prefixes.count(p)); }
};

typedef std::vector<std::set<std::string>> Lines; // each with the texts it may have

void statistics(Lines &l, const Key &k, std::vector<double> v, bool time)
{
  double sum = 0;
  for (double d : v)
    sum += d;
  std::sort(v.begin(), v.end());
  const std::string unit = time ? " ms" : "", &n = k.second;
  l.push_back({"Summary for " + k.first + "::" + n});
  l.push_back({time ? "Called " + std::to_string(v.size()) + " times" : "num entries: " + std::to_string(v.size())});
  double lo = v[(v.size() - 1) / 2], hi = v[v.size() / 2];
  l.push_back({n + "_avg: " + num(sum / (double)v.size()) + unit});
  l.push_back({n + "_median: " + num(lo) + unit, n + "_median: " + num(hi) + unit, n + "_median: " + num((lo + hi) / 2) + unit});
  l.push_back({n + "_min: " + num(v.front()) + unit});
  l.push_back({n + "_max: " + num(v.back()) + unit});
}
Lines section(Model &m, const std::string &p)
{
  Lines l;
  l.push_back({"########## Begin of Summary for prefix " + p + " ##########"});
  bool first = true;
  for (auto &f : m.fixed)
    if (f.first.first == p)
    {
      if (first)
        l.push_back({"#### Static data: ####"});
      first = false;
      l.push_back({f.first.second + ": " + num(f.second)});
    }
  for (bool time : {true, false})
  {
    first = true;
    for (auto &f : time ? m.time : m.other)
      if (f.first.first == p)
      {
        if (first)
          l.push_back({time ? "#### Time data: ####" : "#### Non-time data: ####"});
        first = false;
        statistics(l, f.first, f.second, time);
      }
  }
  return l;
}

void run(const Case &c, Ctx &x)
{
  initLogging();
  RecordOutput out;
  Performance::instance().addOutputStream(&out);
  lg::setLogLevel(lg::eLL_TRACE);
  struct End
  {
    lg::LogOutputStream &o;
    ~End()
    {
      fake = false;
      Performance::instance().removeOutputStream(&o);
    }
  } end{out};
  Model m;
  fake_us = 1700000000000000LL;
  fake = true;
  int summaries = 0, measured = 0;
  size_t most = 0;
  PerformanceMonitor *pm = PerformanceMonitor::getInstance();
  std::set<std::string> everything;
  for (const Op &o : c.ops)
  {
    std::string t = S(o, 0), d = S(o, 1), p = S(o, 2);
    out.records.clear();
    Lines want;
    bool exact = true;
    int level = (int)((uint64_t)N(o, 0) % 3); // trace, debug or info
    double v = (double)N(o, 1) / (double)std::max<int64_t>(1, N(o, 2));
    bool plain = p.empty() && (N(o, 3) & 1);
    switch (o.k)
    {
    case 1:
      PERF_MON_INITIALIZE((uint32_t)(N(o, 1) & 31), (uint32_t)(N(o, 2) & 63));
      m.time.clear();
      m.other.clear();
      m.prefixes.insert("");
      break;
    case 2:
      if (N(o, 1) & 1)
      {
        PERF_MON_ENABLE(p);
        m.prefixes.insert(p);
      }
      else
      {
        PERF_MON_DISABLE(p);
        m.prefixes.erase(p);
      }
      break;
    case 3:
      if (level == 0)
      {
        bool b = N(o, 1) & 1;
        PERF_MON_ENABLE_ALL(b);
        m.all = b;
      }
      else if (level == 1)
        pm->m_enabled = m.enabled = N(o, 1) & 3;
      else
        pm->m_print_stop = m.print = N(o, 1) & 1;
      break;
    case 4:
      PERF_MON_START(t);
      if (m.enabled)
        m.timers[t] = fake_us;
      break;
    case 5: // a measurement, 6: and the timer begins again
    case 6:
    {
      if (o.k == 5 && !m.timers.count(t))
        break;
      double got = 0, expect = 0;
      bool started = m.timers.count(t);
      if (N(o, 3) & 2)
      {
        if (o.k == 5)
        {
          if (plain)
            PERF_MON_PRINT_INFO(t, d)
          else
            PERF_MON_PRINT_INFO_P(t, d, p)
        }
        else if (plain)
          PERF_MON_PRINT_AND_RESET_INFO(t, d)
        else
          PERF_MON_PRINT_AND_RESET_INFO_P(t, d, p)
        level = lg::eLL_INFO;
      }
      else
        got = o.k == 5 ? PerformanceMonitor::measurement(t, d, p, (lg::LogLevel)level) : PerformanceMonitor::startStop(t, d, p, (lg::LogLevel)level);
      if (m.on(p))
      {
        if (started)
        {
          expect = (double)(fake_us - m.timers[t]) * 1000 / 1000000.0;
          m.time[Key(p, d)].push_back(expect);
          ++measured;
          if (m.print)
            want.push_back({p + "::" + d + ": " + num(expect) + " ms"});
        }
        if (o.k == 6)
          m.timers[t] = fake_us;
      }
      if (!(N(o, 3) & 2))
        VP_CHECK(std::fabs(got - expect) <= 1e-9 * std::fabs(expect), "a measurement returned " << got << " ms instead of " << expect);
      break;
    }
    case 7:
      if (plain)
        PERF_MON_ADD_DATA(d, v)
      else
        PERF_MON_ADD_DATA_P(d, v, p)
      if (m.on(p))
        m.time[Key(p, d)].push_back(v);
      break;
    case 8:
      if (plain)
        PERF_MON_ADD_DATA_NONTIME(d, v)
      else
        PERF_MON_ADD_DATA_NONTIME_P(d, v, p)
      if (m.on(p))
        m.other[Key(p, d)].push_back(v);
      break;
    case 9:
      if (plain)
        PERF_MON_ADD_STATIC_DATA(d, v)
      else
        PERF_MON_ADD_STATIC_DATA_P(d, v, p)
      if (m.on(p))
        m.fixed[Key(p, d)] = v;
      break;
    case 10:
      fake_us = fake_us + N(o, 1);
      break;
    case 11: // one summary
      if (!m.enabled)
        break;
      if (m.time.count(Key(p, d)))
        statistics(want, Key(p, d), m.time[Key(p, d)], true);
      else
        exact = false; // nothing is known, and nothing bad happens
      PerformanceMonitor::printSummary(p, d, (lg::LogLevel)level);
      ++summaries;
      break;
    case 12:
      if (!m.enabled)
        break;
      want = section(m, p);
      if (N(o, 3) & 2)
      {
        level = lg::eLL_INFO;
        PERF_MON_SUMMARY_PREFIX_INFO(p);
      }
      else
        PerformanceMonitor::printSummaryFromPrefix(p, (lg::LogLevel)level);
      ++summaries;
      break;
    case 13:
    {
      if (!m.enabled)
        break;
      std::set<std::string> has = m.prefixes, may;
      for (auto &f : m.time)
        may.insert(f.first.first);
      for (auto &f : m.other)
        may.insert(f.first.first);
      for (auto &f : m.fixed)
        may.insert(f.first.first);
      if (m.all)
        has.insert(may.begin(), may.end());
      level = lg::eLL_INFO;
      PERF_MON_SUMMARY_ALL_INFO;
      // the data of a prefix that is disabled meanwhile may be there or not
      std::string all;
      for (const Record &r : out.records)
        all += r.text + "\n";
      may.insert(has.begin(), has.end());
      for (const std::string &q : may)
        if (has.count(q) || all.find("Summary for prefix " + q + " ##") != std::string::npos)
          for (auto &l : section(m, q))
            want.push_back(l);
      ++summaries;
      break;
    }
    case 14: // code without the monitor
      if (N(o, 0) == 1)
        perfRelease(t.c_str(), d.c_str(), p.c_str());
      else
        perfOff(t.c_str(), d.c_str(), p.c_str(), v);
      break;
    }
    // What was printed, without empty lines, is what was to be printed.
    std::vector<std::string> got;
    for (const Record &r : out.records)
    {
      VP_EQ(r.level, level, "level of the message " << escape(r.text));
      VP_EQ(r.stream, std::string("Performance"), "stream of the message " << escape(r.text));
      std::istringstream s(r.text);
      for (std::string l; std::getline(s, l);)
        if (!l.empty())
          got.push_back(l);
    }
    if (!exact || (level != lg::eLL_INFO && got.empty()))
      continue; // debug messages may be left out by the compiler
    for (size_t i = 0; i < want.size() || i < got.size(); ++i)
    {
      VP_CHECK(i < got.size(), "operation " << o.k << " did not print '" << *want[i].begin() << "'");
      VP_CHECK(i < want.size(), "operation " << o.k << " printed '" << got[i] << "' in vain");
      VP_CHECK(want[i].count(got[i]), "operation " << o.k << " printed '" << got[i] << "' instead of '" << *want[i].begin() << "'");
    }
    most = std::max(most, got.size());
  }
  x.nontrivial(summaries && measured && most >= 7);
  if (most > 60)
    x.label("long summary");
  if (m.all)
    x.label("all prefixes enabled");
}

std::string timer() { return oneStr({"t", "timer", "all", ""}); }
std::string prefix() { return coin(40) ? "" : oneStr({"p", "prefix", "all_prefix", "q:r", "a b"}); }
std::string desc() { return coin(70) ? oneStr({"event", "n", "over", "x::y", "number of runs", ""}) : coin(90) ? str("abc_: ", 1, 6) : std::string((size_t)pick(50, 400), 'n'); }

} // namespace

extern "C" {
int __real_clock_gettime(clockid_t c, struct timespec *ts);
int __real_gettimeofday(struct timeval *tv, void *z);
int __wrap_clock_gettime(clockid_t c, struct timespec *ts)
{
  if (!fake)
    return __real_clock_gettime(c, ts);
  ts->tv_sec = fake_us / 1000000;
  ts->tv_nsec = fake_us % 1000000 * 1000;
  return 0;
}
int __wrap_gettimeofday(struct timeval *tv, void *z)
{
  if (!fake)
    return __real_gettimeofday(tv, z);
  tv->tv_sec = fake_us / 1000000;
  tv->tv_usec = fake_us % 1000000;
  return 0;
}
}

int main(int argc, char **argv)
{
  auto item = opGen([] {
    const int kinds[] = {1, 2, 2, 2, 3, 4, 4, 5, 5, 5, 6, 6, 6, 7, 7, 7, 8, 8, 9, 9, 10, 10, 10, 11, 12, 12, 13, 14};
    int k = kinds[pick(0, (int)(sizeof kinds / sizeof *kinds) - 1)];
    int64_t v = k == 10 ? (coin(60) ? pick(0, 5000) : pick(0, 4000000000LL)) : k == 2 ? coin(75) : k == 1 ? pick(0, 31) : k == 3 ? (coin(80) ? pick(0, 3) : 1) : oneOf<int64_t>({0, 1, -1, pick(-1000, 1000), pick(-1000000000, 1000000000)});
    return mk(k, {coin(70) ? 2 : pick(0, 1), v, oneOf<int64_t>({1, 3, 10, 1000, 1 << 20}), pick(0, 3)}, {timer(), desc(), prefix()});
  });
  Sub s{"histories", rc::gen::map(opsCase(item), [](Case c) {
          if (c.ops.size() % 8)
            c.ops.insert(c.ops.begin(), mk(1, {0, 5, 5}));
          return c;
        }), run, 6000, 120000};
  s.fork = true;
  s.max_size = 80;
  return checkMain(argc, argv, "C35",
                   "histories of timers, measurements, data and settings of the performance monitor with a virtual clock and all kinds of summaries. "
                   "Non-trivial: a measurement, a summary and a printed summary of some data",
                   {s}, "exploration", {"a timer is started before it is measured", "prefixes without ::"});
}
