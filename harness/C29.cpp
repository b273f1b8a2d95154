// vp: profile=asanub mods=logging wrap=clock_gettime,gettimeofday
// Log lines are made as the format says.
#include "logtest.hpp"
#include <cctype>
#include <ctime>
#include <memory>
#include <sys/time.h>
using namespace vp;
namespace lg = icl_core::logging;

namespace {

int64_t fake_sec = 0, fake_nsec = 0;
bool fake = false;

struct Fields
{
  int level = 0;
  std::string stream, file, cls, obj, fun, text, time_format;
  int line = 0;
};

// A format is a list of operations: 1 literal, 2 field (n: letter, width, s: prefix)
std::string formatOf(const Case &c)
{
  std::string f;
  for (const Op &o : c.ops)
    if (o.k == 1)
      f += S(o, 0);
    else if (o.k == 2)
      f += "~" + (N(o, 1) > 0 ? std::to_string(N(o, 1)) : std::string()) + S(o, 0) + char(N(o, 0));
    else if (o.k == 3) // broken off
      f += "~" + (N(o, 1) > 0 ? std::to_string(N(o, 1)) : std::string()) + S(o, 0);
  return f;
}
// A minimum width fills up on the left or on the right: the documentation does not say.
std::string expected(const Case &c, const Fields &m, bool left = false)
{
  std::string r;
  auto opt = [&](const std::string &prefix, const std::string &v) { return v.empty() ? "" : prefix + v; };
  for (const Op &o : c.ops)
  {
    if (o.k == 1)
      r += S(o, 0);
    if (o.k != 2)
      continue;
    const std::string &p = S(o, 0);
    size_t before = r.size();
    switch ((char)N(o, 0))
    {
    case 'C':
      r += opt(p, m.cls);
      break;
    case 'O':
      r += m.obj.empty() ? "" : p + m.obj + (p[0] == '(' ? ")" : p[0] == '[' ? "]" : p[0] == '{' ? "}" : "");
      break;
    case 'D':
      r += opt(p, m.fun);
      break;
    case 'E':
      r += m.text;
      break;
    case 'F':
      r += m.file;
      break;
    case 'G':
      r += std::to_string(m.line);
      break;
    case 'L':
    {
      const char *names[] = {"Trace", "Debug", "Info", "Warning", "Error", "Mute"};
      r += names[m.level];
      break;
    }
    case 'S':
      r += m.stream;
      break;
    case 'T':
    {
      char b[200] = "";
      time_t t = fake_sec;
      struct tm tm;
      localtime_r(&t, &tm);
      strftime(b, sizeof b, m.time_format.c_str(), &tm);
      r += b;
      break;
    }
    case 'M':
    {
      std::string d = std::to_string(fake_nsec / 1000000);
      while ((int64_t)d.size() < N(o, 1))
        d = "0" + d;
      r += d;
      break;
    }
    }
    if (N(o, 0) != 'M' && (int64_t)(r.size() - before) < N(o, 1) && r.size() > before)
      r.insert(left ? before : r.size(), (size_t)N(o, 1) - (r.size() - before), ' ');
  }
  return r;
}

const char *time_formats[] = {"%Y-%m-%d %H:%M:%S", "%H:%M", "%s", "%d.%m.%y", "no time", "%j%%%A", "%T %Z", "[%F]"};

void run(const Case &c, Ctx &x)
{
  initLogging();
  Fields m;
  bool broken = false, use_config = false, fields = false, literals = false;
  for (const Op &o : c.ops)
    if (o.k == 0)
    {
      m.level = (int)(N(o, 0) % 5);
      m.line = (int)N(o, 1);
      fake_sec = N(o, 2);
      fake_nsec = N(o, 3);
      m.time_format = time_formats[N(o, 4) & 7];
      use_config = N(o, 5) & 1;
      m.stream = S(o, 0);
      m.file = S(o, 1);
      m.cls = S(o, 2);
      m.obj = S(o, 3);
      m.fun = S(o, 4);
      m.text = S(o, 5);
    }
    else
    {
      broken = broken || o.k == 3;
      fields = fields || o.k == 2;
      literals = literals || o.k == 1;
    }
  std::string format = formatOf(c);
  if (format.empty())
    return;
  fake = true;
  static int number = 0;
  std::string prefix = "/IclCore/Logging/Formatted" + std::to_string(number++ % 50);
  icl_core::config::ConfigManager::instance().setValue<icl_core::String>(prefix + "/Format", use_config ? format : "~E~E~E");
  LineOutput out("out", lg::eLL_TRACE, false, prefix);
  {
    // exactly as long as it is
    std::unique_ptr<char[]> exact(new char[format.size() + 1]);
    memcpy(exact.get(), format.c_str(), format.size() + 1);
    if (!use_config)
      out.changeLogFormat(exact.get());
  }
  out.changeTimeFormat(m.time_format.c_str());
  out.push((lg::LogLevel)m.level, m.stream.c_str(), m.file.c_str(), m.line, m.cls.c_str(), m.obj.c_str(), m.fun.c_str(), m.text.c_str());
  VP_EQ(out.lines.size(), (size_t)1, "lines for one message");
  std::string want = expected(c, m);
  if (broken)
  {
    // what was broken off may mean anything, the rest does not
    x.label("broken off");
    VP_CHECK(out.lines[0].compare(0, want.size(), want) == 0, "format '" << escape(format) << "': got '" << escape(out.lines[0]) << "', expected '" << escape(want) << "' first");
  }
  else
    VP_CHECK(out.lines[0] == want || out.lines[0] == expected(c, m, true), "format '" << escape(format) << "': got '" << escape(out.lines[0]) << "', expected '" << escape(want) << "'");
  if (use_config)
    x.label("format from the configuration");
  if (format.size() >= 100)
    x.label("long format");
  x.nontrivial(fields && literals && !broken);
  fake = false;
}

std::string words(int lo, int hi) { return str("abcxyzCODEFGLSTM019 :;,.<>()[]{}%\\\"'#_-/\n", lo, hi); }
std::string name(int percent_empty) { return coin(percent_empty) ? "" : str("abcXYZ_09:<>~ %", 1, coin(10) ? 60 : 8); }

rc::Gen<Case> gen()
{
  auto head = opGen([] {
    return mk(0, {pick(0, 4), oneOf<int64_t>({0, 1, pick(0, 100000), 2147483647}), oneOf<int64_t>({0, 1, 1700000000, pick(0, 4000000000LL)}),
                  oneOf<int64_t>({0, 999999, 1000000, 9999999, 10000000, 99999999, 100000000, 999999999, pick(0, 999999999)}), pick(0, 7), pick(0, 1)},
              {name(5), name(5), name(40), name(40), name(40), coin(5) ? "" : words(1, coin(5) ? 300 : 20)});
  });
  auto item = opGen([] {
    int w = (int)pick(0, 99);
    if (w < 40)
    {
      std::string t = words(1, coin(8) ? 250 : 6);
      return mk(1, {}, {t});
    }
    char f = oneOf<char>({'C', 'O', 'D', 'E', 'F', 'G', 'L', 'S', 'T', 'M'});
    std::string p;
    if (f == 'C' || f == 'D')
      p = coin(40) ? "" : str(":; ,.<>()[]{}abcdxyz-_", 1, coin(8) ? 150 : 3);
    if (f == 'O')
      p = oneStr({"", "(", "[", "{", ":", " "});
    int64_t width = f == 'M' && coin(70) ? oneOf<int64_t>({1, 2, 3, 3, 3, 4, 6, 12}) : 0;
    return mk(2, {f, width}, {p});
  });
  auto tail = opGen([] {
    if (coin(94))
      return mk(9);
    return mk(3, {0, coin(50) ? pick(1, 9999) : 0}, {coin(50) ? "" : str(":; ab(", 1, coin(30) ? 200 : 4)});
  });
  return rc::gen::map(rc::gen::tuple(head, rc::gen::container<std::vector<Op>>(item), tail), [](std::tuple<Op, std::vector<Op>, Op> t) {
    Case c;
    c.ops.push_back(std::get<0>(t));
    for (auto &o : std::get<1>(t))
      c.ops.push_back(o);
    if (std::get<2>(t).k == 3)
      c.ops.push_back(std::get<2>(t));
    return c;
  });
}

} // namespace

extern "C" {
int __real_clock_gettime(clockid_t c, struct timespec *ts);
int __real_gettimeofday(struct timeval *tv, void *z);
int __wrap_clock_gettime(clockid_t c, struct timespec *ts)
{
  if (!fake)
    return __real_clock_gettime(c, ts);
  ts->tv_sec = fake_sec;
  ts->tv_nsec = fake_nsec;
  return 0;
}
int __wrap_gettimeofday(struct timeval *tv, void *z)
{
  if (!fake)
    return __real_gettimeofday(tv, z);
  tv->tv_sec = fake_sec;
  tv->tv_usec = fake_nsec / 1000;
  return 0;
}
}

int main(int argc, char **argv)
{
  Sub s{"formats", gen(), run, 160000, 3000000};
  s.max_size = 14;
  return checkMain(argc, argv, "C29",
                   "format strings of literals and fields with prefixes and widths, set directly or by the configuration, and messages with any fields at any time. "
                   "Non-trivial: the format has fields and literals",
                   {s}, "exploration", {"a minimum width is only generated for milliseconds: for other fields it is not implemented (see the known finding)"});
}
