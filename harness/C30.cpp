// vp: profile=asanub mods=logging wrap=clock_gettime,gettimeofday
// What is streamed into a log message arrives as its text, whatever its values and lengths are.
#include "logtest.hpp"
#include <climits>
#include <cmath>
#include <cstring>
#include <icl_core_logging/ScopedTimer.h>
#include <memory>
#include <sstream>
using namespace vp;
namespace lg = icl_core::logging;

DECLARE_LOG_STREAM(Timed)
REGISTER_LOG_STREAM(Timed)

struct Own
{
  int64_t v;
};
std::ostream &operator<<(std::ostream &o, const Own &v) { return o << "own(" << v.v << ")"; }
DECLARE_LOG_STREAM_OPERATOR(Own)
REGISTER_LOG_STREAM_OPERATOR(Own)

namespace {

int64_t fake_sec = 0, fake_nsec = 0;
bool fake = false;

const size_t SIZE = cDEFAULT_LOG_SIZE - 2; // what fits besides a line break and the end

double doubleOf(const Op &o)
{
  double d;
  int64_t b = N(o, 0);
  memcpy(&d, &b, sizeof d);
  return d;
}
std::string dbl(double d)
{
  char b[400];
  snprintf(b, sizeof b, "%f", d);
  return b;
}

// Streams the value of an operation, returns its text.
std::string stream(lg::ThreadStream &s, const Op &o)
{
  std::ostringstream r;
  int64_t v = N(o, 0);
  switch (o.k)
  {
  case 1:
    s << S(o, 0);
    return S(o, 0);
  case 2:
  {
    std::unique_ptr<char[]> exact(new char[S(o, 0).size() + 1]);
    memcpy(exact.get(), S(o, 0).c_str(), S(o, 0).size() + 1);
    s << (const char *)exact.get();
    return S(o, 0);
  }
  case 3:
    s << (uint8_t)v;
    return std::to_string((unsigned)(uint8_t)v);
  case 4:
    s << (int8_t)v;
    return std::to_string((int)(int8_t)v);
  case 5:
    s << (uint16_t)v;
    return std::to_string((uint16_t)v);
  case 6:
    s << (int16_t)v;
    return std::to_string((int16_t)v);
  case 7:
    s << (uint32_t)v;
    return std::to_string((uint32_t)v);
  case 8:
    s << (int32_t)v;
    return std::to_string((int32_t)v);
  case 9:
    s << (uint64_t)v;
    return std::to_string((uint64_t)v);
  case 10:
    s << (int64_t)v;
    return std::to_string(v);
  case 11:
    s << doubleOf(o);
    return dbl(doubleOf(o));
  case 12:
    s << (float)doubleOf(o);
    return dbl((float)doubleOf(o));
  case 13:
    s << (bool)(v & 1);
    return v & 1 ? "True" : "False";
  case 14:
    s << (void *)v;
    if (v == 0)
      return "(nil)";
    r << "0x" << std::hex << v;
    return r.str();
  case 15:
  {
    icl_core::TimeStamp t(v, 0);
    s << t;
    time_t tt = v;
    struct tm tm;
    char b[100];
    localtime_r(&tt, &tm);
    strftime(b, sizeof b, "%Y-%m-%d %H:%M:%S", &tm);
    return b;
  }
  case 16:
  {
    icl_core::TimeSpan t(v, (int32_t)N(o, 1));
    s << t;
    r << t;
    return r.str();
  }
  case 17:
    s << Own{v};
    r << Own{v};
    return r.str();
  case 18:
  {
    int rows = (int)(N(o, 1) % 4), cols = (int)(N(o, 2) % 4);
    Eigen::MatrixXd m(rows, cols);
    r << "[";
    for (int c = 0; c < cols; ++c)
    {
      for (int q = 0; q < rows; ++q)
      {
        m(q, c) = (double)v / 8 + c - 10 * q;
        r << " " << dbl(m(q, c));
      }
      if (c < cols - 1)
        r << " ;";
    }
    r << " ]";
    s << m;
    return r.str();
  }
  case 19:
  {
    Eigen::Vector3i m((int)(int16_t)v, 1, -2);
    s << m;
    return "[ " + std::to_string((int)(int16_t)v) + " 1 -2 ]";
  }
  case 20: // raw bytes
    s.write(S(o, 0).data(), S(o, 0).size());
    return S(o, 0);
  }
  return "";
}

std::string cut(const std::string &s, size_t n) { return s.substr(0, n); }

void checkText(const std::string &got, const std::string &full, bool newline)
{
  if (full.size() <= SIZE)
    VP_CHECK(got == full + (newline ? "\n" : ""), "text is '" << escape(cut(got, 300)) << "' (" << got.size() << "), expected '" << escape(cut(full, 300)) << "' (" << full.size() << ")");
  else
  {
    // cut, but not more than needed, and still a line
    std::string g = got;
    if (newline)
    {
      VP_CHECK(!g.empty() && g.back() == '\n', "a message that was cut does not end with a line break");
      g.pop_back();
    }
    VP_CHECK(g.size() >= SIZE - 1 && g.size() <= cDEFAULT_LOG_SIZE, "a text of " << full.size() << " characters is cut to " << g.size());
    VP_CHECK(full.compare(0, g.size(), g) == 0, "a text that was cut is something else");
  }
}

void run(const Case &c, Ctx &x)
{
  initLogging();
  std::string sname = "values", file, cls, obj, fun = "f";
  int64_t line = 0, mode = 0, level = 2;
  for (const Op &o : c.ops)
    if (o.k == 0)
    {
      mode = N(o, 0) % 5;
      line = N(o, 1);
      level = N(o, 2) % 5;
      sname = S(o, 0);
      file = S(o, 1);
      cls = S(o, 2);
      obj = S(o, 3);
      fun = S(o, 4);
    }
  RecordOutput rec;
  LineOutput lines;
  lines.changeLogFormat("~S|~F|~C|~O|~D|~G|~E.");
  std::unique_ptr<lg::LogStream> st(new lg::LogStream(sname, lg::eLL_TRACE));
  st->addOutputStream(&rec);
  st->addOutputStream(&lines);
  std::string full;
  bool newline = true, was_printf = false;
  for (int round = 0; round < 2; ++round)
  {
    full.clear();
    lg::ThreadStream &s = st->threadStream((lg::LogLevel)level);
    s.setLineLogLevel((lg::LogLevel)level);
    if (mode != 4)
    {
      s.setFilename(file.c_str());
      s.setLine((size_t)line);
      s.setClassname(cls.c_str());
      s.setObjectname(obj.c_str());
      s.setFunction(fun.c_str());
    }
    for (const Op &o : c.ops)
      if (o.k >= 1 && o.k <= 20)
        full += stream(s, o);
    newline = mode != 1 && mode != 2;
    if (mode == 1)
      s << lg::flush;
    else if (mode == 2)
    {
      was_printf = true;
      s.printf("%s<%d>%s\n", sname.c_str(), (int)line, obj.c_str());
      full += sname + "<" + std::to_string((int)line) + ">" + obj + "\n";
    }
    else
      s << lg::endl;
    VP_EQ(rec.records.size(), (size_t)(round + 1), "messages");
    const Record &r = rec.records.back();
    if (mode == 4)
      file = cls = obj = fun = "", line = 0;
    checkText(r.text, full, newline);
    VP_EQ(r.level, (int)level, "level");
    VP_EQ(r.line, (size_t)line, "line");
    VP_CHECK(r.stream == cut(sname, lg::cMAX_IDENTIFIER_LENGTH), "stream is '" << escape(cut(r.stream, 1200)) << "'");
    VP_CHECK(r.file == cut(file, lg::cMAX_DESCRIPTION_LENGTH), "file is '" << escape(cut(r.file, 1200)) << "'");
    VP_CHECK(r.cls == cut(cls, lg::cMAX_IDENTIFIER_LENGTH), "class is '" << escape(cut(r.cls, 1200)) << "'");
    VP_CHECK(r.obj == cut(obj, lg::cMAX_DESCRIPTION_LENGTH), "object is '" << escape(cut(r.obj, 1200)) << "'");
    VP_CHECK(r.fun == cut(fun, lg::cMAX_IDENTIFIER_LENGTH), "function is '" << escape(cut(r.fun, 1200)) << "'");
    VP_EQ(lines.lines.size(), (size_t)(round + 1), "lines");
    std::string want = r.stream + "|" + r.file + "|" + r.cls + "|" + r.obj + "|" + r.fun + "|" + std::to_string(r.line) + "|" + r.text + ".";
    VP_CHECK(lines.lines.back() == want, "line is '" << escape(cut(lines.lines.back(), 1200)) << "', expected '" << escape(cut(want, 1200)) << "'");
    if (mode == 4)
      break;
  }
  x.nontrivial(c.ops.size() >= 3);
  if (full.size() > SIZE)
    x.label("cut text");
  if (file.size() > lg::cMAX_DESCRIPTION_LENGTH || obj.size() > lg::cMAX_DESCRIPTION_LENGTH || cls.size() > lg::cMAX_IDENTIFIER_LENGTH || fun.size() > lg::cMAX_IDENTIFIER_LENGTH)
    x.label("cut name");
  if (was_printf)
    x.label("printf");
  x.label(std::string("end ") + char('0' + mode));
}

std::string name(int percent_empty)
{
  if (coin(percent_empty))
    return "";
  int w = (int)pick(0, 99);
  if (w < 70)
    return str("abcXYZ_09:<>~ %", 1, 10);
  if (w < 90)
    return std::string((size_t)oneOf<int64_t>({255, 256, 257, 1023, 1024, 1025, 2046, 2047, 2048, 2049, 5000}), 'n');
  return std::string((size_t)pick(200, 3000), 'p');
}
std::string text()
{
  int w = (int)pick(0, 99);
  if (w < 80)
    return str("abcXYZ_09:<>~ %\n\t\"'", 0, 12);
  if (w < 90)
    return std::string((size_t)oneOf<int64_t>({2030, 2040, 2044, 2045, 2046, 2047, 2048, 2049, 5000}), 't');
  return std::string((size_t)pick(100, 3000), 'u');
}
int64_t bits(double d)
{
  int64_t b;
  memcpy(&b, &d, sizeof b);
  return b;
}

Op head()
{
  return mk(0, {oneOf<int64_t>({0, 0, 1, 2, 3, 4}), oneOf<int64_t>({0, pick(0, 9999), INT32_MAX}), pick(0, 4)}, {coin(80) ? "values" : name(0), name(10), name(30), name(30), name(20)});
}
Op gen1()
{
  int k = (int)oneOf<int64_t>({1, 1, 2, 2, 20, pick(3, 10), pick(3, 10), 11, 11, 12, 13, 14, 15, 16, 16, 17, 18, 19});
  switch (k)
  {
  case 1:
  case 2:
  case 20:
    return mk(k, {}, {text()});
  case 11:
  case 12:
    return mk(k, {coin(50) ? wide(INT64_MIN, INT64_MAX) : bits(oneOf<double>({0, -0.0, 1, -1.5, 1e9, 0.0000005, 1e15, 1e92, 1e93, 1e94, -1e95, 1e300, 1.7976931348623157e308, -1.7976931348623157e308, 5e-324, INFINITY, -INFINITY, NAN}))});
  case 15:
    return mk(k, {coin(50) ? pick(0, 253402300799LL) : oneOf<int64_t>({0, 1700000000, 4294967296LL, 253402300799LL})});
  case 16:
  {
    int64_t sec = oneOf<int64_t>({0, 1, -1, 59, 60, 61, 3599, 3600, 3601, -3600, -61, 86400, pick(-100000, 100000), pick(-1000000000000LL, 1000000000000LL)});
    int64_t ns = oneOf<int64_t>({0, 1, 1000, 1000000, 999999999, 500000000, pick(0, 999999999)});
    return mk(k, {sec, sec < 0 || (sec == 0 && coin(50)) ? -ns : ns});
  }
  case 18:
    return mk(k, {pick(-1000, 1000), pick(0, 3), pick(0, 3)});
  default:
    return mk(k, {wide(INT64_MIN, INT64_MAX)});
  }
}

// ---- scoped timers --------------------------------------------------------------------------------------
RecordOutput *timed = nullptr;
void runTimer(const Case &c, Ctx &x)
{
  initLogging();
  if (!timed)
  {
    timed = new RecordOutput("timed");
    Timed::instance().addOutputStream(timed);
    icl_core::logging::setLogLevel(lg::eLL_TRACE);
  }
  timed->records.clear();
  fake = true;
  fake_sec = 1000;
  fake_nsec = 0;
  std::vector<std::unique_ptr<lg::ScopedTimer<Timed>>> t;
  struct Info
  {
    int64_t start;
    std::string text;
    int level;
    bool active;
  };
  std::vector<Info> info;
  std::vector<std::pair<std::string, int>> want;
  auto now = [] { return fake_sec * 1000000000LL + fake_nsec; };
  for (const Op &o : c.ops)
  {
    size_t i = info.empty() ? 0 : (size_t)N(o, 0) % info.size();
    if (o.k == 1 && info.size() < 8)
    {
      t.emplace_back(new lg::ScopedTimer<Timed>(S(o, 0), (lg::LogLevel)(N(o, 1) % 5), "file", 7, "cls", "obj"));
      info.push_back({now(), S(o, 0), (int)(N(o, 1) % 5), true});
    }
    else if (o.k == 2)
    {
      int64_t n = now() + N(o, 1);
      fake_sec = n / 1000000000;
      fake_nsec = n % 1000000000 / 1000 * 1000; // the clock has microseconds
    }
    else if (info.empty() || !t[i])
      continue;
    else if (o.k == 3)
    {
      t[i]->print();
      want.push_back({info[i].text + ": " + std::to_string(now() - info[i].start) + " ns\n", info[i].level});
    }
    else if (o.k == 4)
    {
      t[i]->print(S(o, 0));
      want.push_back({info[i].text + " (" + S(o, 0) + "): " + std::to_string(now() - info[i].start) + " ns\n", info[i].level});
    }
    else if (o.k == 5 || o.k == 6)
    {
      if (info[i].active)
        want.push_back({info[i].text + ": " + std::to_string(now() - info[i].start) + " ns\n", info[i].level});
      info[i].active = false;
      if (o.k == 5)
        t[i]->stop();
      else
        t[i].reset();
    }
    VP_EQ(timed->records.size(), want.size(), "messages of timers");
    if (!want.empty())
    {
      VP_CHECK(timed->records.back().text == want.back().first, "a timer says '" << escape(timed->records.back().text) << "', expected '" << escape(want.back().first) << "'");
      VP_EQ(timed->records.back().level, want.back().second, "level of a timer");
      VP_CHECK(timed->records.back().file == "file" && timed->records.back().line == 7 && timed->records.back().cls == "cls" && timed->records.back().obj == "obj", "origin of a timer");
    }
  }
  for (auto &p : t)
    p.reset();
  fake = false;
  x.nontrivial(want.size() >= 2);
}
Op genTimer()
{
  int k = (int)oneOf<int64_t>({1, 1, 2, 2, 3, 4, 5, 6});
  return mk(k, {pick(0, 7), k == 2 ? oneOf<int64_t>({1000, 1000000, 999999000, 3600000000000LL, pick(0, 5000000000LL)}) : pick(0, 4)}, {str("abc: %", 0, 8)});
}

} // namespace

extern "C" {
int __real_clock_gettime(clockid_t c, struct timespec *ts);
int __real_gettimeofday(struct timeval *tv, void *z);
int __wrap_clock_gettime(clockid_t c, struct timespec *ts)
{
  if (!fake)
    return __real_clock_gettime(c, ts);
  ts->tv_sec = fake_sec;
  ts->tv_nsec = fake_nsec;
  return 0;
}
int __wrap_gettimeofday(struct timeval *tv, void *z)
{
  if (!fake)
    return __real_gettimeofday(tv, z);
  tv->tv_sec = fake_sec;
  tv->tv_usec = fake_nsec / 1000;
  return 0;
}
}

int main(int argc, char **argv)
{
  Sub s{"values", headCase(opGen(head), opGen(gen1)), run, 110000, 2500000};
  s.max_size = 12;
  Sub t{"timers", opsCase(opGen(genTimer)), runTimer, 40000, 800000};
  t.max_size = 24;
  return checkMain(argc, argv, "C30",
                   "log messages of values of all types, texts of up to several thousand characters and names of any length, ended by line break, flush or printf; scoped timers on a virtual clock. "
                   "Non-trivial: two values, or two messages of timers",
                   {s, t}, "exploration", {});
}
