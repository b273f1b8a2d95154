// vp: profile=asanub mods=logging wrap=clock_gettime,gettimeofday
// Datagrams of the UDP output are SQL values of exactly the fields of the message.
#include "logtest.hpp"
#include <arpa/inet.h>
#include <atomic>
#include <icl_core_logging/UdpLogOutput.h>
#include <memory>
#include <netinet/in.h>
#include <poll.h>
#include <sqlite3.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <unistd.h>
using namespace vp;
namespace lg = icl_core::logging;

namespace {

std::atomic<int64_t> fake_sec(0), fake_nsec(0);
std::atomic<bool> fake(false);

struct Server
{
  int fd;
  int port = 0;
  Server()
  {
    fd = socket(AF_INET, SOCK_DGRAM, 0);
    struct sockaddr_in a = {};
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    socklen_t l = sizeof a;
    if (fd < 0 || bind(fd, (struct sockaddr *)&a, sizeof a) != 0 || getsockname(fd, (struct sockaddr *)&a, &l) != 0)
    {
      perror("loopback socket");
      _exit(3);
    }
    port = ntohs(a.sin_port);
  }
  ~Server() { close(fd); }
  bool receive(std::string &s, int ms)
  {
    struct pollfd p = {fd, POLLIN, 0};
    if (poll(&p, 1, ms) != 1)
      return false;
    char b[65536];
    ssize_t n = recv(fd, b, sizeof b, 0);
    if (n < 0)
      return false;
    s.assign(b, (size_t)n);
    return true;
  }
};

// Lets a database understand the values.
std::vector<std::string> values(const std::string &text)
{
  static sqlite3 *db = nullptr;
  if (!db)
    sqlite3_open(":memory:", &db);
  std::vector<std::string> r;
  sqlite3_stmt *st = nullptr;
  std::string sql = "SELECT " + text;
  const char *tail = nullptr;
  if (sqlite3_prepare_v2(db, sql.c_str(), (int)sql.size() + 1, &st, &tail) != SQLITE_OK || !st)
    throw Failure{"not a list of SQL values: " + escape(text)};
  VP_CHECK(!*tail, "more than a list of SQL values: " << escape(text));
  if (sqlite3_step(st) != SQLITE_ROW)
  {
    sqlite3_finalize(st);
    throw Failure{"not a list of constant SQL values: " + escape(text)};
  }
  for (int i = 0; i < sqlite3_column_count(st); ++i)
  {
    int t = sqlite3_column_type(st, i);
    const char *v = (const char *)sqlite3_column_text(st, i);
    r.push_back((t == SQLITE_INTEGER ? "#" : t == SQLITE_TEXT ? "" : "?") + std::string(v ? v : "", (size_t)sqlite3_column_bytes(st, i)));
  }
  sqlite3_finalize(st);
  return r;
}

void run(const Case &c, Ctx &x)
{
  initLogging();
  Server server;
  static int number = 0;
  std::string prefix = "/IclCore/Logging/Udp" + std::to_string(number++ % 20);
  auto &cfg = icl_core::config::ConfigManager::instance();
  std::string system = c.ops.empty() ? "" : S(c.ops[0], 0);
  cfg.setValue<icl_core::String>(prefix + "/Host", N(c.ops.empty() ? Op() : c.ops[0], 0) & 1 ? "localhost" : "127.0.0.1");
  cfg.setValue<icl_core::String>(prefix + "/Port", std::to_string(server.port));
  cfg.setValue<icl_core::String>(prefix + "/SystemName", system);
  std::unique_ptr<lg::LogOutputStream> out(lg::UdpLogOutput::create("udp", prefix, lg::eLL_DEBUG));
  out->start();
  struct Stop
  {
    lg::LogOutputStream &o;
    ~Stop()
    {
      o.shutdown();
      fake = false;
    }
  } stop{*out};
  bool special = false;
  int messages = 0;
  for (const Op &o : c.ops)
  {
    if (o.k != 1)
      continue;
    fake_sec = N(o, 2);
    fake_nsec = N(o, 3) / 1000 * 1000; // the resolution of TimeStamp::now()
    fake = true;
    int level = (int)((uint64_t)N(o, 0) % 5);
    std::vector<std::string> want{system, icl_core::TimeStamp(fake_sec, fake_nsec).formatIso8601(), "#" + std::to_string(fake_nsec), lg::logLevelDescription((lg::LogLevel)level)};
    out->push((lg::LogLevel)level, S(o, 0).c_str(), S(o, 1).c_str(), (int)N(o, 1), S(o, 2).c_str(), S(o, 3).c_str(), S(o, 4).c_str(), S(o, 5).c_str());
    want.insert(want.end(), {S(o, 0), S(o, 1), "#" + std::to_string(N(o, 1)), S(o, 2), S(o, 3), S(o, 4), S(o, 5)});
    std::string got;
    if (level == lg::eLL_TRACE)
    {
      x.label("below the level");
      continue; // the next one must come instead
    }
    VP_CHECK(server.receive(got, 20000), "no datagram for a message");
    ++messages;
    std::vector<std::string> v = values(got);
    const char *names[] = {"system", "time", "nanoseconds", "level", "stream", "file", "line", "class", "object", "function", "message"};
    VP_EQ(v.size(), want.size(), "number of values in " << escape(got));
    for (size_t i = 0; i < want.size(); ++i)
    {
      VP_CHECK(v[i] == want[i], names[i] << " is '" << escape(v[i]) << "' instead of '" << escape(want[i]) << "' in " << escape(got));
      special = special || want[i].find_first_of("'\"\\;,\n%") != std::string::npos;
    }
  }
  std::string more;
  VP_CHECK(!server.receive(more, 0), "a datagram more: " << escape(more));
  x.nontrivial(special && messages);
}

std::string name(int percent_empty, int longest = 12) { return coin(percent_empty) ? "" : str("ab_Z0 ''''\"\\,;:()-%\n\t\x01\xc3\xa4", 1, longest); }

} // namespace

extern "C" {
int __real_clock_gettime(clockid_t c, struct timespec *ts);
int __real_gettimeofday(struct timeval *tv, void *z);
int __wrap_clock_gettime(clockid_t c, struct timespec *ts)
{
  if (!fake)
    return __real_clock_gettime(c, ts);
  ts->tv_sec = fake_sec;
  ts->tv_nsec = fake_nsec;
  return 0;
}
int __wrap_gettimeofday(struct timeval *tv, void *z)
{
  if (!fake)
    return __real_gettimeofday(tv, z);
  tv->tv_sec = fake_sec;
  tv->tv_usec = fake_nsec / 1000;
  return 0;
}
}

int main(int argc, char **argv)
{
  auto msg = opGen([] {
    return mk(1, {coin(90) ? pick(1, 4) : 0, oneOf<int64_t>({0, 1, pick(0, 100000), 2147483647}), coin(50) ? 1700000000 : pick(0, 4000000000LL), coin(20) ? 0 : pick(0, 999999999)},
              {name(5), name(20), name(40), name(40), name(20), name(10, coin(10) ? 1500 : 60)});
  });
  Sub s{"datagrams", headCase(opGen([] { return mk(0, {pick(0, 1)}, {name(20)}); }), msg), run, 30000, 900000};
  s.max_size = 12;
  return checkMain(argc, argv, "C32",
                   "messages with any characters in any field, sent to a server on the loopback interface and read as SQL values by SQLite. "
                   "Non-trivial: a field with a quote, comma, backslash or line break arrived",
                   {s}, "exploration", {"the loopback interface does not lose datagrams when each is read before the next is sent"});
}
