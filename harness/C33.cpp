// vp: profile=schedasan mods=logging extra=detsched.cpp wrap=@wraps.txt
// Log databases hold every message exactly once, in order, through days, restarts and failures.
#include "threads.hpp"
#include "logtest.hpp"
#include <csignal>
#include <cstring>
#include <dirent.h>
#include <icl_core_logging/SQLiteLogDb.h>
#include <icl_core_logging/SQLiteLogOutput.h>
#include <iostream>
#include <memory>
#include <set>
#include <sqlite3.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace vp;
namespace lg = icl_core::logging;

namespace {

const int64_t DAY = 86400;
typedef std::vector<std::string> Row;

const char *TABLE = "CREATE TABLE log_entries (seq INTEGER PRIMARY KEY, app_id TEXT, timestamp TIMESTAMP, log_stream TEXT, log_level TEXT, filename TEXT, "
                    "line INTEGER, class_name TEXT, object_name TEXT, function_name TEXT, message TEXT)";
const char *COLUMNS = "app_id, timestamp, log_stream, log_level, filename, line, class_name, object_name, function_name, message";

enum Kind
{
  DB,     // with the table of the log
  NOLOG,  // a database without it
  WRONG,  // a database where it is something else
  BYTES,  // anything else
  FOLDER,
};
struct MFile
{
  Kind kind = DB;
  std::vector<Row> rows;
  std::string bytes;
};

int64_t nowSec() { return (ds::now() + ds::realtimeOffset()) / 1000000000; }
std::string date(int64_t day)
{
  char b[40];
  time_t t = day * DAY;
  struct tm tm;
  gmtime_r(&t, &tm);
  snprintf(b, sizeof b, ".%04d-%02d-%02d", tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday);
  return b;
}

int openFiles()
{
  int n = 0;
  DIR *d = opendir("/proc/self/fd");
  while (d && readdir(d))
    ++n;
  if (d)
    closedir(d);
  return n;
}

void sql(const std::string &path, const std::string &text)
{
  sqlite3 *db = nullptr;
  DS_CHECK(sqlite3_open(path.c_str(), &db) == SQLITE_OK, "the check cannot open " << path);
  DS_CHECK(sqlite3_exec(db, text.c_str(), nullptr, nullptr, nullptr) == SQLITE_OK, "the check cannot write to " << path << ": " << sqlite3_errmsg(db));
  sqlite3_close(db);
}
std::vector<Row> rowsOf(const std::string &path)
{
  sqlite3 *db = nullptr;
  DS_CHECK(sqlite3_open_v2(path.c_str(), &db, SQLITE_OPEN_READWRITE, nullptr) == SQLITE_OK, path << " cannot be opened");
  sqlite3_stmt *st = nullptr;
  int res = sqlite3_prepare_v2(db, ("SELECT " + std::string(COLUMNS) + " FROM log_entries ORDER BY seq").c_str(), -1, &st, nullptr);
  DS_CHECK(res == SQLITE_OK, path << ": " << sqlite3_errmsg(db));
  std::vector<Row> rows;
  while ((res = sqlite3_step(st)) == SQLITE_ROW)
  {
    Row r;
    for (int i = 0; i < sqlite3_column_count(st); ++i)
    {
      int t = sqlite3_column_type(st, i);
      const char *v = (const char *)sqlite3_column_text(st, i);
      r.push_back((t == SQLITE_INTEGER ? "#" : t == SQLITE_TEXT ? "" : "?") + std::string(v ? v : "", (size_t)sqlite3_column_bytes(st, i)));
    }
    rows.push_back(r);
  }
  DS_CHECK(res == SQLITE_DONE, path << ": " << sqlite3_errmsg(db));
  sqlite3_finalize(st);
  sqlite3_close(db);
  return rows;
}
std::string text(const Row &r)
{
  std::string s;
  for (const std::string &f : r)
    s += (s.empty() ? "" : "|") + escape(f);
  return s;
}

struct World
{
  std::string dir, name;
  bool rotate = false, direct = false;
  std::map<std::string, MFile> files; // the model
  bool dir_there = true;
  std::unique_ptr<lg::SQLiteLogDb> db;
  std::unique_ptr<lg::LogOutputStream> out;
  int64_t last = 0;
  bool open = false;
  int rotations = 0, messages = 0, restarts = 0, failures = 0, special = 0;
  Row lost;

  int64_t today() { return nowSec() / DAY; }
  bool up() { return db || out; }
  void mopen()
  {
    open = false;
    if (!dir_there || name.empty())
      return;
    auto f = files.find(name);
    if (f == files.end())
      files[name];
    else if (f->second.kind == NOLOG || (f->second.kind == BYTES && f->second.bytes.size() < 2))
      f->second.kind = DB;
    else if (f->second.kind != DB)
      return;
    open = true;
  }
  void mrotate()
  {
    if (!rotate || last == today())
      return;
    last = today();
    ++rotations;
    open = false;
    std::string to = name + date(last);
    auto f = files.find(name);
    if (dir_there && f != files.end() && !(files.count(to) && (files[to].kind == FOLDER || f->second.kind == FOLDER)))
    {
      MFile m = f->second;
      files.erase(f);
      files[to] = m;
    }
    mopen();
  }
  std::string path() { return name.empty() ? "" : dir + "/" + name; }
  void start()
  {
    last = today();
    if (direct)
    {
      db.reset(new lg::SQLiteLogDb(path(), rotate));
      db->openDatabase();
    }
    else
    {
      out.reset(lg::SQLiteLogOutput::create("sqlite", "/IclCore/Logging/Q", lg::eLL_TRACE));
      out->start();
      ds::awaitStuck();
    }
    mopen();
  }
  void stop(bool object)
  {
    open = false;
    if (direct && db)
    {
      if (object)
        db->closeDatabase();
      db.reset();
    }
    else if (out)
    {
      out->shutdown();
      out.reset();
    }
  }
  void log(const Op &o)
  {
    mrotate();
    int level = (int)((uint64_t)N(o, 1) % 6);
    int64_t line = direct ? N(o, 2) : N(o, 2) & 0x7fffffff;
    Row r{S(o, 0), "at " + S(o, 1), S(o, 2), lg::logLevelDescription((lg::LogLevel)level), S(o, 3), "#" + std::to_string(line), S(o, 4), S(o, 5), S(o, 6), S(o, 7)};
    if (direct)
      db->writeLogLine(r[0].c_str(), r[1].c_str(), r[2].c_str(), r[3].c_str(), r[4].c_str(), (size_t)line, r[6].c_str(), r[7].c_str(), r[8].c_str(), r[9].c_str());
    else
    {
      r[0] = "";
      r[1] = icl_core::TimeStamp::now().formatIso8601();
      out->push((lg::LogLevel)level, r[2].c_str(), r[4].c_str(), (int)line, r[6].c_str(), r[7].c_str(), r[8].c_str(), r[9].c_str());
      ds::awaitStuck();
    }
    ++messages;
    for (const std::string &f : r)
      special += f.find_first_of("'\";%") != std::string::npos;
    if (open)
      files[name].rows.push_back(r);
    lost = r;
  }
  void compare(const std::string &when)
  {
    if (!dir_there)
      return;
    std::set<std::string> found;
    DIR *d = opendir(dir.c_str());
    DS_CHECK(d, "the directory is gone");
    while (dirent *e = readdir(d))
      if (strcmp(e->d_name, ".") && strcmp(e->d_name, ".."))
        found.insert(e->d_name);
    closedir(d);
    for (auto &f : files)
      DS_CHECK(found.count(f.first), when << ": " << f.first << " is not there");
    for (auto &f : found)
      DS_CHECK(files.count(f), when << ": " << f << " is there although it should not");
    for (auto &f : files)
    {
      std::string p = dir + "/" + f.first;
      if (f.second.kind == BYTES)
        DS_CHECK(readFile(p) == f.second.bytes, when << ": " << f.first << " was changed");
      if (f.second.kind != DB)
        continue;
      std::vector<Row> got = rowsOf(p), &want = f.second.rows;
      for (size_t i = 0; i < got.size() || i < want.size(); ++i)
        DS_CHECK(i < got.size() && i < want.size() && got[i] == want[i],
                 when << ": entry " << i << " of " << f.first << " is " << (i < got.size() ? text(got[i]) : "not there") << " instead of " << (i < want.size() ? text(want[i]) : "none"));
    }
  }
};

void run(const Case &c, Ctx &x)
{
  World w;
  Op head;
  for (const Op &o : c.ops)
    if (o.k == OP_HEAD && o.n.size() > head.n.size())
      head = o;
  int64_t mode = N(head, 6);
  w.rotate = !(mode & 1) || (mode & 2);
  w.direct = mode & 4;
  w.name = S(head, 0);
  w.dir = x.dir() + "/logs";
  mkdir(w.dir.c_str(), 0777);
  std::ostringstream err;
  struct Redirect
  {
    std::streambuf *e;
    explicit Redirect(std::ostream &b) : e(std::cerr.rdbuf(b.rdbuf())) {}
    ~Redirect() { std::cerr.rdbuf(e); }
  } redirect(err);
  signal(SIGXFSZ, SIG_IGN);
  auto &cfg = icl_core::config::ConfigManager::instance();
  std::string pre = "/IclCore/Logging/Q/";
  if (!w.name.empty())
    cfg.setValue<icl_core::String>(pre + "FileName", w.path());
  if (w.rotate || (mode & 8))
    cfg.setValue<icl_core::String>(pre + "Rotate", w.rotate ? "yes" : "no");
  initLogging();
  sqlite3_initialize();
  ds::run(scheduleOf(c), [&] {
    int fds = openFiles();
    ds::setWallClock(N(head, 7) * 1000000000 - (ds::now() + ds::realtimeOffset()));
    for (const Op &o : c.ops)
    {
      switch (o.k)
      {
      case 1: // messages
        for (int i = 0; w.up() && i < std::max<int64_t>(1, N(o, 0)); ++i)
          w.log(o);
        break;
      case 2: // time passes
      {
        int64_t s = N(o, 0);
        if (s == -1) // to the last second of the day
          s = DAY - 1 - nowSec() % DAY;
        else if (s == -2) // to the next day
          s = DAY - nowSec() % DAY;
        if (nowSec() + s < 4000000000)
          ds::setWallClock(s * 1000000000);
        break;
      }
      case 3: // stop or start
        if (w.up())
          w.stop(N(o, 0) & 1);
        else
        {
          w.start();
          ++w.restarts;
        }
        break;
      case 4: // something is there already, or beside it
      {
        std::string tails[] = {"", "-x", "2", ".2001-01-01"};
        std::string n = w.name.empty() ? "other" : w.name + tails[(uint64_t)N(o, 0) % 4];
        if (!w.dir_there || w.files.count(n))
          break;
        std::string p = w.dir + "/" + n;
        MFile &f = w.files[n];
        f.kind = (Kind)((uint64_t)N(o, 1) % 5);
        f.bytes = S(o, 0);
        if (f.kind == FOLDER)
          mkdir(p.c_str(), 0777), mkdir((p + "/inside").c_str(), 0777);
        else if (f.kind == BYTES)
          writeFile(p, f.bytes);
        else
        {
          std::string other = "CREATE TABLE other (message TEXT); INSERT INTO other VALUES ('x');";
          if (f.kind == WRONG)
            other += "CREATE TABLE log_entries (message TEXT)";
          if (f.kind == DB)
          {
            other = N(o, 2) & 1 ? TABLE : other + TABLE;
            for (int i = 0; i < 3; ++i)
            {
              Row r;
              std::string v;
              for (int k = 0; k < 10; ++k)
              {
                r.push_back(k == 5 ? "#7" : "old" + std::to_string(i));
                v += k == 5 ? ",7" : (k ? ",'old" : "'old") + std::to_string(i) + "'";
              }
              f.rows.push_back(r);
              other += std::string(";INSERT INTO log_entries (") + COLUMNS + ") VALUES (" + v + ")";
            }
          }
          sql(p, other);
        }
        break;
      }
      case 5: // what the database would be called at its next rotation is taken
      {
        std::string n = w.name + date(w.today() + N(o, 0) % 3);
        if (!w.dir_there || w.name.empty() || w.files.count(n))
          break;
        w.files[n].kind = FOLDER;
        mkdir((w.dir + "/" + n).c_str(), 0777);
        mkdir((w.dir + "/" + n + "/inside").c_str(), 0777);
        ++w.failures;
        break;
      }
      case 6: // the directory is moved away while nothing is open, or comes back
        if (w.open)
          break;
        rename((w.dir + (w.dir_there ? "" : ".away")).c_str(), (w.dir + (w.dir_there ? ".away" : "")).c_str());
        w.dir_there = !w.dir_there;
        ++w.failures;
        break;
      case 7: // no file can grow for a while
      {
        if (!w.up() || !w.open || (w.rotate && w.last != w.today()))
          break;
        struct rlimit old, full;
        getrlimit(RLIMIT_FSIZE, &old);
        full = old;
        full.rlim_cur = 0;
        setrlimit(RLIMIT_FSIZE, &full);
        w.log(o);
        setrlimit(RLIMIT_FSIZE, &old);
        w.files[w.name].rows.pop_back();
        // The entry may be there nevertheless, but only once.
        std::vector<Row> got = rowsOf(w.path());
        if (got.size() == w.files[w.name].rows.size() + 1)
          w.files[w.name].rows.push_back(w.lost);
        ++w.failures;
        break;
      }
      }
      w.compare(std::string("after operation ") + std::to_string(o.k));
    }
    w.stop(true);
    w.compare("at the end");
    DS_CHECK(ds::liveThreads() == 0, "threads are left");
    DS_CHECK(openFiles() == fds, openFiles() - fds << " files are left open");
  });
  x.nontrivial(w.messages >= 2 && w.special && (w.rotations >= 1 || w.restarts > 1));
  x.label(w.direct ? "database" : "output");
  if (w.rotations)
    x.label("rotations");
  if (w.failures)
    x.label("failures");
}

std::string field(int longest = 12) { return coin(20) ? "" : str("ab_Z0 ''''\"\\,;:()-%\n\t\x01\xc3\xa4", 1, longest); }
Op message(int k)
{
  return mk(k, {coin(80) ? 1 : pick(2, 4), pick(0, 5), oneOf<int64_t>({0, 1, pick(0, 100000), 2147483647, 2147483648LL, 10000000000LL})},
            {field(), field(), field(), field(), field(), field(), field(), field(coin(10) ? 1500 : 40)});
}

} // namespace

// Nobody waits for the disk.
extern "C" int fsync(int) { return 0; }
extern "C" int fdatasync(int) { return 0; }

int main(int argc, char **argv)
{
  auto item = opGen([] {
    int w = (int)pick(0, 99);
    if (w < 45)
      return message(1);
    if (w < 68)
      return mk(2, {oneOf<int64_t>({-1, -2, 1, DAY, DAY - 1, pick(0, 3) * DAY + pick(0, DAY), pick(0, 400) * DAY, 3600})});
    if (w < 82)
      return mk(3, {pick(0, 1)});
    if (w < 89)
      return mk(4, {pick(0, 3), pick(0, 4), pick(0, 1)}, {coin(30) ? "" : str("xyz\n", 2, coin(50) ? 8 : 400)});
    if (w < 93)
      return mk(5, {pick(0, 2)});
    if (w < 96)
      return mk(6);
    return message(7);
  });
  Sub s{"databases", rc::gen::map(headCase(opGen([] {
          Op o = headOp(0, {pick(0, 15), oneOf<int64_t>({1700000000, 951782399, 1709164799, 1735689599, pick(86400, 3000000000LL)})});
          o.s.push_back(coin(97) ? oneStr({"log.db", "a", "my.log.sqlite", "x-y_z", ".hidden"}) : std::string());
          return o;
        }), item), [](Case c) {
          if (c.ops.size() % 5)
            c.ops.insert(c.ops.begin() + 1, mk(3));
          return c;
        }), run, 3500, 60000};
  s.fork = true;
  s.max_size = 30;
  return checkMain(argc, argv, "C33",
                   "histories of messages with any characters, passing days, restarts, existing files and failures for log databases with and without rotation. "
                   "Non-trivial: at least two messages, one with quotes, and one rotation or restart",
                   {s}, "exploration", {"wall clock that is not set back", "nobody else locks the database"});
}
