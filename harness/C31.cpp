// vp: profile=schedasan mods=logging extra=detsched.cpp wrap=@wraps.txt
// Log files hold every message exactly once, in order, through rotations, restarts and failures.
#include "threads.hpp"
#include "logtest.hpp"
#include <algorithm>
#include <csignal>
#include <cstring>
#include <dirent.h>
#include <icl_core_logging/FileLogOutput.h>
#include <iostream>
#include <memory>
#include <set>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>
#include <zlib.h>
using namespace vp;
namespace lg = icl_core::logging;

namespace {

const int64_t DAY = 86400;
int64_t latest = 0; // before the real time of this run, which new files bear until the check changes it
const char *HEADER = "\n\n-------------FILE (RE-)OPENED------------------\n";

struct MFile
{
  std::string content;
  int64_t mtime = 0;
  bool dir = false, gz = false;
};

int64_t nowSec()
{
  return (ds::now() + ds::realtimeOffset()) / 1000000000;
}
std::string date(int64_t day)
{
  char b[40];
  time_t t = day * DAY;
  struct tm tm;
  gmtime_r(&t, &tm);
  snprintf(b, sizeof b, ".%04d-%02d-%02d", tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday);
  return b;
}
std::string gunzip(const std::string &path)
{
  gzFile f = gzopen(path.c_str(), "rb");
  if (!f)
    return "(cannot be read)";
  std::string r;
  char b[4096];
  int n;
  while ((n = gzread(f, b, sizeof b)) > 0)
    r.append(b, (size_t)n);
  gzclose(f);
  return r;
}
void setMtime(const std::string &path, int64_t t)
{
  struct timeval tv[2] = {{t, 0}, {t, 0}};
  utimes(path.c_str(), tv);
}

int openFiles()
{
  int n = 0;
  DIR *d = opendir("/proc/self/fd");
  while (d && readdir(d))
    ++n;
  if (d)
    closedir(d);
  return n;
}

struct World
{
  std::string dir, name; // the directory, and the log's name in it
  bool rotate = false, zip = false, flush = true;
  int64_t older = -1;
  std::map<std::string, MFile> files; // the model
  bool dir_there = true;
  std::unique_ptr<lg::LogOutputStream> out;
  int64_t last = 0;
  bool open = false, synced = true; // what was written must be in the file
  int64_t limit = -1; // the disk is full
  int rotations = 0, deleted = 0, messages = 0, restarts = 0, failures = 0;
  std::set<std::string> seen; // messages the files must not hold twice

  int64_t today() { return nowSec() / DAY; }
  void mopen()
  {
    if (!dir_there || (files.count(name) && files[name].dir))
    {
      open = false;
      return;
    }
    open = true;
    synced = !zip; // a plain file's header is flushed always
    MFile &f = files[name];
    f.content += HEADER;
    f.gz = zip;
    f.mtime = nowSec();
  }
  void mrotate()
  {
    if (!rotate || last == today())
      return;
    ++rotations;
    if (open && (zip || !synced))
      files[name].mtime = nowSec(); // the last part is written
    if (dir_there && files.count(name) && !files[name].dir)
    {
      std::string to = name + date(last) + (zip ? "" : ".gz");
      if (!files.count(to) || !files[to].dir)
      {
        MFile f = files[name];
        if (!zip)
          f.mtime = nowSec();
        f.gz = true;
        files[to] = f;
        files.erase(name);
      }
    }
    if (dir_there && older >= 0)
      for (auto it = files.begin(); it != files.end();)
        if (!it->second.dir && it->first.compare(0, name.size(), name) == 0 && it->second.mtime < (today() - older) * DAY)
        {
          it = files.erase(it);
          ++deleted;
        }
        else
          ++it;
    last = today();
    mopen();
  }
  void start()
  {
    bool was = dir_there && files.count(name) && !files[name].dir;
    last = today();
    open = false;
    if (was)
    {
      last = files[name].mtime / DAY;
      mrotate();
    }
    if (!open)
      mopen();
    out.reset(lg::FileLogOutput::create("file", "/IclCore/Logging/F", lg::eLL_TRACE));
    out->start();
  }
  void stop()
  {
    if (!out)
      return;
    if (open && (zip || !synced))
      files[name].mtime = nowSec();
    out->shutdown();
    out.reset();
    open = false;
  }
  void log(const std::string &text)
  {
    mrotate();
    if (!open)
      mopen();
    if (open)
    {
      files[name].content += text;
      files[name].mtime = nowSec();
      synced = flush;
    }
    ++messages;
    out->push(lg::eLL_INFO, "s", "f", 1, "", "", "", text.c_str());
    ds::awaitStuck();
  }
  // What is there is what the model says; then the times of the files are made what they would be.
  void compare(const std::string &when)
  {
    if (!dir_there)
      return;
    std::map<std::string, bool> found;
    DIR *d = opendir(dir.c_str());
    DS_CHECK(d, "the directory is gone");
    while (dirent *e = readdir(d))
      if (strcmp(e->d_name, ".") && strcmp(e->d_name, ".."))
        found[e->d_name] = true;
    closedir(d);
    for (auto &f : files)
      DS_CHECK(found.count(f.first), when << ": " << f.first << " is not there");
    for (auto &f : found)
      DS_CHECK(files.count(f.first), when << ": " << f.first << " is there although it should not");
    for (auto &f : files)
    {
      std::string path = dir + "/" + f.first;
      if (!f.second.dir && (synced || f.first != name || !out))
      {
        std::string got = f.second.gz ? gunzip(path) : readFile(path);
        // what could not be written at first may have been later, but only once
        std::set<std::string> late;
        for (size_t at; failures && (at = got.find("lost")) != std::string::npos;)
        {
          size_t end = got.find('\n', at);
          DS_CHECK(end != std::string::npos && late.insert(got.substr(at, end - at)).second, when << ": " << f.first << " holds '" << escape(got) << "'");
          got.erase(at, end + 1 - at);
        }
        DS_CHECK(got == f.second.content, when << ": " << f.first << " holds '" << escape(got) << "' instead of '" << escape(f.second.content) << "'");
      }
      setMtime(path, f.second.mtime);
    }
  }
};

void run(const Case &c, Ctx &x)
{
  World w;
  Op head;
  for (const Op &o : c.ops)
    if (o.k == OP_HEAD && o.n.size() > head.n.size())
      head = o;
  int64_t mode = N(head, 6);
  w.rotate = !(mode & 1) || (mode & 2);
  w.zip = mode & 4;
  w.flush = (mode & 8) || (mode & 16);
  w.older = N(head, 7);
  w.name = S(head, 0).empty() ? "log.txt" : S(head, 0);
  w.dir = x.dir() + "/logs";
  mkdir(w.dir.c_str(), 0777);
  std::ostringstream err;
  struct Redirect
  {
    std::streambuf *e;
    explicit Redirect(std::ostream &b) : e(std::cerr.rdbuf(b.rdbuf())) {}
    ~Redirect() { std::cerr.rdbuf(e); }
  } redirect(err);
  signal(SIGXFSZ, SIG_IGN);
  setenv("VP_LOGS", w.dir.c_str(), 1);
  auto &cfg = icl_core::config::ConfigManager::instance();
  std::string pre = "/IclCore/Logging/F/";
  bool relative = mode & 32;
  cfg.setValue<icl_core::String>(pre + "FileName", relative ? w.name : mode & 64 ? "${VP_LOGS}/" + w.name : w.dir + "/" + w.name);
  cfg.setValue<icl_core::String>(pre + "Format", "~E");
  if (w.rotate || (mode & 128))
    cfg.setValue<icl_core::String>(pre + "Rotate", w.rotate ? "yes" : "no");
  if (w.zip || (mode & 128))
    cfg.setValue<icl_core::String>(pre + "Zip", w.zip ? "yes" : "no");
  if (!w.flush || (mode & 128))
    cfg.setValue<icl_core::String>(pre + "Flush", w.flush ? "yes" : "no");
  if (w.older >= 0)
    cfg.setValue<icl_core::String>(pre + "DeleteOlderThan", std::to_string(w.older));
  if (relative)
    VP_CHECK(chdir(w.dir.c_str()) == 0, "chdir");
  initLogging();
  ds::run(scheduleOf(c), [&] {
    int fds = openFiles();
    struct stat st;
    stat(w.dir.c_str(), &st);
    latest = std::min<int64_t>(1790000000, st.st_mtime - 10 * DAY);
    int64_t first = std::min(N(head, 8), latest - DAY);
    ds::setWallClock(first * 1000000000 - (ds::now() + ds::realtimeOffset()));
    int number = 0;
    bool up = false;
    for (const Op &o : c.ops)
    {
      switch (o.k)
      {
      case 1: // messages
        if (!up)
          break;
        for (int i = 0; i < std::max<int64_t>(1, N(o, 0)); ++i)
        {
          std::string t = "m" + std::to_string(++number) + "-" + S(o, 0) + "\n";
          w.log(t);
        }
        break;
      case 2: // time passes
      {
        int64_t s = N(o, 0);
        if (s == -1) // to the last second of the day
          s = DAY - 1 - nowSec() % DAY;
        else if (s == -2) // to the next day
          s = DAY - nowSec() % DAY;
        if (nowSec() + s < latest)
          ds::setWallClock(s * 1000000000);
        break;
      }
      case 3: // stop or start
        if (up)
          w.stop();
        else
        {
          w.start();
          ds::awaitStuck();
          ++w.restarts;
        }
        up = !up;
        break;
      case 4: // a foreign file: kind of name, age
      {
        if (!w.dir_there)
          break;
        const char *tails[] = {".old", "", ".2001-01-01.gz", "2", ".d"};
        std::string n = N(o, 0) < 5 ? w.name + tails[N(o, 0)] : N(o, 0) == 5 ? "other" : N(o, 0) == 6 ? "x" + w.name : w.name.substr(0, w.name.size() - 1);
        if (n.empty() || w.files.count(n) || n == w.name)
          break;
        MFile &f = w.files[n];
        f.mtime = nowSec() - N(o, 1) * DAY / 4;
        if (N(o, 0) == 4)
        {
          f.dir = true;
          mkdir((w.dir + "/" + n).c_str(), 0777);
        }
        else
        {
          f.content = "foreign\n";
          writeFile(w.dir + "/" + n, f.content);
        }
        setMtime(w.dir + "/" + n, f.mtime);
        break;
      }
      case 5: // what the next rotation would be called is taken by a directory
      {
        std::string n = w.name + date(w.today()) + (w.zip ? "" : ".gz");
        if (!w.dir_there || w.files.count(n))
          break;
        w.files[n].dir = true;
        w.files[n].mtime = nowSec();
        mkdir((w.dir + "/" + n).c_str(), 0777);
        mkdir((w.dir + "/" + n + "/inside").c_str(), 0777);
        ++w.failures;
        break;
      }
      case 6: // the directory is moved away while nothing is open, or comes back
        if (relative || w.open)
          break;
        rename((w.dir + (w.dir_there ? "" : ".away")).c_str(), (w.dir + (w.dir_there ? ".away" : "")).c_str());
        w.dir_there = !w.dir_there;
        ++w.failures;
        break;
      case 7: // the log file cannot grow for a while
      {
        if (!up || !w.open || w.zip || !w.flush)
          break;
        w.compare("before the disk is full");
        struct rlimit old, full;
        getrlimit(RLIMIT_FSIZE, &old);
        full = old;
        full.rlim_cur = 0;
        bool lost = !w.rotate || w.last == w.today(); // opening a file goes wrong, too
        if (!lost)
          break;
        setrlimit(RLIMIT_FSIZE, &full);
        {
          std::string t = "lost" + std::to_string(++number) + "\n";
          w.out->push(lg::eLL_INFO, "s", "f", 1, "", "", "", t.c_str());
          ds::awaitStuck();
        }
        setrlimit(RLIMIT_FSIZE, &old);
        w.synced = false;
        ++w.failures;
        break;
      }
      }
      w.compare(std::string("after operation ") + std::to_string(o.k));
    }
    w.stop();
    w.compare("at the end");
    DS_CHECK(ds::liveThreads() == 0, "threads are left");
    DS_CHECK(openFiles() == fds, openFiles() - fds << " files are left open");
  });
  if (relative)
    (void)!chdir("/");
  x.nontrivial(w.messages >= 2 && w.rotations >= 1);
  if (w.zip)
    x.label("zipped while written");
  if (w.deleted)
    x.label("old files deleted");
  if (w.restarts > 1)
    x.label("restarts");
  if (w.failures)
    x.label("failures");
  if (!w.flush)
    x.label("not flushed");
}

} // namespace

int main(int argc, char **argv)
{
  auto item = opGen([] {
    int w = (int)pick(0, 99);
    if (w < 40)
      return mk(1, {coin(70) ? 1 : pick(2, 4)}, {coin(95) ? str("abc XYZ.%\n", 0, 8) : std::string((size_t)pick(100, 1900), 'x')});
    if (w < 65)
      return mk(2, {oneOf<int64_t>({-1, -2, 1, DAY, DAY - 1, pick(0, 3) * DAY + pick(0, DAY), pick(0, 400) * DAY, 3600})});
    if (w < 77)
      return mk(3);
    if (w < 89)
      return mk(4, {pick(0, 7), pick(0, 60)});
    if (w < 92)
      return mk(5);
    if (w < 96)
      return mk(6);
    return mk(7);
  });
  Sub s{"files", rc::gen::map(headCase(opGen([] {
          Op o = headOp(0, {pick(0, 255), coin(50) ? -1 : pick(0, 8), oneOf<int64_t>({1700000000, 951782399, 1709164799, 1735689599, pick(86400, 1780000000LL)})});
          o.s.push_back(oneStr({"log.txt", "a", "my.log.gz", "x-y_z", ".hidden"}));
          return o;
        }), item), [](Case c) {
          c.ops.insert(c.ops.begin() + 1, mk(3));
          return c;
        }), run, 3000, 40000};
  s.fork = true;
  s.max_size = 40;
  return checkMain(argc, argv, "C31",
                   "histories of messages, passing days, restarts, foreign files and failures for log files with and without rotation, compression, deletion and flushing. "
                   "Non-trivial: at least two messages and one rotation",
                   {s}, "exploration", {"wall clock that is not set back"});
}
