#include "vp.hpp"

#include <algorithm>
#include <cerrno>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <poll.h>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace vp {

// ---------------------------------------------------------------------------------------------
std::string escape(const std::string &s)
{
  std::string r;
  char b[8];
  for (unsigned char c : s)
  {
    if (c <= 32 || c >= 127 || c == '%' || c == '"')
    {
      snprintf(b, sizeof b, "%%%02X", c);
      r += b;
    }
    else
      r += (char)c;
  }
  return "\"" + r + "\"";
}

std::string unescape(const std::string &t)
{
  std::string s = t;
  if (s.size() >= 2 && s[0] == '"')
    s = s.substr(1, s.size() - 2);
  std::string r;
  for (size_t i = 0; i < s.size(); ++i)
  {
    if (s[i] == '%' && i + 2 < s.size() + 0 + 0 && i + 2 <= s.size() - 1)
    {
      r += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16);
      i += 2;
    }
    else
      r += s[i];
  }
  return r;
}

std::string serialize(const Case &c)
{
  std::string r;
  for (const Op &o : c.ops)
  {
    r += "op " + std::to_string(o.k);
    for (int64_t n : o.n)
      r += " " + std::to_string(n);
    for (const std::string &s : o.s)
      r += " " + escape(s);
    r += "\n";
  }
  return r;
}

bool deserialize(const std::string &text, Case &c)
{
  std::istringstream in(text);
  std::string line;
  while (std::getline(in, line))
  {
    if (line.compare(0, 3, "op ") != 0)
      continue;
    std::istringstream l(line.substr(3));
    Op o;
    l >> o.k;
    std::string tok;
    while (l >> tok)
    {
      if (tok[0] == '"')
        o.s.push_back(unescape(tok));
      else
        o.n.push_back(strtoll(tok.c_str(), nullptr, 10));
    }
    c.ops.push_back(o);
  }
  return true;
}

void showValue(const Case &c, std::ostream &os) { os << serialize(c); }

std::string readFile(const std::string &path)
{
  std::ifstream f(path.c_str(), std::ios::binary);
  std::ostringstream o;
  o << f.rdbuf();
  return o.str();
}

void writeFile(const std::string &path, const std::string &content)
{
  std::ofstream f(path.c_str(), std::ios::binary);
  f << content;
}

void removeTree(const std::string &path)
{
  // Only ever called on the engine's own scratch directories.
  if (path.compare(0, 8, "/tmp/vp.") != 0)
    return;
  struct stat st;
  if (lstat(path.c_str(), &st) != 0)
    return;
  if (S_ISDIR(st.st_mode))
  {
    chmod(path.c_str(), 0700);
    if (DIR *d = opendir(path.c_str()))
    {
      std::vector<std::string> names;
      while (dirent *e = readdir(d))
        if (strcmp(e->d_name, ".") && strcmp(e->d_name, ".."))
          names.push_back(e->d_name);
      closedir(d);
      for (auto &n : names)
        removeTree(path + "/" + n);
    }
    rmdir(path.c_str());
  }
  else
    unlink(path.c_str());
}

static std::string g_scratch; // scratch directory of this run
static std::string g_task_tag = "m";
static int g_dir_counter = 0;

const std::string &Ctx::dir()
{
  if (m_dir.empty())
  {
    m_dir = g_scratch + "/c" + g_task_tag + "_" + std::to_string((long)getpid()) + "_" + std::to_string(g_dir_counter++);
    mkdir(m_dir.c_str(), 0700);
  }
  return m_dir;
}

std::string str(const std::string &alphabet, int lo, int hi)
{
  int len = (int)pick(lo, hi);
  auto v = *rc::gen::container<std::vector<int>>(len, rc::gen::resize(100, rc::gen::inRange<int>(0, (int)alphabet.size())));
  std::string r;
  for (int i : v)
    r += alphabet[i];
  return r;
}

int64_t wide(int64_t lo, int64_t hi)
{
  auto clampv = [&](__int128 v) { return (int64_t)std::max<__int128>(lo, std::min<__int128>(hi, v)); };
  switch (pick(0, 5))
  {
  case 0:
    return clampv(pick(-3, 3));
  case 1:
    return clampv(pick(-1000, 1000));
  case 2:
  {
    int sh = (int)pick(0, 62);
    __int128 v = (__int128)1 << sh;
    v += pick(-2, 2);
    return clampv(coin(50) ? v : -v);
  }
  case 3:
    return clampv((__int128)lo + pick(0, 3));
  case 4:
    return clampv((__int128)hi - pick(0, 3));
  default:
  {
    uint64_t span = (uint64_t)hi - (uint64_t)lo;
    uint64_t r = ((uint64_t)pick(0, 0xffffffffLL) << 32) | (uint64_t)pick(0, 0xffffffffLL);
    if (span != UINT64_MAX)
      r = r % (span + 1);
    return (int64_t)((uint64_t)lo + r);
  }
  }
}

// ---------------------------------------------------------------------------------------------
static double now()
{
  struct timespec ts;
  // The raw call: harnesses may fake clock_gettime for the code under test.
  syscall(228, CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

static std::string tail(const std::string &s, size_t n) { return s.size() <= n ? s : "..." + s.substr(s.size() - n); }

static std::string crashText(const std::string &out)
{
  // Prefer the sanitizer's summary; fall back to the end of the output.
  size_t p = out.find("ERROR: AddressSanitizer");
  if (p == std::string::npos)
    p = out.find("runtime error:");
  if (p != std::string::npos)
    return out.substr(p, 700);
  return tail(out, 400);
}

static int child_fd = -1;

void failNow(const std::string &msg)
{
  if (child_fd >= 0)
  {
    std::string d = "[" + msg + "]";
    if (write(child_fd, d.data(), d.size()) < 0)
      _exit(79);
    _exit(0);
  }
  fprintf(stderr, "%s\n", msg.c_str());
  _exit(78);
}

ChildResult inChild(const std::function<std::string()> &f, int timeout_s)
{
  ChildResult r;
  int p[2];
  if (pipe(p) != 0)
    return r;
  char outname[] = "/tmp/vp.out.XXXXXX";
  int ofd = mkstemp(outname);
  unlink(outname);
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid == 0)
  {
    setpgid(0, 0);
    close(p[0]);
    child_fd = p[1];
    dup2(ofd, 1);
    dup2(ofd, 2);
    close(ofd);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    std::string d;
    try
    {
      d = f();
    }
    catch (const Failure &e)
    {
      d = "F" + e.msg;
    }
    catch (const std::exception &e)
    {
      d = std::string("Funexpected exception: ") + e.what();
    }
    catch (...)
    {
      d = "Funexpected exception";
    }
    d = "[" + d + "]";
    size_t off = 0;
    while (off < d.size())
    {
      ssize_t w = write(p[1], d.data() + off, d.size() - off);
      if (w <= 0)
        break;
      off += w;
    }
    _exit(0);
  }
  close(p[1]);
  double deadline = now() + timeout_s;
  char buf[65536];
  for (;;)
  {
    double left = deadline - now();
    if (left <= 0)
    {
      r.timed_out = true;
      break;
    }
    struct pollfd pf = {p[0], POLLIN, 0};
    int n = poll(&pf, 1, (int)(left * 1000) + 1);
    if (n < 0 && errno == EINTR)
      continue;
    if (n > 0)
    {
      ssize_t k = read(p[0], buf, sizeof buf);
      if (k <= 0)
        break;
      r.data.append(buf, k);
      if (r.data.size() >= 2 && r.data[0] == '[' && r.data.back() == ']')
      {
        // might be complete: wait for the end of file below, but do not block on grandchildren
        struct pollfd q = {p[0], POLLIN, 0};
        if (poll(&q, 1, 200) == 0)
          break;
      }
    }
  }
  if (r.timed_out)
    kill(-pid, SIGKILL), kill(pid, SIGKILL);
  close(p[0]);
  int st = 0;
  double d2 = now() + 5;
  while (waitpid(pid, &st, WNOHANG) == 0)
  {
    if (now() > d2)
    {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      break;
    }
    usleep(200);
  }
  kill(-pid, SIGKILL);
  if (!r.timed_out)
  {
    bool complete = r.data.size() >= 2 && r.data[0] == '[' && r.data.back() == ']';
    if (complete)
    {
      r.ok = true;
      r.data = r.data.substr(1, r.data.size() - 2);
    }
    else
    {
      std::string out;
      lseek(ofd, 0, SEEK_SET);
      ssize_t k;
      while ((k = read(ofd, buf, sizeof buf)) > 0 && out.size() < (4u << 20))
        out.append(buf, k);
      std::ostringstream o;
      if (WIFSIGNALED(st))
        o << "process ended by signal " << WTERMSIG(st);
      else
        o << "process ended early with status " << WEXITSTATUS(st);
      r.crash = o.str() + ": " + crashText(out);
      if (getenv("VP_VERBOSE"))
        fprintf(stderr, "%s\n", out.c_str());
    }
  }
  close(ofd);
  return r;
}

// ---------------------------------------------------------------------------------------------
struct Outcome
{
  bool failed = false;
  std::string msg;
  bool nontrivial = false;
  std::map<std::string, int> labels;
};

static Outcome runInProcess(const Sub &s, const Case &c)
{
  Outcome o;
  Ctx x;
  try
  {
    s.run(c, x);
  }
  catch (const Failure &e)
  {
    o.failed = true;
    o.msg = e.msg;
  }
  catch (const std::exception &e)
  {
    o.failed = true;
    o.msg = std::string("unexpected exception: ") + e.what();
  }
  if (!x.m_dir.empty())
    removeTree(x.m_dir);
  o.nontrivial = x.m_nontrivial;
  o.labels = x.m_labels;
  return o;
}

static Outcome runForked(const Sub &s, const Case &c)
{
  int mydir = ++g_dir_counter;
  std::string base = g_scratch + "/f" + g_task_tag + "_" + std::to_string((long)getpid()) + "_" + std::to_string(mydir);
  mkdir(base.c_str(), 0700);
  ChildResult r = inChild(
    [&]() {
      Ctx x;
      x.m_dir = base;
      std::string res;
      try
      {
        s.run(c, x);
        res = "P";
      }
      catch (const Failure &e)
      {
        res = "F" + e.msg;
      }
      catch (const std::exception &e)
      {
        res = std::string("Funexpected exception: ") + e.what();
      }
      std::string head = x.m_nontrivial ? "N" : "T";
      for (auto &l : x.m_labels)
        head += l.first + "\x1f";
      return head + "\x1e" + res;
    },
    s.timeout);
  removeTree(base);
  Outcome o;
  if (r.timed_out)
  {
    o.failed = true;
    o.msg = "did not terminate within " + std::to_string(s.timeout) + " s";
    return o;
  }
  if (!r.ok)
  {
    o.failed = true;
    o.msg = r.crash;
    return o;
  }
  size_t p = r.data.find('\x1e');
  if (p == std::string::npos)
  {
    o.failed = true;
    o.msg = r.data;
    return o;
  }
  std::string head = r.data.substr(0, p), res = r.data.substr(p + 1);
  o.nontrivial = head[0] == 'N';
  std::string l;
  for (size_t i = 1; i < head.size(); ++i)
  {
    if (head[i] == '\x1f')
    {
      o.labels[l] = 1;
      l.clear();
    }
    else
      l += head[i];
  }
  o.failed = res[0] == 'F';
  o.msg = res.substr(1);
  return o;
}

static uint64_t fnv(const std::string &s)
{
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s)
    h = (h ^ c) * 1099511628211ULL;
  return h;
}

static std::string jsonStr(const std::string &s)
{
  std::string r = "\"";
  char b[8];
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\')
      r += '\\', r += (char)c;
    else if (c == '\n')
      r += "\\n";
    else if (c < 32 || c >= 127)
    {
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    }
    else
      r += (char)c;
  }
  return r + "\"";
}

struct Shared
{
  volatile uint64_t beat;
  volatile uint32_t len;
  char text[1 << 20];
};

struct TaskResult
{
  long evals = 0;
  std::map<std::string, long> labels;
  std::vector<std::string> samples;
  std::set<uint64_t> distinct;
  bool failed = false;
  std::string fail_msg;
  Case fail_case;
  std::string error;
};

static void runTask(const Sub &s, int count, uint64_t seed, Shared *sh, const std::string &out)
{
  TaskResult t;
  double fail_time = 0;
  bool have_fail = false;
  long every = std::max(1, count / 3);
  long nt = 0;
  auto prop = [&]() {
    Case c = *s.gen;
    if (have_fail && now() - fail_time > 40)
      return; // shrinking has had its time
    std::string text = serialize(c);
    sh->beat = sh->beat + 1;
    uint32_t l = (uint32_t)std::min(text.size(), sizeof(sh->text) - 1);
    sh->len = 0;
    memcpy(sh->text, text.data(), l);
    sh->len = l;
    Outcome o = s.fork ? runForked(s, c) : runInProcess(s, c);
    t.evals++;
    for (auto &lb : o.labels)
      t.labels[lb.first]++;
    if (o.nontrivial)
    {
      if (t.distinct.insert(fnv(text)).second && (nt++ % every) == every / 2 && t.samples.size() < 3)
        t.samples.push_back(tail(text, 1500));
    }
    if (o.failed)
    {
      if (!have_fail)
        fail_time = now();
      have_fail = true;
      t.fail_case = c;
      t.fail_msg = o.msg;
      RC_FAIL("failed");
    }
  };
  rc::detail::TestMetadata md;
  md.id = s.name;
  md.description = s.name;
  rc::detail::TestParams tp;
  tp.seed = seed;
  tp.maxSuccess = count;
  tp.maxSize = s.max_size;
  tp.maxDiscardRatio = 50;
  auto res = rc::detail::checkTestable(prop, md, tp);
  t.failed = have_fail;
  rc::detail::SuccessResult sr;
  if (!have_fail && !res.match(sr))
  {
    std::ostringstream o;
    rc::detail::printResultMessage(res, o);
    t.error = o.str();
  }
  std::ofstream f(out.c_str(), std::ios::binary);
  f << "evals " << t.evals << "\n";
  for (auto &l : t.labels)
    f << "label " << l.second << " " << escape(l.first) << "\n";
  for (auto &l : t.samples)
    f << "sample " << escape(l) << "\n";
  for (auto h : t.distinct)
    f << "h " << h << "\n";
  if (t.failed)
    f << "fail " << escape(t.fail_msg) << " " << escape(serialize(t.fail_case)) << "\n";
  if (!t.error.empty())
    f << "error " << escape(t.error) << "\n";
  f << "end\n";
}

static bool loadTask(const std::string &path, TaskResult &t)
{
  std::ifstream f(path.c_str());
  std::string line;
  bool end = false;
  while (std::getline(f, line))
  {
    std::istringstream l(line);
    std::string k;
    l >> k;
    if (k == "evals")
      l >> t.evals;
    else if (k == "label")
    {
      long n;
      std::string s;
      l >> n >> s;
      t.labels[unescape(s)] += n;
    }
    else if (k == "sample")
    {
      std::string s;
      l >> s;
      t.samples.push_back(unescape(s));
    }
    else if (k == "h")
    {
      uint64_t h;
      l >> h;
      t.distinct.insert(h);
    }
    else if (k == "fail")
    {
      std::string m, c;
      l >> m >> c;
      t.failed = true;
      t.fail_msg = unescape(m);
      deserialize(unescape(c), t.fail_case);
    }
    else if (k == "error")
    {
      std::string s;
      l >> s;
      t.error = unescape(s);
    }
    else if (k == "end")
      end = true;
  }
  return end;
}

//! Greedy shrinking by replay, for failures that end the process (the generator cannot shrink them).
static Case shrinkCrash(const Sub &s, Case c, std::string &msg)
{
  double t0 = now();
  auto fails = [&](const Case &k) {
    if (now() - t0 > 40)
      return false;
    Outcome o = runForked(s, k);
    if (o.failed)
      msg = o.msg;
    return o.failed;
  };
  bool progress = true;
  while (progress && now() - t0 < 40)
  {
    progress = false;
    for (size_t chunk = std::max<size_t>(1, c.ops.size() / 2); chunk >= 1; chunk /= 2)
    {
      for (size_t i = 0; i + chunk <= c.ops.size() && c.ops.size() > 1;)
      {
        Case k = c;
        k.ops.erase(k.ops.begin() + i, k.ops.begin() + i + chunk);
        if (fails(k))
        {
          c = k;
          progress = true;
        }
        else
          i += chunk;
      }
      if (chunk == 1)
        break;
    }
    for (size_t i = 0; i < c.ops.size(); ++i)
      for (size_t j = 0; j < c.ops[i].s.size(); ++j)
        for (size_t chunk = std::max<size_t>(1, c.ops[i].s[j].size() / 2); chunk >= 1; chunk /= 2)
        {
          for (size_t q = 0; q + chunk <= c.ops[i].s[j].size();)
          {
            Case k = c;
            k.ops[i].s[j].erase(q, chunk);
            if (fails(k))
            {
              c = k;
              progress = true;
            }
            else
              q += chunk;
          }
          if (chunk == 1)
            break;
        }
  }
  return c;
}

static std::string replayText(const std::string &id, const Sub &s, const Case &c, const std::string &msg)
{
  std::string m = msg;
  for (char &ch : m)
    if (ch == '\n')
      ch = ' ';
  return "property " + id + "\nsub " + s.name + "\n# " + m + "\n" + serialize(c);
}

static std::string field(const std::string &text, const std::string &key)
{
  std::istringstream in(text);
  std::string line;
  while (std::getline(in, line))
    if (line.compare(0, key.size() + 1, key + " ") == 0)
      return line.substr(key.size() + 1);
  return "";
}

static std::vector<std::string> listDir(const std::string &d, const std::string &suffix)
{
  std::vector<std::string> r;
  if (DIR *dp = opendir(d.c_str()))
  {
    while (dirent *e = readdir(dp))
    {
      std::string n = e->d_name;
      if (n.size() > suffix.size() && n.compare(n.size() - suffix.size(), suffix.size(), suffix) == 0)
        r.push_back(d + "/" + n);
    }
    closedir(dp);
  }
  std::sort(r.begin(), r.end());
  return r;
}

int checkMain(int argc, char **argv, const std::string &id, const std::string &rule, const std::vector<Sub> &subs,
              const std::string &level, const std::vector<std::string> &assumptions)
{
  double t_start = now();
  std::string root = getenv("VP_ROOT") ? getenv("VP_ROOT") : ".";
  std::string tier = getenv("VERIF_TIER") ? getenv("VERIF_TIER") : "quick";
  uint64_t seed = getenv("VERIF_SEED") ? strtoull(getenv("VERIF_SEED"), nullptr, 10) : 1;
  double scale = getenv("VP_SCALE") ? atof(getenv("VP_SCALE")) : 1.0;
  std::string replay, only;
  for (int i = 1; i < argc; ++i)
  {
    std::string a = argv[i];
    if (a == "--replay" && i + 1 < argc)
      replay = argv[++i];
    else if (a == "--sub" && i + 1 < argc)
      only = argv[++i];
    else if (a == "--tier" && i + 1 < argc)
      tier = argv[++i];
    else if (a == "--seed" && i + 1 < argc)
      seed = strtoull(argv[++i], nullptr, 10);
  }
  if (tier != "thorough")
    tier = "quick";
  signal(SIGPIPE, SIG_IGN);
  char tmpl[] = "/tmp/vp.XXXXXX";
  g_scratch = mkdtemp(tmpl);
  struct Cleaner
  {
    pid_t me = getpid();
    ~Cleaner()
    {
      if (getpid() == me)
        removeTree(g_scratch);
    }
  } cleaner;

  auto findSub = [&](const std::string &n) -> const Sub * {
    for (auto &s : subs)
      if (s.name == n)
        return &s;
    return nullptr;
  };

  if (!replay.empty())
  {
    std::string text = readFile(replay);
    const Sub *s = findSub(field(text, "sub"));
    if (!s)
    {
      std::cerr << "no such part in " << replay << "\n";
      return 2;
    }
    Case c;
    deserialize(text, c);
    Outcome o = runForked(*s, c);
    std::cout << (o.failed ? "FAIL " : "PASS ") << o.msg << "\n";
    for (auto &l : o.labels)
      std::cout << "  label " << l.first << "\n";
    return o.failed ? 1 : 0;
  }

  // --- saved inputs -----------------------------------------------------------------------
  struct Viol
  {
    std::string path, msg;
  };
  std::vector<Viol> violations;
  std::set<std::string> failed_subs;
  long evals = 0, saved = 0;
  std::map<std::string, std::map<std::string, long>> labels;
  for (auto &f : listDir(root + "/corpus/" + id, ".case"))
  {
    std::string text = readFile(f);
    const Sub *s = findSub(field(text, "sub"));
    if (!s || (!only.empty() && s->name != only))
      continue;
    Case c;
    deserialize(text, c);
    Outcome o = runForked(*s, c);
    evals++;
    saved++;
    if (o.failed)
    {
      int again = 0;
      for (int i = 0; i < 2; ++i)
        again += runForked(*s, c).failed;
      if (again == 2 || (s->racy && again >= 1))
        violations.push_back({f, o.msg});
    }
  }
  // --- known findings ---------------------------------------------------------------------
  for (auto &f : listDir(root + "/known/" + id, ".case"))
  {
    std::string text = readFile(f);
    const Sub *s = findSub(field(text, "sub"));
    if (!s)
      continue;
    Case c;
    deserialize(text, c);
    Outcome o = runForked(*s, c);
    evals++;
    saved++;
    if (o.failed)
      std::cout << "KNOWN-FINDING: property=" << id << " " << field(text, "finding") << std::endl;
  }

  // --- generated cases --------------------------------------------------------------------
  struct Task
  {
    const Sub *s;
    int count;
    uint64_t seed;
    Shared *sh;
    std::string out;
    pid_t pid = 0;
    double started = 0, beat_t = 0;
    uint64_t beat = 0;
  };
  std::vector<Task> tasks;
  for (auto &s : subs)
  {
    if (!only.empty() && s.name != only)
      continue;
    int count = (int)((tier == "thorough" ? s.thorough : s.quick) * scale);
    if (count < 1)
      continue;
    int shards = s.shards ? s.shards : (count >= 64 ? 8 : count >= 8 ? 4 : 1);
    for (int i = 0; i < shards; ++i)
    {
      Task t;
      t.s = &s;
      t.count = count / shards + (i < count % shards);
      if (t.count < 1)
        continue;
      t.seed = fnv(std::to_string(seed) + "/" + id + "/" + s.name + "/" + std::to_string(i));
      t.sh = nullptr;
      t.out = g_scratch + "/task" + std::to_string(tasks.size());
      tasks.push_back(t);
    }
  }
  // interleave so that the parts share the cores evenly
  size_t next = 0;
  int running = 0;
  const int kPar = 8;
  std::map<std::string, TaskResult> bysub;
  std::map<std::string, std::set<uint64_t>> distinct;
  struct Cand
  {
    Case c;
    std::string msg;
    bool crash;
  };
  std::map<std::string, std::vector<Cand>> cands;
  std::vector<std::string> errors;
  auto budget = tier == "thorough" ? 3600.0 : 700.0;
  bool cut = false;
  while (next < tasks.size() || running > 0)
  {
    while (running < kPar && next < tasks.size())
    {
      Task &t = tasks[next];
      if (cands.count(t.s->name) && cands[t.s->name].size() >= 2)
      {
        next++;
        continue;
      }
      if (now() - t_start > budget)
      {
        cut = true;
        next++;
        continue;
      }
      t.sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      fflush(stdout);
      t.pid = fork();
      if (t.pid == 0)
      {
        g_task_tag = std::to_string(next);
        int fd = open((t.out + ".log").c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
        dup2(fd, 1);
        dup2(fd, 2);
        close(fd);
        runTask(*t.s, t.count, t.seed, t.sh, t.out);
        _exit(0);
      }
      t.started = t.beat_t = now();
      running++;
      next++;
    }
    int st;
    pid_t p = waitpid(-1, &st, WNOHANG);
    if (p <= 0)
    {
      usleep(2000);
      for (auto &t : tasks)
        if (t.pid > 0 && !t.s->fork)
        {
          if (t.sh->beat != t.beat)
          {
            t.beat = t.sh->beat;
            t.beat_t = now();
          }
          else if (now() - t.beat_t > t.s->timeout)
            kill(t.pid, SIGKILL);
        }
      continue;
    }
    for (auto &t : tasks)
    {
      if (t.pid != p)
        continue;
      t.pid = -1;
      running--;
      TaskResult r;
      bool complete = loadTask(t.out, r);
      std::string &nm = const_cast<std::string &>(t.s->name);
      evals += r.evals;
      for (auto &l : r.labels)
        labels[nm][l.first] += l.second;
      bysub[nm].evals += r.evals;
      for (auto &x : r.samples)
        bysub[nm].samples.push_back(x);
      distinct[nm].insert(r.distinct.begin(), r.distinct.end());
      if (r.failed)
        cands[nm].push_back({r.fail_case, r.fail_msg, false});
      if (!complete)
      {
        Case c;
        deserialize(std::string(t.sh->text, t.sh->len), c);
        if (t.sh->len == 0)
          errors.push_back(nm + ": task ended before its first case: " + crashText(readFile(t.out + ".log")));
        else
          cands[nm].push_back({c, "process ended: " + crashText(readFile(t.out + ".log")), true});
        evals += t.sh->beat;
        bysub[nm].evals += t.sh->beat;
      }
      if (!r.error.empty())
        errors.push_back(nm + ": " + r.error);
      munmap(t.sh, sizeof(Shared));
      unlink(t.out.c_str());
      unlink((t.out + ".log").c_str());
    }
  }

  // --- failures: replay three times, then report ---------------------------------------------
  long unreproduced = 0;
  mkdir((root + "/evidence").c_str(), 0755);
  mkdir((root + "/evidence/replay").c_str(), 0755);
  for (auto &kv : cands)
  {
    const Sub *s = findSub(kv.first);
    std::sort(kv.second.begin(), kv.second.end(),
              [](const Cand &a, const Cand &b) { return serialize(a.c).size() < serialize(b.c).size(); });
    bool reported = false;
    for (auto &cd : kv.second)
    {
      if (reported)
        break;
      int tries = s->racy ? 25 : 3, hit = 0;
      std::string msg = cd.msg;
      for (int i = 0; i < tries && !(s->racy && hit >= 3); ++i)
      {
        Outcome o = runForked(*s, cd.c);
        if (o.failed)
        {
          hit++;
          msg = o.msg;
        }
        else if (!s->racy)
          break;
      }
      if (hit < (s->racy ? 1 : 3))
      {
        unreproduced++;
        std::cerr << "note: " << id << "/" << kv.first << ": a failure did not reproduce: " << cd.msg << "\n"
                  << serialize(cd.c) << "\n";
        continue;
      }
      Case c = cd.c;
      if (cd.crash)
        c = shrinkCrash(*s, c, msg);
      std::string text = replayText(id, *s, c, msg);
      char h[32];
      snprintf(h, sizeof h, "%08llx", (unsigned long long)(fnv(serialize(c)) & 0xffffffffULL));
      std::string path = root + "/evidence/replay/" + id + "-" + s->name + "-" + h + ".case";
      writeFile(path, text);
      violations.push_back({path, msg});
      reported = true;
    }
  }

  // --- evidence -----------------------------------------------------------------------------
  long dn = 0;
  for (auto &d : distinct)
    dn += d.second.size();
  std::ostringstream j;
  j << "{\n \"property\": " << jsonStr(id) << ",\n \"tier\": " << jsonStr(tier) << ",\n \"seed\": " << seed
    << ",\n \"level\": " << jsonStr(level) << ",\n \"coverage\": {\n  \"evaluations\": " << evals
    << ",\n  \"distinct_nontrivial\": " << dn << ",\n  \"rule\": " << jsonStr(rule) << ",\n  \"saved_inputs\": " << saved
    << ",\n  \"unreproduced_failures\": " << unreproduced << ",\n  \"parts\": {";
  bool first = true;
  for (auto &b : bysub)
  {
    j << (first ? "\n" : ",\n") << "   " << jsonStr(b.first) << ": {\"evaluations\": " << b.second.evals
      << ", \"distinct_nontrivial\": " << distinct[b.first].size() << ", \"classes\": {";
    bool f2 = true;
    for (auto &l : labels[b.first])
    {
      j << (f2 ? "" : ", ") << jsonStr(l.first) << ": " << l.second;
      f2 = false;
    }
    j << "}}";
    first = false;
  }
  j << "\n  },\n  \"samples\": [";
  first = true;
  for (auto &b : bysub)
    for (size_t i = 0; i < b.second.samples.size() && i < 3; ++i)
    {
      j << (first ? "\n" : ",\n") << "   " << jsonStr(b.first + ":\n" + b.second.samples[b.second.samples.size() - 1 - i]);
      first = false;
    }
  j << "\n  ]";
  if (cut)
    j << ",\n  \"cut_short\": true";
  j << "\n },\n \"assumptions\": [";
  first = true;
  for (auto &a : assumptions)
  {
    j << (first ? "" : ", ") << jsonStr(a);
    first = false;
  }
  j << "],\n \"wall_s\": " << (now() - t_start) << ",\n \"violations\": " << violations.size() << "\n}\n";
  if (only.empty() || getenv("VP_EVIDENCE"))
    writeFile(root + "/evidence/" + id + ".json", j.str());
  else
    std::cout << j.str();

  for (auto &v : violations)
  {
    std::cout << "  " << v.msg << "\n";
    std::cout << "VIOLATION property=" << id << " replay=" << v.path << std::endl;
  }
  for (auto &e : errors)
    std::cerr << "error: " << id << "/" << e << "\n";
  std::cout << id << " " << tier << " seed=" << seed << ": " << evals << " cases, " << dn << " distinct non-trivial, "
            << violations.size() << " violations, " << (now() - t_start) << " s" << std::endl;
  if (!violations.empty())
    return 1;
  return errors.empty() ? 0 : 2;
}

} // namespace vp
