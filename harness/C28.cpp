// vp: profile=schedasan mods=logging extra=detsched.cpp wrap=@wraps.txt
// Log messages reach every connected output exactly once, whole and in order, whatever the threads do.
#include "threads.hpp"
#include <icl_core_config/Config.h>
#include <icl_core_logging/Logging.h>
#include <icl_core_logging/LogOutputStream.h>
#include <cstring>
#include <sanitizer/asan_interface.h>
#include <map>
#include <memory>
#include <set>
using namespace vp;
namespace lg = icl_core::logging;

namespace {

const int OUTS = 3, STREAMS = 2;
struct World;
World *world;

struct Msg
{
  int number = 0, thread = 0, stream = -1, level = 0;
  std::string text, cls, obj, fun, file;
  int line = 0;
  int64_t from = -1, to = -1;      //!< the time
  int64_t begin = -1, end = -1;    //!< clock when its output began (the flush) and was over
  int expect[OUTS] = {0, 0, 0};    //!< 0: must not, 1: must, 2: may arrive
  int64_t versions[OUTS] = {0, 0, 0};
  std::vector<int> got[OUTS];      //!< positions
};

struct Out : public lg::LogOutputStream
{
  int n;
  bool worker;
  bool in_push = false;
  int tid = -1;
  int starts = 0, stops = 0;
  std::set<int> tids;
  Out(int n, const std::string &name, lg::LogLevel level, bool worker)
    : LogOutputStream(name, "/IclCore/Logging/none", level, worker), n(n), worker(worker) {}
  ~Out() override;
  void pushImpl(const icl_core::String &line) override;
  void onStart() override;
  void onShutdown() override;
  void enter();
  // the library orders outputs by their addresses, which must not depend on the heap
  static void *operator new(size_t n);
  static void operator delete(void *p);
};
struct OutM : public Out
{
  using Out::Out;
  void pushImpl(const icl_core::String &line) override { Out::pushImpl(line); }
  void pushImpl(const LogMessage &m) override;
};

alignas(64) char arena[OUTS][4096];
int arena_used = 0;
void *Out::operator new(size_t n)
{
  DS_CHECK(n <= sizeof arena[0] && arena_used < OUTS, "arena is full");
  return arena[arena_used++];
}
void Out::operator delete(void *p) { ASAN_POISON_MEMORY_REGION(p, sizeof arena[0]); }

struct World
{
  int64_t clock = 0;
  std::map<int, Msg> msgs;
  int next = 0;
  Out *out[OUTS] = {nullptr, nullptr, nullptr};
  lg::LogStream *stream[STREAMS] = {nullptr, nullptr};
  bool conn[OUTS][STREAMS];
  int out_level[OUTS], stream_level = lg::eLL_INFO;
  bool stream_active[STREAMS] = {true, true};
  int64_t version[OUTS] = {0, 0, 0};   //!< changes of what reaches an output: begun or over
  int changing[OUTS] = {0, 0, 0};
  bool alive[OUTS] = {false, false, false}, running[OUTS] = {false, false, false};
  std::vector<int> arrived[OUTS];
  int users = 0;
  std::set<std::string> formats[OUTS];  //!< ever in use
  int delivered = 0, interrupts = 0, partial = 0, crowd = 0, reopened = 0, dropped = 0;
};

Out::~Out()
{
  DS_CHECK(!in_push, "an output is destroyed while it is used");
  DS_CHECK(starts == stops, "an output is destroyed without onShutdown()");
  world->alive[n] = false;
  world->out[n] = nullptr;
}
void Out::onStart()
{
  DS_CHECK(starts == stops, "onStart() called twice");
  starts++;
  tid = ds::self();
  tids.insert(tid);
}
void Out::onShutdown()
{
  DS_CHECK(tid == ds::self(), "onShutdown() in another thread");
  DS_CHECK(!in_push, "onShutdown() during an output");
  stops++;
  DS_CHECK(starts == stops, "onShutdown() without onStart()");
}
void Out::enter()
{
  DS_CHECK(!in_push, "two threads write to one output at the same time");
  if (worker)
  {
    DS_CHECK(ds::self() == tid, "the output is written by another thread than its worker");
    DS_CHECK(starts == stops + 1, "a message is written before onStart() or after onShutdown()");
  }
  in_push = true;
  ds::point();
}
int numberOf(const std::string &text)
{
  size_t p = text.find("<#");
  return p == std::string::npos ? -1 : atoi(text.c_str() + p + 2);
}
void arrive(Out *o, int number)
{
  World &w = *world;
  DS_CHECK(w.msgs.count(number), "a message arrives that nobody logged");
  w.msgs[number].got[o->n].push_back((int)w.arrived[o->n].size());
  w.arrived[o->n].push_back(number);
  w.delivered++;
}
void OutM::pushImpl(const LogMessage &m)
{
  enter();
  int number = numberOf(m.message_text);
  DS_CHECK(number >= 0 && world->msgs.count(number), "a message arrives that nobody logged: " << escape(m.message_text));
  const Msg &g = world->msgs[number];
  DS_CHECK(g.text == m.message_text, "text of a message is '" << escape(m.message_text) << "', expected '" << escape(g.text) << "'");
  DS_CHECK(g.level == (int)m.log_level, "level of a message is " << (int)m.log_level << ", expected " << g.level);
  DS_CHECK(g.cls == m.class_name, "class of a message is '" << m.class_name << "', expected '" << g.cls << "'");
  DS_CHECK(g.obj == m.object_name, "object of a message is '" << m.object_name << "', expected '" << g.obj << "'");
  DS_CHECK(g.fun == m.function_name, "function of a message is '" << m.function_name << "', expected '" << g.fun << "'");
  DS_CHECK(g.file == m.filename, "file of a message is '" << m.filename << "', expected '" << g.file << "'");
  DS_CHECK((size_t)g.line == m.line, "line of a message is " << m.line << ", expected " << g.line);
  DS_CHECK(std::string("S") + char('0' + g.stream) == m.log_stream, "stream of a message is " << m.log_stream << ", expected S" << g.stream);
  arrive(this, number);
  in_push = false;
}
void Out::pushImpl(const icl_core::String &line)
{
  enter();
  int number = numberOf(line);
  DS_CHECK(number >= 0 && world->msgs.count(number), "a message arrives that nobody logged: " << escape(line));
  const Msg &g = world->msgs[number];
  std::string all;
  bool ok = false;
  for (const std::string &f : world->formats[n])
  {
    std::string head = f + "{S" + char('0' + g.stream) + "|" + lg::logLevelDescription((lg::LogLevel)g.level) + "|" + (g.cls.empty() ? "" : " " + g.cls) + "|",
                tail = "|" + g.text + "}" + f;
    if (line.size() == head.size() + 23 + tail.size() && line.compare(0, head.size(), head) == 0 && line.compare(head.size() + 23, std::string::npos, tail) == 0)
    {
      ok = true;
      struct tm tm = {};
      const std::string when = line.substr(head.size(), 23);
      const char *e = strptime(when.c_str(), "%Y-%m-%d %H:%M:%S", &tm);
      DS_CHECK(e && *e == '.', "the time of a message is '" << when << "'");
      int64_t ms = (int64_t)timegm(&tm) * 1000 + atoi(e + 1);
      DS_CHECK(ms >= g.from / 1000000 && ms <= (g.to >= 0 ? g.to : ds::now() + ds::realtimeOffset()) / 1000000,
               "the time of a message is " << when << ", it was logged from " << g.from << " to " << g.to);
    }
    all += " '" + escape(head) + "<time>" + escape(tail) + "'";
  }
  DS_CHECK(ok, "a line is '" << escape(line) << "', expected one of" << all);
  arrive(this, number);
  in_push = false;
}

std::string formatOf(const std::string &f) { return f + "{~S|~L|~ C|~T.~3M|~E}" + f; }

int decide(World &w, int o, int s, int level)
{
  return w.alive[o] && w.conn[o][s] && w.stream_active[s] && level >= w.stream_level && level >= w.out_level[o];
}
struct Change // of what reaches output o
{
  World &w;
  int o;
  Change(World &w, int o) : w(w), o(o)
  {
    w.version[o]++;
    w.changing[o]++;
  }
  ~Change()
  {
    w.changing[o]--;
    w.version[o]++;
  }
};
void begin(World &w, Msg &m, bool direct)
{
  m.begin = w.clock++;
  m.from = ds::now() + ds::realtimeOffset();
  for (int o = 0; o < OUTS; ++o)
  {
    m.expect[o] = decide(w, o, m.stream, m.level) || (direct && w.alive[o] && w.conn[o][m.stream] && m.level >= w.out_level[o]);
    m.versions[o] = w.version[o];
    if (w.changing[o])
      m.expect[o] = 2;
  }
}
void end(World &w, Msg &m)
{
  m.end = w.clock++;
  m.to = ds::now() + ds::realtimeOffset();
  for (int o = 0; o < OUTS; ++o)
    if (m.versions[o] != w.version[o])
      m.expect[o] = 2;
}

struct Pending
{
  int number = -1;
};

void use(World &w, int t, const std::vector<const Op *> &ops)
{
  std::map<std::pair<int, int>, Pending> pend; // (stream, level)
  auto flush = [&](int s, int level, bool nl) {
    auto it = pend.find({s, level});
    if (it == pend.end())
      return;
    Msg &m = w.msgs[it->second.number];
    if (nl)
      m.text += "\n";
    begin(w, m, true);
    if (nl)
      w.stream[s]->threadStream((lg::LogLevel)level) << lg::endl;
    else
      w.stream[s]->threadStream((lg::LogLevel)level) << lg::flush;
    end(w, m);
    pend.erase(it);
  };
  for (const Op *po : ops)
  {
    const Op &o = *po;
    int s = (int)(N(o, 1) % STREAMS), level = (int)(N(o, 2) % 5), x = (int)(N(o, 3) % OUTS);
    lg::LogStream &st = *w.stream[s];
    switch (o.k)
    {
    case 1: // a whole message
    {
      if (pend.count({s, level}))
      {
        flush(s, level, N(o, 3) & 1);
        break;
      }
      int number = w.next++;
      Msg &m = w.msgs[number];
      m.number = number;
      m.thread = t;
      m.stream = s;
      m.level = level;
      m.fun = __FUNCTION__;
      m.file = __FILE__;
      std::ostringstream text;
      std::string fill((size_t)(N(o, 4) % 200), char('a' + t));
      text << "<#" << number << ">" << fill << "\n";
      m.text = text.str();
      begin(w, m, false);
      switch (N(o, 3) % 4)
      {
      case 0:
        m.line = __LINE__ + 1;
        SLOGGING_LOG(st, (lg::LogLevel)level, "<#" << number << ">" << fill << lg::endl);
        break;
      case 1:
        m.cls = "K";
        m.line = __LINE__ + 1;
        SLOGGING_LOG_C(st, (lg::LogLevel)level, K, "<#" << number << ">" << fill << lg::endl);
        break;
      case 2:
        m.cls = "KK";
        m.obj = std::string("o") + char('0' + t);
        m.line = __LINE__ + 1;
        SLOGGING_LOG_CO(st, (lg::LogLevel)level, KK, m.obj.c_str(), "<#" << number << ">" << fill << lg::endl);
        break;
      case 3:
        m.line = __LINE__ + 1;
        SLOGGING_FMT_LOG(st, (lg::LogLevel)level, "<#%d>%s\n", number, fill.c_str());
        break;
      }
      end(w, m);
      break;
    }
    case 2: // a part of one
    {
      w.partial++;
      auto &p = pend[{s, level}];
      bool first = p.number < 0;
      if (first)
      {
        p.number = w.next++;
        Msg &m = w.msgs[p.number];
        m.number = p.number;
        m.thread = t;
        m.stream = s;
        m.level = level;
      }
      Msg &m = w.msgs[p.number];
      auto &ts = st.threadStream((lg::LogLevel)level);
      if (first)
      {
        ts.setLineLogLevel((lg::LogLevel)level);
        ts << "<#" << p.number << ">";
        m.text = "<#" + std::to_string(p.number) + ">";
      }
      switch (N(o, 3) % 6)
      {
      case 0:
        ts.setClassname("PC");
        m.cls = "PC";
        break;
      case 1:
        ts.setObjectname("PO");
        m.obj = "PO";
        break;
      case 2:
        ts.setFilename("PF");
        m.file = "PF";
        break;
      case 3:
        ts.setFunction("PFn");
        m.fun = "PFn";
        break;
      case 4:
        ts.setLine(77);
        m.line = 77;
        break;
      }
      ts << "," << N(o, 4);
      m.text += "," + std::to_string(N(o, 4));
      break;
    }
    case 3:
      flush(s, level, N(o, 3) & 1);
      break;
    case 4:
      if (N(o, 3) & 1)
        ds::sleepNs(N(o, 4));
      else
        for (int64_t k = 0; k < N(o, 4) % 20; ++k)
          ds::point();
      break;
    case 5: // main thread: levels
      if (t == 0)
      {
        Change a(w, 0), b(w, 1), c(w, 2);
        lg::setLogLevel((lg::LogLevel)level);
        w.stream_level = level;
        for (int i = 0; i < OUTS; ++i)
          if (w.alive[i])
            w.out_level[i] = level;
      }
      break;
    case 6:
      if (t == 0 && w.alive[x])
      {
        Change a(w, x);
        int l = (int)(N(o, 2) % 6);
        w.out[x]->setLogLevel((lg::LogLevel)l);
        w.out_level[x] = l;
      }
      break;
    case 7:
      if (t == 0)
      {
        Change a(w, 0), b(w, 1), c(w, 2);
        st.setActive(N(o, 3) & 1);
        w.stream_active[s] = N(o, 3) & 1;
      }
      break;
    case 8:
      if (t == 0 && w.alive[x])
      {
        Change a(w, x);
        if (w.conn[x][s])
          st.removeOutputStream(w.out[x]);
        else
          st.addOutputStream(w.out[x]);
        w.conn[x][s] = !w.conn[x][s];
      }
      break;
    case 9:
      if (t == 0 && w.alive[x])
      {
        std::string f = std::string(1, char('a' + N(o, 4) % 20));
        w.formats[x].insert(f);
        if (N(o, 2) & 1)
          lg::LoggingManager::instance().changeLogFormat("O" + std::to_string(x), formatOf(f).c_str());
        else
          w.out[x]->changeLogFormat(formatOf(f).c_str());
      }
      break;
    case 10: // stopped and started again, messages that come in between wait
      if (t == 0 && w.alive[x] && w.out[x]->worker)
      {
        w.reopened++;
        w.out[x]->shutdown();
        for (int64_t k = 0; k < N(o, 4) % 5; ++k)
          ds::point();
        DS_CHECK(w.out[x]->starts == w.out[x]->stops, "the worker runs after shutdown()");
        w.out[x]->start();
      }
      break;
    case 11: // taken out and deleted
      if (t == 0 && w.alive[x] && N(o, 4) % 3 == 0)
      {
        w.dropped++;
        Change a(w, x);
        Out *p = w.out[x];
        lg::LoggingManager::instance().removeLogOutputStream(p);
        for (int i = 0; i < STREAMS; ++i)
          w.conn[x][i] = false;
        p->shutdown();
        delete p;
      }
      break;
    case 13:
      ds::setWallClock(N(o, 4) * 1000000000LL);
      break;
    case 12:
      w.interrupts += ds::interrupt((int)N(o, 4) % 12);
      break;
    }
  }
  while (!pend.empty())
  {
    auto k = pend.begin()->first;
    flush(k.first, k.second, false);
  }
}

int cfg_worker, cfg_text, cfg_levels;
lg::LogOutputStream *make(const icl_core::String &name, const icl_core::String &, lg::LogLevel level)
{
  int n = name[1] - '0';
  bool worker = (cfg_worker >> n) & 1;
  world->out[n] = (cfg_text >> n) & 1 ? new Out(n, name, level, worker) : new OutM(n, name, level, worker);
  world->alive[n] = true;
  world->formats[n].insert("z");
  world->out[n]->changeLogFormat(formatOf("z").c_str());
  return world->out[n];
}
lg::LogStream *makeS0() { return world->stream[0] = new lg::LogStream("S0"); }
lg::LogStream *makeS1() { return world->stream[1] = new lg::LogStream("S1"); }

void run(const Case &c, Ctx &x)
{
  World w;
  world = &w;
  ds::time_limit = 1000LL * 86400000000000LL;
  int threads = 1, conns = 63, holders = 0;
  for (const Op &o : c.ops)
    if (o.k == OP_HEAD)
    {
      threads = (int)(N(o, 0) % 9);
      cfg_worker = (int)N(o, 6);
      cfg_text = (int)N(o, 7);
      cfg_levels = (int)N(o, 8);
      conns = (int)N(o, 9);
      holders = (int)(N(o, 10) % 7);
    }
  std::vector<std::vector<const Op *>> p((size_t)threads + 1);
  for (const Op &o : c.ops)
    if (o.k >= 1 && o.k <= 13)
      p[o.k >= 5 && o.k <= 11 ? 0 : (size_t)(N(o, 0) % (threads + 1))].push_back(&o);
  ds::run(scheduleOf(c), [&] {
    auto &man = lg::LoggingManager::instance();
    man.registerLogOutputStream("TestOut", make);
    man.registerLogStream("S0", makeS0);
    man.registerLogStream("S1", makeS1);
    auto &cfg = icl_core::config::ConfigManager::instance();
    for (int o = 0; o < OUTS; ++o)
    {
      std::string pre = "/IclCore/Logging/OutputStream" + std::to_string(o) + "/";
      cfg.setValue<icl_core::String>(pre + "OutputStreamName", "TestOut");
      cfg.setValue<icl_core::String>(pre + "Name", "O" + std::to_string(o));
      w.out_level[o] = (cfg_levels >> (3 * o)) % 6;
      cfg.setValue<icl_core::String>(pre + "LogLevel", lg::logLevelDescription((lg::LogLevel)w.out_level[o]));
      bool any = false;
      for (int s = 0; s < STREAMS; ++s)
      {
        w.conn[o][s] = (conns >> (o * STREAMS + s)) & 1;
        if (w.conn[o][s])
          cfg.setValue<icl_core::String>(pre + "LogStream" + std::to_string(s), "S" + std::to_string(s));
        any = any || w.conn[o][s];
      }
      if (!any)
        cfg.setValue<icl_core::String>(pre + "LogStream0", "nothing");
    }
    lg::initialize();
    lg::setLogLevel(lg::eLL_INFO);
    for (int o = 0; o < OUTS; ++o)
    {
      w.out_level[o] = lg::eLL_INFO;
      if ((cfg_levels >> (3 * o)) % 2)
      {
        w.out_level[o] = (cfg_levels >> (3 * o)) % 6;
        w.out[o]->setLogLevel((lg::LogLevel)w.out_level[o]);
      }
    }
    // threads that are within messages all the time, so that the others find all prepared thread streams in use
    int holding = 0;
    bool over = false;
    std::vector<int> holder_ids;
    for (int h = 0; h < holders; ++h)
      holder_ids.push_back(ds::spawn([&] {
        for (int l = lg::eLL_TRACE; l <= lg::eLL_MUTE; ++l)
          w.stream[0]->threadStream((lg::LogLevel)l);
        holding++;
        ds::await([&] { return over; }, -1, "holding thread streams");
      }));
    ds::await([&] { return holding == holders; }, -1, "holders");
    std::vector<int> ids;
    for (int t = 1; t <= threads; ++t)
      ids.push_back(ds::spawn([&w, &p, t] { use(w, t, p[(size_t)t]); }));
    use(w, 0, p[0]);
    for (int i : ids)
      ds::join(i);
    over = true;
    for (int i : holder_ids)
      ds::join(i);
    std::set<int> workers;
    for (int o = 0; o < OUTS; ++o)
      if (w.alive[o])
        workers.insert(w.out[o]->tids.begin(), w.out[o]->tids.end());
    lg::shutdown();
    for (int o = 0; o < OUTS; ++o)
      DS_CHECK(!w.alive[o], "an output is left after shutdown");
    for (int i : workers)
      DS_CHECK(ds::finishedAt(i) >= 0 && ds::wasJoined(i), "a worker thread is left after shutdown");
    DS_CHECK(ds::liveThreads() == 0, "threads are left after shutdown");
    for (auto &e : w.msgs)
    {
      Msg &m = e.second;
      if (m.end < 0)
        continue;
      for (int o = 0; o < OUTS; ++o)
      {
        DS_CHECK(m.got[o].size() <= 1, "message " << m.number << " arrives " << m.got[o].size() << " times at output " << o);
        DS_CHECK(m.expect[o] != 1 || m.got[o].size() == 1, "message " << m.number << " never arrives at output " << o);
        DS_CHECK(m.expect[o] != 0 || m.got[o].empty(), "message " << m.number << " arrives at output " << o << " although it is not meant for it");
      }
    }
    // a message whose logging was over before that of another began comes first
    for (int o = 0; o < OUTS; ++o)
    {
      int64_t latest = -1;
      for (int n : w.arrived[o])
      {
        Msg &m = w.msgs[n];
        DS_CHECK(m.end < 0 || m.end >= latest, "message " << n << " arrives after one that was logged later");
        latest = std::max(latest, m.begin);
      }
    }
  });
  x.nontrivial(w.delivered >= 3 && ds::stats().preemptions > 0);
  if (w.partial)
    x.label("messages in parts");
  if (w.interrupts)
    x.label("interrupted by a signal");
  if (w.reopened)
    x.label("output stopped and started");
  if (w.dropped)
    x.label("output removed");
  if (holders > 5)
    x.label("all prepared thread streams in use");
  if (threads > 4)
    x.label("more than 5 threads");
}

Op gen()
{
  int w = (int)pick(0, 99);
  int64_t t = pick(0, 8), s = oneOf<int64_t>({0, 0, 0, 1}), l = oneOf<int64_t>({2, 2, 3, 4, pick(0, 4)});
  if (w < 45)
    return mk(1, {t, s, l, pick(0, 3), oneOf<int64_t>({0, 1, 5, pick(0, 199)})});
  if (w < 58)
    return mk(2, {t, s, pick(0, 4), pick(0, 5), pick(0, 99)});
  if (w < 62)
    return mk(3, {t, s, l, pick(0, 1)});
  if (w < 70)
    return mk(4, {t, 0, 0, pick(0, 1), oneOf<int64_t>({0, 10, 1000, 100000, 20000000, 1000000000, 86400000000000})});
  if (w < 84)
  {
    int k = (int)oneOf<int64_t>({5, 6, 7, 8, 8, 9, 9, 10, 10, 11});
    return mk(k, {0, s, pick(0, 5), pick(0, 5), pick(0, 19)});
  }
  if (w < 90)
    return mk(13, {t, 0, 0, 0, oneOf<int64_t>({1, 61, 3661, 90061})});
  if (w < 93)
    return mk(12, {t, 0, 0, 0, pick(0, 11)});
  return decisionOp();
}

} // namespace

int main(int argc, char **argv)
{
  Sub s{"messages", headCase(opGen([] {
          return headOp(oneOf<int64_t>({0, 1, 2, 2, 3, 8}), {oneOf<int64_t>({7, 7, 3, 1, 0, 5}), pick(0, 7), pick(0, 511), oneOf<int64_t>({63, 63, 21, pick(0, 63)}), oneOf<int64_t>({0, 0, 0, 0, 0, 0, 0, 0, 0, 6, 6, 5})});
        }), opGen(gen)), run, 4000, 40000};
  s.fork = true;
  s.timeout = 60;
  s.max_size = 60;
  return checkMain(argc, argv, "C28",
                   "histories of up to nine threads that log whole messages or parts on two streams to three outputs with or without a worker thread, while levels, formats and connections "
                   "change, outputs are stopped, started and removed, and signals interrupt waits, under generated schedules. Non-trivial: three messages delivered, and a preemption",
                   {s}, "exploration", {"POSIX primitives and clocks are models on virtual time; memory is sequentially consistent",
                                        "one thread changes the configuration; nothing is logged during the shutdown of the whole framework"});
}
