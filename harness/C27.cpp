// vp: profile=asan mods=logging extra=release27.cpp
// Messages are routed from streams to outputs as configuration, command line and level changes say.
#define _IC_DEBUG_
#define ICL_CORE_LOCAL_LOGGING
#include "logtest.hpp"
#include <cstring>
#include <icl_core_config/Config.h>
#include <iostream>
#include <memory>
#include <set>
#include <sstream>
using namespace vp;
namespace lg = icl_core::logging;

DECLARE_LOG_STREAM(Alpha)
REGISTER_LOG_STREAM(Alpha)
DECLARE_LOG_STREAM(Beta)
REGISTER_LOG_STREAM(Beta)
DECLARE_LOG_STREAM(Gamma)
REGISTER_LOG_STREAM(Gamma)

void releaseLog(int family, int level, int id); // compiled without _IC_DEBUG_ and local logging

namespace {

const char *STREAMS[] = {"Alpha", "Beta", "Gamma", "Default", "Nirwana", "QuickDebug", "Dyn0", "Dyn1", "Unknown"};
const int STATIC = 6, ALL = 8;
const char *FORMAT = "|~S|~L|~C|~O|~D|~E";
const char *LEVELS[] = {"Trace", "Debug", "Info", "Warning", "Error", "Mute", "info", "", "Info ", "5"};

struct Got
{
  int id;
  std::string kind, stream, level, cls, obj, fun;
};
struct Inst
{
  std::string name, prefix;
  int created_level;
  bool worker, deleted = false;
  std::vector<Got> got;
};
std::vector<std::shared_ptr<Inst>> insts;

struct TestOut : public lg::LogOutputStream
{
  std::shared_ptr<Inst> inst;
  TestOut(const std::string &name, const std::string &prefix, lg::LogLevel level, bool worker)
    : LogOutputStream(name, prefix, level, worker), inst(new Inst)
  {
    inst->name = name;
    inst->prefix = prefix;
    inst->created_level = level;
    inst->worker = worker;
    insts.push_back(inst);
  }
  ~TestOut() override { inst->deleted = true; }
  void pushImpl(const icl_core::String &l) override
  {
    // <kind of format>|<stream>|<level>|<class>|<object>|<function>|<text>
    std::vector<std::string> f(1);
    for (char ch : l)
      if (ch == '|')
        f.emplace_back();
      else
        f.back() += ch;
    Got g;
    if (f.size() != 7)
    {
      g.id = -1;
      g.stream = "odd line: " + l;
    }
    else
    {
      g.kind = f[0];
      g.stream = f[1];
      g.level = f[2];
      g.cls = f[3];
      g.obj = f[4];
      g.fun = f[5];
      g.id = f[6][0] == 'm' && f[6].back() == '\n' ? atoi(f[6].c_str() + 1) : -1;
    }
    inst->got.push_back(g);
  }
  static lg::LogOutputStream *create(const icl_core::String &n, const icl_core::String &p, lg::LogLevel l) { return new TestOut(n, p, l, false); }
  static lg::LogOutputStream *createWorker(const icl_core::String &n, const icl_core::String &p, lg::LogLevel l) { return new TestOut(n, p, l, true); }
};
REGISTER_LOG_OUTPUT_STREAM(TestOut, &TestOut::create)
REGISTER_LOG_OUTPUT_STREAM(TestOutW, &TestOut::createWorker)

struct DynStream : public lg::LogStream
{
  explicit DynStream(const std::string &n) : LogStream(n) {}
};
lg::LogStream *makeDyn1() { return new DynStream("Dyn1"); }

// ---- the model ------------------------------------------------------------------------------
struct MOut
{
  std::string name, prefix;
  int level = lg::eLL_INFO;
  bool worker = false;
  std::string format = "0";
  struct Exp
  {
    int id, level;
    std::string stream, cls, obj, fun, format;
  };
  std::vector<Exp> want;
};
struct MStream
{
  int level = lg::eLL_INFO;
  bool active = true;
  std::set<MOut *> outs;
};
struct OutCfg
{
  std::string type, name;
  int level = lg::eLL_INFO;
  std::vector<std::string> streams;
};
struct Model
{
  std::map<std::string, OutCfg> out_cfg;    // by entry
  std::map<std::string, std::pair<std::string, int>> stream_cfg;
  int override_level = -1;
  bool quick = false, initialized = false, dyn_factory = false;
  std::map<std::string, MStream> streams;
  std::vector<std::unique_ptr<MOut>> all; // every output ever made
  std::map<std::string, MOut *> outs;
  MOut *def = nullptr, *quick_out = nullptr;
  std::vector<MOut *> tests, defs, quicks;  // in the order of their creation

  MOut *make(std::vector<MOut *> &list, const std::string &name, const std::string &prefix, int level, bool worker)
  {
    all.emplace_back(new MOut);
    MOut *o = all.back().get();
    o->name = name;
    o->prefix = prefix;
    o->level = level;
    o->worker = worker;
    list.push_back(o);
    return o;
  }
  void add(const std::string &n)
  {
    streams[n] = MStream();
    if (def)
      streams[n].outs.insert(def);
  }
  void configure()
  {
    if (out_cfg.empty() && !def)
      def = make(defs, "Default", "", lg::eLL_INFO, true);
    for (int i = 0; i < STATIC; ++i)
      if (!streams.count(STREAMS[i]))
        add(STREAMS[i]);
    if (dyn_factory && !streams.count("Dyn1"))
      add("Dyn1");
    if (!out_cfg.empty() && def)
    {
      for (auto &s : streams)
        s.second.outs.erase(def);
      def = nullptr;
    }
    for (auto &e : out_cfg)
    {
      std::string name = e.second.name.empty() ? e.second.type : e.second.name;
      if (!outs.count(name))
      {
        if (e.second.type != "TestOut" && e.second.type != "TestOutW")
          continue;
        outs[name] = make(tests, name, "/IclCore/Logging/" + e.first, e.second.level, e.second.type == "TestOutW");
      }
      for (auto &s : streams)
        if (e.second.streams.empty() || std::find(e.second.streams.begin(), e.second.streams.end(), s.first) != e.second.streams.end())
          s.second.outs.insert(outs[name]);
    }
    for (auto &e : stream_cfg)
      if (streams.count(e.second.first))
        streams[e.second.first].level = e.second.second;
    if (override_level >= 0)
    {
      if (!def)
        def = make(defs, "Default", "", 0, true);
      def->level = override_level;
      for (auto &s : streams)
      {
        s.second.level = override_level;
        s.second.outs.insert(def);
      }
      for (auto &o : outs)
        o.second->level = override_level;
    }
  }
  void initialize()
  {
    initialized = true;
    configure();
    if (quick && !quick_out)
    {
      std::string name = "QuickDebug";
      for (int i = 1; outs.count(name); ++i)
        name = "QuickDebug" + std::to_string(i);
      quick_out = outs[name] = make(quicks, name, "", lg::eLL_TRACE, true);
      streams["QuickDebug"].outs.insert(quick_out);
      streams["QuickDebug"].level = lg::eLL_TRACE;
    }
  }
  void shutdown()
  {
    initialized = false;
    streams.clear();
    outs.clear();
    def = quick_out = nullptr;
  }
  void log(const std::string &stream, int level, int id, const std::string &cls, const std::string &obj, const std::string &fun)
  {
    auto s = streams.find(stream);
    if (s == streams.end() || !s->second.active || level < s->second.level)
      return;
    for (MOut *o : s->second.outs)
      if (level >= o->level)
        o->want.push_back(MOut::Exp{id, level, stream, cls, obj, fun, o->format});
  }
};

template <class T> T oneOf2(int64_t i, std::initializer_list<T> l) { return *(l.begin() + (uint64_t)i % l.size()); }
bool gate = true;
bool Debug() { return gate; }
int evaluated = 0;
int arg(int id)
{
  ++evaluated;
  return id;
}

// every family of macros at every level; the level is part of the name
#define FIVE(F, V, ...)                                                                            \
  switch (level)                                                                                   \
  {                                                                                                \
  case 0: F##_TRACE##V(__VA_ARGS__); break;                                                        \
  case 1: F##_DEBUG##V(__VA_ARGS__); break;                                                        \
  case 2: F##_INFO##V(__VA_ARGS__); break;                                                         \
  case 3: F##_WARNING##V(__VA_ARGS__); break;                                                      \
  default: F##_ERROR##V(__VA_ARGS__); break;                                                       \
  }
#define TEXT "m" << arg(id) << icl_core::logging::endl
#define FMTTEXT "m%d\n", arg(id)
// family: 0 LOGGING, 1 SLOGGING, 2 MLOGGING, 3 LLOGGING; fmt; variant: 0 plain, 1 _C, 2 _CO
#define LOGFUN(X)                                                                                  \
  void log##X(lg::LogStream *s, int family, bool fmt, int variant, int level, int id, const char *on) \
  {                                                                                                \
    int c = family * 6 + (fmt ? 3 : 0) + variant;                                                  \
    lg::LogStream &sr = *s;                                                                        \
    switch (c)                                                                                     \
    {                                                                                              \
    case 0: FIVE(LOGGING, , X, TEXT) break;                                                        \
    case 1: FIVE(LOGGING, _C, X, Cls, TEXT) break;                                                 \
    case 2: FIVE(LOGGING, _CO, X, Cls, on, TEXT) break;                                            \
    case 3: FIVE(LOGGING_FMT, , X, FMTTEXT) break;                                                 \
    case 4: FIVE(LOGGING_FMT, _C, X, Cls, FMTTEXT) break;                                          \
    case 5: FIVE(LOGGING_FMT, _CO, X, Cls, on, FMTTEXT) break;                                     \
    case 6: FIVE(SLOGGING, , sr, TEXT) break;                                                      \
    case 7: FIVE(SLOGGING, _C, sr, Cls, TEXT) break;                                               \
    case 8: FIVE(SLOGGING, _CO, sr, Cls, on, TEXT) break;                                          \
    case 9: FIVE(SLOGGING_FMT, , sr, FMTTEXT) break;                                               \
    case 10: FIVE(SLOGGING_FMT, _C, sr, Cls, FMTTEXT) break;                                       \
    case 11: FIVE(SLOGGING_FMT, _CO, sr, Cls, on, FMTTEXT) break;                                  \
    case 12: FIVE(MLOGGING, , X, TEXT) break;                                                      \
    case 13: FIVE(MLOGGING, _C, X, Cls, TEXT) break;                                               \
    case 14: FIVE(MLOGGING, _CO, X, Cls, on, TEXT) break;                                          \
    case 15: FIVE(MLOGGING_FMT, , X, FMTTEXT) break;                                               \
    case 16: FIVE(MLOGGING_FMT, _C, X, Cls, FMTTEXT) break;                                        \
    case 17: FIVE(MLOGGING_FMT, _CO, X, Cls, on, FMTTEXT) break;                                   \
    case 18: FIVE(LLOGGING, , X, TEXT) break;                                                      \
    case 19: FIVE(LLOGGING, _C, X, Cls, TEXT) break;                                               \
    case 20: FIVE(LLOGGING, _CO, X, Cls, on, TEXT) break;                                          \
    case 21: FIVE(LLOGGING_FMT, , X, FMTTEXT) break;                                               \
    case 22: FIVE(LLOGGING_FMT, _C, X, Cls, FMTTEXT) break;                                        \
    case 23: FIVE(LLOGGING_FMT, _CO, X, Cls, on, FMTTEXT) break;                                   \
    }                                                                                              \
  }
using lg::Default;
using lg::Nirwana;
using lg::QuickDebug;
LOGFUN(Alpha)
LOGFUN(Beta)
LOGFUN(Gamma)
LOGFUN(Default)
LOGFUN(Nirwana)
LOGFUN(QuickDebug)

std::vector<std::string> lines(const std::string &s)
{
  std::vector<std::string> r;
  std::istringstream in(s);
  std::string l;
  while (std::getline(in, l))
    r.push_back(l);
  return r;
}
// The messages in text made with the usual format.
std::vector<std::string> texts(const std::string &s, bool &odd)
{
  std::vector<std::string> r;
  for (auto &l : lines(s))
  {
    if (l.empty() || l[0] == '-' || l.find("WARNING: Logging Instance") == 0 || l.find("You should initialize") == 0)
      continue;
    size_t e = l.find("> "), p = l.find(": m");
    if (l[0] != '<' || e == std::string::npos || p == std::string::npos)
    {
      odd = true;
      continue;
    }
    r.push_back(l.substr(e + 2));
  }
  return r;
}
std::string shown(const MOut::Exp &e) 
{
  return e.stream + "(" + LEVELS[e.level] + ")" + (e.cls.empty() ? "" : " " + e.cls) + (e.obj.empty() ? "" : "(" + e.obj + ")") + "::" + e.fun + ": m" + std::to_string(e.id);
}

void run(const Case &c, Ctx &x)
{
  Model m;
  auto &cfg = icl_core::config::ConfigManager::instance();
  auto &man = lg::LoggingManager::instance();
  std::string file = x.dir() + "/quick.log";
  std::ostringstream out_text, err_text;
  struct Redirect
  {
    std::streambuf *o, *e;
    Redirect(std::ostream &a, std::ostream &b) : o(std::cout.rdbuf(a.rdbuf())), e(std::cerr.rdbuf(b.rdbuf())) {}
    ~Redirect()
    {
      std::cout.rdbuf(o);
      std::cerr.rdbuf(e);
    }
  } redirect(out_text, err_text);

  std::vector<std::string> args{"prog"};
  std::map<std::string, std::string> formats; // by name of the output
  std::set<std::string> stream_used;
  int implicit = 0;
  bool got_arg = false;
  // configuration
  for (const Op &o : c.ops)
  {
    std::string pre;
    if (o.k == 1) // output entry: number, type, name, level, list
    {
      std::string entry = "OutputStream" + S(o, 0);
      pre = "/IclCore/Logging/" + entry + "/";
      OutCfg e;
      e.type = S(o, 1);
      e.name = S(o, 2);
      if (m.out_cfg.count(entry))
        continue;
      if (!e.type.empty())
        cfg.setValue<icl_core::String>(pre + "OutputStreamName", e.type);
      if (!e.name.empty())
        cfg.setValue<icl_core::String>(pre + "Name", e.name);
      int l = (int)N(o, 0);
      if (l >= 0)
        cfg.setValue<icl_core::String>(pre + "LogLevel", LEVELS[l % 10]);
      e.level = l >= 0 && l % 10 < 6 ? l % 10 : (int)lg::eLL_INFO;
      for (int i = 0; i < 9; ++i)
        if (N(o, 1) >> i & 1)
        {
          int k = (int)((i + (uint64_t)N(o, 2)) % 9); // any order, so that a stream that is not there can come before others
          cfg.setValue<icl_core::String>(pre + "LogStream" + (k == 3 ? std::string() : std::to_string(k)), STREAMS[i]);
          e.streams.push_back(STREAMS[i]);
        }
      if (e.type.empty() && e.name.empty() && l < 0 && e.streams.empty())
        continue;
      cfg.setValue<icl_core::String>(pre + "Format", std::string("0") + FORMAT);
      m.out_cfg[entry] = e;
    }
    else if (o.k == 2) // stream entry
    {
      std::string entry = "LogStream" + S(o, 0);
      pre = "/IclCore/Logging/" + entry + "/";
      std::string name = STREAMS[(uint64_t)N(o, 1) % 9];
      if (m.stream_cfg.count(entry) || !stream_used.insert(name).second)
        continue;
      int l = (int)N(o, 0);
      cfg.setValue<icl_core::String>(pre + "Name", name);
      if (l >= 0)
        cfg.setValue<icl_core::String>(pre + "LogLevel", LEVELS[l % 10]);
      m.stream_cfg[entry] = {name, l >= 0 && l % 10 < 6 ? l % 10 : (int)lg::eLL_INFO};
    }
    else if (o.k == 3 && !got_arg) // arguments: form, level, quick
    {
      got_arg = true;
      int form = (int)N(o, 0), l = (int)N(o, 1) % 10;
      if (form == 1 && *LEVELS[l])
        args.insert(args.end(), {"-l", LEVELS[l]});
      else if (form >= 2)
        args.push_back(std::string("--log-level=") + LEVELS[l]);
      if (form == 1 ? *LEVELS[l] != 0 : form >= 2)
        m.override_level = l < 6 ? l : -1;
      if (N(o, 2) % 4 == 1)
        args.insert(args.end(), {"-qd", file});
      else if (N(o, 2) % 4 >= 2)
        args.push_back("--quick-debug=" + file);
      m.quick = N(o, 2) % 4 != 0;
      implicit = args.size() == 1 ? (int)N(o, 3) % 3 : 0;
    }
  }
  if (implicit == 0)
  {
    std::vector<char *> argv;
    for (auto &a : args)
      argv.push_back(&a[0]);
    argv.push_back(nullptr);
    int argc = (int)args.size();
    VP_CHECK(lg::initialize(argc, argv.data()), "initialize fails");
  }
  else if (implicit == 1)
    lg::initialize();
  else
    Alpha::instance(); // asks for it without being told to
  m.initialize();
  VP_CHECK(man.initialized(), "not initialized after initialize()");

  int id = 0, sent = 0;
  auto stop = [&] {
    lg::shutdown();
    m.shutdown();
    VP_CHECK(!man.initialized(), "still initialized after shutdown()");
    for (auto &i : insts)
      VP_CHECK(i->deleted, "output " << i->name << " is left after shutdown()");
  };
  std::map<std::string, lg::LogStream *> dyn;
  for (const Op &o : c.ops)
  {
    int st = (int)((uint64_t)N(o, 0) % ALL), level = (int)((uint64_t)N(o, 1) % 5);
    std::string sn = STREAMS[st];
    switch (o.k)
    {
    case 10: // log: stream, level, family, fmt, variant, gate
    case 19:
    {
      ++id;
      int family = (int)((uint64_t)N(o, 2) % 4), variant = (int)((uint64_t)N(o, 4) % 3);
      bool fmt = N(o, 3) & 1;
      lg::LogStream *p = nullptr;
      if (st >= STATIC)
      {
        if (!m.streams.count(sn) || !dyn.count(sn))
          continue;
        p = dyn[sn];
        family = 1;
      }
      else
      {
        lg::LogStream *(*f[])() = {[] { return &Alpha::instance(); }, [] { return &Beta::instance(); }, [] { return &Gamma::instance(); },
                                   [] { return &Default::instance(); }, [] { return &Nirwana::instance(); }, [] { return &QuickDebug::instance(); }};
        p = f[st]();
      }
      if (!m.initialized)
        m.initialize();
      VP_EQ(p->name(), sn, "name of a stream");
      gate = !(N(o, 5) & 1);
      std::string on = variant == 2 ? oneOf2<const char *>(N(o, 5), {"obj", "a b", "", "x"}) : "";
      evaluated = 0;
      bool passes = m.streams[sn].active && level >= m.streams[sn].level && (family != 2 || gate);
      if (o.k == 19)
      {
        // in a file without debug messages and local logging
        passes = passes && st == 0 && level >= 2 && family != 3;
        if (st != 0)
          continue;
        releaseLog(family, level, id);
        if (passes)
          m.log(sn, level, id, "", "", "releaseLog");
      }
      else
      {
        void (*f[])(lg::LogStream *, int, bool, int, int, int, const char *) = {logAlpha, logBeta, logGamma, logDefault, logNirwana, logQuickDebug};
        (st < STATIC ? f[st] : logAlpha)(p, family, fmt, variant, level, id, on.c_str());
        VP_EQ(evaluated, passes ? 1 : 0, "how often the argument of message " << id << " of level " << level << " was evaluated");
        if (passes)
          m.log(sn, level, id, variant ? "Cls" : "", on, std::string("log") + (st < STATIC ? sn : "Alpha"));
      }
      gate = true;
      sent += passes;
      break;
    }
    case 11: // level of all
    {
      int l = (int)((uint64_t)N(o, 1) % 6);
      lg::setLogLevel((lg::LogLevel)l);
      for (auto &s : m.streams)
        s.second.level = l;
      for (auto &t : m.outs)
        t.second->level = l;
      if (m.def)
        m.def->level = l;
      break;
    }
    case 12: // active
      if (st < STATIC && m.initialized)
      {
        lg::LogStream *p[] = {&Alpha::instance(), &Beta::instance(), &Gamma::instance(), &Default::instance(), &Nirwana::instance(), &QuickDebug::instance()};
        p[st]->setActive(N(o, 1) & 1);
        VP_EQ(p[st]->isActive(), (bool)(N(o, 1) & 1), "isActive()");
        VP_EQ((int)p[st]->initialLogLevel(), m.streams[sn].level, "level of a stream");
        m.streams[sn].active = N(o, 1) & 1;
      }
      break;
    case 13: // a new stream
      if (m.initialized && !m.streams.count("Dyn0"))
      {
        man.registerLogStream(dyn["Dyn0"] = new DynStream("Dyn0"));
        m.add("Dyn0");
        man.configure();
        m.configure();
        x.label("stream added later");
      }
      break;
    case 14: // a new factory
      if (!m.dyn_factory)
      {
        m.dyn_factory = true;
        man.registerLogStream("Dyn1", makeDyn1);
        if (m.initialized)
        {
          man.configure();
          m.configure();
        }
      }
      break;
    case 15: // shut down, and again
      stop();
      if (N(o, 1) & 1)
      {
        lg::initialize();
        m.initialize();
      }
      dyn.clear();
      x.label("initialized again");
      break;
    case 16: // once more
      lg::initialize();
      m.initialize();
      break;
    case 17:
      if (m.initialized)
      {
        man.configure();
        m.configure();
      }
      break;
    case 18: // format of the outputs of a name
      if (m.initialized)
      {
        std::string f = oneOf2<const char *>(N(o, 1), {"1", "2", "3"});
        auto t = m.outs.find(S(o, 0));
        if (t == m.outs.end() || t->second == m.quick_out)
          continue;
        man.changeLogFormat(S(o, 0), (f + FORMAT).c_str());
        t->second->format = f;
      }
      break;
    }
  }
  if (m.initialized)
    stop();

  size_t want = 0;
  VP_EQ(insts.size(), m.tests.size(), "number of outputs that were created");
  for (size_t i = 0; i < insts.size(); ++i)
  {
    Inst &g = *insts[i];
    MOut &w = *m.tests[i];
    VP_EQ(g.name, w.name, "name of an output");
    VP_EQ(g.prefix, w.prefix, "configuration of output " << w.name);
    VP_EQ(g.worker, w.worker, "kind of output " << w.name);
    for (size_t j = 0; j < std::max(g.got.size(), w.want.size()); ++j)
    {
      VP_CHECK(j < g.got.size(), "output " << w.name << " does not get message " << w.want[j].id << " of " << shown(w.want[j]));
      VP_CHECK(j < w.want.size(), "output " << w.name << " gets message " << g.got[j].id << " of " << g.got[j].stream << " although it is not meant to");
      VP_EQ(g.got[j].id, w.want[j].id, "message " << j << " at output " << w.name);
      VP_EQ(g.got[j].level, std::string(LEVELS[w.want[j].level]), "level of message " << w.want[j].id);
      VP_EQ(g.got[j].stream, w.want[j].stream, "stream of message " << w.want[j].id);
      VP_EQ(g.got[j].cls, w.want[j].cls, "class of message " << w.want[j].id);
      VP_EQ(g.got[j].obj, w.want[j].obj, "object of message " << w.want[j].id);
      VP_EQ(g.got[j].fun, w.want[j].fun, "function of message " << w.want[j].id);
      if (!w.worker)
        VP_EQ(g.got[j].kind, w.want[j].format, "format of the line of message " << w.want[j].id << " at output " << w.name);
    }
    want += w.want.size();
  }
  auto compare = [&](const std::vector<MOut *> &l, const std::string &text, const std::string &where) {
    bool odd = false;
    std::vector<std::string> got = texts(text, odd), exp;
    VP_CHECK(!odd, "odd text at " << where << ": " << text);
    for (MOut *o : l)
      for (auto &e : o->want)
        exp.push_back(shown(e));
    for (size_t i = 0; i < std::max(got.size(), exp.size()); ++i)
      VP_EQ(i < got.size() ? got[i] : "(none)", i < exp.size() ? exp[i] : "(none)", "message " << i << " at " << where);
    want += exp.size();
  };
  compare(m.defs, out_text.str(), "stdout");
  std::string q = m.quick ? readFile(file) : "";
  compare(m.quicks, q, "the quick debug file");
  x.nontrivial(want >= 2 && (int)want < (int)sent * 8);
  if (!m.defs.empty())
    x.label("default output");
  if (m.quick)
    x.label("quick debug");
  if (m.override_level >= 0)
    x.label("level on the command line");
  if (implicit)
    x.label("initialized implicitly");
}

} // namespace

int main(int argc, char **argv)
{
  auto item = opGen([] {
    int w = (int)pick(0, 99);
    int64_t st = coin(60) ? pick(0, 2) : pick(0, ALL - 1);
    if (w < 13)
    {
      int64_t list = 0;
      if (coin(60))
        for (int i = (int)pick(1, 3); i; --i)
          list |= 1 << pick(0, 8);
      return mk(1, {coin(25) ? -1 : coin(85) ? pick(0, 5) : pick(6, 9), list, pick(0, 8)},
                {oneStr({"", "0", "1", "2", "_x", "Stdout"}), coin(85) ? oneStr({"TestOut", "TestOutW"}) : oneStr({"", "Nowhere"}),
                 coin(40) ? "" : oneStr({"a", "b", "a", "QuickDebug", "QuickDebug1", "Default"})});
    }
    if (w < 24)
      return mk(2, {coin(15) ? -1 : coin(85) ? pick(0, 5) : pick(6, 9), coin(60) ? pick(0, 2) : pick(0, 8)}, {oneStr({"", "0", "1", "2", "Alpha"})});
    if (w < 72)
      return mk(10, {st, coin(70) ? pick(1, 3) : pick(0, 4), pick(0, 3), pick(0, 1), pick(0, 2), coin(80) ? 2 * pick(0, 3) : 1});
    if (w < 76)
      return mk(19, {0, pick(0, 4), pick(0, 3), 0, 0, 0});
    if (w < 81)
      return mk(11, {0, pick(0, 5)});
    if (w < 85)
      return mk(12, {st, pick(0, 1)});
    if (w < 88)
      return mk(13);
    if (w < 90)
      return mk(14);
    if (w < 93)
      return mk(15, {0, pick(0, 1)});
    if (w < 95)
      return mk(16);
    if (w < 97)
      return mk(17);
    return mk(18, {0, pick(0, 2)}, {oneStr({"a", "b", "TestOut", "TestOutW", "Default", "QuickDebug"})});
  });
  Sub s{"routes", headCase(opGen([] {
          return mk(3, {coin(65) ? 0 : pick(1, 3), coin(85) ? pick(0, 5) : pick(6, 9), coin(75) ? 0 : pick(1, 3), pick(0, 2)});
        }), item), run, 4000, 60000};
  s.fork = true;
  s.max_size = 60;
  return checkMain(argc, argv, "C27",
                   "configurations of outputs and streams, command lines, and histories of messages with all macros, changes of levels, new streams, shutting down and initializing again. "
                   "Non-trivial: at least two messages arrive somewhere, and not all everywhere",
                   {s});
}
