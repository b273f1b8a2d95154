// vp: profile=asan mods=config,logging
// Observers of configuration keys: who is told of what, over histories with reactions inside the callbacks.
#include "vp.hpp"
#include <icl_core_config/Config.h>
#include <icl_core_config/ConfigObserver.h>
#include <iostream>
#include <memory>
#include <set>
#include <unistd.h>
using namespace vp;
namespace cfg = icl_core::config;
typedef std::map<std::string, std::string> Map;

namespace {

const int NO = 4;
const std::vector<std::string> keys = {"/a", "/a/b", "/b", "/b/a", "/c"};

struct World;
struct Obs : public cfg::ConfigObserver
{
  World *w;
  int id;
  Obs(World *w, int id) : w(w), id(id) {}
  void valueChanged(const icl_core::String &key) override;
};

struct Reaction
{
  int kind, a, b;
  std::string key, value;
  bool used;
};

//! What may happen until an operation returns.
struct Frame
{
  std::map<std::pair<int, std::string>, std::pair<int, int>> want; //!< calls per observer and key: least and most
  std::map<std::pair<int, std::string>, int> got;
  std::map<std::string, std::set<std::string>> values; //!< readable at the time of the call
  std::map<std::pair<int, std::string>, std::string> last;
  int all_for = -1; //!< this observer is just being registered for all keys
};

struct World
{
  Map conf;
  std::unique_ptr<Obs> obs[NO];
  std::multiset<std::pair<int, std::string>> regs;
  std::map<int, std::vector<Reaction>> reactions;
  std::vector<Frame> frames;
  std::string error;
  std::string dir;
  int calls = 0, nested = 0, dropped = 0, files = 0;
  Ctx *x;

  void fail(const std::string &m)
  {
    if (error.empty())
      error = m;
  }
  int matching(int o, const std::string &key)
  {
    return (int)regs.count({o, key}) + (key.empty() ? 0 : (int)regs.count({o, ""}));
  }
  void begin() { frames.push_back(Frame()); }
  void end(const std::string &what)
  {
    Frame f = frames.back();
    frames.pop_back();
    for (auto &e : f.want)
    {
      int n = f.got.count(e.first) ? f.got[e.first] : 0;
      if (n < e.second.first || n > e.second.second)
        fail(what + ": observer " + std::to_string(e.first.first) + " was told " + std::to_string(n) + " times of '" + e.first.second +
             "', expected " + std::to_string(e.second.first) +
             (e.second.first == e.second.second ? "" : " to " + std::to_string(e.second.second)));
    }
    for (auto &e : f.got)
      if (!f.want.count(e.first))
        fail(what + ": observer " + std::to_string(e.first.first) + " was told of '" + e.first.second + "'");
    if (!error.empty())
      throw Failure{error};
  }
  void expectSet(const std::string &key, int most)
  {
    Frame &f = frames.back();
    for (int o = 0; o < NO; ++o)
      if (int n = matching(o, key))
        f.want[{o, key}] = {n, most ? n * most : n};
  }
  void set(const std::string &key, const std::string &value, bool old_style)
  {
    begin();
    bool fresh = !conf.count(key);
    conf[key] = value;
    expectSet(key, 0);
    // what goes on outside reads the new value from now on, and may come across the new key
    for (size_t i = 0; i + 1 < frames.size(); ++i)
    {
      if (frames[i].values.count(key))
        frames[i].values[key].insert(value);
      if (frames[i].all_for >= 0 && fresh)
        frames[i].want[{frames[i].all_for, key}].second++;
    }
    frames.back().values[key] = {value};
    if (old_style)
      cfg::ConfigManager::instance().setValue<icl_core::String>(key, value);
    else
      cfg::setValue<icl_core::String>(icl_core::String(key), value);
    end("setting " + key);
  }
  void add(int o, const std::string &key)
  {
    if (!obs[o])
      obs[o].reset(new Obs(this, o));
    begin();
    Frame &f = frames.back();
    for (auto &e : conf)
    {
      f.values[e.first] = {e.second};
      if (key.empty() || key == e.first)
        f.want[{o, e.first}] = {1, 1};
    }
    // notifications that are under way may or may not reach it, too
    for (size_t i = 0; i + 1 < frames.size(); ++i)
      for (auto &v : frames[i].values)
        if (key.empty() || key == v.first)
        {
          auto &r = frames[i].want[{o, v.first}];
          r.second += 1000;
        }
    regs.insert({o, key});
    if (key.empty())
      f.all_for = o;
    if (key.empty())
      cfg::ConfigManager::instance().registerObserver(obs[o].get());
    else
      cfg::ConfigManager::instance().registerObserver(obs[o].get(), key);
    end("registering for '" + key + "'");
  }
  void forget(int o)
  {
    for (auto it = regs.begin(); it != regs.end();)
      it = it->first == o ? regs.erase(it) : std::next(it);
    for (auto &f : frames)
      for (auto &e : f.want)
        if (e.first.first == o)
          e.second.first = 0;
    if (!frames.empty())
      ++dropped;
  }
  void load(int file, const std::vector<std::pair<std::string, std::string>> &v, bool init, const Op *o);
  void react(int id, const std::string &key)
  {
    for (auto &r : reactions[id])
      if (!r.used && r.key == key)
      {
        r.used = true;
        ++nested;
        switch (r.kind)
        {
        case 0: set(r.value == key || r.value.empty() ? "/r" : r.value, "from " + key, false); break;
        case 1:
          if (obs[r.a])
          {
            forget(r.a);
            cfg::ConfigManager::instance().unregisterObserver(obs[r.a].get());
          }
          break;
        case 2:
          if (r.a != id && obs[r.a] && !running.count(r.a))
          {
            forget(r.a);
            obs[r.a].reset();
          }
          break;
        case 3:
          if (obs[r.a])
            add(r.a, r.value);
          break;
        }
      }
  }
  std::multiset<int> running;
};

void Obs::valueChanged(const icl_core::String &key)
{
  ++w->calls;
  if (w->frames.empty())
  {
    w->fail("an observer was told of '" + key + "' without a change");
    return;
  }
  if (!w->matching(id, key))
    w->fail("observer " + std::to_string(id) + " was told of '" + key + "' without being registered for it");
  Frame &f = w->frames.back();
  f.got[{id, key}]++;
  std::string v;
  if (!cfg::get<icl_core::String>(icl_core::String(key), v))
    w->fail("the key '" + key + "' is not there when its observer is told");
  else if (f.values.count(key) && !f.values[key].count(v))
    w->fail("an observer told of '" + key + "' reads '" + v + "', which is not its new value");
  f.last[{id, key}] = v;
  w->running.insert(id);
  World *ww = w;
  int i = id;
  if (ww->frames.size() < 4)
    ww->react(i, key);
  ww->running.erase(ww->running.find(i));
}

std::vector<std::pair<std::string, std::string>> content(const Op &o)
{
  std::vector<std::pair<std::string, std::string>> v;
  for (size_t i = 0; i + 1 < o.s.size(); i += 2)
    if (!o.s[i].empty() && !o.s[i + 1].empty())
      v.push_back({o.s[i], o.s[i + 1]});
  return v;
}

void World::load(int, const std::vector<std::pair<std::string, std::string>> &v, bool init, const Op *o)
{
  std::string text = "<c>";
  for (auto &e : v)
  {
    std::string open, close;
    std::istringstream in(e.first.substr(1));
    for (std::string p; std::getline(in, p, '/');)
    {
      open += "<" + p + ">";
      close = "</" + p + ">" + close;
    }
    text += open + e.second + close;
  }
  std::string name = dir + "/f" + std::to_string(files++) + ".xml";
  writeFile(name, text + "</c>");
  begin();
  Frame &f = frames.back();
  std::map<std::string, int> times;
  Map fin;
  std::set<std::string> olds;
  for (auto &e : v)
  {
    f.values[e.first].insert(e.second);
    fin[e.first] = e.second;
    times[e.first]++;
  }
  f.values["/configfile"] = {name};
  fin["/configfile"] = name;
  times["/configfile"] = 2;
  std::vector<std::string> args = {"program", "-c", name};
  if (init)
  {
    for (size_t i = 0; i < o->n.size() && i < 3; ++i)
    {
      const std::string &k = keys[(size_t)(o->n[i] % (int64_t)keys.size())];
      std::string val = "o" + std::to_string(i);
      args.push_back("-o" + k);
      args.push_back(val);
      f.values[k].insert(val);
      fin[k] = val;
      times[k]++;
    }
  }
  // observers may not react by changing the same keys: the file's values would be mixed with theirs
  for (auto &e : fin)
    for (int i = 0; i < NO; ++i)
      if (int n = matching(i, e.first))
        f.want[{i, e.first}] = {n, n * times[e.first]};
  for (auto &e : fin)
    conf[e.first] = e.second;
  if (init)
  {
    std::vector<char *> argv;
    for (auto &a : args)
      argv.push_back((char *)a.c_str());
    argv.push_back(0);
    int argc = (int)args.size();
    VP_CHECK(cfg::initialize(argc, argv.data()), "initialisation");
  }
  else
    cfg::setValue<icl_core::String>("/configfile", name);
  auto last = frames.back().last;
  end(init ? "initialisation" : "loading a file");
  for (auto &e : last)
    if (fin.count(e.first.second) && matching(e.first.first, e.first.second))
      VP_EQ(e.second, fin[e.first.second], "value an observer saw last of " + e.first.second);
}

void run(const Case &c, Ctx &x)
{
  World w;
  w.x = &x;
  w.dir = x.dir();
  bool init = false;
  int registered = 0, changes = 0;
  for (const Op &o : c.ops)
  {
    int i = (int)(N(o, 0) & (NO - 1));
    switch (o.k)
    {
    case 0: // an initialisation, once
      if (!init)
      {
        init = true;
        auto r = w.reactions;
        w.reactions.clear();
        Op p = o;
        w.load(0, content(o), true, &p);
        w.reactions = r;
        ++changes;
        x.label(registered ? "initialised with observers" : "initialised");
      }
      break;
    case 1:
      w.set(S(o, 0), S(o, 1), N(o, 0) & 1);
      ++changes;
      break;
    case 2:
      w.add(i, S(o, 0));
      ++registered;
      break;
    case 3:
      if (w.obs[i])
      {
        w.forget(i);
        cfg::ConfigManager::instance().unregisterObserver(w.obs[i].get());
        x.label("unregistered");
      }
      break;
    case 4:
      if (w.obs[i])
      {
        w.forget(i);
        w.obs[i].reset();
        x.label("destroyed");
      }
      break;
    case 5: // a reaction inside the next notification
      w.reactions[i].push_back({(int)(N(o, 1) & 3), (int)(N(o, 2) & (NO - 1)), 0, S(o, 0), S(o, 1), false});
      break;
    case 6:
    {
      auto r = w.reactions;
      w.reactions.clear();
      w.load(0, content(o), false, 0);
      w.reactions = r;
      ++changes;
      x.label("file loaded");
      break;
    }
    }
    if (!w.error.empty())
      throw Failure{w.error};
  }
  // nobody is told any more
  for (int i = 0; i < NO; ++i)
    if (w.obs[i])
    {
      w.forget(i);
      w.obs[i].reset();
    }
  for (auto &k : keys)
    w.set(k, "end", false);
  x.nontrivial(registered >= 2 && changes >= 2 && w.calls >= 3);
  if (w.nested)
    x.label("reaction inside a notification");
  if (w.dropped)
    x.label("observer removed during a notification");
}

std::string key() { return oneOf(keys); }
Op fileOp(int k)
{
  Op o = mk(k);
  for (int i = (int)pick(0, 3); i > 0; --i)
  {
    o.s.push_back(key());
    o.s.push_back(oneStr({"f", "g", "h i"}));
  }
  if (k == 0)
    for (int i = (int)pick(0, 2); i > 0; --i)
      o.n.push_back(pick(0, 4));
  return o;
}
Op gen()
{
  int w = (int)pick(0, 99);
  if (w < 6)
    return fileOp(0);
  if (w < 42)
    return mk(1, {pick(0, 1)}, {key(), oneStr({"", "1", "2", "x y"})});
  if (w < 68)
    return mk(2, {pick(0, 3)}, {coin(35) ? std::string() : key()});
  if (w < 74)
    return mk(3, {pick(0, 3)});
  if (w < 80)
    return mk(4, {pick(0, 3)});
  if (w < 95)
    return mk(5, {pick(0, 3), pick(0, 3), pick(0, 3)}, {key(), coin(20) ? std::string("") : key()});
  return fileOp(6);
}

} // namespace

int main(int argc, char **argv)
{
  Sub s{"observers", opsCase(opGen(gen)), run, 8000, 200000};
  s.fork = true;
  s.timeout = 20;
  s.max_size = 30;
  return checkMain(argc, argv, "C14",
                   "histories of registering, unregistering and destroying up to four observers (for a key, for all keys, several times), setting values, "
                   "loading files and initialising, and reactions inside the notifications (set another key, unregister or destroy an observer, register "
                   "for something). Non-trivial: at least two registrations, two changes and three notifications",
                   {s});
}
