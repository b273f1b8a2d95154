// vp: profile=asan mods=plugin plugins=animal:ANIMAL,animal:PLANT,animal:NO_IDENTIFIER,animal:NO_BASETYPE,animal:NO_LOAD,animal:NULL_LOAD
// Plugin managers offer exactly the plugins of their type that are in their directories.
#include "animal.hpp"
#include "logtest.hpp"
#include <algorithm>
#include <iostream>
#include <memory>
#include <set>
#include <sys/stat.h>
#include <unistd.h>
using namespace vp;
namespace pl = icl_core::plugin;

char animal_dir[4096] = "", plant_dir[4096] = "";
ICL_CORE_PLUGIN_DECLARE_PLUGIN_MANAGER(Animals, Animal, animal_dir)
ICL_CORE_PLUGIN_DECLARE_PLUGIN_MANAGER(Plants, Plant, plant_dir)

namespace {
std::set<void *> alive;
int born = 0, died = 0;
bool wrong_death = false;
} // namespace
extern "C" void vpBorn(void *p)
{
  alive.insert(p);
  ++born;
}
extern "C" void vpDied(void *p)
{
  wrong_death = wrong_death || !alive.erase(p);
  ++died;
}

// A plugin that is part of the program.
struct Builtin : public Animal
{
  ICL_CORE_PLUGIN_DECLARE_PLUGIN
  int answer() const override { return 1; }
};
ICL_CORE_PLUGIN_REGISTER_PLUGIN(Animal, Builtin, "builtin")

namespace {

template <class B> struct Static : public B
{
  std::string id;
  explicit Static(const std::string &i) : id(i) {}
  std::string Identifier() const override { return id; }
  int answer() const override { return 7; }
};

enum What { GOOD, OTHER, NO_IDENTIFIER, NO_BASETYPE, NO_LOAD, NULL_LOAD, GARBAGE, EMPTY, DANGLING, LOOP, LINK, FOLDER, TRUNCATED, WHATS };
struct File
{
  int dir;
  What what;
  std::string id, name, path;
};

std::string library(What w, bool animal)
{
  static std::string at;
  if (at.empty())
  {
    char b[4096];
    ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1);
    at.assign(b, (size_t)std::max<ssize_t>(n, 0));
    at = at.substr(0, at.rfind('/', at.rfind('/') - 1)) + "/plugins/animal_";
  }
  const char *names[] = {animal ? "ANIMAL" : "PLANT", animal ? "PLANT" : "ANIMAL", "NO_IDENTIFIER", "NO_BASETYPE", "NO_LOAD", "NULL_LOAD"};
  return readFile(at + names[w] + ".so");
}

struct World;
template <class M, class T> struct Manager
{
  World &w;
  bool animal;
  // the model
  bool initialized = false, lazy = false;
  std::list<std::string> paths;
  std::set<std::string> good, broken; // identifiers that can be created or cannot be
  std::set<std::string> errors;       // files and identifiers that messages must be about
  std::map<std::string, T *> loaded, statics;
  std::vector<std::unique_ptr<Static<T>>> own;
  std::vector<T *> created;
  int lists = 0, asked = 0, unknown = 0, closed = 0;
  bool elsewhere = false; // more directories were added

  Manager(World &w, bool a, const std::string &dir) : w(w), animal(a) { paths.push_back(dir); }
  void scan(bool recursive);
  void access()
  {
    if (!initialized)
    {
      scan(false);
      initialized = true;
      lazy = true;
    }
    load();
  }
  void load();
  void initialize(bool load_lazy, bool recursive)
  {
    if (initialized)
    {
      if (lazy && !load_lazy)
        load();
      return;
    }
    scan(recursive);
    initialized = true;
    lazy = true;
    if (!load_lazy)
      load();
  }
  std::set<std::string> ids()
  {
    std::set<std::string> s = good;
    for (auto &p : statics)
      s.insert(p.first);
    return s;
  }
  void step(const Op &o);
  void finish();
};

struct World
{
  std::string root;
  std::vector<std::string> dirs; // 0 animals, 1 in it, 2 deeper, 3 and 4 others, 5 plants
  std::vector<File> files;
  int number = 0, deleted = 0;
  std::unique_ptr<Manager<Animals, Animal>> a;
  std::unique_ptr<Manager<Plants, Plant>> p;
};

template <class M, class T> void Manager<M, T>::scan(bool recursive)
{
  errors.clear();
  good.clear();
  broken.clear();
  for (const std::string &path : paths)
    for (const File &f : w.files)
    {
      const std::string &d = w.dirs[(size_t)f.dir];
      bool here = d == path || (recursive && d.compare(0, path.size() + 1, path + "/") == 0);
      if (!here)
        continue;
      switch (f.what)
      {
      case GOOD:
      case OTHER:
      case LINK:
        if ((f.what == OTHER) != animal) // plugins are made for animals
          good.insert(f.id);
        break;
      case NO_LOAD:
      case NULL_LOAD:
        if (animal)
          broken.insert(f.id);
        break;
      case NO_IDENTIFIER:
      case NO_BASETYPE:
      case GARBAGE:
      case EMPTY:
      case TRUNCATED:
        errors.insert(f.path);
        break;
      default:
        break;
      }
    }
}

template <class M, class T> void Manager<M, T>::load()
{
  if (!lazy)
    return;
  lazy = false;
  errors.insert(broken.begin(), broken.end());
}

template <class M, class T> void Manager<M, T>::step(const Op &o)
{
  auto *m = M::instance();
  VP_CHECK(m && m == M::instance(), "there are two instances of a manager");
  int before = born - died;
  auto loadedNow = [&] {
    // the instances that an access created
    return born - died - before;
  };
  bool will_load = (!initialized || lazy);
  std::string id = S(o, 0);
  switch (o.k)
  {
  case 3:
  {
    bool was_lazy = initialized ? lazy : true;
    bool lz = N(o, 1) & 1;
    VP_CHECK(m->initialize(lz, N(o, 1) & 2), "initialize() failed");
    initialize(lz, N(o, 1) & 2);
    VP_EQ(loadedNow(), was_lazy && !lz ? (int)good.size() : 0, "instances created by initialize(" << lz << ")");
    break;
  }
  case 4:
  case 5:
  {
    access();
    if (o.k == 4)
    {
      std::list<std::string> l = m->availablePlugins();
      std::set<std::string> got(l.begin(), l.end()), want = ids();
      for (const std::string &i : want)
        VP_CHECK(got.count(i), "plugin '" << i << "' is not available");
      for (const std::string &i : got)
        VP_CHECK(want.count(i) || broken.count(i), "there is no plugin '" << i << "', but it is listed as available");
    }
    else
    {
      std::list<T *> l = m->plugins();
      std::map<T *, std::string> got;
      for (T *t : l)
      {
        VP_CHECK(t, "a null pointer is listed as a plugin");
        VP_CHECK(alive.count(t), "a plugin that does not exist is listed");
        VP_CHECK(got.emplace(t, t->Identifier()).second, "plugin '" << t->Identifier() << "' is listed twice");
        VP_EQ(t->answer(), statics.count(t->Identifier()) && statics[t->Identifier()] == t ? 7 : 42, "method of plugin '" << t->Identifier() << "'");
      }
      for (auto &s : statics)
        VP_CHECK(got.count(s.second), "static plugin '" << s.first << "' is not listed");
      std::set<std::string> found;
      for (auto &g : got)
        if (!statics.count(g.second) || statics[g.second] != g.first)
        {
          VP_CHECK(good.count(g.second), "there is no plugin '" << g.second << "', but it is listed");
          VP_CHECK(found.insert(g.second).second, "there are two instances of plugin '" << g.second << "'");
          T *&k = loaded[g.second];
          VP_CHECK(!k || k == g.first, "plugin '" << g.second << "' is another instance than before");
          k = g.first;
        }
      VP_EQ(found.size(), good.size(), "number of plugins listed");
    }
    ++lists;
    VP_EQ(loadedNow(), will_load ? (int)good.size() : 0, "instances created by a list of plugins");
    break;
  }
  case 6:
  {
    access();
    T *t = m->plugin(id);
    VP_EQ(loadedNow(), will_load ? (int)good.size() : 0, "instances created by plugin()");
    if (statics.count(id))
      VP_CHECK(t == statics[id], "plugin '" << id << "' is not the static one");
    else if (good.count(id))
    {
      VP_CHECK(t && alive.count(t), "plugin '" << id << "' is not there");
      VP_EQ(t->Identifier(), id, "identifier of a plugin");
      VP_EQ(t->answer(), 42, "method of plugin '" << id << "'");
      T *&k = loaded[id];
      VP_CHECK(!k || k == t, "plugin '" << id << "' is another instance than before");
      k = t;
    }
    else
    {
      VP_CHECK(!t, "there is no plugin '" << id << "', but it was found");
      ++unknown;
    }
    ++asked;
    break;
  }
  case 7:
  {
    access();
    T *t = m->createPluginInstance(id);
    VP_EQ(loadedNow(), (will_load ? (int)good.size() : 0) + (good.count(id) ? 1 : 0), "instances created by createPluginInstance()");
    VP_CHECK(!t == !good.count(id), "an instance of plugin '" << id << "' was " << (t ? "" : "not ") << "created");
    if (t)
    {
      VP_EQ(t->Identifier(), id, "identifier of a new instance");
      for (auto &l : loaded)
        VP_CHECK(l.second != t, "a new instance of '" << id << "' is the old one");
      created.push_back(t);
    }
    else
      ++unknown;
    break;
  }
  case 8:
    own.emplace_back(new Static<T>(id));
    m->addStaticPlugin(own.back().get());
    statics[id] = own.back().get();
    break;
  case 9:
    m->removeStaticPlugin(id);
    statics.erase(id);
    break;
  case 10:
    VP_EQ(m->isStaticPlugin(id), statics.count(id) != 0, "whether '" << id << "' is a static plugin");
    break;
  case 11:
    if (!created.empty())
    {
      T *t = created[(size_t)N(o, 1) % created.size()];
      created.erase(created.begin() + (long)((size_t)N(o, 1) % created.size()));
      delete t;
    }
    break;
  case 12:
    finish();
    return;
  case 13:
  {
    std::string dir = w.dirs[(size_t)N(o, 1) % w.dirs.size()];
    if (N(o, 2) == 1)
      dir = "";
    else if (N(o, 2) == 2)
      dir = w.root + "/missing";
    else if (N(o, 2) == 3)
      dir = w.root + "/file.txt";
    m->addPluginPath(dir);
    elsewhere = true;
    if (!dir.empty())
      paths.push_back(dir);
    break;
  }
  }
  std::list<std::string> got = m->pluginPaths();
  VP_CHECK(got == paths, "paths of the manager");
  VP_EQ(m->isInitialized(), initialized, "isInitialized()");
  VP_EQ(m->loadLazy(), initialized && lazy, "loadLazy()");
  VP_CHECK(!wrong_death, "an instance was deleted twice");
  // what went wrong is said, and nothing else
  std::list<std::string> messages = m->errorMessages();
  std::set<std::string> about;
  for (const std::string &t : messages)
  {
    bool known = false;
    for (const std::string &e : errors)
    {
      size_t at = t.find(e);
      bool hit = at != std::string::npos && (at + e.size() == t.size() || !isalnum((unsigned char)t[at + e.size()]));
      known = known || hit;
      if (hit)
        about.insert(e);
    }
    VP_CHECK(known, "error message about nothing that is wrong: " << t);
  }
  for (const std::string &e : errors)
    VP_CHECK(about.count(e), "no error message about " << e);
}

template <class M, class T> void Manager<M, T>::finish()
{
  for (T *t : created)
    delete t;
  created.clear();
  delete M::instance();
  VP_CHECK(!wrong_death, "an instance was deleted twice");
  for (auto &s : own)
  {
    VP_CHECK(alive.count(static_cast<T *>(s.get())), "the manager deleted a static plugin");
  }
  for (auto &l : loaded)
    VP_CHECK(!alive.count(l.second), "plugin '" << l.first << "' is still there after its manager was deleted");
  // the libraries of its plugins go away with it, but for those that others use
  if (paths.size() == 1 && w.dirs[0] != w.dirs[5] && initialized)
    for (const File &f : w.files)
    {
      bool only = good.count(f.id) && f.what == (animal ? GOOD : OTHER) && w.dirs[(size_t)f.dir] == paths.front() && !w.p->elsewhere && !w.a->elsewhere;
      for (const File &g : w.files)
        only = only && (&f == &g || f.id != g.id);
      if (only)
      {
        ++closed;
        VP_CHECK(!dlopen(f.path.c_str(), RTLD_LAZY | RTLD_NOLOAD), "the library of plugin '" << f.id << "' is still open after its manager was deleted");
      }
    }
  own.clear();
  loaded.clear();
  statics.clear();
  good.clear();
  broken.clear();
  errors.clear();
  initialized = lazy = false;
  paths.clear();
  paths.push_back(animal ? w.dirs[0] : w.dirs[5]);
  ++w.deleted;
}

void run(const Case &c, Ctx &x)
{
  initLogging();
  World w;
  w.root = x.dir();
  std::ostringstream err;
  struct Redirect
  {
    std::streambuf *e, *o;
    explicit Redirect(std::ostream &b) : e(std::cerr.rdbuf(b.rdbuf())), o(std::cout.rdbuf(b.rdbuf())) {}
    ~Redirect()
    {
      std::cerr.rdbuf(e);
      std::cout.rdbuf(o);
    }
  } redirect(err);
  for (const char *d : {"/animals", "/animals/more", "/animals/more/deep", "/others", "/x.so", "/plants"})
  {
    w.dirs.push_back(w.root + d);
    mkdir(w.dirs.back().c_str(), 0777);
  }
  writeFile(w.root + "/file.txt", "text");
  int64_t mode = c.ops.empty() ? 0 : N(c.ops[0], 0);
  strcpy(animal_dir, w.dirs[0].c_str());
  strcpy(plant_dir, w.dirs[mode & 1 ? 0 : 5].c_str());
  if (mode & 1) // one directory for both
    w.dirs[5] = w.dirs[0];
  w.a.reset(new Manager<Animals, Animal>(w, true, w.dirs[0]));
  w.p.reset(new Manager<Plants, Plant>(w, false, w.dirs[5]));
  std::vector<Op> ops = c.ops;
  if (mode & 2) // the files are there from the start
    std::stable_partition(ops.begin(), ops.end(), [](const Op &o) { return o.k <= 2; });
  for (const Op &o : ops)
  {
    if (o.k == 1 || o.k == 2)
    {
      File f;
      f.dir = (int)((uint64_t)N(o, 0) % 6);
      if (f.dir == 5 && (mode & 1))
        f.dir = 0;
      f.what = o.k == 1 ? (N(o, 1) & 1 ? OTHER : GOOD) : (What)((uint64_t)N(o, 1) % WHATS);
      f.id = S(o, 0) + (f.what == NO_LOAD || f.what == NULL_LOAD ? "Bad" : "");
      if (f.id.empty() || w.number > 20)
        continue;
      f.name = f.id + "-" + std::to_string(++w.number) + (N(o, 2) & 1 ? ".so" : N(o, 2) & 2 ? "" : ".so.1.2");
      f.path = w.dirs[(size_t)f.dir] + "/" + f.name;
      switch (f.what)
      {
      case GARBAGE:
        writeFile(f.path, std::string((size_t)(N(o, 2) & 0xfff), 'g'));
        break;
      case EMPTY:
        writeFile(f.path, "");
        break;
      case TRUNCATED:
        writeFile(f.path, library(GOOD, true).substr(0, 20 + (size_t)(N(o, 2) & 31)));
        break;
      case DANGLING:
        (void)!symlink("nowhere", f.path.c_str());
        break;
      case LOOP:
        (void)!symlink(f.name.c_str(), f.path.c_str());
        break;
      case LINK:
      {
        // to a plugin of the same identifier in a directory that nobody looks into
        std::string to = w.root + "/hidden";
        mkdir(to.c_str(), 0777);
        writeFile(to + "/" + f.name, library(GOOD, true));
        (void)!symlink((to + "/" + f.name).c_str(), f.path.c_str());
        break;
      }
      case FOLDER:
        mkdir(f.path.c_str(), 0777);
        break;
      default:
        writeFile(f.path, library(f.what, true));
      }
      w.files.push_back(f);
    }
    else if (o.k >= 3)
    {
      if (N(o, 0) & 1)
        w.p->step(o);
      else
        w.a->step(o);
    }
  }
  x.nontrivial(w.a->lists + w.a->asked + w.p->lists + w.p->asked >= 2 && born >= 1);
  if (w.a->unknown + w.p->unknown)
    x.label("unknown plugins");
  w.a->finish();
  w.p->finish();
  VP_EQ(born, died, "instances that were created and deleted");
  if (w.a->closed + w.p->closed)
    x.label("libraries closed");
  if (w.deleted > 2)
    x.label("managers deleted");
}

std::string ident() { return oneStr({"alpha", "beta", "gamma", "Delta_2", "builtin", "a"}); }

} // namespace

int main(int argc, char **argv)
{
  auto item = opGen([] {
    int w = (int)pick(0, 99);
    int64_t who = coin(70) ? 0 : 1;
    if (w < 22)
      return mk(1, {oneOf<int64_t>({0, 0, 0, 1, 2, 3, 4, 5}), coin(70) ? 0 : 1, pick(0, 3)}, {ident()});
    if (w < 30)
      return mk(2, {oneOf<int64_t>({0, 0, 0, 1, 2, 3, 4, 5}), pick(0, WHATS - 1), pick(0, 4095)}, {ident()});
    if (w < 36)
      return mk(13, {who, pick(0, 5), coin(80) ? 0 : pick(1, 3)});
    if (w < 44)
      return mk(3, {who, pick(0, 3)});
    if (w < 51)
      return mk(4, {who});
    if (w < 58)
      return mk(5, {who});
    if (w < 70)
      return mk(6, {who}, {coin(90) ? ident() : str("ab", 0, 4)});
    if (w < 79)
      return mk(7, {who}, {coin(90) ? ident() : str("ab", 0, 4)});
    if (w < 84)
      return mk(8, {who}, {ident()});
    if (w < 88)
      return mk(9, {who}, {ident()});
    if (w < 91)
      return mk(10, {who}, {ident()});
    if (w < 95)
      return mk(11, {who, pick(0, 9)});
    return mk(12, {who});
  });
  Sub s{"managers", headCase(opGen([] { return mk(0, {pick(0, 3)}); }), item), run, 4000, 60000};
  s.fork = true;
  s.max_size = 30;
  return checkMain(argc, argv, "C34",
                   "histories of two plugin managers over directories with plugins of both types, broken libraries, other files and links. "
                   "Non-trivial: at least two lists or look-ups and one instance created",
                   {s}, "exploration", {"plugins of one identifier are of one type"});
}
