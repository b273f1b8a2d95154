// vp: profile=asanub mods=config
// File paths: a normalised or absolute path names the same place, and its parts make up the whole.
#include "vp.hpp"
#include <icl_core_config/AttributeTree.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace vp;
typedef icl_core::config::FilePath FP;

struct Place
{
  bool abs = false;
  int up = 0;                     // number of .. that lead out of where it starts
  std::vector<std::string> names; // then down
  bool operator==(const Place &o) const { return abs == o.abs && up == o.up && names == o.names; }
};
static std::vector<std::string> parts(const std::string &t)
{
  std::vector<std::string> r(1);
  for (char ch : t)
    if (ch == '/' || ch == '\\')
      r.push_back("");
    else
      r.back() += ch;
  return r;
}
//! Where a path leads, as a system without symbolic links resolves it.
static Place resolve(const std::string &t, Place p = Place())
{
  auto v = parts(t);
  if (!t.empty() && (t[0] == '/' || t[0] == '\\'))
  {
    p = Place();
    p.abs = true;
  }
  for (auto &n : v)
  {
    if (n.empty() || n == ".")
      continue;
    if (n == "..")
    {
      if (!p.names.empty())
        p.names.pop_back();
      else if (!p.abs)
        p.up++;
    }
    else
      p.names.push_back(n);
  }
  return p;
}
static std::string show(const Place &p)
{
  std::string r = p.abs ? "/" : "";
  for (int i = 0; i < p.up; ++i)
    r += "../";
  for (auto &n : p.names)
    r += n + "/";
  return r;
}

static void checkNormal(const std::string &in, const std::string &out)
{
  VP_CHECK(resolve(in) == resolve(out), "the normalised form '" << out << "' of '" << in << "' names " << show(resolve(out)) << " and not " << show(resolve(in)));
  VP_CHECK(out.find('\\') == std::string::npos, "separator left in '" << out << "'");
  VP_CHECK(out.find("/./") == std::string::npos && out.compare(0, 2, "./") != 0, "dot left in the normalised form '" << out << "' of '" << in << "'");
  auto v = parts(out);
  for (size_t i = 1; i + 1 < v.size(); ++i)
    VP_CHECK(!(v[i] == ".." && !v[i - 1].empty() && v[i - 1] != ".."), "'" << v[i - 1] << "/..' left in the normalised form '" << out << "' of '" << in << "'");
  VP_EQ(std::string(FP::normalizePath(out)), out, "normalising again");
}

static void runNorm(const Case &c, Ctx &x)
{
  for (const Op &o : c.ops)
  {
    const std::string &t = S(o, 0);
    std::string n = FP::normalizePath(t);
    checkNormal(t, n);
    std::string ex = t;
    for (char &ch : ex)
      if (ch == '\\')
        ch = '/';
    VP_EQ(std::string(FP::exchangeSeparators(t)), ex, "separators of '" << t << "'");
    VP_CHECK(FP::isRelativePath(t) == (t.empty() || t[0] != '/'), "relative: '" << t << "'");
    auto v = parts(t);
    int dd = 0;
    for (auto &s : v)
      dd += s == "..";
    Place p = resolve(t);
    if (p.up)
      x.label("leads out of its start");
    if (p.abs)
      x.label("absolute");
    x.nontrivial(dd > 1 && v.size() > 4);
  }
}

static void runFile(const Case &c, Ctx &x)
{
  std::string base = x.dir();
  char rp[4096];
  VP_CHECK(realpath(base.c_str(), rp), "scratch directory");
  base = rp;
  const char *dirs[] = {"", "/d", "/d/e.f", "/d/e.f/.g", "/h i"};
  for (auto d : dirs)
    mkdir((base + d).c_str(), 0755);
  for (const Op &o : c.ops)
  {
    std::string cwd = base + dirs[N(o, 0) % 5];
    VP_CHECK(chdir(cwd.c_str()) == 0, "chdir");
    const std::string &t = S(o, 0), &t2 = S(o, 1);
    FP f(t.c_str()), fs{icl_core::String(t)};
    std::string a = f.absoluteName();
    Place here = resolve(cwd);
    VP_CHECK(resolve(a) == resolve(t, here), "file '" << t << "' in " << cwd << " is '" << a << "'");
    VP_CHECK(!a.empty() && a[0] == '/' && !f.isRelativePath(), "'" << a << "' is not absolute");
    checkNormal(a, a);
    VP_EQ(std::string(fs.absoluteName()), a, "both ways to make a path");
    VP_EQ(std::string(f.path() + f.name()), a, "path and name");
    VP_CHECK(f.name().find('/') == std::string::npos && !f.path().empty() && f.path()[f.path().size() - 1] == '/', "path '" << f.path() << "' and name '" << f.name() << "'");
    std::string n = f.name();
    if (n != "." && n != "..")
    {
      size_t dot = n.rfind('.');
      VP_EQ(std::string(f.extension()), dot == std::string::npos ? std::string() : n.substr(dot), "extension of '" << a << "'");
    }
    VP_CHECK(resolve(f.currentDir()) == here, "current directory '" << f.currentDir() << "' instead of " << cwd);
    // another path, from where the object was made
    std::string b = f.absolutePath(t2);
    std::string t2s = t2;
    if (t2.empty() || t2[0] != '\\')
    {
      VP_CHECK(resolve(b) == resolve(t2, here), "'" << t2 << "' in " << cwd << " is '" << b << "'");
      checkNormal(b, b);
    }
    x.nontrivial(t.find("..") != std::string::npos && t[0] != '/' && N(o, 0) % 5 > 0);
    x.label(n.rfind('.') == std::string::npos ? "no extension" : "extension");
  }
  VP_CHECK(chdir("/") == 0, "chdir");
}

static void runEnv(const Case &c, Ctx &x)
{
  static const char *names[] = {"VPX", "VPXY", "VP_LONG_NAME", "VPE", "VPZ9"};
  static const char *unset[] = {"VPUNSET", "VP", "VPX1"};
  for (auto u : unset)
    unsetenv(u);
  for (auto u : names)
    unsetenv(u);
  std::map<std::string, std::string> env;
  for (const Op &o : c.ops)
  {
    if (o.k == 0)
    {
      setenv(names[N(o, 0) % 5], S(o, 0).c_str(), 1);
      env[names[N(o, 0) % 5]] = S(o, 0);
      continue;
    }
    std::string in, want;
    int refs = 0;
    bool open = false;
    for (size_t i = 0; i < o.s.size(); ++i)
    {
      int64_t r = N(o, i);
      std::string l = S(o, i);
      if (!l.empty() && l[0] == '{' && ((!in.empty() && in.back() == '$') || (!want.empty() && want.back() == '$')))
        l = "-" + l; // no reference by accident
      in += l;
      want += l;
      if (r < 5)
      {
        in += std::string("${") + names[r] + "}";
        want += env.count(names[r]) ? env[names[r]] : getenv(names[r]) ? getenv(names[r]) : names[r];
        ++refs;
      }
      else if (r < 8)
      {
        in += std::string("${") + unset[r - 5] + "}";
        want += unset[r - 5];
        ++refs;
      }
      else if (r == 8 && i + 1 == o.s.size())
      {
        in += "${VPX";
        open = true;
      }
    }
    VP_EQ(std::string(FP::replaceEnvironment(in)), open ? in : want, "variables in '" << in << "'");
    x.nontrivial(refs > 1 && !env.empty());
  }
  for (auto &e : env)
  {
    VP_EQ(std::string(FP::getEnvironment(e.first)), e.second, "variable " << e.first);
    unsetenv(e.first.c_str());
  }
}

int main(int argc, char **argv)
{
  auto path = []() {
    std::string t;
    int n = (int)pick(0, 8);
    if (coin(40))
      t += oneStr({"/", "/", "//", "\\", "/"});
    for (int i = 0; i < n; ++i)
    {
      t += oneStr({"a", "b", "..", "..", "..", ".", "a.b", ".a", "..a", "a..", "...", "x.tar.gz", "c d", ":", "a:"});
      if (i + 1 < n || coin(30))
        t += oneStr({"/", "/", "/", "/", "/", "//", "\\", "///", "/\\"});
    }
    return t;
  };
  auto lit = []() { return oneStr({"", "/", "a", "x/y", "$", "}", "{", "a$", "$$", "{}", ".", "$a}", "/VPX/"}); };
  Sub s1{"normalise", opsCase(opGen([=] { return mk(0, {}, {path()}); })), runNorm, 60000, 2000000};
  s1.max_size = 8;
  Sub s2{"files", opsCase(opGen([=] { return mk(0, {pick(0, 4)}, {path(), path()}); })), runFile, 20000, 400000};
  s2.max_size = 12;
  Sub s3{"environment", opsCase(opGen([=] {
    if (coin(35))
      return mk(0, {pick(0, 4)}, {oneStr({"", "v", "/tmp/x", "a b", "}", "VPXY", "\\"})});
    Op o = mk(1);
    int n = (int)pick(1, 5);
    for (int i = 0; i < n; ++i)
    {
      o.n.push_back(pick(0, 9));
      o.s.push_back(lit());
    }
    return o;
  })), runEnv, 20000, 400000};
  s3.max_size = 12;
  return checkMain(argc, argv, "C17",
                   "paths of up to eight parts (names with and without dots, single and double dots, several and foreign separators), resolved by a "
                   "component stack; files seen from five working directories; texts with set, unset and unterminated variables. Non-trivial: at least "
                   "two double dots in at least five parts; a relative path with double dots from a sub directory; at least two references and a set variable",
                   {s1, s2, s3}, "exploration",
                   {"paths are resolved as if there were no symbolic links", "values of variables hold no references themselves"});
}
