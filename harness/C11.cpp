// vp: profile=asanub mods=config
// Command line parsing against a reference parser written from the documentation.
#include "vp.hpp"
#include <icl_core_config/GetoptParser.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <iostream>
#include <list>
#include <set>
using namespace vp;
using namespace icl_core::config;

namespace {

struct Opt { std::string name, shrt; bool value; };
struct Model
{
  std::vector<Opt> opts, prefixes;
  std::vector<std::string> required, optional_;
  bool extra = false;
  std::string delim;
  // result
  bool ok = true, exits = false;
  std::map<std::string, std::string> opt;
  std::map<std::string, std::vector<std::pair<std::string, std::string>>> pre;
  std::vector<std::string> rest, extras;
  int used = 0;
  bool after_value = false;

  void parse(const std::vector<std::string> &a, bool strict)
  {
    size_t pos = 0;
    bool in_extra = false;
    for (size_t i = 0; i < a.size(); ++i)
    {
      const std::string &s = a[i];
      bool is_long = s.size() >= 3 && s[0] == '-' && s[1] == '-' && s[2] != '-';
      bool is_short = s.size() >= 2 && s[0] == '-' && s[1] != '-';
      if (in_extra)
      {
        extras.push_back(s);
        continue;
      }
      if (is_long || is_short)
      {
        std::string name = s.substr(is_long ? 2 : 1), value;
        bool has = false;
        if (is_long)
        {
          size_t eq = s.find('=', 3);
          if (eq != std::string::npos)
          {
            name = s.substr(2, eq - 2);
            value = s.substr(eq + 1);
            has = true;
          }
        }
        const Opt *o = 0;
        bool prefix = false;
        for (const Opt &x : opts)
          if ((is_long ? x.name : x.shrt) == name && !(is_short && x.shrt.empty()))
            o = &x;
        if (!o)
          for (const Opt &x : prefixes)
          {
            const std::string &p = is_long ? x.name : x.shrt;
            if (is_short && p.empty())
              continue;
            if (name.compare(0, p.size(), p) == 0)
            {
              o = &x;
              prefix = true;
            }
          }
        if (!o)
        {
          if (strict)
          {
            ok = false;
            return;
          }
          rest.push_back(s);
          continue;
        }
        ++used;
        std::string v = "yes";
        if (o->value && is_long)
        {
          if (!has)
          {
            ok = false;
            return;
          }
          v = value;
        }
        else if (o->value)
        {
          if (++i == a.size())
          {
            ok = false;
            return;
          }
          v = a[i];
        }
        if (prefix)
          pre[o->name].push_back(std::make_pair(name.substr((is_long ? o->name : o->shrt).size()), v));
        else
          opt[o->name] = v;
        continue;
      }
      if (extra && s == delim)
      {
        in_extra = true;
        continue;
      }
      if (pos < required.size())
        opt[required[pos++]] = s;
      else if (pos < required.size() + optional_.size())
        opt[optional_[pos++ - required.size()]] = s;
      else
        rest.push_back(s);
    }
    exits = pos < required.size() || opt.count("help");
  }
};

std::string show(const std::vector<std::string> &v)
{
  std::string r = "[";
  for (auto &s : v)
    r += "'" + s + "' ";
  return r + "]";
}
std::string show(const std::vector<std::pair<std::string, std::string>> &v)
{
  std::string r = "[";
  for (auto &s : v)
    r += "'" + s.first + "'='" + s.second + "' ";
  return r + "]";
}

bool overlaps(const std::string &a, const std::string &b)
{
  return a.compare(0, b.size(), b) == 0 || b.compare(0, a.size(), a) == 0;
}

void run(const Case &c, Ctx &x)
{
  Model m;
  m.opts.push_back({"help", "h", false});
  bool cleanup = false, strict = true, list = false;
  std::vector<std::string> args;
  Getopt &g = Getopt::instance();
  VP_CHECK(!g.isInitialized(), "initialized before the call");
  std::set<std::string> shorts = {"h"}, pos_names;
  GetoptParameterList delayed;
  for (const Op &o : c.ops)
  {
    if (o.k == 0)
    {
      cleanup = N(o, 0) & 1;
      strict = !(N(o, 0) & 2);
      list = N(o, 0) & 4;
      if (N(o, 1))
      {
        m.extra = true;
        m.delim = N(o, 1) == 1 ? "--" : N(o, 1) == 2 ? "::" : "---";
        if (N(o, 1) == 1)
          g.activateExtraCmdParams();
        else
          g.activateExtraCmdParams(m.delim);
      }
    }
    else if (o.k == 1)
    {
      bool prefix = N(o, 0), value = N(o, 1);
      std::string name = S(o, 0), sh = S(o, 1);
      bool bad = name.empty() || name == "help";
      for (const Opt &q : m.opts)
        bad = bad || q.name == name || (!sh.empty() && q.shrt == sh);
      for (const Opt &q : m.prefixes)
        bad = bad || (prefix && (overlaps(q.name, name) || (!sh.empty() && !q.shrt.empty() && overlaps(q.shrt, sh)))) || q.name == name;
      if (bad)
        continue;
      (prefix ? m.prefixes : m.opts).push_back({name, sh, value});
      GetoptParameter p(value ? name + ":" : name, sh, "help text", prefix);
      VP_EQ(p.option(), name, "name of a parameter");
      VP_EQ(p.hasValue(), value, "parameter " << name);
      if (list)
        delayed.push_back(p);
      else
        g.addParameter(p);
    }
    else if (o.k == 2)
    {
      std::string name = S(o, 0);
      if (!pos_names.insert(name).second)
        continue;
      (N(o, 0) ? m.optional_ : m.required).push_back(name);
      g.addParameter(GetoptPositionalParameter(name, "help text", N(o, 0) != 0));
    }
    else
      args.push_back(S(o, 0));
  }
  if (list)
    g.addParameter(delayed);

  m.parse(args, strict);
  std::vector<std::string> all = args;
  all.insert(all.begin(), "the program");
  std::vector<std::vector<char>> mem;
  std::vector<char *> argv;
  for (auto &s : all)
  {
    mem.push_back(std::vector<char>(s.c_str(), s.c_str() + s.size() + 1));
  }
  for (auto &v : mem)
    argv.push_back(v.data());
  argv.push_back(0);
  int argc = (int)all.size();
  Getopt::CommandLineCleaning cl = cleanup ? Getopt::eCLC_Cleanup : Getopt::eCLC_None;
  Getopt::ParameterRegistrationCheck rc = strict ? Getopt::ePRC_Strict : Getopt::ePRC_Relaxed;
  std::string what = "command line " + show(args);

  x.nontrivial(m.used >= 2 || (m.used && !m.rest.empty()) || !m.extras.empty());
  if (!m.ok)
    x.label("refused");
  if (m.ok && m.exits)
  {
    x.label("help or missing parameter: exit");
    int fd[2];
    VP_CHECK(pipe(fd) == 0, "pipe");
    pid_t pid = fork();
    if (pid == 0)
    {
      dup2(fd[1], 2);
      close(fd[0]);
      close(fd[1]);
      g.initialize(argc, argv.data(), cl, rc);
      _exit(42);
    }
    close(fd[1]);
    std::string out;
    char buf[4096];
    ssize_t n;
    while ((n = read(fd[0], buf, sizeof buf)) > 0)
      out.append(buf, n);
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    VP_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, what << ": should print the help and exit with 0, status is " << st << ": " << out);
    VP_CHECK(out.find("Usage:") != std::string::npos, what << ": help without usage: " << out);
    for (auto &o : m.opts)
      VP_CHECK(out.find("--" + o.name + (o.value ? "=" : ":")) != std::string::npos, "help does not list --" << o.name << ": " << out);
    for (auto &p : pos_names)
      VP_CHECK(out.find("<" + p + ">") != std::string::npos, "help does not list <" << p << ">: " << out);
    return;
  }

  std::ostringstream err;
  std::streambuf *old = std::cerr.rdbuf(err.rdbuf());
  bool r = g.initialize(argc, argv.data(), cl, rc);
  std::cerr.rdbuf(old);
  VP_EQ(r, m.ok, what << (strict ? " strict" : " relaxed"));
  VP_EQ(g.isInitialized(), m.ok, what);
  if (!r)
  {
    VP_CHECK(!err.str().empty(), what << " is refused without a message");
    return;
  }
  VP_EQ(g.programName(), all[0], what);
  std::set<std::string> names = {"help", "unknown", "", "x"};
  for (auto &o : m.opts)
    names.insert(o.name), names.insert(o.shrt);
  for (auto &o : m.prefixes)
    names.insert(o.name), names.insert(o.shrt);
  names.insert(pos_names.begin(), pos_names.end());
  for (auto &n : names)
  {
    VP_EQ(g.paramOptPresent(n), m.opt.count(n) != 0, what << ": option " << n);
    VP_EQ(g.paramOpt(n), m.opt.count(n) ? m.opt[n] : std::string(), what << ": option " << n);
    VP_EQ(g.paramPrefixOptPresent(n), m.pre.count(n) != 0, what << ": prefix option " << n);
    std::vector<std::pair<std::string, std::string>> got;
    for (auto &kv : g.paramPrefixOpt(n))
      got.push_back(std::make_pair(kv.m_key, kv.m_value));
    VP_EQ(show(got), show(m.pre.count(n) ? m.pre[n] : std::vector<std::pair<std::string, std::string>>()), what << ": prefix option " << n);
  }
  std::vector<std::string> rest, extras;
  for (size_t i = 0; i < g.paramNonOptCount(); ++i)
    rest.push_back(g.paramNonOpt(i));
  for (size_t i = 0; i < g.extraCmdParamCount(); ++i)
    extras.push_back(g.extraCmdParam(i));
  VP_EQ(show(rest), show(m.rest), what << ": other arguments");
  VP_EQ(g.paramNonOpt(rest.size()), std::string(), what << ": other argument after the last");
  VP_EQ(show(extras), show(m.extras), what << ": extra arguments");

  std::vector<std::string> want = all;
  if (cleanup)
  {
    want.resize(1);
    want.insert(want.end(), m.rest.begin(), m.rest.end());
    if (want.size() < all.size())
      x.label("arguments removed");
  }
  VP_CHECK(argc >= 0 && argc <= (int)all.size(), what << ": argc " << argc);
  std::vector<std::string> got(argv.begin(), argv.begin() + argc);
  VP_EQ(show(got), show(want), what << ": command line afterwards");
  VP_EQ(g.argc(), (int)all.size(), what << ": original number of arguments");
  if (!cleanup)
  {
    std::vector<std::string> orig(g.argv(), g.argv() + g.argc());
    VP_EQ(show(orig), show(all), what << ": original arguments");
  }
  if (!m.pre.empty())
    x.label("prefix option used");
  if (strict)
    x.label("strict");

  // a second initialisation changes nothing
  int argc2 = 2;
  char p0[] = "other", p1[] = "positional";
  char *argv2[] = {p0, p1, 0};
  old = std::cerr.rdbuf(err.rdbuf());
  VP_CHECK(g.initialize(argc2, argv2, cl, rc), "second initialisation");
  std::cerr.rdbuf(old);
  VP_EQ(argc2, 2, "second initialisation");
  VP_EQ(g.argc(), (int)all.size(), "second initialisation");
  VP_EQ(g.programName(), all[0], "second initialisation");
  VP_EQ(g.paramNonOptCount(), rest.size(), "second initialisation");
}

const std::vector<std::string> names = {"a", "ab", "foo", "foo.bar", "x+", "(", "verbose", "o", "/cfg", "n-m"};
const std::vector<std::string> shorts = {"a", "f", "fo", "o", "v", "x.", "[", "D"};

Op genOp()
{
  int w = (int)pick(0, 99);
  if (w < 28)
    return mk(1, {coin(30), coin(60)}, {oneOf(names), coin(25) ? std::string() : oneOf(shorts)});
  if (w < 34)
    return mk(2, {coin(60)}, {oneStr({"in", "out", "foo", "p3"})});
  std::string v = oneStr({"", "1", "foo", "-a", "--foo", "a=b", "x y", "--", "=", "pos"});
  std::string a;
  switch (pick(0, 9))
  {
  case 0: a = "--" + oneOf(names); break;
  case 1: case 2: a = "--" + oneOf(names) + "=" + v; break;
  case 3: a = "--" + oneOf(names) + oneStr({"/k", "x", "1", "."}) + "=" + v; break;
  case 4: case 5: a = "-" + oneOf(shorts); break;
  case 6: a = "-" + oneOf(shorts) + oneStr({"/k", "x", "1", "=2"}); break;
  case 7: a = v; break;
  case 8: a = oneStr({"p", "q", "r", "in.txt", ""}); break;
  default:
    a = coin(15) ? oneStr({"--help", "-h"}) : oneStr({"--", "---", "---x", "-", "--=x", "::", "--unknown", "-u", "--a==", "-="});
  }
  return mk(3, {}, {a});
}

} // namespace

int main(int argc, char **argv)
{
  auto head = opGen([] { return mk(0, {pick(0, 7) | (coin(50) ? 2 : 0), coin(40) ? pick(1, 3) : 0}); });
  Sub s{"parse", headCase(head, opGen(genOp)), run};
  s.quick = 16000;
  s.thorough = 300000;
  s.fork = true;
  s.timeout = 20;
  s.max_size = 30;
  return checkMain(argc, argv, "C11",
                   "at least two registered options were recognised, or one besides other arguments, or arguments after the delimiter",
                   {s});
}
