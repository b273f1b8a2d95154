// vp: profile=asanub mods=config,logging
// Where configuration values come from: files with includes, defaults, command line, changes at run time.
#include "vp.hpp"
#include <icl_core_config/Config.h>
#include <fcntl.h>
#include <iostream>
#include <set>
#include <sys/stat.h>
#include <unistd.h>
using namespace vp;
namespace cfg = icl_core::config;
typedef std::map<std::string, std::string> Map;

namespace {

const int NF = 4; // 0 main.xml, 1 sub/inc.xml, 2 sub/deep/b.xml, 3 sub/t.tree
const char *kFile[NF] = {"main.xml", "sub/inc.xml", "sub/deep/b.xml", "sub/t.tree"};
//! Name of file b seen from the directory of file a.
std::string from(int a, int b)
{
  static const char *rel[NF][NF] = {{"main.xml", "sub/inc.xml", "sub/deep/b.xml", "sub/t.tree"},
                                    {"../main.xml", "inc.xml", "deep/b.xml", "t.tree"},
                                    {"../../main.xml", "../inc.xml", "b.xml", "../t.tree"},
                                    {"", "", "", ""}};
  return rel[a][b];
}

struct Item
{
  int kind; // 0 value, 1 include
  std::string key, value;
  int file;
};
struct File
{
  std::string text;
  std::vector<Item> items;
  std::vector<std::string> open;
  bool last_text = false;
  bool good = true;
  bool used = false;
  std::set<std::string> tree_keys;
  std::string key() const
  {
    std::string k;
    for (auto &o : open)
      k += "/" + o;
    return k;
  }
};

std::string encode(const std::string &s, int how)
{
  std::string r;
  for (char c : s)
  {
    if (c == '&')
      r += how % 2 ? "&#38;" : "&amp;";
    else if (c == '<')
      r += how % 2 ? "&#x3C;" : "&lt;";
    else if (c == '>' && how % 3)
      r += "&gt;";
    else if (c == '"' && how % 3)
      r += "&quot;";
    else if (c == '\'' && how % 3)
      r += "&apos;";
    else
      r += c;
  }
  return r;
}

struct Par
{
  std::string name, key, def, value;
  bool has = false;
};

void apply(const File *f, int i, Map &m, int depth = 0)
{
  for (const Item &it : f[i].items)
    if (it.kind == 0)
      m[it.key] = it.value;
    else if (it.file >= 0 && f[it.file].good && depth < 10)
      apply(f, it.file, m, depth + 1);
}

Map actual()
{
  Map m;
  cfg::ConfigIterator it = cfg::find(".*");
  while (it.next())
  {
    VP_CHECK(!m.count(it.key()), "key " << it.key() << " found twice");
    if (std::string(it.key()).find("_ATTRIBUTE_TREE_FILE_") == std::string::npos)
      m[it.key()] = it.value();
  }
  return m;
}
void compare(const Map &want, const std::string &what)
{
  Map got = actual();
  for (auto &e : want)
  {
    VP_CHECK(got.count(e.first), what << ": key '" << e.first << "' is missing, its value should be '" << e.second << "'");
    VP_CHECK(got[e.first] == e.second, what << ": value of '" << e.first << "' is '" << got[e.first] << "', expected '" << e.second << "'");
    std::string s = "unset";
    VP_CHECK(cfg::get<icl_core::String>(e.first, s) && s == e.second, what << ": reading '" << e.first << "' gives '" << s << "'");
    VP_EQ(std::string(cfg::getDefault<icl_core::String>(e.first, "other")), e.second, what << ": reading " << e.first << " with a default");
  }
  for (auto &e : got)
    VP_CHECK(want.count(e.first), what << ": unexpected key '" << e.first << "' with value '" << e.second << "'");
  std::string s = "unset";
  VP_CHECK(!cfg::get<icl_core::String>(icl_core::String("/no/such"), s) && s == "unset", what << ": a key that is not there");
}

void run(const Case &c, Ctx &x)
{
  File f[NF];
  std::vector<Par> opts, pos;
  std::vector<std::pair<std::string, std::string>> over;
  int mode = 0, broken = 0;
  bool dump = false, lists = false;
  std::vector<const Op *> later;
  int values = 0, includes = 0;
  for (const Op &o : c.ops)
  {
    int fi = (int)(N(o, 0) & 3);
    File &q = f[fi];
    switch (o.k)
    {
    case 0:
      mode = (int)N(o, 0);
      broken = (int)N(o, 1);
      dump = N(o, 2) & 1;
      lists = N(o, 2) & 2;
      break;
    case 1: // a value in an element of its own; in trees a line
    case 2: // open an element and stay in it
      if (fi == 3)
        break;
      q.open.push_back(S(o, 0));
      q.text += std::string("<") + S(o, 0) + (N(o, 1) & 1 ? " attr='<x>/&amp;'" : "") + ">";
      q.last_text = false;
      if (o.k == 2)
        break;
      // fall through
    case 3: // text in the current element
    {
      if (fi == 3)
        break;
      std::string raw, want;
      const std::string &t = S(o, 1);
      if (q.last_text)
        q.text += "<!-- a <b>comment</b> -->";
      if (N(o, 1) & 2 && !t.empty())
      { // taken literally
        q.text += "<![CDATA[" + t + "]]>";
        want = t;
        x.label("literal text");
      }
      else
      {
        q.text += encode(t, (int)N(o, 2));
        // white space at the ends is dropped, other white space becomes one blank
        for (char ch : t)
          if (ch == ' ' || ch == '\n' || ch == '\t')
          {
            if (!want.empty() && want.back() != ' ')
              want += ' ';
          }
          else
            want += ch;
        if (!want.empty() && want.back() == ' ')
          want.pop_back();
      }
      q.last_text = true;
      if (!want.empty())
      {
        q.items.push_back({0, q.key(), want, 0});
        ++values;
      }
      if (o.k == 1)
      {
        q.text += "</" + q.open.back() + ">\n";
        q.open.pop_back();
        q.last_text = false;
      }
      break;
    }
    case 4: // close
      if (!q.open.empty())
      {
        q.text += "</" + q.open.back() + ">\n  ";
        q.open.pop_back();
        q.last_text = false;
      }
      break;
    case 5: // include another file
    {
      int g = fi + 1 + (int)(N(o, 1) % 3);
      if (fi == 3)
        break;
      std::string name = g < NF ? from(fi, g) : "missing.xml";
      q.text += std::string("<INCLUDE>") + (N(o, 2) & 1 ? " " + name + "\n" : name) + "</INCLUDE>";
      q.last_text = false;
      q.items.push_back({1, "", "", g < NF ? g : -1});
      ++includes;
      break;
    }
    case 6: // line of the tree file
    {
      std::string line = S(o, 0), key = "/" + S(o, 0);
      if (N(o, 1) & 1)
      {
        line += "." + S(o, 1);
        key += "/" + S(o, 1);
      }
      if (!f[3].tree_keys.insert(key).second)
        break;
      f[3].text += line + ":" + S(o, 2) + "\n";
      f[3].items.push_back({0, key, S(o, 2), 0});
      break;
    }
    case 7: // option with a key in the configuration
    {
      Par p;
      p.key = S(o, 0);
      p.def = S(o, 1);
      p.value = S(o, 2);
      p.has = N(o, 0) & 1;
      bool positional = N(o, 0) & 2;
      auto &l = positional ? pos : opts;
      p.name = (positional ? "pos" : "opt") + std::to_string(l.size());
      if (positional && !l.empty() && !l.back().has)
        p.has = false; // positionals are given from the first
      if (l.size() < 8)
        l.push_back(p);
      break;
    }
    case 8:
      over.push_back({S(o, 0), S(o, 1)});
      break;
    default:
      later.push_back(&o);
    }
  }
  std::string dir = x.dir();
  mkdir((dir + "/sub").c_str(), 0755);
  mkdir((dir + "/sub/deep").c_str(), 0755);
  for (int i = 0; i < NF; ++i)
  {
    std::string t;
    if (i < 3)
    {
      while (!f[i].open.empty())
      {
        f[i].text += "</" + f[i].open.back() + ">";
        f[i].open.pop_back();
      }
      std::string root = i == 0 ? "Config" : "a";
      t = "<?xml version=\"1.0\" encoding=\"utf-8\" ?>\n<" + root + ">" + f[i].text + "</" + root + ">\n";
      if (broken == i + 1 && f[i].text.size() > 3)
      {
        t = "<a><b>text</b";
        f[i].good = false;
      }
      if (broken == 10 + i)
      {
        f[i].good = false;
        t.clear();
      }
    }
    else
    {
      t = f[i].text;
      if (broken == 13)
        f[i].good = false;
    }
    if (broken != 10 + i)
      writeFile(dir + "/" + kFile[i], t);
  }
  // the tree file may be the main file too
  int main_file = mode % 5 == 4 ? 3 : mode % 5 == 3 ? 1 : 0;
  bool with_file = mode >= 5;
  std::string main_name = dir + "/" + kFile[main_file];
  std::vector<std::string> args = {"program"};
  if (with_file)
  {
    if (mode % 2)
      args.push_back("--configfile=" + main_name);
    else
    {
      args.push_back("-c");
      args.push_back(main_name);
    }
  }
  cfg::ConfigParameterList ol;
  cfg::ConfigPositionalParameterList pl;
  for (auto &p : opts)
  {
    ol.push_back(cfg::ConfigParameter(p.name + ":", "", p.key, "help", p.def));
    if (p.has)
      args.push_back("--" + p.name + "=" + p.value);
  }
  for (auto &p : pos)
  {
    pl.push_back(cfg::ConfigPositionalParameter(p.name, p.key, "help", true, p.def));
    if (p.has)
      args.push_back("v" + p.value);
  }
  for (size_t i = 0; i < over.size(); ++i)
  {
    if (i % 2)
      args.push_back("--config-option" + over[i].first + "=" + over[i].second);
    else
    {
      args.push_back("-o" + over[i].first);
      args.push_back(over[i].second);
    }
  }
  if (dump)
    args.push_back(mode % 2 ? "--dump-config" : "-dc");
  if (lists)
  {
    cfg::addParameter(ol);
    cfg::addParameter(pl);
  }
  else
  {
    for (auto &p : ol)
      cfg::addParameter(p);
    for (auto &p : pl)
      cfg::addParameter(p);
  }
  Map want;
  bool ok = true;
  if (with_file)
  {
    ok = f[main_file].good;
    if (ok)
    {
      apply(f, main_file, want);
      want["/configfile"] = main_name;
    }
  }
  std::set<std::string> from_file;
  for (auto &e : want)
    from_file.insert(e.first);
  bool overridden = false;
  auto fill = [&](std::vector<Par> &v, const std::string &prefix) {
    for (auto &p : v)
    {
      if (p.key.empty())
        continue;
      if (p.has)
      {
        overridden |= from_file.count(p.key) != 0;
        want[p.key] = prefix + p.value;
      }
      else if (!want.count(p.key) && !p.def.empty())
      {
        want[p.key] = p.def;
        x.label("default used");
      }
      else if (want.count(p.key) && !p.def.empty())
        x.label("default not used");
    }
  };
  fill(opts, "");
  fill(pos, "v");
  for (auto &e : over)
  {
    overridden |= want.count(e.first) != 0;
    want[e.first] = e.second;
  }
  x.nontrivial(with_file && values > 1 && (includes || overridden));
  if (overridden)
    x.label("value of the file overridden");
  if (!ok)
    x.label("unreadable file");

  std::vector<std::vector<char>> mem;
  for (auto &a : args)
    mem.push_back(std::vector<char>(a.c_str(), a.c_str() + a.size() + 1));
  std::vector<char *> argv;
  for (auto &v : mem)
    argv.push_back(v.data());
  argv.push_back(0);
  int argc = (int)args.size();
  std::ostringstream out, err;
  std::streambuf *oo = std::cout.rdbuf(out.rdbuf()), *oe = std::cerr.rdbuf(err.rdbuf());
  bool r = cfg::initialize(argc, argv.data());
  std::cout.rdbuf(oo);
  std::cerr.rdbuf(oe);
  std::string what = "after initialisation";
  VP_CHECK(r == ok, "initialisation returned " << r << " with file " << main_name << ": " << err.str());
  VP_CHECK(cfg::ConfigManager::instance().isInitialized() == ok, "initialised");
  if (!ok)
  {
    VP_CHECK(!err.str().empty(), "an unreadable file is not reported");
    return;
  }
  compare(want, what);
  if (dump)
  {
    std::string exp = "--- BEGIN CONFIGURATION DUMP ---\n";
    for (auto &e : actual())
      exp += e.first + " = '" + e.second + "'\n";
    exp += "--- END CONFIGURATION DUMP ---\n";
    std::string got;
    std::istringstream in(out.str());
    for (std::string l; std::getline(in, l);)
      if (l.find("_ATTRIBUTE_TREE_FILE_") == std::string::npos)
        got += l + "\n";
    VP_EQ(got, exp, "dump");
    x.label("dumped");
  }
  else
    VP_EQ(out.str(), std::string(), "output without a dump");
  // changes at run time
  for (const Op *o : later)
  {
    what = "after a change";
    if (o->k == 9)
    {
      cfg::setValue<icl_core::String>(S(*o, 0), S(*o, 1));
      want[S(*o, 0)] = S(*o, 1);
    }
    else if (o->k == 10)
    {
      cfg::setValue<int64_t>(icl_core::String(S(*o, 0)), N(*o, 0));
      want[S(*o, 0)] = std::to_string(N(*o, 0));
    }
    else
    {
      int i = (int)(N(*o, 0) % NF);
      std::string n = dir + "/" + kFile[i];
      oe = std::cerr.rdbuf(err.rdbuf());
      cfg::setValue<icl_core::String>("/configfile", n);
      std::cerr.rdbuf(oe);
      if (f[i].good)
        apply(f, i, want);
      want["/configfile"] = n;
      x.label("file loaded later");
    }
    compare(want, what);
  }
}

const std::vector<std::string> names = {"a", "b", "c", "List", "x-1", "y_z", "n.m"};
const std::vector<std::string> tnames = {"a", "b", "c", "List", "tree"};

std::string name() { return coin(65) ? oneStr({"a", "b"}) : oneOf(names); }
std::string key()
{
  std::string k = "/" + name();
  for (int i = (int)oneOf<int64_t>({0, 0, 0, 1, 1, 2}); i > 0; --i)
    k += "/" + name();
  return k;
}
std::string text()
{
  switch (pick(0, 3))
  {
  case 0: return oneStr({"1", "value", "yes", "two words", " padded ", "line\nline", "a  b", ""});
  case 1: return oneStr({"a<b", "x&y", "\"q\"", "it's", "1>0", "&amp;", "\xc3\xa4", "\t", "]]", "/p/q"});
  default: return str("ab 1\n", 0, 6);
  }
}

Op gen()
{
  int w = (int)pick(0, 99);
  int fi = (int)oneOf<int64_t>({0, 0, 0, 1, 1, 2});
  if (w < 30)
    return mk(1, {fi, pick(0, 15) == 0 ? 3 : coin(10) ? 2 : coin(10), pick(0, 11)}, {name(), text()});
  if (w < 40)
    return mk(2, {fi, coin(20)}, {name()});
  if (w < 45)
    return mk(3, {fi, coin(10) ? 2 : 0, pick(0, 11)}, {"", text()});
  if (w < 52)
    return mk(4, {fi});
  if (w < 62)
    return mk(5, {fi, pick(0, 2), coin(30)});
  if (w < 70)
    return mk(6, {3, pick(0, 1)}, {oneOf(tnames), oneOf(tnames), oneStr({"1", "tv", "a:b", "w w"})});
  if (w < 84)
    return mk(7, {pick(0, 3)}, {coin(10) ? std::string() : key(), oneStr({"", "", "default", "d d", "0"}), oneStr({"", "opt", "o p", "a=b", "-x"})});
  if (w < 90)
    return mk(8, {}, {key(), oneStr({"", "over", "o=o", "--", "5 6"})});
  if (w < 94)
    return mk(9, {}, {key(), oneStr({"", "set", " s ", "7"})});
  if (w < 96)
    return mk(10, {wide(INT64_MIN, INT64_MAX)}, {key()});
  return mk(11, {pick(0, 3)});
}

} // namespace

int main(int argc, char **argv)
{
  auto head = opGen([] {
    return mk(0, {coin(85) ? pick(5, 14) : pick(0, 4), coin(75) ? 0 : oneOf<int64_t>({1, 2, 3, 10, 11, 12, 13}), pick(0, 3)});
  });
  Sub s{"sources", headCase(head, opGen(gen)), run, 8000, 200000};
  s.fork = true;
  s.timeout = 20;
  s.max_size = 40;
  return checkMain(argc, argv, "C12",
                   "configuration files (XML with nested elements, text in all notations, comments and includes; attribute trees), options and positionals "
                   "with keys and defaults, overriding options, and later changes, on a small set of keys so that sources collide. Non-trivial: a file "
                   "with at least two values is read and it includes another one or something overrides a value",
                   {s}, "exploration", {"TinyXML's treatment of white space (trimmed and condensed) is part of the expected behaviour"});
}
