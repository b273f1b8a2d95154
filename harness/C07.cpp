// vp: profile=asanub mods=core
// Key/value directory against a map and an independent regular expression matcher; enum names.
#include "vp.hpp"
#include <icl_core/EnumHelper.h>
#include <icl_core/KeyValueDirectory.h>
#include <map>
#include <regex>
#include <memory>
using namespace vp;

typedef icl_core::KeyValueDirectory<icl_core::String> Dir;
typedef icl_core::KeyValueDirectoryIterator<icl_core::String> It;

struct LiveIt
{
  It it;
  std::regex re;
  std::string q;
  bool started = false, at_end = false;
  std::string cur;
};

static void runDir(const Case &c, Ctx &x)
{
  Dir d;
  std::map<std::string, std::string> m;
  std::vector<std::unique_ptr<LiveIt>> live;
  bool replaced = false;
  int matches = 0, nomatch = 0;
  auto check = [&](LiveIt &l) {
    if (!l.started || l.at_end)
      return;
    VP_EQ(std::string(l.it.key()), l.cur, "key of the current result of query " << l.q);
    VP_EQ(std::string(l.it.value()), m[l.cur], "value of the current result " << l.cur << " of query " << l.q);
    std::smatch sm;
    VP_CHECK(std::regex_match(l.cur, sm, l.re), "oracle");
    for (size_t g = 0; g < sm.size() + 3; ++g)
      VP_EQ(std::string(l.it.matchGroup(g)), g < sm.size() ? sm[g].str() : std::string(),
            "match group " << g << " of query " << l.q << " on key " << l.cur);
  };
  auto step = [&](LiveIt &l) {
    if (l.at_end)
      return; // moving beyond the end is not defined
    bool got = l.it.next();
    auto i = l.started ? m.upper_bound(l.cur) : m.begin();
    l.started = true;
    while (i != m.end() && !std::regex_match(i->first, l.re))
    {
      ++nomatch;
      ++i;
    }
    VP_CHECK(got == (i != m.end()), "query " << l.q << " says " << got << ", the next match should be "
             << (i == m.end() ? std::string("(none)") : i->first));
    if (!got)
    {
      l.at_end = true;
      return;
    }
    ++matches;
    l.cur = i->first;
    check(l);
  };
  for (const Op &o : c.ops)
  {
    const std::string &k = S(o, 0), &v = S(o, 1);
    switch (o.k)
    {
    case 0:
    {
      bool fresh = d.insert(k, v);
      VP_CHECK(fresh == (m.count(k) == 0), "insert of " << k << " reports new=" << fresh);
      replaced |= !fresh;
      m[k] = v;
      break;
    }
    case 1:
    {
      std::string got = "unchanged";
      bool r = d.get(k, got);
      VP_CHECK(r == (m.count(k) != 0), "get of " << k);
      VP_EQ(got, r ? m[k] : std::string("unchanged"), "value of " << k);
      VP_CHECK(d.hasKey(k) == r, "hasKey of " << k);
      break;
    }
    case 2: // full enumeration of a query
    {
      LiveIt l{d.find(k), std::regex(k), k};
      for (int guard = 0; !l.at_end && guard < 10000; ++guard)
        step(l);
      l.it.reset();
      l.started = l.at_end = false;
      for (int guard = 0; !l.at_end && guard < 10000; ++guard)
        step(l);
      break;
    }
    case 3:
      if (live.size() < 4)
        live.push_back(std::unique_ptr<LiveIt>(new LiveIt{d.find(k), std::regex(k), k}));
      break;
    case 4:
      if (!live.empty())
        step(*live[N(o, 0) % live.size()]);
      break;
    case 5:
      if (!live.empty())
      {
        LiveIt &l = *live[N(o, 0) % live.size()];
        l.it.reset();
        l.started = l.at_end = false;
      }
      break;
    }
    for (auto &l : live)
      check(*l);
  }
  for (auto &e : m)
  {
    std::string got;
    VP_CHECK(d.get(e.first, got) && got == e.second && d.hasKey(e.first), "entry " << e.first << " at the end");
  }
  x.nontrivial(matches > 1 && nomatch > 0);
  if (replaced)
    x.label("replaced a value");
  if (matches > 2)
    x.label("several matches");
}

static std::string genRegex(int depth)
{
  std::string r;
  int parts = pick(1, 3);
  for (int i = 0; i < parts; ++i)
  {
    int k = pick(0, 9);
    if (k <= 2 || (depth == 0 && k >= 8))
      r += oneStr({"a", "b", "/", "ab", "/a", "c"});
    else if (k == 3)
      r += ".*";
    else if (k == 4)
      r += oneStr({"[ab]", "[^/]", "[a-c]", "."});
    else if (k == 5)
      r += oneStr({"a*", "b+", "[^/]+", ".?", "[ab]*"});
    else if (k == 6 || k == 7)
      r += "(" + oneStr({"[^/]+", ".*", "a", "ab?", "[abc]", "a|b"}) + ")";
    else
      r += "(" + genRegex(depth - 1) + (coin(40) ? "|" + genRegex(depth - 1) : "") + ")";
  }
  return r;
}

static void runEnum(const Case &c, Ctx &x)
{
  for (const Op &o : c.ops)
  {
    // names, text
    std::vector<std::string> names(o.s.begin() + (o.s.empty() ? 0 : 1), o.s.end());
    std::string text = S(o, 0);
    std::vector<std::string> uniq;
    for (auto &n : names)
      if (std::find(uniq.begin(), uniq.end(), n) == uniq.end())
        uniq.push_back(n);
    int want = -1;
    for (size_t i = 0; i < uniq.size(); ++i)
      if (uniq[i] == text)
        want = (int)i;
    {
      int32_t v = -77;
      bool r = icl_core::string2Enum(text, v, uniq);
      VP_CHECK(r == (want >= 0) && v == (want >= 0 ? want : -77), "name " << text << " gives " << r << "/" << v << ", expected " << want);
      int64_t w = -77;
      r = icl_core::string2Enum(text, w, uniq);
      VP_CHECK(r == (want >= 0) && w == (want >= 0 ? want : -77), "name " << text << " (64 bit) gives " << r << "/" << w << ", expected " << want);
    }
    std::vector<const char *> p;
    for (auto &n : uniq)
      p.push_back(n.c_str());
    p.push_back(nullptr);
    int32_t v = -77;
    bool r = icl_core::string2Enum(text, v, p.data());
    VP_CHECK(r == (want >= 0) && v == (want >= 0 ? want : -77), "C array: name " << text << " gives " << r << "/" << v << ", expected " << want);
    // with an end marker, names behind the marker do not count
    if (!uniq.empty())
    {
      size_t mk = (size_t)(N(o, 0) % uniq.size());
      int w2 = want >= 0 && want < (int)mk ? want : -1;
      v = -77;
      r = icl_core::string2Enum(text, v, p.data(), uniq[mk].c_str());
      VP_CHECK(r == (w2 >= 0) && v == (w2 >= 0 ? w2 : -77), "end marker " << uniq[mk] << ": name " << text << " gives " << r << "/" << v << ", expected " << w2);
      x.nontrivial(want >= 0 && uniq.size() > 1);
    }
  }
}

int main(int argc, char **argv)
{
  auto key = []() { return coin(20) ? oneStr({"", "/", "/a", "/a/b", "/ab"}) : str("ab/c", 0, 6); };
  auto g = opGen([key]() {
    int k = (int)pick(0, 99);
    if (k < 45)
      return mk(0, {}, {key(), str("xyz", 0, 3)});
    if (k < 55)
      return mk(1, {}, {key()});
    if (k < 70)
      return mk(2, {}, {genRegex(2)});
    if (k < 78)
      return mk(3, {}, {genRegex(2)});
    if (k < 96)
      return mk(4, {pick(0, 3)});
    return mk(5, {pick(0, 3)});
  });
  auto ge = opGen([]() {
    Op o = mk(0, {pick(0, 20)});
    o.s.push_back(str("ab", 0, 3));
    int n = (int)pick(0, 6);
    for (int i = 0; i < n; ++i)
      o.s.push_back(str("ab", 0, 3));
    return o;
  });
  Sub s1{"directory", opsCase(g), runDir, 96000, 1440000};
  Sub s2{"enum names", opsCase(ge), runEnum, 48000, 720000};
  s1.max_size = 40;
  s2.max_size = 10;
  return checkMain(argc, argv, "C07",
                   "histories of insertions, lookups and interleaved regular expression queries over a small key alphabet; non-trivial: "
                   "queries matched more than one key and skipped at least one (enum names: the text names one of several values)",
                   {s1, s2}, "exploration", {"libstdc++ std::regex (ECMAScript) is the oracle for matching and match groups"});
}
