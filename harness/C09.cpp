// vp: profile=asanub mods=core
// Resource scheme parser against an independent recogniser of the documented grammar.
#include "vp.hpp"
#include <icl_core/SchemeParser.h>
using namespace vp;

struct Ref
{
  bool ok = false;
  icl_core::SchemeType type = icl_core::OtherScheme;
  std::string name, spec, anchor;
  std::vector<std::pair<std::string, std::string>> q;
};
static bool al(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static bool an(char c) { return al(c) || (c >= '0' && c <= '9'); }
static bool spc(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }

// scheme? specifier ('#' anchor)? ('?' key '=' value ('&' key '=' value)*)?
static Ref ref(const std::string &full)
{
  std::string s = full.c_str();
  Ref r;
  size_t i = 0;
  { // alpha+ ('+' alpha+)* "://"
    size_t j = 0;
    auto word = [&]() { size_t b = j; while (j < s.size() && al(s[j])) ++j; return j > b; };
    bool good = word();
    while (good && j < s.size() && s[j] == '+')
    {
      ++j;
      good = word();
    }
    if (good && s.compare(j, 3, "://") == 0)
    {
      i = j + 3;
      for (size_t k = 0; k < i; ++k)
        r.name += s[k] >= 'A' && s[k] <= 'Z' ? char(s[k] + 32) : s[k];
      if (r.name == "file://")
        r.type = icl_core::FileScheme;
      else if (r.name == "http://")
        r.type = icl_core::HttpScheme;
      else if (r.name == "camera://")
        r.type = icl_core::CameraScheme;
      else if (r.name == "gps://")
        r.type = icl_core::GpsScheme;
    }
  }
  while (i < s.size() && s[i] != '?' && s[i] != '#')
    r.spec += s[i++];
  if (r.spec.empty())
    return r;
  if (i < s.size() && s[i] == '#')
  {
    size_t j = i + 1, b = j;
    while (j < s.size() && an(s[j]))
      ++j;
    if (j > b)
    {
      if (j < s.size() && s[j] == '-' && j + 1 < s.size() && an(s[j + 1]))
      {
        ++j;
        while (j < s.size() && an(s[j]))
          ++j;
      }
      r.anchor = s.substr(b, j - b);
      i = j;
    }
  }
  if (i < s.size() && s[i] == '?')
  {
    size_t j = i + 1;
    for (;;)
    {
      size_t b = j;
      if (!(j < s.size() && an(s[j])))
        return r;
      while (j < s.size() && (an(s[j]) || (s[j] == '_' && j + 1 < s.size() && an(s[j + 1]))))
        ++j;
      std::string k = s.substr(b, j - b);
      if (!(j < s.size() && s[j] == '='))
        return r;
      b = ++j;
      while (j < s.size() && s[j] != '?' && s[j] != '&' && !spc(s[j]))
        ++j;
      if (j == b)
        return r;
      r.q.push_back({k, s.substr(b, j - b)});
      if (j < s.size() && s[j] == '&')
      {
        ++j;
        continue;
      }
      i = j;
      break;
    }
  }
  r.ok = i == s.size();
  return r;
}

static void compare(const Ref &w, const icl_core::Scheme &g, const std::string &t)
{
  VP_CHECK(w.type == g.scheme_type, "type of '" << t << "' is " << g.scheme_type << ", expected " << w.type);
  VP_EQ(g.scheme_name, w.name, "scheme of '" << t << "'");
  VP_EQ(g.specifier, w.spec, "specifier of '" << t << "'");
  VP_EQ(g.anchor, w.anchor, "anchor of '" << t << "'");
  VP_EQ(g.queries.size(), w.q.size(), "number of queries of '" << t << "'");
  for (size_t i = 0; i < w.q.size(); ++i)
  {
    VP_EQ(g.queries[i].name, w.q[i].first, "key " << i << " of '" << t << "'");
    VP_EQ(g.queries[i].value, w.q[i].second, "value " << i << " of '" << t << "'");
  }
}

static void run(const Case &c, Ctx &x)
{
  icl_core::SchemeParser p;
  int good = 0;
  for (const Op &o : c.ops)
  {
    const std::string &t = S(o, 0);
    Ref w = ref(t);
    bool ok = p.parseScheme(t);
    VP_CHECK(ok == w.ok, "'" << t << "' is " << (ok ? "accepted" : "rejected"));
    VP_CHECK(p.getParseInfo().full == ok, "parse info of '" << t << "'");
    if (!ok)
    {
      x.label("rejected");
      continue;
    }
    ++good;
    compare(w, p.getSchemeResult(), t);
    icl_core::Scheme s;
    BOOST_SPIRIT_NAMESPACE::parse_info<> info;
    VP_CHECK(icl_core::SchemeParser::parseScheme(t, s, info), "static parser on '" << t << "'");
    compare(w, s, t);
    // printing a result (without both anchor and queries) gives the text back
    if (w.anchor.empty() || w.q.empty())
    {
      std::ostringstream os;
      os << s;
      std::string text = w.name + t.substr(w.name.size());
      VP_EQ(os.str(), text, "printed form of '" << t << "'");
    }
    if (w.q.size() > 1)
      x.label("several queries");
    if (!w.anchor.empty())
      x.label("anchor");
    x.nontrivial(!w.name.empty() && (!w.q.empty() || !w.anchor.empty()));
  }
}

int main(int argc, char **argv)
{
  auto g = opGen([]() {
    std::string t;
    if (coin(75))
      t += oneStr({"file://", "http://", "camera://", "gps://", "GPS://", "File://", "ftp+ssl://", "a+b+c://", "x://", "HTTP+X://", "files://", "+a://", "a+://", "h2://", "file:/", "://"});
    if (coin(92))
      t += oneStr({"/tmp/a.b", "host", "a b", "/", "x=y&z", "a-b_c", "http://x", "%20", "C:\\d"}) + str("ab/.:= ", 0, 3);
    if (coin(40))
      t += "#" + (coin(80) ? oneStr({"a", "top-1", "x9", "a-b", "12"}) : str("a1-_# ", 0, 4));
    if (coin(60))
    {
      t += "?";
      int n = (int)pick(1, 4);
      for (int i = 0; i < n; ++i)
      {
        if (i)
          t += "&";
        t += (coin(85) ? oneStr({"a", "key", "k_1", "a_b_c", "9"}) : str("a_1-", 0, 3));
        if (coin(96))
          t += "=";
        t += (coin(85) ? oneStr({"v", "1.5", "a/b", "x=y", "#h", "%", "v;w"}) : str("av=# ?&_", 0, 3));
      }
    }
    if (coin(8))
      t += str("?#& a=", 1, 3);
    return mk(0, {}, {t});
  });
  Sub s{"parse", opsCase(g), run, 320000, 4800000};
  s.max_size = 8;
  return checkMain(argc, argv, "C09",
                   "sequences of texts, well formed and mutated, parsed with one parser object; non-trivial: an accepted text with a scheme and an "
                   "anchor or queries",
                   {s}, "exploration", {"the grammar is the one in the comments and rules of the parser, recognised independently"});
}
