// vp: profile=asanub mods=config,logging
// Typed reading of configuration values and command line arguments, single and in batches.
#include "vp.hpp"
#include <icl_core_config/Config.h>
#include <icl_core_config/ConfigHelper.h>
#include <icl_core_config/MemberEnum.h>
#include <icl_core_config/MemberValue.h>
#include <boost/bind.hpp>
#include <cmath>
#include <set>
#include <unistd.h>
using namespace vp;
namespace cfg = icl_core::config;
namespace lg = icl_core::logging;
using icl_core::String;

namespace {

enum Color { RED, GREEN, BLUE };
const char *kColors[] = {"Red", "Green", "Blue", NULL};
const char *kColorsEnd[] = {"Red", "Green", "Blue", "STOP", "Never", NULL};

// A text is given by what it denotes, so that the expected value needs no parser:
// kind 0 integer (n0 value, n1 notation), 1 fraction, 2 no value at all, 3 boolean word, 4 colour, 5 free text.
struct Text
{
  std::string t;
  int kind = 5;
  __int128 i = 0;
  double d = 0;
  int word = -1; // boolean
  int color = -1;
};

const char *kBad[] = {"", " ", "abc", "-", "+", "--1", "x1", "g0", ".", "e5", "#3", "/1", "\t", "_1", "- 1"};
const struct { const char *t; int v; } kBool[] = {{"0", 0}, {"no", 0}, {"false", 0}, {"NO", 0}, {"False", 0}, {"1", 1}, {"yes", 1}, {"true", 1}, {"Yes", 1}, {"TRUE", 1}, {"tRuE", 1},
                                                  {"on", -1}, {"y", -1}, {"truer", -1}, {"2", -1}, {"", -1}, {"n", -1}, {"00", -1}};
const struct { const char *t; int v; } kCol[] = {{"Red", 0}, {"Green", 1}, {"Blue", 2}, {"Gree", -1}, {"", -1}, {"Bluee", -1}, {"STOP", -1}, {"Never", -1}, {"0", -1}, {"Black", -1}};

Text make(const Op &o, size_t at)
{
  Text r;
  r.kind = (int)N(o, at);
  int64_t v = N(o, at + 1), how = N(o, at + 2);
  char b[80];
  if (r.kind == 0)
  {
    r.i = v;
    uint64_t a = v < 0 ? 0 - (uint64_t)v : (uint64_t)v;
    const char *sg = v < 0 ? "-" : how & 8 ? "+" : "";
    switch (how % 4)
    {
    case 0: snprintf(b, sizeof b, "%s0x%llx", sg, (unsigned long long)a); break;
    case 1: snprintf(b, sizeof b, "%s0%llo", sg, (unsigned long long)a); break;
    case 2: snprintf(b, sizeof b, "%s0X%llX", sg, (unsigned long long)a); break;
    default: snprintf(b, sizeof b, "%s%llu", sg, (unsigned long long)a);
    }
    r.t = std::string(how & 16 ? " \t" : "") + b;
    r.d = how % 4 == 3 ? (double)v : NAN;
    for (auto &e : kBool)
      if (r.t == e.t)
        r.word = e.v;
  }
  else if (r.kind == 1)
  {
    r.d = (double)(v % 1000000007) / 1000.0;
    if (how % 3 == 0)
      snprintf(b, sizeof b, "%.17g", r.d);
    else if (how % 3 == 1)
      snprintf(b, sizeof b, "%.17e", r.d);
    else
      snprintf(b, sizeof b, "%.3f", r.d);
    r.t = b;
    r.d = strtod(b, 0);
  }
  else if (r.kind == 2)
    r.t = kBad[v % (sizeof kBad / sizeof *kBad)];
  else if (r.kind == 3)
  {
    r.t = kBool[v % (sizeof kBool / sizeof *kBool)].t;
    r.word = kBool[v % (sizeof kBool / sizeof *kBool)].v;
  }
  else if (r.kind == 4)
  {
    r.t = kCol[v % (sizeof kCol / sizeof *kCol)].t;
    r.color = kCol[v % (sizeof kCol / sizeof *kCol)].v;
  }
  return r;
}

//! -1 not judged, 0 not readable, 1 readable.
template <class T> int readable(const Text &t, T &want)
{
  if (t.kind == 2)
    return 0;
  if (t.kind != 0)
    return -1;
  if (!std::numeric_limits<T>::is_signed && t.i < 0)
    return -1;
  if (t.i < (__int128)std::numeric_limits<T>::min() || t.i > (__int128)std::numeric_limits<T>::max())
    return 0;
  want = (T)t.i;
  return 1;
}
int readableD(const Text &t, double &want)
{
  if (t.kind == 2)
    return 0;
  if ((t.kind != 0 && t.kind != 1) || std::isnan(t.d))
    return -1;
  want = t.d;
  return 1;
}
template <> int readable<double>(const Text &t, double &want) { return readableD(t, want); }
template <> int readable<float>(const Text &t, float &want)
{
  if (t.kind == 2)
    return 0;
  if ((t.kind != 0 && t.kind != 1) || std::isnan(t.d))
    return -1;
  want = strtof(t.t.c_str(), 0);
  return 1;
}

struct Where
{
  std::string key, option;
  size_t index;
  bool present;
};

//! All ways to read one value as T, against what is expected.
template <class T> void readAs(const Text &t, const Where &w, T init, const char *type)
{
  T want = init;
  int r = w.present ? readable<T>(t, want) : 0;
  if (r < 0)
    return;
  if (!r)
    want = init;
  std::ostringstream o;
  o << "'" << t.t << "' as " << type << (w.present ? "" : " (absent)") << " at " << w.key;
  std::string what = o.str();
  T v = init;
  VP_EQ(cfg::get<T>(String(w.key), v), r == 1, "get of " << what);
  VP_CHECK(v == want, "get of " << what << " gives " << +v << ", expected " << +want);
  v = init;
  VP_EQ(cfg::get<T>(w.key.c_str(), v), r == 1, "get of " << what);
  VP_CHECK(v == want, "get of " << what << " gives " << +v << ", expected " << +want);
  VP_CHECK(cfg::getDefault<T>(String(w.key), init) == want, "getDefault of " << what);
  VP_CHECK(cfg::getDefault<T>(w.key.c_str(), init) == want, "getDefault of " << what);
  v = init;
  VP_EQ(cfg::paramOpt<T>(String(w.option), v), r == 1, "paramOpt of " << what);
  VP_CHECK(v == want, "paramOpt of " << what << " gives " << +v << ", expected " << +want);
  v = init;
  VP_EQ(cfg::paramOpt<T>(w.option.c_str(), v), r == 1, "paramOpt of " << what);
  VP_CHECK(v == want, "paramOpt of " << what << " gives " << +v << ", expected " << +want);
  VP_CHECK(cfg::paramOptDefault<T>(String(w.option), init) == want, "paramOptDefault of " << what);
  VP_CHECK(cfg::paramOptDefault<T>(w.option.c_str(), init) == want, "paramOptDefault of " << what);
  v = init;
  VP_EQ(cfg::paramNonOpt<T>(w.index, v), r == 1, "paramNonOpt of " << what);
  VP_CHECK(v == want, "paramNonOpt of " << what << " gives " << +v << ", expected " << +want);
  v = init;
  VP_EQ(cfg::ConfigValue<T>(w.key, v).get("", lg::Nirwana::instance()), r == 1, "ConfigValue of " << what);
  VP_CHECK(v == want, "ConfigValue of " << what << " gives " << +v << ", expected " << +want);
}

void startup(std::vector<std::string> args, const std::vector<std::string> &options)
{
  for (auto &o : options)
    cfg::addParameter(cfg::GetoptParameter(o + ":", "", "help"));
  args.insert(args.begin(), "program");
  std::vector<std::vector<char>> mem;
  for (auto &a : args)
    mem.push_back(std::vector<char>(a.c_str(), a.c_str() + a.size() + 1));
  std::vector<char *> argv;
  for (auto &v : mem)
    argv.push_back(v.data());
  argv.push_back(0);
  int argc = (int)args.size();
  VP_CHECK(cfg::initialize(argc, argv.data()), "initialisation");
}

void runTyped(const Case &c, Ctx &x)
{
  std::vector<Text> texts;
  std::vector<std::string> args, options;
  for (const Op &o : c.ops)
  {
    Text t = make(o, 0);
    if (t.kind == 5)
      t.t = S(o, 0);
    texts.push_back(t);
    options.push_back("o" + std::to_string(texts.size() - 1));
    args.push_back("--" + options.back() + "=" + t.t);
  }
  // texts that look like options cannot be positionals
  for (auto &t : texts)
    args.push_back(t.t.size() && t.t[0] == '-' ? "dummy" : t.t);
  startup(args, options);
  int good = 0, bad = 0;
  for (size_t i = 0; i < texts.size(); ++i)
    cfg::setValue<String>(String("/k/" + std::to_string(i)), texts[i].t);
  for (size_t i = 0; i <= texts.size(); ++i)
  {
    bool present = i < texts.size();
    Text t = present ? texts[i] : Text();
    Where w{"/k/" + std::to_string(i), "o" + std::to_string(i), i, present};
    bool dash = present && t.t.size() && t.t[0] == '-';
    if (dash)
    { // read the same text as positional by its other representation
      w.index = 1000;
      Text same = t;
      int64_t v;
      int r = readable<int64_t>(same, v);
      int64_t q = 77;
      if (r >= 0)
      {
        VP_EQ(cfg::get<int64_t>(String(w.key), q), r == 1, "get of '" << t.t << "'");
        VP_CHECK(q == (r == 1 ? v : 77), "get of '" << t.t << "' gives " << q);
      }
      double dv, dq = 7.5;
      int rd = readableD(t, dv);
      if (rd >= 0)
      {
        VP_EQ(cfg::get<double>(String(w.key), dq), rd == 1, "get of '" << t.t << "' as double");
        VP_CHECK(dq == (rd == 1 ? dv : 7.5), "get of '" << t.t << "' gives " << dq);
      }
      int32_t iv, iq = -5;
      int ri = readable<int32_t>(t, iv);
      if (ri >= 0)
      {
        VP_EQ(cfg::paramOpt<int32_t>(String(w.option), iq), ri == 1, "option '" << t.t << "' as 32 bit number");
        VP_CHECK(iq == (ri == 1 ? iv : -5), "option '" << t.t << "' as 32 bit number is " << iq);
      }
    }
    else
    {
      readAs<int16_t>(t, w, 77, "int16");
      readAs<uint16_t>(t, w, 77, "uint16");
      readAs<int32_t>(t, w, -78, "int32");
      readAs<uint32_t>(t, w, 79, "uint32");
      readAs<int64_t>(t, w, -80, "int64");
      readAs<uint64_t>(t, w, 81, "uint64");
      readAs<double>(t, w, 8.25, "double");
      readAs<float>(t, w, 8.5f, "float");
    }
    int64_t dummy;
    if (present)
      (readable<int64_t>(t, dummy) == 1 ? good : bad)++;
    // texts are taken as they are
    String s = "init";
    VP_EQ(cfg::get<String>(String(w.key), s), present, "text of " << w.key);
    VP_EQ(std::string(s), present ? t.t : "init", "text of " << w.key);
    VP_EQ(std::string(cfg::getDefault<String>(w.key.c_str(), "init")), present ? t.t : "init", "text of " << w.key);
    s = "init";
    VP_EQ(cfg::paramOpt<String>(String(w.option), s), present, "text of option " << w.option);
    VP_EQ(std::string(s), present ? t.t : "init", "text of option " << w.option);
    VP_EQ(std::string(cfg::paramOptDefault<String>(String(w.option), "init")), present ? t.t : "init", "text of option " << w.option);
    s = "init";
    VP_EQ(cfg::ConfigValue<String>(w.key, s).get("", lg::Nirwana::instance()), present, "text value " << w.key);
    VP_EQ(std::string(s), present ? t.t : "init", "text value " << w.key);
    // truth values
    if (t.kind == 3 || t.word >= 0 || !present || (t.kind == 0 && t.word < 0 && t.i > 1))
    {
      for (bool init : {false, true})
      {
        bool ok = present && t.word >= 0, want = ok ? t.word == 1 : init;
        std::string what = "'" + t.t + "' as truth value";
        bool b = init;
        VP_EQ(cfg::get<bool>(String(w.key), b), ok, what);
        VP_EQ(b, want, what);
        VP_EQ(cfg::getDefault<bool>(w.key.c_str(), init), want, what << ", default");
        b = init;
        VP_EQ(cfg::paramOpt<bool>(String(w.option), b), ok, what << ", option");
        VP_EQ(b, want, what << ", option");
        VP_EQ(cfg::paramOptDefault<bool>(String(w.option), init), want, what << ", option with default");
        b = init;
        VP_EQ(cfg::paramNonOpt<bool>(w.index, b), ok, what << ", argument");
        VP_EQ(b, want, what << ", argument");
        b = init;
        VP_EQ(cfg::ConfigValue<bool>(w.key, b).get("", lg::Nirwana::instance()), ok, what << ", value");
        VP_EQ(b, want, what << ", value");
      }
    }
    // names of an enumeration
    if (t.kind == 4 || !present)
    {
      for (bool end : {false, true})
      {
        const char **names = end ? kColorsEnd : kColors;
        const char *mark = end ? "STOP" : NULL;
        bool ok = present && t.color >= 0;
        Color want = ok ? (Color)t.color : BLUE, col = BLUE;
        std::string what = "'" + t.t + "' as colour";
        VP_EQ(cfg::get<Color>(String(w.key), col, names, mark), ok, what);
        VP_EQ((int)col, (int)want, what);
        col = BLUE;
        VP_EQ(cfg::get<Color>(w.key.c_str(), col, names, mark), ok, what);
        VP_EQ((int)col, (int)want, what);
        col = BLUE;
        VP_EQ(cfg::paramOpt<Color>(String(w.option), col, names, mark), ok, what << ", option");
        VP_EQ((int)col, (int)want, what << ", option");
        col = BLUE;
        VP_EQ(cfg::paramNonOpt<Color>(w.index, col, names, mark), ok, what << ", argument");
        VP_EQ((int)col, (int)want, what << ", argument");
        col = BLUE;
        VP_EQ(cfg::ConfigEnum<Color>(w.key, col, names, mark).get("", lg::Nirwana::instance()), ok, what << ", value");
        VP_EQ((int)col, (int)want, what << ", value");
      }
    }
  }
  // written numbers are read back
  for (const Op &o : c.ops)
  {
    int64_t v = N(o, 1);
    cfg::setValue<int64_t>("/w", v);
    VP_EQ(cfg::getDefault<int64_t>("/w", 0), v, "number written and read");
    double d = (double)v / 1024.0, got = 0;
    cfg::setValue<double>("/w", d);
    VP_CHECK(cfg::get<double>("/w", got) && got == d, "number " << d << " written and read is " << got);
  }
  x.nontrivial(good > 0 && bad > 0);
}

// ---------------------------------------------------------------------------------------------
struct Thing
{
  Thing() : num(-1), flag(false), color(BLUE) {}
  int num;
  std::string name;
  bool flag;
  Color color;
  bool operator==(const Thing &o) const { return num == o.num && name == o.name && flag == o.flag && color == o.color; }
};
std::ostream &operator<<(std::ostream &os, const Thing &t) { return os << "(" << t.num << " '" << t.name << "' " << t.flag << " " << t.color << ")"; }
template <class T> std::string showList(const T &l)
{
  std::ostringstream o;
  for (auto &e : l)
    o << e << " ";
  return o.str();
}

// A configuration over a few keys, and batches of values read from it under two prefixes.
struct Slot
{
  int type;
  std::string key;
  bool def;
  // results
  int32_t i = -7;
  double d = -7.5;
  bool b = false;
  String s = "init";
  Color c = BLUE;
  std::list<Thing> things;
  std::list<int> ints;
};

void runBatch(const Case &c, Ctx &x)
{
  startup({}, {});
  std::map<std::string, Text> conf;
  std::vector<std::unique_ptr<Slot>> slots;
  int reading = 0, failing = 0, lists = 0;
  for (const Op &o : c.ops)
  {
    if (o.k == 0) // set a key
    {
      Text t = make(o, 0);
      if (t.kind == 5)
        t.t = S(o, 1);
      conf[S(o, 0)] = t;
      cfg::setValue<String>(String(S(o, 0)), t.t);
    }
    else if (o.k == 1) // a value to read
    {
      std::unique_ptr<Slot> s(new Slot);
      s->type = (int)(N(o, 0) % 7);
      s->def = N(o, 1) & 1;
      s->key = S(o, 0);
      slots.push_back(std::move(s));
    }
    else if (o.k == 2 && !slots.empty()) // read
    {
      std::string prefix = S(o, 0);
      int how = (int)N(o, 0);
      bool keep = how & 1, array = (how & 2) && prefix.empty(), report = how & 4;
      int rounds = keep ? 2 : 1;
      std::list<cfg::impl::ConfigValueIface *> values;
      std::vector<cfg::impl::ConfigValueIface *> arr;
      for (auto &sp : slots)
      {
        Slot &s = *sp;
        s = Slot{s.type, s.key, s.def};
        cfg::impl::ConfigValueIface *v = 0;
        // keys of members are relative to the prefix
        switch (s.type)
        {
        case 0: v = s.def ? new cfg::ConfigValueDefault<int32_t>(s.key, s.i, 42) : new cfg::ConfigValue<int32_t>(s.key, s.i); break;
        case 1: v = s.def ? new cfg::ConfigValueDefault<double>(s.key, s.d, 42.5) : new cfg::ConfigValue<double>(s.key, s.d); break;
        case 2: v = s.def ? new cfg::ConfigValueDefault<bool>(s.key, s.b, true) : new cfg::ConfigValue<bool>(s.key, s.b); break;
        case 3: v = s.def ? new cfg::ConfigValueDefault<String>(s.key, s.s, "some default") : new cfg::ConfigValue<String>(s.key, s.s); break;
        case 4: v = s.def ? (cfg::impl::ConfigValueIface *)new cfg::ConfigEnumDefault<Color>(s.key, s.c, GREEN, kColors)
                          : new cfg::ConfigEnum<Color>(s.key, s.c, kColorsEnd, "STOP"); break;
        case 5:
        {
          std::list<cfg::impl::MemberValueIface<Thing> *> m;
          m.push_back(new cfg::MemberValue<int, Thing>("num", boost::bind<int &>(&Thing::num, _1)));
          m.push_back(new cfg::MemberValue<std::string, Thing>("name", boost::bind<std::string &>(&Thing::name, _1)));
          m.push_back(new cfg::MemberValue<bool, Thing>("x/flag", boost::bind<bool &>(&Thing::flag, _1)));
          m.push_back(new cfg::MemberEnum<Color, Thing>("color", boost::bind<Color &>(&Thing::color, _1), kColors));
          auto out = std::back_inserter(s.things);
          v = new cfg::ConfigList<Thing, decltype(out)>(s.key, m, out);
          break;
        }
        default:
        {
          std::list<cfg::impl::MemberValueIface<int> *> m;
          struct Id { static int &self(int &i) { return i; } };
          m.push_back(new cfg::MemberValue<int, int>("", &Id::self));
          auto out = std::back_inserter(s.ints);
          v = new cfg::ConfigList<int, decltype(out)>(s.key, m, out);
        }
        }
        VP_EQ(std::string(v->key()), s.key, "key of a value");
        values.push_back(v);
        arr.push_back(v);
      }
      arr.push_back(0);
      for (int round = 0; round < rounds; ++round)
      {
        std::string p = round == 0 ? prefix : prefix == "/p" ? "/q" : "/p";
        if (array)
          p = "";
        bool last = round + 1 == rounds;
        // what the batch should give
        bool want_ok = true, unknown = false;
        struct Want { int32_t i; double d; bool b; std::string s; Color c; std::list<Thing> things; std::list<int> ints; bool known; };
        std::vector<Want> want;
        for (auto &sp : slots)
        {
          Slot &s = *sp;
          // a result of an earlier round stays where this one finds nothing
          Want w{s.i, s.d, s.b, s.s, s.c, s.things, s.ints, true};
          std::string base = p;
          if (!base.empty() && base.back() != '/')
            base += '/';
          auto it = conf.find(base + s.key);
          bool present = it != conf.end();
          Text t = present ? it->second : Text();
          int r = 0;
          switch (s.type)
          {
          case 0: r = present ? readable<int32_t>(t, w.i) : 0; if (!r && s.def) w.i = 42; break;
          case 1: r = present ? readableD(t, w.d) : 0; if (!r && s.def) w.d = 42.5; break;
          case 2: r = !present ? 0 : t.kind == 3 || t.word >= 0 ? t.word >= 0 : -1; if (r == 1) w.b = t.word == 1; else if (!r && s.def) w.b = true; break;
          case 3: r = present; if (r) w.s = t.t; else if (s.def) w.s = "some default"; break;
          case 4: r = !present ? 0 : t.kind == 4 ? t.color >= 0 : t.kind == 2 ? 0 : -1; if (r == 1) w.c = (Color)t.color; else if (!r && s.def) w.c = GREEN; break;
          default:
          {
            std::map<std::string, Thing> el;
            std::map<std::string, int> iel;
            std::string pre = base + s.key + "/";
            bool err = false, found = false;
            for (auto &e : conf)
            {
              if (e.first.compare(0, pre.size(), pre) != 0)
                continue;
              std::string rest = e.first.substr(pre.size());
              size_t sl = rest.find('/');
              std::string name = rest.substr(0, sl), suffix = sl == std::string::npos ? "" : rest.substr(sl + 1);
              const Text &t = e.second;
              int ok = -2;
              if (s.type == 6)
              {
                if (suffix.empty())
                  ok = readable<int>(t, iel[name]);
              }
              else if (suffix == "num")
                ok = readable<int>(t, el[name].num);
              else if (suffix == "name")
              {
                el[name].name = t.t;
                ok = 1;
              }
              else if (suffix == "x/flag")
              {
                ok = t.kind == 3 || t.word >= 0 ? t.word >= 0 : -1;
                el[name].flag = t.word == 1;
              }
              else if (suffix == "color")
              {
                ok = t.kind == 4 ? t.color >= 0 : t.kind == 2 ? 0 : -1;
                if (ok == 1)
                  el[name].color = (Color)t.color;
              }
              if (ok == -1)
                w.known = false;
              if (ok == 0)
                err = true;
              if (ok == 1)
                found = true;
            }
            r = found && !err;
            if (r)
            {
              for (auto &e : el)
                w.things.push_back(e.second);
              for (auto &e : iel)
                w.ints.push_back(e.second);
              ++lists;
            }
          }
          }
          if (r < 0)
            w.known = false;
          if (!w.known)
            unknown = true;
          else if (r == 1 || (s.def && s.type < 5))
            ++reading;
          else
          {
            ++failing;
            want_ok = false;
          }
          want.push_back(w);
        }
        bool ok;
        if (array)
          ok = cfg::get(arr.data(), lg::Nirwana::instance(), last, report);
        else if (p.empty() && how & 8)
          ok = cfg::get(values, lg::Nirwana::instance(), last, report);
        else
          ok = cfg::get(p, values, lg::Nirwana::instance(), last, report);
        if (!unknown)
          VP_EQ(ok, want_ok, "batch of " << slots.size() << " values below '" << p << "', round " << round);
        for (size_t i = 0; i < slots.size(); ++i)
        {
          Slot &s = *slots[i];
          Want &w = want[i];
          std::ostringstream os;
          os << "value " << i << " of type " << s.type << (s.def ? " with default" : "") << " with key '" << s.key << "' below '" << p << "', round " << round;
          if (w.known)
          {
            VP_EQ(s.i, w.i, os.str());
            VP_EQ(s.d, w.d, os.str());
            VP_EQ(s.b, w.b, os.str());
            VP_EQ(std::string(s.s), w.s, os.str());
            VP_EQ((int)s.c, (int)w.c, os.str());
            VP_EQ(showList(s.things), showList(w.things), os.str());
            VP_EQ(showList(s.ints), showList(w.ints), os.str());
          }
        }
        if (keep)
          x.label("read twice");
      }
    }
  }
  x.nontrivial(reading > 0 && failing > 0);
  if (lists)
    x.label("list read");
}

Op text(int k, std::vector<std::string> s)
{
  int kind = (int)oneOf<int64_t>({0, 0, 0, 1, 2, 3, 4, 5});
  int64_t v = kind == 0 ? (coin(30) ? pick(-3, 9) : coin(50) ? oneOf<int64_t>({32767, 32768, -32768, -32769, 65535, 65536, 2147483647LL, 2147483648LL, -2147483648LL, -2147483649LL, 4294967295LL, 4294967296LL, INT64_MAX, INT64_MIN, INT64_MIN + 1}) : wide(INT64_MIN, INT64_MAX))
                        : kind == 1 ? wide(-(1LL << 60), 1LL << 60) : pick(0, 200);
  s.push_back(oneStr({"free", "two words", " lead", "trail ", "a/b", "1.2.3", "=", "line\nline", "  "}));
  return mk(k, {kind, v, pick(0, 31)}, s);
}
const std::vector<std::string> keys = {"a", "b", "n.x", "L", "M", "L/e1", "L/e2", "L.1", "L+"};
} // namespace

int main(int argc, char **argv)
{
  Sub s1{"typed", opsCase(opGen([] { return text(0, {}); })), runTyped, 5000, 150000};
  s1.fork = true;
  s1.max_size = 12;
  s1.timeout = 20;
  Sub s2{"batch", opsCase(opGen([] {
    int w = (int)pick(0, 99);
    if (w < 62)
    {
      std::string k = oneStr({"", "/p/", "/p/", "/q/", "/p.x/"});
      k += coin(40) ? oneOf(keys) : oneStr({"L", "L", "L.1", "M", "L+"}) + "/" + oneStr({"e1", "e2", "e 3", "e.4"}) + oneStr({"", "/num", "/name", "/x/flag", "/color", "/other", "/x", "/num/x"});
      // mostly texts that fit what is read from the key
      Op o = text(0, {k});
      std::string end = k.substr(k.rfind('/') + 1);
      if (coin(60))
      {
        if (end == "flag")
          o.n = {3, pick(0, 10), 0};
        else if (end == "color")
          o.n = {4, pick(0, 2), 0};
        else if (end != "name")
          o.n = {0, pick(-5, 1000), pick(0, 31)};
      }
      return o;
    }
    if (w < 88)
      return mk(1, {coin(35) ? 5 : coin(25) ? 6 : pick(0, 4), coin(40)}, {oneOf(keys)});
    return mk(2, {pick(0, 15)}, {oneStr({"", "/p", "/p/", "/q", "/p.x"})});
  })), runBatch, 6000, 150000};
  s2.fork = true;
  s2.max_size = 40;
  s2.timeout = 20;
  return checkMain(argc, argv, "C13",
                   "texts that denote integers (four notations, boundaries of all widths), fractions, truth values, enumeration names or nothing, read in every "
                   "way as every type; batches of single values, defaults and lists of structures below prefixes with special characters, read once or twice. "
                   "Non-trivial: readable and unreadable texts; values that can and that cannot be read",
                   {s1, s2}, "exploration",
                   {"texts with further characters behind a number, negative texts read as unsigned numbers and single byte types are not judged",
                    "options in their text form cannot start with a dash when they are positionals"});
}
