// vp: profile=asanub mods=thread,plugin wrap=clock_gettime,gettimeofday,pthread_cancel
// The old spellings of the functions do what the new ones do.
#include "logtest.hpp"
#include <algorithm>
#include <atomic>
#include <cstring>
#include <iostream>
#include <memory>
#include <set>
#include <sys/stat.h>
#include <sys/time.h>
#include <thread>
#include <unistd.h>
#include <icl_core/BitfieldHelper.h>
#include <icl_core/EnumHelper.h>
#include <icl_core/KeyValueDirectory.h>
#include <icl_core/RingBuffer.h>
#include <icl_core/SchemeParser.h>
#include <icl_core/StringHelper.h>
#include <icl_core/TimeSpan.h>
#include <icl_core/TimeStamp.h>
#include <icl_core/os_fs.h>
#include <icl_core/os_lxrt.h>
#include <icl_core/os_thread.h>
#include <icl_core_config/AttributeTree.h>
#include <icl_core_config/ConfigObserver.h>
#include <icl_core_logging/LogStream.h>
#include <icl_core_logging/ScopedSemaphore.h>
#include <icl_core_logging/Semaphore.h>
#include <icl_core_plugin/Plugin.h>
#include <icl_core_plugin/PluginManager.h>
#include <icl_core_thread/ActiveObject.h>
#include <icl_core_thread/Common.h>
#include <icl_core_thread/Mutex.h>
#include <icl_core_thread/PeriodicThread.h>
#include <icl_core_thread/RWLock.h>
#include <icl_core_thread/ScopedMutexLock.h>
#include <icl_core_thread/ScopedRWLock.h>
#include <icl_core_thread/Sem.h>
#include <icl_core_thread/Thread.h>
using namespace vp;
namespace co = icl_core;
namespace cf = icl_core::config;
namespace lg = icl_core::logging;
namespace th = icl_core::thread;

namespace {

std::atomic<int64_t> fake_us(0);
std::atomic<bool> fake(false);
// A cancelled thread is asked to leave instead: unwinding it is not for the sanitizer.
std::atomic<int> cancels(0);

//! What a history shows: one text for each call.
struct Log
{
  std::ostringstream s;
  template <class T> Log &operator()(const T &v)
  {
    s << v << '\n';
    return *this;
  }
  Log &operator()(const co::TimeSpan &v)
  {
    s << v.tsSec() << ' ' << v.tsNSec() << '\n';
    return *this;
  }
  Log &operator()(const co::TimeStamp &v)
  {
    s << v.tsSec() << ' ' << v.tsNSec() << '\n';
    return *this;
  }
  Log &operator()(const char *v)
  {
    s << (v ? v : "(null)") << '\n';
    return *this;
  }
  Log &operator()(char *v) { return (*this)((const char *)v); }
};
#define EITHER(o, n) (old ? (o) : (n))

typedef std::function<void(const Case &, bool, Log &, const std::string &)> Script;

//! Runs a history in the new spelling and in a mix of both, which have to show the same.
Runner compare(Script f, bool child = false)
{
  return [f, child](const Case &c, Ctx &x) {
    auto once = [&](bool both) -> std::string {
      std::string dir = x.dir() + (both ? "/b" : "/a");
      auto go = [&]() {
        Log l;
        f(c, both, l, dir);
        return l.s.str();
      };
      if (!child)
        return go();
      ChildResult r = inChild(go, 60);
      VP_CHECK(r.ok, "a history in the " << (both ? "old" : "new") << " spelling ended early: " << r.crash << (r.timed_out ? " (time out)" : ""));
      return r.data;
    };
    std::string want = once(false), got = once(true);
    int olds = 0;
    for (const Op &o : c.ops)
      olds += N(o, 0) & 1;
    x.nontrivial(olds >= 2 && c.ops.size() >= 3);
    if (got != want)
    {
      size_t at = 0;
      while (at < got.size() && at < want.size() && got[at] == want[at])
        ++at;
      size_t line = std::count(want.begin(), want.begin() + std::min(at, want.size()), '\n');
      size_t b = at ? want.rfind('\n', at - 1) + 1 : 0;
      VP_CHECK(false, "the old spelling differs in result " << line << ": '" << escape(got.substr(std::min(b, got.size()), 200)) << "', new spelling: '"
                                                           << escape(want.substr(std::min(b, want.size()), 200)) << "'");
    }
  };
}
#define SCRIPT(name) void name(const Case &c, bool both, Log &l, const std::string &dir)
#define OPS                                                                                        \
  for (const Op &o : c.ops)                                                                        \
    if (bool old = both && (N(o, 0) & 1); true)

// ---- times ---------------------------------------------------------------------------------
struct BaseTime : public co::TimeBase
{
  BaseTime(int64_t s, int32_t n) : co::TimeBase(s, n) {}
  BaseTime(const co::TimeBase &t) : co::TimeBase(t) {}
  using co::TimeBase::maxTime;
  using co::TimeBase::MaxTime;
  using co::TimeBase::fromTimespec;
  using co::TimeBase::FromTimespec;
};
SCRIPT(times)
{
  fake = true;
  fake_us = 1700000000123456;
  co::TimeSpan s;
  co::TimeStamp t;
  OPS
  {
    int64_t n = N(o, 1);
    switch (o.k)
    {
    case 0: l(EITHER(s.FromSec(n), s.fromSec(n))); break;
    case 1: l(EITHER(s.FromMSec(n), s.fromMSec(n))); break;
    case 2: l(EITHER(s.FromUSec(n), s.fromUSec(n))); break;
    case 3:
      l(EITHER(s.Days(), s.days()))(EITHER(s.Hours(), s.hours()))(EITHER(s.Minutes(), s.minutes()))(EITHER(s.Seconds(), s.seconds()));
      l(EITHER(s.MilliSeconds(), s.milliSeconds()))(EITHER(s.MicroSeconds(), s.microSeconds()))(EITHER(s.NanoSeconds(), s.nanoSeconds()));
      break;
    case 4:
      l(EITHER(s.TsSec(), s.tsSec()))(EITHER(s.TsNSec(), s.tsNSec()))(EITHER(s.TsUSec(), s.tsUSec()));
      if (s.tsSec() > -9000000000 && s.tsSec() < 9000000000)
        l(EITHER(s.ToMSec(), s.toMSec()))(EITHER(s.ToUSec(), s.toUSec()))(EITHER(s.ToNSec(), s.toNSec()));
      break;
    case 5:
    {
      struct timespec p = EITHER(s.Timespec(), s.timespec());
      l(p.tv_sec)(p.tv_nsec);
      break;
    }
    case 6: l(EITHER(co::Abs(s), co::abs(s))); break;
    case 7:
      fake_us += std::abs(n) % 1000000000;
      t = EITHER(co::TimeStamp::Now(), co::TimeStamp::now());
      l(t);
      break;
    case 8: l(t = EITHER(co::TimeStamp::FutureMSec(std::abs(n)), co::TimeStamp::futureMSec(std::abs(n)))); break;
    case 9:
      fake_us += std::abs(n) % 1000000000;
      l(EITHER(t.FromNow(), t.fromNow()));
      break;
    case 10:
    {
      char b[100];
      memset(b, 'x', sizeof b);
      b[99] = 0;
      size_t len = 1 + N(o, 2) % 60;
      if (n & 1)
        EITHER(t.Strftime(b, len, S(o, 0).c_str()), t.strfTime(b, len, S(o, 0).c_str()));
      else
        EITHER(t.StrfLocaltime(b, len, S(o, 0).c_str()), t.strfLocaltime(b, len, S(o, 0).c_str()));
      if (strlen(b) < len) // what does not fit is not specified
        l(std::string(b, 99));
      break;
    }
    case 11: l(EITHER(t.FormatIso8601(), t.formatIso8601())); break;
    case 12:
      l(EITHER(t.TsSec(), t.tsSec()))(EITHER(t.TsUSec(), t.tsUSec()))(EITHER(t.TsNSec(), t.tsNSec()));
      l(EITHER(t.Days(), t.days()))(EITHER(t.Hours(), t.hours()))(EITHER(t.Minutes(), t.minutes()))(EITHER(t.Seconds(), t.seconds()));
      l(EITHER(t.MilliSeconds(), t.milliSeconds()))(EITHER(t.MicroSeconds(), t.microSeconds()))(EITHER(t.NanoSeconds(), t.nanoSeconds()));
      break;
    case 13:
    {
      struct timespec p = EITHER(t.Timespec(), t.timespec());
      l(p.tv_sec)(p.tv_nsec);
      p = EITHER(t.SystemTimespec(), t.systemTimespec());
      l(p.tv_sec)(p.tv_nsec);
      break;
    }
    case 14: l(EITHER(co::TimeStamp::MaxTime(), co::TimeStamp::maxTime())); break;
    case 15:
    {
      co::TimeSpan w = co::TimeSpan().fromUSec(n % 1000000000000);
      l(EITHER(th::impl::GetAbsoluteTimeout(w), th::impl::getAbsoluteTimeout(w)));
      l(EITHER(th::impl::GetRelativeTimeout(t), th::impl::getRelativeTimeout(t)));
      break;
    }
    case 16:
    {
      BaseTime a(n % 1000, (int32_t)(n % 2000000000));
      EITHER(a.NormalizeTime(), a.normalizeTime());
      l(EITHER(a.TbSec(), a.tbSec()))(EITHER(a.TbNSec(), a.tbNSec()));
      struct timespec p = t.timespec();
      EITHER(a.FromTimespec(p), a.fromTimespec(p));
      p = EITHER(a.SystemTimespec(), a.systemTimespec());
      l(p.tv_sec)(p.tv_nsec)(a.tbSec())(a.tbNSec());
      a = EITHER(BaseTime::MaxTime(), BaseTime::maxTime());
      l(a.tbSec())(a.tbNSec());
      break;
    }
    }
  }
  fake = false;
}
rc::Gen<Op> timesGen()
{
  return opGen([] {
    return mk((int)pick(0, 16), {pick(0, 1), coin(50) ? wide(-1000000000000, 1000000000000) : pick(-100000, 5000000), pick(0, 100)},
              {oneStr({"%Y-%m-%d %H:%M:%S", "%d.%m.%y", "%H:%M", "%j %A %B", "", "%%"})});
  });
}

// ---- containers and texts ------------------------------------------------------------------
enum Bits8 { eB0 = 0 };
SCRIPT(things)
{
  co::RingBuffer<int> r((size_t)(c.ops.empty() ? 3 : N(c.ops[0], 1) % 6));
  co::KeyValueDirectory<int> d;
  typedef co::KeyValueDirectoryIterator<int> It;
  std::unique_ptr<It> it;
  bool at = false;
  uint8_t b8 = 0;
  int32_t b32 = 0;
  uint64_t b64 = 0;
  co::SchemeParser sp;
  ::mkdir(dir.c_str(), 0700);
  auto guarded = [&](const std::function<void()> &f) {
    try
    {
      f();
    }
    catch (const std::out_of_range &)
    {
      l("out of range");
    }
  };
  OPS
  {
    int64_t n = N(o, 1);
    const std::string &s = S(o, 0), &s2 = S(o, 1);
    switch (o.k)
    {
    case 0: guarded([&] { EITHER(r.Write((int)n, N(o, 2) & 1), r.write((int)n, N(o, 2) & 1)); }); break;
    case 1: guarded([&] { l(EITHER(r.Read(), r.read())); }); break;
    case 2: guarded([&] { EITHER(r.Skip(), r.skip()); }); break;
    case 3:
      guarded([&] {
        const auto &cr = r;
        l(EITHER(r.At((size_t)(n % 5)), r.at((size_t)(n % 5))));
        l(EITHER(cr.At((size_t)(n % 5)), cr.at((size_t)(n % 5))));
        EITHER(r.At(0), r.at(0)) = (int)n;
      });
      break;
    case 4: EITHER(r.SetCapacity((size_t)(n % 7)), r.setCapacity((size_t)(n % 7))); break;
    case 5:
      if (n % 4 == 0)
        EITHER(r.Clear(), r.clear());
      break;
    case 6: l(EITHER(d.Insert(s, (int)n), d.insert(s, (int)n))); break;
    case 7:
    {
      int v = -1;
      l(EITHER(d.Get(s, v), d.get(s, v)))(v)(EITHER(d.HasKey(s), d.hasKey(s)));
      break;
    }
    case 8:
      it.reset(new It(EITHER(d.Find(s2), d.find(s2))));
      at = false;
      break;
    case 9:
      if (it && (at || N(o, 2) % 2 == 0))
      {
        if (!at)
          EITHER(it->Reset(), it->reset());
        at = EITHER(it->Next(), it->next());
        l(at);
        if (at)
          l(EITHER(it->Key(), it->key()))(EITHER(it->Value(), it->value()))(EITHER(it->MatchGroup(n % 3), it->matchGroup(n % 3)));
      }
      break;
    case 10:
    {
      int bit = 1 << (n % 31);
      EITHER(co::SetBits<int32_t>(bit, b32), co::setBits<int32_t>(bit, b32));
      EITHER(co::SetBits<uint64_t>(bit, b64), co::setBits<uint64_t>(bit, b64));
      EITHER(co::SetBits<uint8_t>(bit & 255, b8), co::setBits<uint8_t>(bit & 255, b8));
      break;
    }
    case 11:
    {
      int bits = (int)(N(o, 2) & 0x7fffffff);
      EITHER(co::ClearBits<int32_t>(bits, b32), co::clearBits<int32_t>(bits, b32));
      EITHER(co::ClearBits<uint64_t>(bits, b64), co::clearBits<uint64_t>(bits, b64));
      EITHER(co::ClearBits<uint8_t>(bits & 255, b8), co::clearBits<uint8_t>(bits & 255, b8));
      break;
    }
    case 12:
      b64 = (uint64_t)N(o, 3) * 0x9E3779B97F4A7C15ull;
      l(EITHER(co::IsBitSet<int32_t>(1 << (n % 31), b32), co::isBitSet<int32_t>(1 << (n % 31), b32)));
      l(EITHER(co::IsBitSet<uint64_t>(1 << (n % 31), b64), co::isBitSet<uint64_t>(1 << (n % 31), b64)));
      break;
    case 13:
    {
      const char *names[] = {"a", "b.c", "ab", n & 1 ? "*" : NULL, "c", NULL};
      int32_t v = -1;
      const char *end = n & 1 ? "*" : NULL;
      l(EITHER(co::String2Enum(s, v, names, end), co::string2Enum(s, v, names, end)))(v);
      break;
    }
    case 14:
    {
      std::string u = S(o, 2);
      l(EITHER(sp.ParseScheme(u), sp.parseScheme(u)));
      const co::Scheme &x = EITHER(sp.GetSchemeResult(), sp.getSchemeResult());
      l((int)x.scheme_type)(x.scheme_name)(x.specifier)(x.anchor)(x.queries.size());
      l(EITHER(sp.GetParseInfo(), sp.getParseInfo()).full)(EITHER(sp.GetParseInfo(), sp.getParseInfo()).length);
      co::Scheme y;
      BOOST_SPIRIT_CLASSIC_NS::parse_info<> info;
      l(EITHER(co::SchemeParser::ParseScheme(u, y, info), co::SchemeParser::parseScheme(u, y, info)));
      l(y.scheme_name)(y.specifier)(y.anchor)(y.queries.size())(info.full)(info.length);
      break;
    }
    case 15:
      l(EITHER(co::Trim(s), co::trim(s)))(EITHER(co::Tolower(s), co::toLower(s)))(EITHER(co::Toupper(s), co::toUpper(s)));
      l(EITHER(co::PadLeft<co::String>(s, n % 8, '.'), co::padLeft<co::String>(s, n % 8, '.')));
      l(EITHER(co::PadRight<co::String>(s, n % 8, '.'), co::padRight<co::String>(s, n % 8, '.')));
      l(EITHER(co::PadLeft<int>((int)n, n % 8), co::padLeft<int>((int)n, n % 8)));
      l(EITHER(co::PadRight<int>((int)n, n % 8), co::padRight<int>((int)n, n % 8)));
      break;
    case 16:
    {
      double f = (double)N(o, 3) / 7.0;
      l(EITHER(co::Stringify<double>(f), co::stringify<double>(f)));
      l(EITHER(co::Stringify<float>((float)f), co::stringify<float>((float)f)));
      l(EITHER(co::Stringify<long double>(f), co::stringify<long double>(f)));
      l(EITHER(co::Stringify<bool>(n & 1), co::stringify<bool>(n & 1)));
      l(EITHER(co::Stringify<int>((int)n), co::stringify<int>((int)n)));
      break;
    }
    case 17:
    {
      std::string f = dir + "/f";
      if (N(o, 2) % 4)
        writeFile(f, s + std::string(n % 9000, 'a'));
      l(EITHER(co::os::ZipFile(f.c_str(), s2.c_str()), co::os::zipFile(f.c_str(), s2.c_str())));
      std::string z = readFile(f + s2 + ".gz");
      l(::access((f + s2 + ".gz").c_str(), 0))(escape(z));
      break;
    }
    case 18:
      l(EITHER(co::os::ThreadSelf(), co::os::threadSelf()) == co::ThreadId(pthread_self()));
      l(EITHER(co::os::IsLxrtAvailable(), co::os::isLxrtAvailable()))(EITHER(co::os::IsThisLxrtTask(), co::os::isThisLxrtTask()));
      l(EITHER(co::os::IsThisHRT(), co::os::isThisHRT()));
      break;
    }
    l(EITHER(r.Size(), r.size()))(EITHER(r.Capacity(), r.capacity()))(b8)(b32)(b64);
  }
}
rc::Gen<Op> thingsGen()
{
  return opGen([] {
    return mk((int)pick(0, 18), {pick(0, 1), pick(0, 100000), pick(0, INT32_MAX), wide(0, INT64_MAX)},
              {coin(60) ? oneStr({"a", "ab", "b.c", "c"}) : str("ab .cXY\t", 0, 6), oneStr({".*", "a(.*)", "(.)(.)?", "[ab]", "x", ".1"}),
               oneStr({"file://a/b#c?d=e", "http://x?a=b&c=d", "camera://", "x#a-b", "?", "", "gps://a b"})});
  });
}

// ---- attribute trees and file paths ---------------------------------------------------------
SCRIPT(trees)
{
  using cf::AttributeTree;
  using cf::FilePath;
  ::mkdir(dir.c_str(), 0700);
  AttributeTree root;
  root.setDescription("root");
  int made = 0;
  // the nodes in their order
  auto nodes = [&] {
    std::vector<AttributeTree *> v;
    std::function<void(AttributeTree *)> walk = [&](AttributeTree *t) {
      v.push_back(t);
      for (AttributeTree *k = t->firstSubTree(); k; k = t->nextSubTree(k))
        walk(k);
    };
    walk(&root);
    return v;
  };
  auto index = [&](AttributeTree *t) -> std::string {
    std::vector<AttributeTree *> v = nodes();
    return t ? std::to_string(std::find(v.begin(), v.end(), t) - v.begin()) : std::string("none");
  };
  OPS
  {
    std::vector<AttributeTree *> v = nodes();
    AttributeTree *t = v[N(o, 1) % v.size()], *u = v[N(o, 2) % v.size()];
    const char *s = S(o, 0).c_str(), *s2 = S(o, 1).c_str();
    const std::string file = dir + "/t.tree";
    switch (o.k)
    {
    case 0: l(index(EITHER(t->SetAttribute(s, s2), t->setAttribute(s, s2)))); break;
    case 1: l(index(EITHER(t->SetAttribute(s, "sub", s2), t->setAttribute(s, "sub", s2)))); break;
    case 2: EITHER(t->SetAttribute(s2), t->setAttribute(s2)); break;
    case 3: l(EITHER(t->GetAttribute(), t->getAttribute())); break;
    case 4:
    {
      AttributeTree *w = NULL;
      l(EITHER(t->GetAttribute(s, s2, &w), t->getAttribute(s, s2, &w)))(index(w));
      break;
    }
    case 5: l(EITHER(t->GetOrSetDefault(s, s2), t->getOrSetDefault(s, s2))); break;
    case 6:
      if (t != &root)
      {
        EITHER(t->Unlink(), t->unlink());
        delete t;
      }
      break;
    case 7: EITHER(t->UnlinkSub(), t->unlinkSub()); break;
    case 8:
      l(EITHER(root.Save(file.c_str(), (int)(N(o, 2) % 4), N(o, 3) & 1), root.save(file.c_str(), (int)(N(o, 2) % 4), N(o, 3) & 1)))(readFile(file));
      l(EITHER(root.Changed(), root.changed()));
      break;
    case 9:
    {
      AttributeTree q;
      bool a = N(o, 3) & 1, b = N(o, 3) & 2, d = N(o, 3) & 4, e = N(o, 3) & 8;
      l(EITHER(q.Load(file.c_str(), a, b, d, e), q.load(file.c_str(), a, b, d, e)))(q.changed());
      std::ostringstream os;
      q.printSubTree(os);
      l(os.str());
      std::string n1 = EITHER(q.FileName(), q.fileName()) ? EITHER(q.FileName(), q.fileName()) : "none";
      std::string n2 = EITHER(q.GetFilePath(), q.getFilePath()) ? EITHER(q.GetFilePath(), q.getFilePath()) : "none";
      for (std::string *n : {&n1, &n2})
        if (n->compare(0, dir.size(), dir) == 0)
          n->replace(0, dir.size(), "DIR");
      l(n1)(n2);
      break;
    }
    case 10:
    {
      std::istringstream in(S(o, 2));
      AttributeTree q;
      bool a = N(o, 3) & 1, b = N(o, 3) & 2;
      l(EITHER(q.Get(in, a, b), q.get(in, a, b)));
      std::ostringstream os;
      q.printSubTree(os);
      l(os.str());
      break;
    }
    case 11:
    {
      char *n = EITHER(t->NewSubNodeDescription(s), t->newSubNodeDescription(s));
      l(n);
      free(n);
      break;
    }
    case 12:
      if (++made < 20)
        EITHER(t->AddNewSubTree(), t->addNewSubTree());
      break;
    case 13:
    {
      std::ostringstream os;
      EITHER(t->PrintSubTree(os, (int)(N(o, 2) % 4), N(o, 3) & 1 ? s : 0), t->printSubTree(os, (int)(N(o, 2) % 4), N(o, 3) & 1 ? s : 0));
      l(os.str());
      break;
    }
    case 14:
      l(EITHER(t->Description(), t->getDescription()))(EITHER(t->Attribute(), t->attribute()));
      l(EITHER(t->Contains(), t->contains()))(EITHER(t->Changed(), t->changed()));
      break;
    case 15: EITHER(t->SetDescription(s), t->setDescription(s)); break;
    case 16: EITHER(t->SetComment(S(o, 2).c_str()), t->setComment(S(o, 2).c_str())); break;
    case 17:
      l(index(EITHER(t->SubTree(s), t->subTree(s))))(index(EITHER(t->GetSubTree(s), t->getSubTree(s))));
      break;
    case 18:
    {
      for (AttributeTree *k = EITHER(t->FirstSubTree(), t->firstSubTree()); k; k = EITHER(t->NextSubTree(k), t->nextSubTree(k)))
        l(index(k));
      l(index(EITHER(t->ParentTree(), t->parentTree())))(index(EITHER(t->Parent(), t->parent())))(index(EITHER(t->Root(), t->root())));
      break;
    }
    case 19:
      if (++made < 20)
      {
        AttributeTree *k = new AttributeTree;
        k->setDescription(s);
        k->setAttribute(s2);
        if (t == &root || N(o, 3) & 1)
          l(index(EITHER(t->AddSubTree(k), t->addSubTree(k))));
        else
          l(index(EITHER(t->AddNextTree(k), t->addNextTree(k))));
      }
      break;
    case 20: l(index(EITHER(t->Search(s, s2), t->search(s, s2))))(EITHER(t->IsAttribute(s, s2), t->isAttribute(s, s2)))(EITHER(t->IsAttribute(s), t->isAttribute(s))); break;
    case 21: EITHER(t->UnmarkChanges(), t->unmarkChanges()); break;
    case 22:
      l(EITHER(t->HasComment(), t->hasComment()))(EITHER(t->IsComment(), t->isComment()))(EITHER(t->HasMultilineComment(), t->hasMultilineComment()));
      l(EITHER(t->IsMultilineComment(), t->isMultilineComment()))(index(EITHER(t->CommentAttributeTree(), t->commentAttributeTree())));
      if (t->hasComment())
        l(EITHER(t->Comment(), t->comment()));
      break;
    case 23: EITHER(t->AppendAttribute(s, N(o, 3) & 1 ? "," : ""), t->appendAttribute(s, N(o, 3) & 1 ? "," : "")); break;
    case 24:
      if (t->getDescription())
        EITHER(t->AppendDescription(s, N(o, 3) & 1 ? "," : ""), t->appendDescription(s, N(o, 3) & 1 ? "," : ""));
      break;
    case 25: EITHER(t->RevertOrder(), t->revertOrder()); break;
    case 26:
    {
      FilePath p(S(o, 3).c_str());
      l(EITHER(p.Path(), p.path()))(EITHER(p.Name(), p.name()))(EITHER(p.AbsoluteName(), p.absoluteName()))(EITHER(p.Extension(), p.extension()));
      l(EITHER(p.CurrentDir(), p.currentDir()))(EITHER(p.AbsolutePath("x/y"), p.absolutePath("x/y")))(EITHER(p.IsRelativePath(), p.isRelativePath()));
      l(EITHER(FilePath::IsRelativePath(S(o, 3)), FilePath::isRelativePath(S(o, 3))))(EITHER(FilePath::NormalizePath(S(o, 3)), FilePath::normalizePath(S(o, 3))));
      l(EITHER(FilePath::ExchangeSeparators(S(o, 3)), FilePath::exchangeSeparators(S(o, 3))))(EITHER(FilePath::GetEnvironment("HOME"), FilePath::getEnvironment("HOME")));
      l(EITHER(FilePath::GetEnvironment("NO_SUCH"), FilePath::getEnvironment("NO_SUCH")));
      l(EITHER(FilePath::ReplaceEnvironment(S(o, 3)), FilePath::replaceEnvironment(S(o, 3))));
      break;
    }
    }
    (void)u;
    std::ostringstream os;
    root.printSubTree(os);
    l(os.str());
  }
}
rc::Gen<Op> treesGen()
{
  return opGen([] {
    return mk((int)pick(0, 26), {pick(0, 1), pick(0, 30), pick(0, 30), pick(0, 15)},
              {oneStr({"a", "b", "c", "a.b", "b.c", "a.b.c"}), oneStr({"1", "x y", "", "long text"}),
               oneStr({"r{\n'1'\na{'2'}\n}\n", "r.a '3'\n", "one", "one\ntwo", ""}), oneStr({"a/b.c", "/x/../y", "./q", "${HOME}/z", "a\\b", "", ".", "n.tar.gz"})});
  });
}

// ---- command line and configuration ---------------------------------------------------------
struct Watch : public cf::ConfigObserver
{
  Log *l;
  std::string tag;
  void valueChanged(const co::String &key) override { (*l)("changed " + tag + " " + key); }
};
struct Capture
{
  std::ostringstream s;
  std::streambuf *o, *e;
  Capture() : o(std::cout.rdbuf(s.rdbuf())), e(std::cerr.rdbuf(s.rdbuf())) {}
  ~Capture()
  {
    std::cout.rdbuf(o);
    std::cerr.rdbuf(e);
  }
};
SCRIPT(configs)
{
  Capture cap;
  std::vector<std::string> args = {"program"};
  Watch w[2];
  w[0].l = w[1].l = &l;
  w[0].tag = "0";
  w[1].tag = "1";
  bool up = false;
  std::set<std::string> options;
  const char *names[] = {"yes", "no", "12", NULL};
  auto begin = [&](bool old, int64_t how) {
    up = true;
    static std::vector<std::string> keep;
    keep = args;
    static std::vector<char *> av;
    for (auto &a : keep)
      av.push_back(&a[0]);
    av.push_back(NULL);
    int ac = (int)keep.size();
    bool cleanup = how & 1;
    auto cl = cleanup ? cf::Getopt::eCLC_Cleanup : cf::Getopt::eCLC_None;
    auto rc = how & 2 ? cf::Getopt::ePRC_Relaxed : cf::Getopt::ePRC_Strict;
    bool ok;
    switch (how / 4 % 5)
    {
    case 0: ok = EITHER(cf::Initialize(ac, av.data(), cl, rc), cf::initialize(ac, av.data(), cl, rc)); break;
    case 1: ok = EITHER(cf::Initialize(ac, av.data(), cleanup), cf::initialize(ac, av.data(), cleanup)); break;
    case 2:
      ok = EITHER(cf::Getopt::Instance().Initialize(ac, av.data(), cl, rc), cf::Getopt::instance().initialize(ac, av.data(), cl, rc));
      ok = ok && EITHER(cf::ConfigManager::Instance().Initialize(), cf::ConfigManager::instance().initialize());
      break;
    case 3:
      ok = EITHER(lg::Initialize(ac, av.data(), cl, rc), lg::initialize(ac, av.data(), cl, rc));
      break;
    default:
      ok = EITHER(cf::Getopt::Instance().Initialize(ac, av.data(), cleanup), cf::Getopt::instance().initialize(ac, av.data(), cleanup));
      ok = ok && EITHER(cf::ConfigManager::Instance().Initialize(), cf::ConfigManager::instance().initialize());
    }
    l("initialized")(ok)(ac);
    for (int i = 0; i < ac; ++i)
      l(av[i]);
    EITHER(cf::DebugOutCommandLine(ac, av.data()), cf::debugOutCommandLine(ac, av.data()));
  };
  OPS
  {
    int64_t n = N(o, 1);
    const std::string &s = S(o, 0), &v = S(o, 1), &key = S(o, 2);
    cf::Getopt &g = EITHER(cf::Getopt::Instance(), cf::Getopt::instance());
    cf::ConfigManager &m = EITHER(cf::ConfigManager::Instance(), cf::ConfigManager::instance());
    switch (o.k)
    {
    case 0:
    case 1:
      if (!up && options.insert(s).second)
      {
        cf::GetoptParameter p(s + (n & 1 ? ":" : ""), s.substr(0, 2), "help of " + s, n & 2);
        l(EITHER(p.Option(), p.option()))(EITHER(p.ShortOption(), p.shortOption()))(EITHER(p.HasValue(), p.hasValue()))(EITHER(p.Help(), p.help()));
        l(EITHER(p.IsPrefixOption(), p.isPrefixOption()));
        cf::GetoptParameterList pl;
        pl.push_back(p);
        switch (n / 4 % 4)
        {
        case 0: EITHER(g.AddParameter(p), g.addParameter(p)); break;
        case 1: EITHER(g.AddParameter(pl), g.addParameter(pl)); break;
        case 2: EITHER(cf::AddParameter(p), cf::addParameter(p)); break;
        case 3: EITHER(cf::AddParameter(pl), cf::addParameter(pl)); break;
        }
      }
      break;
    case 2:
      if (!up && options.insert(s).second)
      {
        cf::ConfigParameter p = n & 1 ? cf::ConfigParameter(s + ":", s.substr(0, 2), key, "help of " + s, v) : cf::ConfigParameter(s + ":", s.substr(0, 2), key, "help of " + s);
        l(EITHER(p.ConfigKey(), p.configKey()))(EITHER(p.HasDefaultValue(), p.hasDefaultValue()))(EITHER(p.DefaultValue(), p.defaultValue()));
        cf::ConfigParameterList pl;
        pl.push_back(p);
        switch (n / 2 % 4)
        {
        case 0: EITHER(m.AddParameter(p), m.addParameter(p)); break;
        case 1: EITHER(m.AddParameter(pl), m.addParameter(pl)); break;
        case 2: EITHER(cf::AddParameter(p), cf::addParameter(p)); break;
        case 3: EITHER(cf::AddParameter(pl), cf::addParameter(pl)); break;
        }
      }
      break;
    case 3:
      if (!up)
        n & 1 ? EITHER(cf::ActivateExtraCmdParams(), cf::activateExtraCmdParams()) : EITHER(g.ActivateExtraCmdParams("=="), g.activateExtraCmdParams("=="));
      break;
    case 4:
    case 5:
    case 6:
      if (!up)
      {
        if (n % 4 == 0)
          args.push_back("--" + s + "=" + v);
        else if (n % 4 == 1)
        {
          args.push_back("-" + s.substr(0, 2));
          args.push_back(v);
        }
        else if (n % 4 == 2)
          args.push_back(n & 4 ? "--" : n & 8 ? "==" : v);
        else
          args.push_back("-o" + key), args.push_back(v);
      }
      break;
    case 7:
      if (!up && n % 3 == 0)
        begin(old, N(o, 2));
      break;
    case 8:
      l(EITHER(g.IsInitialized(), g.isInitialized()))(EITHER(m.IsInitialized(), m.isInitialized()))(EITHER(g.ProgramName(), g.programName()));
      l(EITHER(g.ExtraCmdParamCount(), g.extraCmdParamCount()))(EITHER(cf::ExtraCmdParamCount(), cf::extraCmdParamCount()));
      for (size_t i = 0; i < g.extraCmdParamCount(); ++i)
        l(EITHER(g.ExtraCmdParam(i), g.extraCmdParam(i)))(EITHER(cf::ExtraCmdParam(i), cf::extraCmdParam(i)));
      l(EITHER(g.ParamNonOptCount(), g.paramNonOptCount()))(EITHER(cf::ParamNonOptCount(), cf::paramNonOptCount()));
      for (size_t i = 0; i < g.paramNonOptCount() + 1; ++i)
      {
        l(EITHER(g.ParamNonOpt(i), g.paramNonOpt(i)))(EITHER(cf::ParamNonOpt(i), cf::paramNonOpt(i)));
        int x = -1, y = -1;
        l(EITHER(cf::ParamNonOpt<int>(i, x), cf::paramNonOpt<int>(i, x)))(x);
        l(EITHER(cf::ParamNonOpt<int>(i, y, names), cf::paramNonOpt<int>(i, y, names)))(y);
      }
      break;
    case 9:
    {
      l(EITHER(g.ParamOptPresent(s), g.paramOptPresent(s)))(EITHER(cf::ParamOptPresent(s), cf::paramOptPresent(s)))(EITHER(g.ParamOpt(s), g.paramOpt(s)));
      l(EITHER(g.ParamPrefixOptPresent(s), g.paramPrefixOptPresent(s)));
      cf::Getopt::KeyValueList kv = EITHER(g.ParamPrefixOpt(s), g.paramPrefixOpt(s));
      for (auto &e : kv)
        l(e.m_key)(e.m_value);
      int x = -1, y = -1, z = -1, q = -1;
      l(EITHER(cf::ParamOpt<int>(s, x), cf::paramOpt<int>(s, x)))(x)(EITHER(cf::ParamOpt<int>(s.c_str(), z), cf::paramOpt<int>(s.c_str(), z)))(z);
      l(EITHER(cf::ParamOpt<int>(s, y, names), cf::paramOpt<int>(s, y, names)))(y);
      l(EITHER(cf::ParamOpt<int>(s.c_str(), q, names), cf::paramOpt<int>(s.c_str(), q, names)))(q);
      l(EITHER(cf::ParamOptDefault<int>(s, 77), cf::paramOptDefault<int>(s, 77)))(EITHER(cf::ParamOptDefault<int>(s.c_str(), 77), cf::paramOptDefault<int>(s.c_str(), 77)));
      break;
    }
    case 10:
      switch (n % 4)
      {
      case 0: l(EITHER(m.SetValue<co::String>(key, v), m.setValue<co::String>(key, v))); break;
      case 1: EITHER(cf::SetValue(key, v), cf::setValue(key, v)); break;
      case 2: EITHER(cf::SetValue<int>(key, (int)n), cf::setValue<int>(key, (int)n)); break;
      case 3: EITHER(cf::SetValue<co::String>(key.c_str(), v), cf::setValue<co::String>(key.c_str(), v)); break;
      }
      break;
    case 11:
    {
      int x = -1, y = -1, z = -1, q = -1;
      co::String t = "none";
      bool b = false;
      l(EITHER(cf::Get<int>(key, x), cf::get<int>(key, x)))(x)(EITHER(cf::Get<int>(key.c_str(), y), cf::get<int>(key.c_str(), y)))(y);
      l(EITHER(cf::Get<co::String>(key, t), cf::get<co::String>(key, t)))(t)(EITHER(cf::Get<bool>(key, b), cf::get<bool>(key, b)))(b);
      l(EITHER(cf::Get<int>(key, z, names), cf::get<int>(key, z, names)))(z);
      l(EITHER(cf::Get<int>(key.c_str(), q, names), cf::get<int>(key.c_str(), q, names)))(q);
      l(EITHER(cf::GetDefault<int>(key, 55), cf::getDefault<int>(key, 55)))(EITHER(cf::GetDefault<int>(key.c_str(), 55), cf::getDefault<int>(key.c_str(), 55)));
      l(EITHER(cf::GetDefault<co::String>(key, "dd"), cf::getDefault<co::String>(key, "dd")));
      break;
    }
    case 12:
    {
      cf::ConfigIterator it = EITHER(cf::Find(S(o, 3)), cf::find(S(o, 3)));
      while (EITHER(it.Next(), it.next()))
        l(EITHER(it.Key(), it.key()))(EITHER(it.Value(), it.value()))(EITHER(it.MatchGroup(1), it.matchGroup(1)));
      break;
    }
    case 13:
      if (n & 1)
        EITHER(m.RegisterObserver(&w[n / 2 % 2], n & 4 ? key : ""), m.registerObserver(&w[n / 2 % 2], n & 4 ? key : ""));
      else
        EITHER(m.UnregisterObserver(&w[n / 2 % 2]), m.unregisterObserver(&w[n / 2 % 2]));
      break;
    case 14:
      if (n & 1)
        EITHER(m.Dump(), m.dump());
      else
        EITHER(cf::Dump(), cf::dump());
      if (n % 5 == 0)
        n & 2 ? EITHER(g.PrintHelp(), g.printHelp()) : EITHER(cf::PrintHelp(), cf::printHelp());
      break;
    case 15:
      if (up)
      {
        int x = -1;
        co::String t = "none";
        lg::Nirwana::instance().setActive(false); // its messages hold the time and come from another thread
        cf::ConfigValues cv = {CONFIG_VALUE(key, x), CONFIG_VALUE("/q", t), NULL};
        l(EITHER(cf::Get(cv, lg::Nirwana::instance()), cf::get(cv, lg::Nirwana::instance())))(x)(t);
      }
      break;
    }
  }
  l(cap.s.str());
  cf::ConfigManager::instance().unregisterObserver(&w[0]);
  cf::ConfigManager::instance().unregisterObserver(&w[1]);
}
rc::Gen<Op> configsGen()
{
  return opGen([] {
    return mk((int)pick(0, 15), {pick(0, 1), pick(0, 64), pick(0, 19)},
              {oneStr({"alpha", "beta", "gamma-", "delta"}), oneStr({"yes", "12", "0x10", "text", "no"}), oneStr({"/a", "/a/b", "/q", "/IclCore/x"}),
               oneStr({".*", "/a(.*)", "/[aq]", "x"})});
  });
}

// ---- logging ---------------------------------------------------------------------------------
DECLARE_LOG_STREAM(OldOrNew)
REGISTER_LOG_STREAM(OldOrNew)
Log *out_log = NULL;
struct Out : public lg::LogOutputStream
{
  explicit Out(const std::string &n) : lg::LogOutputStream(n, lg::eLL_TRACE, false)
  {
    changeLogFormat("~L ~S ~C ~O ~D ~E");
  }
  void pushImpl(const co::String &line) override
  {
    if (out_log)
      (*out_log)(name() + ": " + line);
  }
  void onStart() override
  {
    if (out_log)
      (*out_log)(name() + " starts");
  }
  void onShutdown() override
  {
    if (out_log)
      (*out_log)(name() + " stops");
  }
};
lg::LogOutputStream *makeOut(const co::String &n, const co::String &, lg::LogLevel)
{
  return new Out(n);
}
struct DynStream : public lg::LogStream
{
  explicit DynStream(const std::string &n) : lg::LogStream(n) {}
};
lg::LogStream *makeDyn() { return new DynStream("Dyn"); }

SCRIPT(logs)
{
  Capture cap;
  out_log = &l;
  cf::setValue<co::String>("/IclCore/Logging/OutputStream0/OutputStreamName", "Out");
  cf::setValue<co::String>("/IclCore/Logging/OutputStream0/Name", "configured");
  cf::setValue<co::String>("/IclCore/Logging/OutputStream0/LogLevel", "Trace");
  Out *own = new Out("own");
  bool connected = false, reg = false, up = false;
  std::string text_for_time;
  auto begin = [&](bool old) {
    up = true;
    lg::LoggingManager &m = EITHER(lg::LoggingManager::Instance(), lg::LoggingManager::instance());
    EITHER(m.Initialize(), m.initialize());
    EITHER(m.AssertInitialized(), m.assertInitialized());
    EITHER(m.ChangeLogFormat("configured", "~L ~S ~C ~O ~D ~E"), m.changeLogFormat("configured", "~L ~S ~C ~O ~D ~E"));
  };
  auto L = [](int64_t n) { return (lg::LogLevel)(n % 6); };
  OPS
  {
    int64_t n = N(o, 1);
    const std::string &s = S(o, 0);
    lg::LoggingManager &m = EITHER(lg::LoggingManager::Instance(), lg::LoggingManager::instance());
    if (!reg)
    {
      reg = true;
      EITHER(m.RegisterLogOutputStream("Out", makeOut), m.registerLogOutputStream("Out", makeOut));
    }
    lg::LogStream &st = up ? (lg::LogStream &)OldOrNew::instance() : lg::Nirwana::instance();
    if (!up && o.k != 0 && o.k != 1 && o.k != 10)
      begin(old);
    lg::LogStream &x = OldOrNew::instance();
    (void)st;
    switch (o.k)
    {
    case 0:
    {
      l(EITHER(lg::LogLevelDescription(L(n)), lg::logLevelDescription(L(n))));
      lg::LogLevel v = lg::eLL_MUTE;
      l(EITHER(lg::StringToLogLevel(s, v), lg::stringToLogLevel(s, v)))(v);
      break;
    }
    case 1:
      l(EITHER(m.Initialized(), m.initialized()));
      break;
    case 2:
      l(EITHER(x.Name(), x.name()))(EITHER(x.NameCStr(), x.nameCStr()))(EITHER(x.InitialLogLevel(), x.initialLogLevel()))(EITHER(x.IsActive(), x.isActive()));
      l(EITHER(x.LogLevel(), x.getLogLevel()));
      break;
    case 3: EITHER(x.SetActive(n % 3), x.setActive(n % 3)); break;
    case 4:
      if (connected)
        EITHER(x.RemoveOutputStream(own), x.removeOutputStream(own));
      else
        EITHER(x.AddOutputStream(own), x.addOutputStream(own));
      connected = !connected;
      break;
    case 5:
    case 6:
    case 7:
    {
      lg::ThreadStream &ts = EITHER(x.ThreadStream(L(n)), x.threadStream(L(n)));
      EITHER(ts.SetClassname(S(o, 1).c_str()), ts.setClassname(S(o, 1).c_str()));
      EITHER(ts.SetObjectname(S(o, 2).c_str()), ts.setObjectname(S(o, 2).c_str()));
      EITHER(ts.SetFilename("f.cpp"), ts.setFilename("f.cpp"));
      EITHER(ts.SetFunction("fun"), ts.setFunction("fun"));
      EITHER(ts.SetLine(n), ts.setLine(n));
      EITHER(ts.SetLineLogLevel(L(N(o, 2))), ts.setLineLogLevel(L(N(o, 2))));
      l(EITHER(ts.LogLevel(), ts.getLogLevel()));
      std::string t = S(o, 3) + std::string(N(o, 3) % 7 ? 0 : N(o, 3), 'w');
      if (N(o, 3) % 3)
        EITHER(ts.Write(t.data(), t.size()), ts.write(t.data(), t.size()));
      else
        EITHER(ts.Write(t.data(), t.size(), 0), ts.write(t.data(), t.size(), 0));
      switch (N(o, 2) / 6 % 4)
      {
      case 0: EITHER(ts.Printf("%s %d\n", t.c_str(), (int)n), ts.printf("%s %d\n", t.c_str(), (int)n)); break;
      case 1: EITHER(ts.Flush(), ts.flush()); break;
      case 2: old ? ts << lg::Endl : ts << lg::endl; break;
      case 3: old ? ts << "x" << lg::Flush : ts << "x" << lg::flush; break;
      }
      break;
    }
    case 8:
      EITHER(own->SetLogLevel(L(n)), own->setLogLevel(L(n)));
      l(EITHER(own->LogLevel(), own->getLogLevel()))(EITHER(own->Name(), own->name()));
      break;
    case 9:
    {
      const char *f = n & 1 ? "~L ~E" : "[~S] ~C~E";
      EITHER(own->ChangeLogFormat(f), own->changeLogFormat(f));
      EITHER(own->ChangeTimeFormat("%Y"), own->changeTimeFormat("%Y"));
      if (n & 2)
        EITHER(m.ChangeLogFormat("configured", f), m.changeLogFormat("configured", f));
      else
        EITHER(m.ChangeLogFormat("own", f), m.changeLogFormat("own", f));
      break;
    }
    case 10:
      EITHER(own->Push(L(n), "str", "file", 3, "cls", "obj", "fun", s.c_str()), own->push(L(n), "str", "file", 3, "cls", "obj", "fun", s.c_str()));
      break;
    case 11:
      EITHER(own->Start(), own->start());
      EITHER(own->Shutdown(), own->shutdown());
      break;
    case 12:
      if (n % 3 == 0)
        EITHER(own->PrintConfiguration(), own->printConfiguration());
      else if (n % 3 == 1)
        EITHER(x.PrintConfiguration(), x.printConfiguration());
      else
        EITHER(m.PrintConfiguration(), m.printConfiguration());
      break;
    case 13:
      if (n % 3 == 0)
      {
        if (n & 1)
        {
          EITHER(m.Shutdown(), m.shutdown());
          connected = false;
          EITHER(m.Initialize(), m.initialize());
        }
        else
          EITHER(m.Configure(), m.configure());
        EITHER(m.ChangeLogFormat("configured", "~L ~S ~C ~O ~D ~E"), m.changeLogFormat("configured", "~L ~S ~C ~O ~D ~E"));
      }
      break;
    case 14:
    {
      DynStream *dyn = new DynStream(s + "Dyn");
      EITHER(m.RegisterLogStream(dyn), m.registerLogStream(dyn));
      std::ostringstream os;
      std::streambuf *k = std::cerr.rdbuf(os.rdbuf()), *k2 = std::cout.rdbuf(os.rdbuf());
      m.printConfiguration();
      std::cerr.rdbuf(k);
      std::cout.rdbuf(k2);
      l(os.str());
      delete dyn; // removes itself
      break;
    }
    case 15:
    {
      lg::Semaphore sem((int)(n % 3));
      if (n % 3)
        l(EITHER(sem.Wait(), sem.wait()));
      EITHER(sem.Post(), sem.post());
      {
        lg::ScopedSemaphore ss(sem);
        l(EITHER(ss.IsDecremented(), ss.isDecremented()));
      }
      break;
    }
    case 16:
    {
      Out *t = new Out("temp");
      EITHER(x.AddOutputStream(t), x.addOutputStream(t));
      x.threadStream(lg::eLL_ERROR) << "to temp" << lg::endl;
      EITHER(m.RemoveLogOutputStream(t), m.removeLogOutputStream(t));
      x.threadStream(lg::eLL_ERROR) << "not to temp" << lg::endl;
      if (n & 1)
      {
        EITHER(x.AddOutputStream(t), x.addOutputStream(t));
        EITHER(m.RemoveLogOutputStream(t, false), m.removeLogOutputStream(t, false));
        x.threadStream(lg::eLL_ERROR) << "not to temp" << lg::endl;
      }
      break;
    }
    }
  }
  if (up)
  {
    bool old = both;
    EITHER(lg::Shutdown(), lg::shutdown());
  }
  l(lg::LoggingManager::instance().initialized());
  l(cap.s.str());
  out_log = NULL;
}
rc::Gen<Op> logsGen()
{
  return opGen([] {
    return mk((int)pick(0, 16), {pick(0, 1), pick(0, 60), pick(0, 60), coin(70) ? pick(0, 100) : pick(1000, 5000)},
              {oneStr({"Trace", "info", "Error", "", "x", "warning"}), oneStr({"", "Cls"}), oneStr({"", "obj"}), oneStr({"hello", "", "a\nb", "100%"})});
  });
}

// ---- threads -------------------------------------------------------------------------------
struct Body : public th::Thread
{
  std::atomic<int> runs{0};
  std::atomic<bool> self{false}, go{false};
  bool old_style = false;
  explicit Body(const std::string &n) : th::Thread(n) {}
  void run() override
  {
    ++runs;
    bool old = old_style;
    self = EITHER(ThreadSelf(), threadSelf()) && EITHER(SelfId(), selfId()) == EITHER(ThreadId(), threadId());
    go = true;
    while (EITHER(Execute(), execute()) && !cancels)
      usleep(200);
  }
};
struct Ticker : public th::PeriodicThread
{
  std::atomic<int> ticks{0};
  bool old_style = false;
  explicit Ticker(const co::TimeSpan &p) : th::PeriodicThread("ticker", p) {}
  void run() override
  {
    bool old = old_style;
    for (int i = 0; i < 3 && execute(); ++i)
    {
      EITHER(WaitPeriod(), waitPeriod());
      ++ticks;
    }
  }
};
struct Active : public th::ActiveObject
{
  std::atomic<int> started{0}, stopped{0};
  Active() : th::ActiveObject("active") {}
  void onThreadStart() override { ++started; }
  void onThreadStop() override { ++stopped; }
};
template <class F> bool elsewhere(F f)
{
  bool r = false;
  std::thread t([&] { r = f(); });
  t.join();
  return r;
}

SCRIPT(threads)
{
  th::Mutex m;
  th::RWLock rw;
  th::Semaphore sem((size_t)(c.ops.empty() ? 0 : N(c.ops[0], 1) % 3));
  int held = 0, reads = 0, left = (int)(c.ops.empty() ? 0 : N(c.ops[0], 1) % 3);
  bool wrote = false;
  const co::TimeSpan ms = co::TimeSpan().fromMSec(3);
  OPS
  {
    int64_t n = N(o, 1);
    switch (o.k)
    {
    case 0:
    {
      bool r = n % 4 == 0   ? EITHER(m.Lock(), m.lock())
               : n % 4 == 1 ? EITHER(m.TryLock(), m.tryLock())
               : n % 4 == 2 ? EITHER(m.Lock(ms), m.lock(ms))
                            : EITHER(m.Lock(co::TimeStamp::now() + ms), m.lock(co::TimeStamp::now() + ms));
      l(r);
      held += r;
      break;
    }
    case 1:
      if (held)
      {
        EITHER(m.Unlock(), m.unlock());
        --held;
      }
      break;
    case 2:
      l(elsewhere([&] {
        bool r = n % 3 == 0   ? EITHER(m.TryLock(), m.tryLock())
                 : n % 3 == 1 ? EITHER(m.Lock(ms), m.lock(ms))
                              : EITHER(m.Lock(co::TimeStamp::now() + ms), m.lock(co::TimeStamp::now() + ms));
        if (r)
          EITHER(m.Unlock(), m.unlock());
        return r;
      }));
      break;
    case 3:
      if (!wrote)
      {
        bool r = n % 4 == 0   ? EITHER(rw.ReadLock(), rw.readLock())
                 : n % 4 == 1 ? EITHER(rw.TryReadLock(), rw.tryReadLock())
                 : n % 4 == 2 ? EITHER(rw.ReadLock(ms), rw.readLock(ms))
                              : EITHER(rw.ReadLock(co::TimeStamp::now() + ms), rw.readLock(co::TimeStamp::now() + ms));
        l(r);
        reads += r;
      }
      break;
    case 4:
      if (!wrote && !reads)
      {
        bool r = n % 4 == 0   ? EITHER(rw.WriteLock(), rw.writeLock())
                 : n % 4 == 1 ? EITHER(rw.TryWriteLock(), rw.tryWriteLock())
                 : n % 4 == 2 ? EITHER(rw.WriteLock(ms), rw.writeLock(ms))
                              : EITHER(rw.WriteLock(co::TimeStamp::now() + ms), rw.writeLock(co::TimeStamp::now() + ms));
        l(r);
        wrote = r;
      }
      break;
    case 5:
      if (wrote || reads)
      {
        EITHER(rw.Unlock(), rw.unlock());
        wrote ? (void)(wrote = false) : (void)--reads;
      }
      break;
    case 6:
      l(elsewhere([&] {
        bool r = n % 3 == 0   ? EITHER(rw.TryReadLock(), rw.tryReadLock())
                 : n % 3 == 1 ? EITHER(rw.ReadLock(ms), rw.readLock(ms))
                              : EITHER(rw.ReadLock(co::TimeStamp::now() + ms), rw.readLock(co::TimeStamp::now() + ms));
        if (r)
          EITHER(rw.Unlock(), rw.unlock());
        return r;
      }));
      l(elsewhere([&] {
        bool r = n % 3 == 0   ? EITHER(rw.TryWriteLock(), rw.tryWriteLock())
                 : n % 3 == 1 ? EITHER(rw.WriteLock(ms), rw.writeLock(ms))
                              : EITHER(rw.WriteLock(co::TimeStamp::now() + ms), rw.writeLock(co::TimeStamp::now() + ms));
        if (r)
          EITHER(rw.Unlock(), rw.unlock());
        return r;
      }));
      break;
    case 7:
      EITHER(sem.Post(), sem.post());
      ++left;
      break;
    case 8:
    {
      bool r = n % 4 == 0 && left ? EITHER(sem.Wait(), sem.wait())
               : n % 4 == 1       ? EITHER(sem.Wait(ms), sem.wait(ms))
               : n % 4 == 2       ? EITHER(sem.Wait(co::TimeStamp::now() + ms), sem.wait(co::TimeStamp::now() + ms))
                                  : EITHER(sem.TryWait(), sem.tryWait());
      l(r);
      left -= r;
      break;
    }
    case 9:
    case 10:
    {
      Body b("body");
      b.old_style = old;
      cancels = 0;
      EITHER(b.SetDescription("other"), b.setDescription("other"));
      l(EITHER(b.Description(), b.getDescription()))(EITHER(b.Running(), b.running()));
      l(EITHER(b.IsHardRealtime(), b.isHardRealtime()))(EITHER(b.Priority(), b.priority()))(EITHER(b.ExecutesHardRealtime(), b.executesHardRealtime()));
      l(EITHER(b.SetHardRealtime(n & 1), b.setHardRealtime(n & 1)))(EITHER(b.IsHardRealtime(), b.isHardRealtime()));
      EITHER(b.SetHardRealtime(false), b.setHardRealtime(false));
      for (int round = 0; round < 2; ++round)
      {
        b.go = false;
        l(EITHER(b.Start(), b.start()));
        while (!b.go)
          usleep(100);
        l(EITHER(b.Running(), b.running()))(EITHER(b.Execute(), b.execute()))((bool)b.self)(EITHER(b.ThreadSelf(), b.threadSelf()));
        l(std::string(EITHER(b.ThreadInfo(), b.threadInfo())) == b.threadInfo());
        l(EITHER(b.SetPriority((int)(N(o, 2) % 2)), b.setPriority((int)(N(o, 2) % 2))));
        l(EITHER(b.Wait(ms), b.wait(ms)))(EITHER(b.Wait(co::TimeStamp::now() + ms), b.wait(co::TimeStamp::now() + ms)));
        if (n % 4 == 3)
          EITHER(b.Cancel(), b.cancel());
        else
          EITHER(b.Stop(), b.stop());
        if (n % 4 == 3 || n & 4)
          EITHER(b.Join(), b.join());
        else
          l(EITHER(b.Wait(), b.wait()));
        l(EITHER(b.Running(), b.running()))((int)b.runs)((int)cancels);
        if (n % 4 == 3)
          break;
      }
      break;
    }
    case 11:
    {
      Ticker t(co::TimeSpan().fromMSec(2 + n % 3));
      t.old_style = old;
      l(EITHER(t.Period(), t.period()));
      t.start();
      t.wait();
      l((int)t.ticks)(EITHER(t.SetPeriod(ms), t.setPeriod(ms)))(EITHER(t.Period(), t.period()));
      break;
    }
    case 12:
    {
      Active a;
      a.start();
      EITHER(a.Stop(), a.stop());
      a.wait();
      l((int)a.started)((int)a.stopped);
      break;
    }
    case 13:
    {
      th::ScopedMutexLock s(m);
      l(EITHER(s.IsLocked(), s.isLocked()));
      if (!wrote && !reads)
      {
        th::ScopedRWLock w(rw, n & 1 ? th::ScopedRWLock::eLM_WRITE_LOCK : th::ScopedRWLock::eLM_READ_LOCK);
        l(EITHER(w.IsLocked(), w.isLocked()));
      }
      break;
    }
    }
  }
  while (held--)
    m.unlock();
  while (reads--)
    rw.unlock();
  if (wrote)
    rw.unlock();
}
rc::Gen<Op> threadsGen()
{
  return opGen([] { return mk((int)pick(0, 13), {pick(0, 1), pick(0, 60), pick(0, 60)}); });
}

// ---- plugins -------------------------------------------------------------------------------
struct Tool
{
  static int alive;
  ICL_CORE_PLUGIN_DECLARE_PLUGIN_INTERFACE(Tool)
  Tool() { ++alive; }
  virtual ~Tool() { --alive; }
};
int Tool::alive = 0;
struct StaticTool : public Tool
{
  std::string id;
  explicit StaticTool(const std::string &i) : id(i) {}
  std::string Identifier() const override { return id; }
};
char tool_dir[4096] = "";
ICL_CORE_PLUGIN_DECLARE_PLUGIN_MANAGER(Tools, Tool, tool_dir)
struct Base : public icl_core::plugin::PluginManagerBase
{
  using PluginManagerBase::addErrorMessage;
  using PluginManagerBase::clearErrorMessages;
  using PluginManagerBase::AddErrorMessage;
  using PluginManagerBase::ClearErrorMessages;
};
SCRIPT(plugins)
{
  ::mkdir(dir.c_str(), 0700);
  writeFile(dir + "/libbroken.so", "nothing");
  icl_core::plugin::PluginManager<Tool, tool_dir> *m = NULL;
  Base b;
  std::set<std::string> ids;
  auto list = [&](const std::list<std::string> &v) {
    for (std::string s : v)
    {
      size_t p;
      while ((p = s.find(dir)) != std::string::npos)
        s.replace(p, dir.size(), "DIR");
      l(s);
    }
  };
  OPS
  {
    int64_t n = N(o, 1);
    const std::string &s = S(o, 0);
    m = EITHER(Tools::Instance(), Tools::instance());
    switch (o.k)
    {
    case 0:
      if (ids.insert(s).second)
      {
        Tool *t = new StaticTool(s);
        EITHER(m->AddStaticPlugin(t), m->addStaticPlugin(t));
      }
      break;
    case 1:
      l(EITHER(m->IsStaticPlugin(s), m->isStaticPlugin(s)));
      if (n & 1 && ids.erase(s))
        EITHER(m->RemoveStaticPlugin(s), m->removeStaticPlugin(s));
      break;
    case 2: l(EITHER(m->Initialize(n & 1, n & 2), m->initialize(n & 1, n & 2)))(EITHER(m->LoadLazy(), m->loadLazy())); break;
    case 3: l(EITHER(m->IsInitialized(), m->isInitialized())); break;
    case 4: list(EITHER(m->AvailablePlugins(), m->availablePlugins())); break;
    case 5:
      for (Tool *t : EITHER(m->Plugins(), m->plugins()))
        l(t ? t->Identifier() : "none");
      break;
    case 6:
    {
      Tool *t = EITHER(m->Plugin(s), m->plugin(s));
      l(t ? t->Identifier() : "none");
      l(EITHER(m->CreatePluginInstance("nothing"), m->createPluginInstance("nothing")) == NULL);
      break;
    }
    case 7: EITHER(m->AddPluginPath(n & 1 ? dir : dir + "/none"), m->addPluginPath(n & 1 ? dir : dir + "/none")); break;
    case 8: list(EITHER(m->PluginPaths(), m->pluginPaths())); break;
    case 9: list(EITHER(m->ErrorMessages(), m->errorMessages())); break;
    case 10: n % 3 ? EITHER(b.AddErrorMessage(s), b.addErrorMessage(s)) : EITHER(b.ClearErrorMessages(), b.clearErrorMessages()); break;
    case 11: list(EITHER(b.ErrorMessages(), b.errorMessages())); break;
    case 12:
      delete m;
      ids.clear();
      break;
    }
    l(Tool::alive);
  }
  delete Tools::instance();
  l(Tool::alive);
}
rc::Gen<Op> pluginsGen()
{
  return opGen([] { return mk((int)(coin(4) ? 12 : pick(0, 11)), {pick(0, 1), pick(0, 60)}, {oneStr({"a", "b", "c"})}); });
}

} // namespace

extern "C" {
int __real_clock_gettime(clockid_t, struct timespec *);
int __real_gettimeofday(struct timeval *, void *);
int __wrap_clock_gettime(clockid_t c, struct timespec *ts)
{
  if (!fake)
    return __real_clock_gettime(c, ts);
  ts->tv_sec = fake_us / 1000000;
  ts->tv_nsec = fake_us % 1000000 * 1000;
  return 0;
}
int __wrap_gettimeofday(struct timeval *tv, void *z)
{
  if (!fake)
    return __real_gettimeofday(tv, z);
  tv->tv_sec = fake_us / 1000000;
  tv->tv_usec = fake_us % 1000000;
  return 0;
}
int __wrap_pthread_cancel(pthread_t)
{
  ++cancels;
  return 0;
}
}

int main(int argc, char **argv)
{
  setenv("TZ", "CET-1CEST", 1);
  tzset();
  std::vector<Sub> subs;
  subs.push_back({"times", opsCase(timesGen()), compare(times), 40000, 1000000});
  subs.push_back({"containers and texts", opsCase(thingsGen()), compare(things), 20000, 400000});
  subs.push_back({"attribute trees", opsCase(treesGen()), compare(trees), 12000, 200000});
  subs.push_back({"command line", opsCase(configsGen()), compare(configs, true), 1500, 20000});
  subs.push_back({"logging", opsCase(logsGen()), compare(logs, true), 1200, 14000});
  subs.push_back({"plugins", opsCase(pluginsGen()), compare(plugins, true), 800, 10000});
  Sub t{"threads", opsCase(threadsGen()), compare(threads), 400, 4500};
  t.max_size = 14;
  t.racy = true;
  subs.push_back(t);
  for (Sub &s : subs)
    if (s.name != "threads")
      s.max_size = 30;
  return checkMain(argc, argv, "C38",
                   "histories of calls of all modules, each made in the new spelling and with a random part of the calls in the old one; non-trivial: "
                   "three operations, two of them in the old spelling",
                   subs, "exploration",
                   {"the new spellings are right, which the other properties decide", "results that depend on real time are compared with generous time outs only"});
}
