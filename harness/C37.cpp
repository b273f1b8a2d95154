// vp: profile=asanub mods=core
// Value wrappers: finalizable values, scope guards, expected types, stamped data, vector wrappers.
#include "vp.hpp"
#include <icl_core/AtScopeEnd.h>
#include <icl_core/DataHeader.h>
#include <icl_core/ExpectedType.h>
#include <icl_core/Finalizable.h>
#include <icl_core/VectorWrapper.h>
#include <memory>
using namespace vp;

static void runFinal(const Case &c, Ctx &x)
{
  typedef icl_core::Finalizable<std::string> F;
  std::vector<std::unique_ptr<F>> f;
  std::vector<std::pair<std::string, bool>> m;
  f.push_back(std::unique_ptr<F>(new F("start")));
  m.push_back({"start", false});
  int refused = 0, done = 0;
  for (const Op &o : c.ops)
  {
    size_t i = (size_t)N(o, 0) % f.size(), j = (size_t)N(o, 1) % f.size();
    bool threw = false;
    switch (o.k)
    {
    case 0:
      if (f.size() < 6)
      {
        f.push_back(std::unique_ptr<F>(new F(S(o, 0))));
        m.push_back({S(o, 0), false});
      }
      break;
    case 1:
      if (f.size() < 6)
      {
        f.push_back(std::unique_ptr<F>(new F(*f[i])));
        m.push_back(m[i]);
      }
      break;
    case 2:
    case 3:
      try
      {
        if (o.k == 2)
          *f[i] = S(o, 0);
        else
          *f[i] = *f[j];
      }
      catch (const std::logic_error &)
      {
        threw = true;
      }
      VP_CHECK(threw == m[i].second, "assignment to a " << (m[i].second ? "final" : "modifiable") << " object " << (threw ? "throws" : "succeeds"));
      if (!threw)
        m[i].first = o.k == 2 ? S(o, 0) : m[j].first;
      (threw ? refused : done)++;
      break;
    case 4:
      f[i]->finalize();
      m[i].second = true;
      break;
    }
    for (size_t k = 0; k < f.size(); ++k)
      VP_CHECK(std::string(*f[k]) == m[k].first && f[k]->isFinal() == m[k].second, "object " << k << " is '" << std::string(*f[k]) << "', expected '" << m[k].first << "'");
  }
  x.nontrivial(refused && done);
}

// nested scopes: every guard runs exactly once, in reverse order, unless it was disabled last
static void nest(const Case &c, size_t i, std::vector<int> &got, std::vector<int> &want, bool &thrown)
{
  if (i >= c.ops.size())
    return;
  const Op &o = c.ops[i];
  bool on = true;
  {
    icl_core::AtScopeEnd g([i, &got]() { got.push_back((int)i); });
    for (int64_t k : o.n)
    {
      if (k == 0)
        g.disable(), on = false;
      else if (k == 1)
        g.enable(), on = true;
    }
    struct Last { bool on; int i; std::vector<int> &w; ~Last() { if (on) w.push_back(i); } } last{on, (int)i, want};
    VP_CHECK(got.size() == want.size(), "a guard ran before the end of its scope");
    nest(c, i + 1, got, want, thrown);
    if (!o.s.empty() && S(o, 0) == "throw")
    {
      thrown = true;
      throw 42;
    }
  }
}
static void runScope(const Case &c, Ctx &x)
{
  std::vector<int> got, want;
  bool thrown = false;
  try
  {
    nest(c, 0, got, want, thrown);
  }
  catch (int)
  {
  }
  VP_CHECK(got == want, "guards that ran: " << got.size() << ", expected " << want.size());
  x.nontrivial(want.size() > 1 && want.size() < c.ops.size());
  if (thrown)
    x.label("left by exception");
}

struct TA {}; struct TB : TA {}; struct TC {}; 
struct NoOut { int a, b, c; };
struct Out { int a; };
std::ostream &operator<<(std::ostream &o, const Out &v) { return o << "out" << v.a; }

template <int I> struct Type;
template <> struct Type<0> { typedef TA T; };
template <> struct Type<1> { typedef TB T; };
template <> struct Type<2> { typedef TC T; };
template <> struct Type<3> { typedef int T; };
template <> struct Type<4> { typedef boost::shared_ptr<TA> T; };
static icl_core::ExpectedType::Ptr et(int i)
{
  using namespace icl_core;
  switch (i)
  {
  case 0: return ExpectedType::Ptr(new ExpectedTypeIs<TA>);
  case 1: return ExpectedType::Ptr(new ExpectedTypeIs<TB>);
  case 2: return ExpectedType::Ptr(new ExpectedTypeIs<TC>);
  case 3: return ExpectedType::Ptr(new ExpectedTypeIs<int>);
  default: return ExpectedType::Ptr(new ExpectedTypeIs<boost::shared_ptr<TA>>);
  }
}

static void runStamped(const Case &c, Ctx &x)
{
  using boost::posix_time::ptime;
  for (const Op &o : c.ops)
  {
    int i = (int)(N(o, 0) % 5), j = (int)(N(o, 1) % 5);
    auto a = et(i), b = et(j);
    VP_CHECK((*a == *b) == (i == j) && (*a != *b) == (i != j), "expected types " << i << " and " << j);
    VP_CHECK(a->is<TA>() == (i == 0) && a->is<TB>() == (i == 1) && a->is<TC>() == (i == 2) && a->is<int>() == (i == 3) &&
             a->is<boost::shared_ptr<TA>>() == (i == 4), "type test of expected type " << i);

    int v = (int)N(o, 2);
    uint32_t seq = (uint32_t)N(o, 3);
    ptime t(boost::gregorian::date(2000 + (unsigned)(N(o, 3) & 31), 1 + (unsigned)(N(o, 2) & 7), 5), boost::posix_time::seconds(v & 0xffff));
    icl_core::DataHeader h0, h(S(o, 0), t, seq);
    VP_CHECK(h0.coordinate_system.empty() && h0.timestamp.is_not_a_date_time() && h0.sequence_number == 0 && h0.dsin == 0, "default header");
    VP_CHECK(icl_core::DataHeader(S(o, 0), t).sequence_number == 0, "default sequence number");
    h.dsin = (size_t)N(o, 4);
    auto text = [&](const std::string &data) {
      return "[seq: " + std::to_string(seq) + ", timestamp: " + boost::posix_time::to_simple_string(t) + ", DSIN: " + std::to_string(h.dsin) +
             ", Frame: " + S(o, 0) + "; " + data + "]";
    };
    auto same = [&](const icl_core::DataHeader &g) {
      return g.coordinate_system == S(o, 0) && g.timestamp == t && g.sequence_number == seq && g.dsin == h.dsin;
    };
    auto print = [](const icl_core::StampedBase &b) { std::ostringstream os; os << b; return os.str(); };
    icl_core::Stamped<int> s(v, h);
    VP_CHECK(s.get() == v && s.cget() == v && *s == v && int(s) == v && same(s.header()), "stamped number");
    VP_EQ(print(s), text(std::to_string(v)), "text of a stamped number");
    icl_core::Stamped<Out> so(Out{v}, h);
    VP_CHECK(so->a == v && same(so.header()), "stamped structure");
    VP_EQ(print(so), text("out" + std::to_string(v)), "text of a stamped structure");
    icl_core::Stamped<NoOut> sn(NoOut{v, 2, 3}, h);
    VP_EQ(print(sn), text(std::to_string(sizeof(NoOut)) + " data bytes"), "text of stamped data without output operator");
    icl_core::Stamped<std::string> ss(S(o, 0));
    VP_CHECK(ss.header().sequence_number == 0 && ss.get() == S(o, 0) && ss->size() == S(o, 0).size(), "stamped from data");
    ss.header() = h;
    ss.get() += "x";
    icl_core::Stamped<std::string> copy(ss);
    *copy += "y";
    VP_CHECK(same(copy.header()) && ss.get() == S(o, 0) + "x" && copy.get() == S(o, 0) + "xy", "copies of stamped data are independent");
    icl_core::Stamped<std::string> sh(h);
    VP_CHECK(same(sh.header()) && sh.get().empty(), "stamped from header");
    icl_core::StampedBase &base = copy;
    base.header().sequence_number = 77;
    VP_CHECK(copy.header().sequence_number == 77 && ss.header().sequence_number == seq, "header access through the base");
    x.nontrivial(i == j || v != 0);
  }
}

class Wrapped
{
public:
  ICL_CORE_WRAP_VECTOR(Wrapped, std::vector<int64_t>, private, m_v);
};
class WrappedInit
{
public:
  ICL_CORE_WRAP_VECTOR_INIT(WrappedInit, std::vector<int64_t>, public, m_v, extra(17));
  int extra;
};

template <class W>
static void runVecT(const Case &c, Ctx &x)
{
  std::unique_ptr<W> w(new W), o2(new W);
  std::vector<int64_t> m, m2;
  for (const Op &o : c.ops)
  {
    int64_t v = N(o, 0);
    size_t p = (size_t)N(o, 1) % (m.size() + 1), n = (size_t)N(o, 2) % 5;
    std::vector<int64_t> src(n, v);
    for (size_t i = 0; i < n; ++i)
      src[i] += (int64_t)i;
    switch (o.k)
    {
    case 0: w->push_back(v); m.push_back(v); break;
    case 1: if (!m.empty()) { w->pop_back(); m.pop_back(); } break;
    case 2: { auto it = w->insert(w->begin() + p, v); VP_CHECK((size_t)(it - w->begin()) == p, "position returned by insert"); m.insert(m.begin() + p, v); break; }
    case 3: w->insert(w->begin() + p, n, v); m.insert(m.begin() + p, n, v); break;
    case 4: w->insert(w->begin() + p, src.begin(), src.end()); m.insert(m.begin() + p, src.begin(), src.end()); break;
    case 5: if (p < m.size()) { auto it = w->erase(w->begin() + p); VP_CHECK((size_t)(it - w->begin()) == p, "position returned by erase"); m.erase(m.begin() + p); } break;
    case 6: { size_t e = std::min(m.size(), p + n); w->erase(w->begin() + p, w->begin() + e); m.erase(m.begin() + p, m.begin() + e); break; }
    case 7: w->assign(n, v); m.assign(n, v); break;
    case 8: w->assign(src.begin(), src.end()); m = src; break;
    case 9: w->resize(n + p, v); m.resize(n + p, v); break;
    case 10: w->swap(*o2); m.swap(m2); break;
    case 11: if (v % 4 == 0) { w->clear(); m.clear(); } break;
    case 12: w.reset(new W(src)); m = src; break;
    case 13: w.reset(new W(n, v)); m.assign(n, v); break;
    case 14: w.reset(new W(src.begin(), src.end())); m = src; break;
    case 15: if (p < m.size()) { w->at(p) = v; m[p] = v; } break;
    case 16: if (p < m.size()) { (*w)[p] = v; m[p] = v; } break;
    case 17: w->reserve(n + 20); VP_CHECK(w->capacity() >= n + 20, "capacity"); break;
    case 18: if (!m.empty()) { w->front() = v; m.front() = v; w->back() = v + 1; m.back() = v + 1; } break;
    }
    const W &cw = *w;
    VP_CHECK(w->size() == m.size() && w->empty() == m.empty(), "size is " << w->size() << ", expected " << m.size() << " after operation " << o.k);
    VP_CHECK(std::vector<int64_t>(cw.begin(), cw.end()) == m, "elements after operation " << o.k);
    VP_CHECK(std::vector<int64_t>(cw.rbegin(), cw.rend()) == std::vector<int64_t>(m.rbegin(), m.rend()), "elements backwards");
    VP_CHECK(std::vector<int64_t>(w->rbegin(), w->rend()) == std::vector<int64_t>(m.rbegin(), m.rend()), "elements backwards");
    if (!m.empty())
      VP_CHECK(cw.front() == m.front() && cw.back() == m.back() && cw.at(m.size() - 1) == m.back() && cw[0] == m[0], "element access");
    bool threw = false;
    try { cw.at(m.size()); } catch (const std::out_of_range &) { threw = true; }
    VP_CHECK(threw, "access behind the end is not refused");
    x.nontrivial(m.size() > 3 && o.k >= 2 && o.k <= 6);
  }
}
static void runVec(const Case &c, Ctx &x)
{
  runVecT<Wrapped>(c, x);
  runVecT<WrappedInit>(c, x);
  VP_CHECK(WrappedInit().extra == 17 && WrappedInit(3, 4).extra == 17, "initialised member");
}

int main(int argc, char **argv)
{
  Sub s1{"finalizable", opsCase(opGen([]() { return mk((int)(coin(20) ? 4 : pick(0, 3)), {pick(0, 5), pick(0, 5)}, {str("abc", 0, 4)}); })), runFinal, 80000, 1200000};
  Sub s2{"scope guards", opsCase(opGen([]() {
           Op o = mk(0);
           int n = (int)pick(0, 3);
           for (int i = 0; i < n; ++i)
             o.n.push_back(pick(0, 1));
           if (coin(5))
             o.s.push_back("throw");
           return o;
         })), runScope, 80000, 1200000};
  Sub s3{"stamped data", opsCase(opGen([]() { return mk(0, {pick(0, 4), pick(0, 4), wide(INT32_MIN, INT32_MAX), wide(0, UINT32_MAX), wide(0, INT64_MAX)}, {str("abc/ ", 0, 8)}); })), runStamped, 48000, 720000};
  Sub s4{"vector wrapper", opsCase(opGen([]() { return mk((int)pick(0, 18), {pick(-100, 100), pick(0, 100), pick(0, 4)}); })), runVec, 80000, 1200000};
  s2.max_size = 12;
  s3.max_size = 6;
  return checkMain(argc, argv, "C37",
                   "operation sequences on finalizable values, nested scope guards (also left by exceptions), stamped data and wrapped vectors; "
                   "non-trivial: both refused and accepted assignments, some guards run and some disabled, equal expected types, changes in the "
                   "middle of a longer vector",
                   {s1, s2, s3, s4});
}
