// vp: profile=asanub mods=core
// Time spans: scaling is proportional, and the text form denotes the value.
#include "vp.hpp"
#include <cmath>
#include <cstring>
#include <icl_core/TimeSpan.h>
using namespace vp;
using icl_core::TimeSpan;
typedef __int128 I;
static const I G = 1000000000;

static double dbl(int64_t bits)
{
  double d;
  memcpy(&d, &bits, 8);
  return d;
}
static int64_t bitsOf(double d)
{
  int64_t b;
  memcpy(&b, &d, 8);
  return b;
}

static void scaleOne(TimeSpan t, I v, double f, bool mul)
{
  TimeSpan r = mul ? t * f : t / f;
  long double exact = mul ? (long double)v * (long double)f : (long double)v / (long double)f;
  long double got = (long double)r.tsSec() * 1e9L + r.tsNSec();
  // A double carries 53 bits; the sub-second part may be cut to whole nanoseconds.
  long double tol = 2.0L + fabsl(exact) * 4.5e-16L;
  std::ostringstream o;
  o.precision(20);
  o << t.tsSec() << "s" << t.tsNSec() << "ns " << (mul ? "* " : "/ ") << f << " gives " << r.tsSec() << "s" << r.tsNSec()
    << "ns, " << (double)(got - exact) << " ns off";
  VP_CHECK(fabsl(got - exact) <= tol, o.str());
  VP_CHECK(r.tsNSec() > -1000000000 && r.tsNSec() < 1000000000 && !(r.tsSec() > 0 && r.tsNSec() < 0) &&
             !(r.tsSec() < 0 && r.tsNSec() > 0),
           "not normalised: " << o.str());
}

static void runScale(const Case &c, Ctx &x)
{
  for (const Op &o : c.ops)
  {
    TimeSpan t(N(o, 0), (int32_t)N(o, 1));
    I v = (I)N(o, 0) * G + N(o, 1);
    double f = dbl(N(o, 2));
    if (f == 0 || !std::isfinite(f))
      continue;
    long double sv = (long double)v / 1e9L;
    if (fabsl(sv * f) < 4e18L)
    {
      scaleOne(t, v, f, true);
      x.label("multiplied");
    }
    if (fabsl(sv / f) < 4e18L)
    {
      scaleOne(t, v, f, false);
      x.label("divided");
    }
    if (f != std::floor(f))
      x.label("fractional factor");
    x.nontrivial(f != 1.0 && v != 0);
  }
}

//! The value in nanoseconds that a text like 1h2m3s4us denotes. \returns false if it is no such text.
static bool parseSpan(const std::string &s, I &v)
{
  size_t i = 0;
  bool neg = false;
  v = 0;
  if (i < s.size() && s[i] == '-')
  {
    neg = true;
    i++;
  }
  if (i >= s.size())
    return false;
  int last = -1;
  while (i < s.size())
  {
    size_t b = i;
    I n = 0;
    while (i < s.size() && isdigit((unsigned char)s[i]))
      n = n * 10 + (s[i++] - '0');
    if (b == i)
      return false;
    std::string u;
    while (i < s.size() && isalpha((unsigned char)s[i]))
      u += s[i++];
    static const char *names[] = {"h", "m", "s", "ms", "us", "ns"};
    static const int64_t mult[] = {3600000000000LL, 60000000000LL, 1000000000LL, 1000000, 1000, 1};
    int k = -1;
    for (int q = 0; q < 6; ++q)
      if (u == names[q])
        k = q;
    if (k <= last)
      return false;
    last = k;
    v += n * mult[k];
  }
  if (neg)
    v = -v;
  return true;
}

static void runText(const Case &c, Ctx &x)
{
  for (const Op &o : c.ops)
  {
    TimeSpan t(N(o, 0), (int32_t)N(o, 1));
    I v = (I)N(o, 0) * G + N(o, 1);
    std::ostringstream s;
    s << "<" << t << ">";
    std::string text = s.str();
    VP_CHECK(text.size() > 2 && text[0] == '<' && text.back() == '>', "framing of " << text);
    text = text.substr(1, text.size() - 2);
    I d;
    VP_CHECK(parseSpan(text, d), "\"" << text << "\" is no time span text");
    VP_CHECK(d == v, "the text \"" << text << "\" does not denote " << t.tsSec() << " s and " << t.tsNSec() << " ns");
    if (v < 0)
      x.label("negative");
    if (v % 1000 == 0 && v % 1000000 != 0)
      x.label("whole microseconds");
    x.nontrivial(v % G != 0);
  }
}

int main(int argc, char **argv)
{
  auto scaleGen = opGen([]() {
    int64_t s = coin(60) ? pick(-100, 100) : wide(-(1LL << 40), 1LL << 40);
    int64_t n = coin(30) ? oneOf<int64_t>({0, 1, 999999999, 500000000, -1, -999999999}) : pick(-999999999, 999999999);
    double f;
    switch (pick(0, 5))
    {
    case 0:
      f = (double)pick(1, 1000);
      break;
    case 1:
      f = (double)pick(1, 1000000) / 1000.0;
      break;
    case 2:
      f = 1.0 / (double)pick(1, 1000000);
      break;
    case 3:
      f = std::ldexp(1.0, (int)pick(-30, 30));
      break;
    case 4:
      f = (double)pick(1, 999999999) / (double)pick(1, 999999999);
      break;
    default:
      f = (double)wide(1, 1LL << 40) / 3.0;
    }
    if (coin(30))
      f = -f;
    return mk(0, {s, n, bitsOf(f)});
  });
  auto textGen = opGen([]() {
    int64_t s = coin(30) ? pick(-5, 5) : coin(40) ? oneOf<int64_t>({59, 60, 61, 3599, 3600, 3601, 3660, 7200, 86400, -59, -60, -61, -3600, -3601}) : wide(-(1LL << 55), 1LL << 55);
    int64_t n;
    switch (pick(0, 4))
    {
    case 0:
      n = 0;
      break;
    case 1:
      n = pick(-999, 999) * 1000000;
      break;
    case 2:
      n = pick(-999999, 999999) * 1000;
      break;
    default:
      n = pick(-999999999, 999999999);
    }
    return mk(0, {s, n});
  });
  std::vector<Sub> subs;
  subs.push_back({"scale", opsCase(scaleGen), runScale, 360000, 5400000});
  subs.push_back({"text", opsCase(textGen), runText, 360000, 5400000});
  for (auto &s : subs)
    s.max_size = 12;
  return checkMain(argc, argv, "C02",
                   "Generated spans (small, boundary, 40/55 bit seconds; whole ms, whole us and odd nanoseconds, both signs) and "
                   "factors (integers, fractions, powers of two, quotients, both signs). Non-trivial: scaling of a span other than "
                   "zero by a factor other than one; text of a span with a sub-second part.",
                   subs, "exploration",
                   {"scaled values are compared within 2 ns plus 2^-51 of the exact result, since the factor is a double"});
}
