// vp: profile=asanub mods=core
// String helpers against independent implementations and the split/join round trip.
#include "vp.hpp"
#include <icl_core/StringHelper.h>
#include <icl_core/os_string.h>
#include <cmath>
#include <cstring>
#include <limits>
using namespace vp;
using icl_core::String;

static std::vector<std::string> refSplit(const std::string &s, const std::string &d)
{
  std::vector<std::string> r(1);
  size_t i = 0;
  while (i < s.size())
  {
    if (!d.empty() && s.compare(i, d.size(), d) == 0)
    {
      r.push_back("");
      i += d.size();
    }
    else
      r.back() += s[i++];
  }
  return r;
}

static void runText(const Case &c, Ctx &x)
{
  for (const Op &o : c.ops)
  {
    const std::string &s = S(o, 0), &d = S(o, 1);
    switch (o.k)
    {
    case 0: // split, and joining again
    {
      auto got = icl_core::split(s, d), want = refSplit(s, d);
      VP_CHECK(got == want, "split of '" << s << "' at '" << d << "' gives " << got.size() << " parts, expected " << want.size());
      VP_EQ(icl_core::join(got, d), s, "join of the parts");
      x.nontrivial(want.size() > 2);
      break;
    }
    case 1: // join, and splitting again
    {
      std::vector<String> parts(o.s.begin() + std::min<size_t>(1, o.s.size()), o.s.end());
      const std::string &dl = s;
      std::string want;
      for (size_t i = 0; i < parts.size(); ++i)
        want += (i ? dl : "") + parts[i];
      std::string got = icl_core::join(parts, dl);
      VP_EQ(got, want, "join");
      bool clean = !dl.empty() && !parts.empty();
      // the delimiter must not be found anywhere else in the joined text
      if (clean && refSplit(want, dl) == parts)
      {
        VP_CHECK(icl_core::split(got, dl) == parts, "splitting the joined text '" << got << "'");
        x.nontrivial(parts.size() > 2);
      }
      break;
    }
    case 2: // trim
    {
      auto sp = [](char ch) { return ch == ' ' || (ch >= '\t' && ch <= '\r'); };
      size_t a = 0, b = s.size();
      while (a < b && sp(s[a]))
        ++a;
      while (b > a && sp(s[b - 1]))
        --b;
      String heap(s);
      heap.reserve(100);
      VP_EQ(icl_core::trim(heap), s.substr(a, b - a), "trim of '" << s << "'");
      VP_EQ(heap, s, "argument of trim");
      x.nontrivial(a > 0 && b < s.size());
      break;
    }
    case 3: // padding
    {
      size_t w = (size_t)N(o, 0);
      char ch = (char)N(o, 1);
      std::string fill = s.size() < w ? std::string(w - s.size(), ch) : "";
      VP_EQ(icl_core::padLeft<String>(s, w, ch), fill + s, "padLeft");
      VP_EQ(icl_core::padRight<String>(s, w, ch), s + fill, "padRight");
      std::string n = std::to_string(N(o, 2));
      fill = n.size() < w ? std::string(w - n.size(), ch) : "";
      VP_EQ(icl_core::padLeft<int64_t>(N(o, 2), w, ch), fill + n, "padLeft of a number");
      VP_EQ(icl_core::padRight<int64_t>(N(o, 2), w, ch), n + fill, "padRight of a number");
      if (ch == ' ')
      {
        VP_EQ(icl_core::padLeft<String>(s, w), (s.size() < w ? std::string(w - s.size(), ' ') : "") + s, "padLeft, default");
      }
      x.nontrivial(!fill.empty());
      break;
    }
    case 4: // case
    {
      std::string lo, up;
      for (char ch : s)
      {
        lo += ch >= 'A' && ch <= 'Z' ? char(ch + 32) : ch;
        up += ch >= 'a' && ch <= 'z' ? char(ch - 32) : ch;
      }
      VP_EQ(icl_core::toLower(s), lo, "toLower");
      VP_EQ(icl_core::toUpper(s), up, "toUpper");
      x.nontrivial(lo != up);
      break;
    }
    case 5: // numbers to text and back
    {
      int64_t i = N(o, 0);
      VP_EQ(icl_core::stringify<int64_t>(i), std::to_string(i), "stringify int64");
      VP_EQ(icl_core::stringify<uint64_t>((uint64_t)i), std::to_string((uint64_t)i), "stringify uint64");
      VP_EQ(icl_core::stringify<int32_t>((int32_t)i), std::to_string((int32_t)i), "stringify int32");
      VP_EQ(icl_core::stringify<uint16_t>((uint16_t)i), std::to_string((uint16_t)i), "stringify uint16");
      VP_EQ(icl_core::stringify<bool>(i & 1), std::string(i & 1 ? "true" : "false"), "stringify bool");
      VP_EQ(icl_core::stringify<String>(s), s, "stringify string");
      double dv;
      std::memcpy(&dv, &i, 8);
      if (N(o, 1) == 1)
        dv = (double)(i % 1000000000) / 1000.0;
      if (std::isfinite(dv))
      {
        // 15 significant digits are kept
        std::string t = icl_core::stringify<double>(dv);
        char want[64];
        snprintf(want, sizeof want, "%.15g", dv);
        VP_EQ(t, std::string(want), "stringify double");
        float f = (float)dv;
        if (std::isfinite(f))
        {
          snprintf(want, sizeof want, "%.6g", (double)f);
          VP_EQ(icl_core::stringify<float>(f), std::string(want), "stringify float");
        }
        snprintf(want, sizeof want, "%.18Lg", (long double)dv);
        VP_EQ(icl_core::stringify<long double>((long double)dv), std::string(want), "stringify long double");
        x.nontrivial(dv != std::floor(dv));
      }
      break;
    }
    case 6: // bounded printing
    {
      size_t size = (size_t)(1 + N(o, 0) % 40);
      std::string guard(size + 8, '#');
      std::string full = s + "|" + std::to_string(N(o, 1)) + "|" + d;
      int r = icl_core::os::snprintf(&guard[0], size, "%s|%lld|%s", s.c_str(), (long long)N(o, 1), d.c_str());
      for (size_t k = size; k < guard.size(); ++k)
        VP_CHECK(guard[k] == '#', "snprintf wrote behind its buffer of " << size);
      std::string cs = s.c_str(), cd = d.c_str();
      full = cs + "|" + std::to_string(N(o, 1)) + "|" + cd;
      VP_EQ(std::string(guard.c_str()), full.substr(0, size - 1), "text printed into " << size << " bytes");
      VP_CHECK(full.size() >= size || r == (int)full.size(), "snprintf returned " << r << " for " << full.size() << " characters");
      x.nontrivial(full.size() >= size);
      break;
    }
    }
  }
}

int main(int argc, char **argv)
{
  auto any = []() {
    int k = (int)pick(0, 3);
    if (k == 0)
      return str("a;b", 0, 12);
    if (k == 1)
      return str(" \t\n\v\f\rax", 0, 10);
    if (k == 2)
      return str("aAzZ@[`{09_\xc4\xe9", 0, 12);
    return str("aab;, ", 0, 20);
  };
  auto g = opGen([any]() {
    switch (pick(0, 6))
    {
    case 0:
      return coin(50) ? mk(0, {}, {str("a;b", 0, 14), oneStr({";", ";", ";;", "a;", "ab", "aa", "", ";b;"})}) : mk(0, {}, {str("ab", 0, 16), str("ab", 1, 3)});
    case 1:
    {
      Op o = mk(1, {}, {oneStr({";", ", ", "", "--"})});
      int n = (int)pick(0, 6);
      for (int i = 0; i < n; ++i)
        o.s.push_back(str("ab -", 0, 4));
      return o;
    }
    case 2:
      return mk(2, {}, {str(" \t\n\v\f\rax\x80", 0, 12)});
    case 3:
      return mk(3, {pick(0, 20), coin(50) ? 32 : pick(33, 126), wide(INT64_MIN, INT64_MAX)}, {any()});
    case 4:
      return mk(4, {}, {any()});
    case 5:
      return mk(5, {wide(INT64_MIN, INT64_MAX), pick(0, 1)}, {any()});
    default:
      return mk(6, {pick(0, 60), wide(INT64_MIN, INT64_MAX)}, {any(), any()});
    }
  });
  Sub s{"text", opsCase(g), runText, 600000, 9000000};
  s.max_size = 8;
  return checkMain(argc, argv, "C08",
                   "calls of the string helpers on generated texts (empty texts, repeated and overlapping delimiters, white space at the ends, "
                   "64 bit and floating point values); non-trivial: three or more parts, white space at both ends, actual padding, a letter to "
                   "convert, a fractional number, or a text longer than the buffer",
                   {s});
}
