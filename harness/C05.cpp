// vp: profile=asanub mods=core
// UnionFind against an explicit partition.
#include "vp.hpp"
#include <icl_core/UnionFind.h>
using namespace vp;
using icl_core::UnionFind;

static void run(const Case &c, Ctx &x)
{
  size_t n = c.ops.empty() ? 3 : (size_t)N(c.ops[0], 0);
  UnionFind u(n);
  std::vector<int> cls(n);
  for (size_t i = 0; i < n; ++i)
    cls[i] = (int)i;
  int merges = 0, grown = 0;
  auto verify = [&](const char *what) {
    VP_EQ(u.size(), cls.size(), what << ": size");
    std::map<int, size_t> rep;
    std::map<size_t, int> back;
    for (size_t i = 0; i < cls.size(); ++i)
    {
      size_t r = u.find(i);
      VP_CHECK(r < cls.size(), what << ": representative out of range");
      VP_CHECK(u.find(r) == r, what << ": a representative represents itself");
      VP_CHECK(cls[r] == cls[i], what << ": find(" << i << ") = " << r << " is in another set");
      if (rep.count(cls[i]))
        VP_CHECK(rep[cls[i]] == r, what << ": two representatives " << rep[cls[i]] << " and " << r << " for one set");
      rep[cls[i]] = r;
      if (back.count(r))
        VP_CHECK(back[r] == cls[i], what << ": sets wrongly joined");
      back[r] = cls[i];
    }
  };
  verify("new");
  for (size_t i = 1; i < c.ops.size(); ++i)
  {
    const Op &o = c.ops[i];
    size_t sz = cls.size();
    if (o.k == 0)
    {
      size_t a = (size_t)N(o, 0), b = (size_t)N(o, 1);
      if (sz && N(o, 2))
        a %= sz, b %= sz;
      bool threw = false;
      try
      {
        u.merge(a, b);
      }
      catch (const std::out_of_range &)
      {
        threw = true;
      }
      VP_EQ(threw, a >= sz || b >= sz, "merge(" << a << "," << b << ") of " << sz << " throws exactly when out of range");
      if (!threw)
      {
        if (cls[a] != cls[b])
          merges++;
        int from = cls[b], to = cls[a];
        for (auto &k : cls)
          if (k == from)
            k = to;
      }
    }
    else if (o.k == 1)
    {
      size_t g = (size_t)N(o, 0);
      if (!N(o, 2))
        g %= 4;
      if (g == 1 && N(o, 1) % 2)
        u.grow();
      else
        u.grow(g);
      for (size_t k = 0; k < g; ++k)
        cls.push_back((int)(1000 + cls.size()));
      grown += (int)g;
    }
    else
    {
      size_t a = (size_t)N(o, 0);
      bool threw = false;
      try
      {
        u.find(a);
      }
      catch (const std::out_of_range &)
      {
        threw = true;
      }
      VP_EQ(threw, a >= sz, "find throws exactly when out of range");
    }
    if (o.k != 2 && (N(o, 0) + N(o, 1)) % 3 == 0)
      verify(o.k == 0 ? "merge" : "grow");
  }
  verify("end");
  if (grown && merges)
    x.label("grown and merged");
  x.nontrivial(merges >= 3);
}

int main(int argc, char **argv)
{
  auto head = opGen([]() { return mk(0, {coin(20) ? pick(0, 200) : pick(0, 24)}); });
  auto g = opGen([]() {
    int k = (int)oneOf<int64_t>({0, 0, 0, 0, 0, 0, 1, 2});
    if (k == 1)
      return mk(k, {coin(20) ? pick(0, 100) : pick(0, 16), pick(0, 31), coin(50)});
    int64_t m = coin(50) ? 31 : 1000;
    return mk(k, {pick(0, m), pick(0, m), pick(0, 7) > 0});
  });
  std::vector<Sub> subs;
  subs.push_back({"history", headCase(head, g), run, 240000, 3600000});
  return checkMain(argc, argv, "C05",
                   "Histories of merge (in and out of range), grow and find on 0 to 200 initial elements; the partition is compared with an explicit "
                   "one. Non-trivial: at least three merges joined different sets.",
                   subs);
}
