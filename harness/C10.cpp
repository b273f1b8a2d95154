// vp: profile=asanub mods=core
// Small containers and set/bit helpers against plain models.
#include "vp.hpp"
#include <boost/optional.hpp>
#include <cassert>
#include <functional>
#include <icl_core/Array2D.h>
#include <icl_core/BitfieldHelper.h>
#include <icl_core/SearchableStack.h>
#include <icl_core/BaseTypes.h>
#include <icl_core/Deprecate.h>
#include <icl_core/SetHelper.h>
#include <icl_core/ZBuffer.h>
#include <set>
#include <algorithm>
#include <memory>
using namespace vp;

struct M2
{
  std::vector<int64_t> v; // row by row
  size_t w = 0, h = 0;
};
typedef icl_core::Array2D<int64_t> A2;

static void same(const A2 &a, const M2 &m)
{
  VP_EQ(a.width(), m.w, "width");
  VP_EQ(a.height(), m.h, "height");
  VP_EQ(a.size(), m.v.size(), "size");
  VP_CHECK(a.size() == a.width() * a.height(), "size is width times height");
  VP_CHECK(a.empty() == m.v.empty(), "empty");
  VP_CHECK(std::vector<int64_t>(a.begin(), a.end()) == m.v, "iteration is row by row");
  for (size_t y = 0; y < m.h; ++y)
    for (size_t xx = 0; xx < m.w; ++xx)
    {
      int64_t want = m.v[y * m.w + xx];
      size_t i = a.index1D(xx, y), cx = 99999, cy = 99999;
      a.indexTo2D(i, cx, cy);
      VP_CHECK(cx == xx && cy == y, "index of (" << xx << "," << y << ") is " << i << ", which maps back to (" << cx << "," << cy << ")");
      VP_CHECK(a.at(xx, y) == want && a(xx, y) == want && a.at(i) == want && a[i] == want, "cell (" << xx << "," << y << ")");
    }
}

static void runArray(const Case &c, Ctx &x)
{
  std::vector<A2> a(2);
  std::vector<M2> m(2);
  int shapes = 0;
  for (const Op &o : c.ops)
  {
    int t = (int)(N(o, 0) & 1), u = 1 - t;
    size_t w = (size_t)(N(o, 1) % 6), h = (size_t)(N(o, 2) % 6);
    int64_t v = N(o, 3);
    switch (o.k)
    {
    case 0:
      a[t].resize(w, h, v);
      m[t].v.resize(w * h, v);
      m[t].w = w, m[t].h = h;
      ++shapes;
      break;
    case 1:
      a[t].resize(w, h);
      m[t].v.resize(w * h);
      m[t].w = w, m[t].h = h;
      ++shapes;
      break;
    case 2:
      a[t].assign(w, h, v);
      m[t].v.assign(w * h, v);
      m[t].w = w, m[t].h = h;
      ++shapes;
      break;
    case 3:
      a[t].assign(w, h);
      m[t].v.assign(w * h, 0);
      m[t].w = w, m[t].h = h;
      break;
    case 4:
      a[t].reset();
      std::fill(m[t].v.begin(), m[t].v.end(), 0);
      break;
    case 5:
      a[t].set(v);
      std::fill(m[t].v.begin(), m[t].v.end(), v);
      break;
    case 6:
      a[0].swap(a[1]);
      std::swap(m[0], m[1]);
      break;
    case 7:
      a[t] = a[u];
      m[t] = m[u];
      break;
    case 8:
    {
      A2 b(a[t]);
      same(b, m[t]);
      A2 f(w, h, v);
      M2 mf;
      mf.v.assign(w * h, v);
      mf.w = w, mf.h = h;
      same(f, mf);
      a[u] = f;
      m[u] = mf;
      break;
    }
    default:
      if (!m[t].v.empty())
      {
        size_t cx = w % m[t].w, cy = h % m[t].h;
        if (o.k == 9)
          a[t].at(cx, cy) = v;
        else if (o.k == 10)
          a[t](cx, cy) = v;
        else if (o.k == 11)
          a[t].at(a[t].index1D(cx, cy)) = v;
        else
          a[t][a[t].index1D(cx, cy)] = v;
        m[t].v[cy * m[t].w + cx] = v;
        x.nontrivial(shapes > 1 && m[t].w != m[t].h);
      }
    }
    same(a[0], m[0]);
    same(a[1], m[1]);
  }
}

static void runStack(const Case &c, Ctx &x)
{
  icl_core::SearchableStack<int64_t> s;
  std::vector<int64_t> m;
  for (const Op &o : c.ops)
  {
    int64_t v = N(o, 0);
    switch (o.k)
    {
    case 0:
    case 1:
      s.push(v);
      m.push_back(v);
      break;
    case 2:
      if (!m.empty())
      {
        s.pop();
        m.pop_back();
      }
      break;
    case 3:
      if (!m.empty())
      {
        s.top() = v;
        m.back() = v;
      }
      break;
    case 4:
      if (N(o, 1) == 0)
      {
        s.clear();
        m.clear();
      }
      break;
    }
    VP_CHECK(s.size() == m.size() && s.empty() == m.empty(), "size is " << s.size() << ", expected " << m.size());
    if (!m.empty())
    {
      const auto &cs = s;
      VP_CHECK(s.top() == m.back() && cs.top() == m.back(), "top");
    }
    VP_CHECK(std::vector<int64_t>(s.begin(), s.end()) == m, "iteration from bottom to top");
    VP_CHECK(std::vector<int64_t>(s.rbegin(), s.rend()) == std::vector<int64_t>(m.rbegin(), m.rend()), "iteration from top to bottom");
    for (int64_t k = -1; k < 9; ++k)
    {
      auto want = std::find(m.begin(), m.end(), k);
      auto got = s.find(k);
      VP_CHECK((got - s.begin()) == (want - m.begin()), "find of " << k << " at " << (got - s.begin()) << ", expected " << (want - m.begin()));
    }
    x.nontrivial(o.k == 2 && m.size() > 2);
  }
}

struct Greater { bool operator()(int64_t a, int64_t b) const { return a > b; } };
struct ByTens { bool operator()(int64_t a, int64_t b) const { return a / 10 < b / 10; } };

template <class Cmp>
static void zrun(const Case &c, Ctx &x, size_t size)
{
  icl_core::ZBuffer<int64_t, Cmp> z(size);
  std::vector<std::pair<bool, int64_t>> m(size, {false, 0});
  Cmp cmp;
  bool kept = false, repl = false;
  for (const Op &o : c.ops)
  {
    size_t p = (size_t)N(o, 0) % size;
    int64_t v = N(o, 1);
    if (o.k == 1)
    {
      z.reset();
      m.assign(size, {false, 0});
    }
    else
    {
      bool want = !m[p].first || cmp(v, m[p].second);
      (want ? (m[p].first ? repl : kept) : kept) = true;
      VP_CHECK(z.update(p, v) == want, "update of cell " << p << " holding " << (m[p].first ? std::to_string(m[p].second) : "nothing") << " with " << v);
      if (want)
        m[p] = {true, v};
    }
    VP_CHECK(z.size() == size && z.buffer().size() == size, "size");
    for (size_t i = 0; i < size; ++i)
      VP_CHECK(bool(z.at(i)) == m[i].first && bool(z[i]) == m[i].first && bool(z.buffer()[i]) == m[i].first &&
               (!m[i].first || (*z.at(i) == m[i].second && *z[i] == m[i].second && *z.buffer()[i] == m[i].second)), "cell " << i);
  }
  x.nontrivial(kept && repl);
}

static void runZ(const Case &c, Ctx &x)
{
  size_t size = 1 + (size_t)(c.ops.empty() ? 0 : N(c.ops[0], 2) % 5);
  zrun<std::less<int64_t>>(c, x, size);
  zrun<Greater>(c, x, size);
  zrun<ByTens>(c, x, size);
}

template <class Cmp>
static void setRel(uint64_t A, uint64_t B)
{
  std::set<int, Cmp> a, b;
  for (int i = 0; i < 10; ++i)
  {
    if (A >> i & 1)
      a.insert(i);
    if (B >> i & 1)
      b.insert(i);
  }
  icl_core::SetRelation want = A == B ? icl_core::eSR_EQUAL : (A & B) == B ? icl_core::eSR_PROPER_SUPERSET : (A & B) == A ? icl_core::eSR_PROPER_SUBSET
    : (A & B) ? icl_core::eSR_INTERSECTION_NONEMPTY : icl_core::eSR_DISJUNCT;
  VP_EQ((int)icl_core::setRelation(a, b), (int)want, "relation of the sets with bits " << A << " and " << B);
}

template <class T>
static void bits(int64_t field, int b)
{
  T f = (T)field;
  if (sizeof(T) < 4)
    b &= (1 << (8 * sizeof(T) - 1)) - 1;
  T s = f, cl = f;
  icl_core::setBits<T>(b, s);
  icl_core::clearBits<T>(b, cl);
  uint64_t mask = sizeof(T) == 8 ? ~0ull : (1ull << (8 * sizeof(T))) - 1;
  VP_CHECK((((uint64_t)s ^ ((uint64_t)f | (uint64_t)b)) & mask) == 0, "setting " << b << " in " << field << " (" << sizeof(T) << " bytes) gives " << (long long)s);
  VP_CHECK((((uint64_t)cl ^ ((uint64_t)f & ~(uint64_t)b)) & mask) == 0, "clearing " << b << " in " << field << " (" << sizeof(T) << " bytes) gives " << (long long)cl);
  for (int i = 0; i < (int)std::min<size_t>(8 * sizeof(T), 32) - 1; ++i)
    VP_CHECK(icl_core::isBitSet<T>(1 << i, f) == bool((uint64_t)f >> i & 1), "bit " << i << " of " << field);
}

static void runBits(const Case &c, Ctx &x)
{
  for (const Op &o : c.ops)
  {
    uint64_t A = (uint64_t)N(o, 0) & 1023, B = (uint64_t)N(o, 1) & 1023;
    if (N(o, 2) == 1)
      B = A & B;
    if (N(o, 2) == 2)
      A = A & B;
    if (N(o, 2) == 3)
      B = A;
    if (N(o, 2) == 4)
      B = B & ~A;
    setRel<std::less<int>>(A, B);
    setRel<std::greater<int>>(A, B);
    int b = (int)(N(o, 4) & 0x7fffffff);
    bits<uint8_t>(N(o, 3), b);
    bits<int16_t>(N(o, 3), b);
    bits<uint32_t>(N(o, 3), b);
    bits<int32_t>(N(o, 3), b);
    bits<uint64_t>(N(o, 3), b);
    bits<int64_t>(N(o, 3), b);
    x.nontrivial(A && B && A != B);
  }
}

int main(int argc, char **argv)
{
  Sub s1{"array", opsCase(opGen([]() { return mk((int)pick(0, 12), {pick(0, 1), pick(0, 5), pick(0, 5), pick(-3, 100)}); })), runArray, 96000, 1440000};
  Sub s2{"stack", opsCase(opGen([]() { return mk((int)pick(0, 4), {pick(0, 7), pick(0, 7)}); })), runStack, 96000, 1440000};
  Sub s3{"z buffer", opsCase(opGen([]() { return mk(coin(5) ? 1 : 0, {pick(0, 4), pick(0, 35), pick(0, 4)}); })), runZ, 96000, 1440000};
  Sub s4{"sets and bits", opsCase(opGen([]() {
           return mk(0, {pick(0, 1023), pick(0, 1023), pick(0, 6), wide(INT64_MIN, INT64_MAX), coin(50) ? int64_t(1) << pick(0, 30) : pick(0, 0x7fffffff)});
         })), runBits, 96000, 1440000};
  s4.max_size = 6;
  return checkMain(argc, argv, "C10",
                   "operation sequences on arrays (reshaping, copying, swapping, cell writes), stacks, depth buffers with three orders, and pairs of "
                   "sets and bit fields; non-trivial: writes after reshaping of a non-square array, a pop from a deep stack, both kept and replaced "
                   "cells, two different non-empty sets",
                   {s1, s2, s3, s4});
}
