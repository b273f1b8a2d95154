// vp: profile=asanub mods=core
// RingBuffer against a bounded FIFO model, over operation histories.
#include "vp.hpp"
#include <deque>
#include <icl_core/RingBuffer.h>
using namespace vp;
typedef icl_core::RingBuffer<int> RB;

struct Model
{
  std::deque<int> q;
  size_t cap;
};

static void same(RB &b, const Model &m, const char *what)
{
  const RB &cb = b;
  VP_EQ(cb.size(), m.q.size(), what << ": size");
  VP_EQ(cb.capacity(), m.cap, what << ": capacity");
  VP_EQ(cb.reserve(), m.cap - m.q.size(), what << ": reserve");
  VP_EQ(cb.empty(), m.q.empty(), what << ": empty");
  VP_EQ(cb.full(), m.q.size() == m.cap, what << ": full");
  for (size_t i = 0; i < m.q.size(); ++i)
  {
    VP_EQ(cb.at(i), m.q[i], what << ": at(" << i << ")");
    VP_EQ(b.at(i), m.q[i], what << ": non-const at(" << i << ")");
  }
  bool threw = false;
  try
  {
    cb.at(m.q.size());
  }
  catch (const std::out_of_range &)
  {
    threw = true;
  }
  VP_CHECK(threw, what << ": at() beyond the end must throw");
  if (!m.q.empty())
  {
    VP_EQ(cb.front(), m.q.front(), what << ": front");
    VP_EQ(b.front(), m.q.front(), what << ": front");
  }
  // iterators
  size_t n = 0;
  for (RB::const_iterator it = cb.begin(); it != cb.end(); ++it, ++n)
  {
    VP_CHECK(n < m.q.size(), what << ": iteration does not end");
    VP_EQ(*it, m.q[n], what << ": iteration");
    VP_EQ((size_t)(it - cb.begin()), n, what << ": iterator distance");
    VP_EQ((size_t)(cb.end() - it), m.q.size() - n, what << ": iterator distance to the end");
  }
  VP_EQ(n, m.q.size(), what << ": iteration length");
  n = 0;
  for (RB::iterator it = b.begin(); it != b.end(); it++, ++n)
    VP_EQ(*it, m.q[n], what << ": non-const iteration");
  RB::const_iterator e = cb.end();
  for (size_t i = m.q.size(); i > 0; --i)
  {
    --e;
    VP_EQ(*e, m.q[i - 1], what << ": backward iteration");
  }
  VP_CHECK(e == cb.begin(), what << ": backward iteration ends at the first element");
  for (size_t i = 0; i < m.q.size(); ++i)
  {
    VP_EQ(*(cb.begin() + (ptrdiff_t)i), m.q[i], what << ": begin()+" << i);
    VP_EQ(*(cb.end() - (ptrdiff_t)(m.q.size() - i)), m.q[i], what << ": end()-n");
  }
  // array views
  std::vector<int> all;
  RB::const_array_range a1 = cb.arrayOne(), a2 = cb.arrayTwo();
  all.insert(all.end(), a1.first, a1.first + a1.second);
  all.insert(all.end(), a2.first, a2.first + a2.second);
  VP_CHECK(all == std::vector<int>(m.q.begin(), m.q.end()), what << ": arrayOne/arrayTwo hold the content in order");
  RB::array_range b1 = b.arrayOne(), b2 = b.arrayTwo();
  VP_CHECK(b1.first == a1.first && b1.second == a1.second && b2.second == a2.second, what << ": const and non-const views");
  VP_EQ(cb.emptyArrayOne().second + cb.emptyArrayTwo().second, m.cap - m.q.size(), what << ": free space views");
  VP_EQ(b.emptyArrayOne().second + b.emptyArrayTwo().second, m.cap - m.q.size(), what << ": free space views");
}

static void run(const Case &c, Ctx &x)
{
  size_t cap = c.ops.empty() ? 3 : (size_t)(N(c.ops[0], 0) % 9);
  RB b(cap);
  Model m;
  m.cap = cap;
  RB other(2);
  Model om;
  om.cap = 2;
  bool wrapped = false, overwrote = false;
  size_t written = 0;
  same(b, m, "new");
  for (size_t i = 1; i < c.ops.size(); ++i)
  {
    const Op &o = c.ops[i];
    int64_t v = N(o, 0);
    const char *what = "?";
    switch (o.k)
    {
    case 0:
    {
      what = "write";
      bool threw = false;
      try
      {
        b.write((int)v);
      }
      catch (const std::out_of_range &)
      {
        threw = true;
      }
      VP_EQ(threw, m.q.size() == m.cap, "write throws exactly when full");
      if (!threw)
        m.q.push_back((int)v), written++;
      break;
    }
    case 1:
      what = "overwrite";
      if (m.cap == 0)
        break;
      b.write((int)v, true);
      if (m.q.size() == m.cap)
        m.q.pop_front(), overwrote = true;
      m.q.push_back((int)v);
      written++;
      break;
    case 2:
    {
      what = "read";
      bool threw = false;
      int r = 0;
      try
      {
        r = b.read();
      }
      catch (const std::out_of_range &)
      {
        threw = true;
      }
      VP_EQ(threw, m.q.empty(), "read throws exactly when empty");
      if (!threw)
      {
        VP_EQ(r, m.q.front(), "read");
        m.q.pop_front();
      }
      break;
    }
    case 3:
    {
      what = "skip";
      bool threw = false;
      try
      {
        b.skip();
      }
      catch (const std::out_of_range &)
      {
        threw = true;
      }
      VP_EQ(threw, m.q.empty(), "skip throws exactly when empty");
      if (!threw)
        m.q.pop_front();
      break;
    }
    case 4:
    {
      what = "skip(n)";
      size_t n = (size_t)(v % 11);
      b.skip(n);
      for (size_t k = 0; k < n && !m.q.empty(); ++k)
        m.q.pop_front();
      break;
    }
    case 5:
      what = "clear";
      b.clear();
      m.q.clear();
      break;
    case 6:
    {
      what = "setCapacity";
      size_t n = (size_t)(v % 9);
      b.setCapacity(n);
      while (m.q.size() > n)
        m.q.pop_front();
      m.cap = n;
      break;
    }
    case 7:
    {
      what = "fill the free space and fakeWrite";
      RB::array_range e1 = b.emptyArrayOne(), e2 = b.emptyArrayTwo();
      size_t n = (size_t)(v % 12), done = 0;
      int val = (int)v * 10;
      std::vector<int> vals;
      for (size_t k = 0; k < e1.second && done < n; ++k, ++done)
        e1.first[k] = val, vals.push_back(val++);
      for (size_t k = 0; k < e2.second && done < n; ++k, ++done)
        e2.first[k] = val, vals.push_back(val++);
      b.fakeWrite(n);
      size_t room = m.cap - m.q.size();
      for (size_t k = 0; k < n && k < room; ++k)
        m.q.push_back(vals[k]);
      written += done;
      break;
    }
    case 8:
      what = "copy out";
      {
        RB d(b);
        same(d, m, "copy");
        other = b;
        om = m;
      }
      break;
    case 9:
      what = "assign back";
      b = other;
      m = om;
      break;
    case 10:
      what = "modify through reference";
      if (!m.q.empty())
      {
        size_t k = (size_t)v % m.q.size();
        b.at(k) = (int)v + 1000;
        m.q[k] = (int)v + 1000;
        RB::iterator it = b.begin();
        it += (ptrdiff_t)k;
        *it += 1;
        m.q[k] += 1;
        b.front() += 3;
        m.q.front() += 3;
      }
      break;
    case 11:
      what = "fill until full";
      while (!b.full())
      {
        VP_CHECK(m.q.size() < m.cap, "not full although " << m.cap << " elements are stored");
        b.write((int)v);
        m.q.push_back((int)v++);
        written++;
      }
      break;
    }
    if (written > m.cap)
      wrapped = true;
    same(b, m, what);
    same(other, om, "the copy");
  }
  if (wrapped)
    x.label("more written than the capacity");
  if (overwrote)
    x.label("overwrote old elements");
  x.nontrivial(wrapped && c.ops.size() > 3);
}

int main(int argc, char **argv)
{
  auto head = opGen([]() { return mk(0, {pick(0, 8)}); });
  auto g = opGen([]() {
    int k = (int)oneOf<int64_t>({0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 3, 4, 5, 6, 6, 7, 7, 8, 9, 10, 11});
    return mk(k, {pick(0, 99)});
  });
  std::vector<Sub> subs;
  subs.push_back({"history", headCase(head, g), run, 300000, 4500000});
  subs[0].max_size = 40;
  return checkMain(argc, argv, "C04",
                   "Histories of write, overwriting write, read, skip, bulk skip, clear, capacity change, direct fill of the free space, copy, "
                   "assignment and element modification on buffers of capacity 0 to 8, each step compared with a bounded queue through every "
                   "observer (size, at, iterators, array views). Non-trivial: more elements were written than the capacity, so that the buffer "
                   "wrapped around.",
                   subs);
}
