// vp: profile=asanub mods=core
// Sequence numbers: counting stays in range, order agrees with the counting order across the wrap.
#include "vp.hpp"
#include <icl_core/SequenceNumber.h>
using namespace vp;

template <class T, T MAX, T MIN, T INIT>
static void runT(const Case &c, Ctx &x)
{
  typedef icl_core::SequenceNumber<T, MAX, MIN, INIT> Seq;
  const __int128 range = (__int128)MAX - (__int128)MIN;
  VP_CHECK(T(Seq()) == INIT, "initial value");
  VP_CHECK(Seq::maxValue() == MAX && Seq::minValue() == MIN, "limits");
  for (const Op &o : c.ops)
  {
    uint64_t off = (uint64_t)N(o, 0);
    T start = (T)(MIN + (T)(off % (uint64_t)range)); // a value that counting can produce
    int64_t steps = N(o, 1);
    // never compare at or beyond half the range: the order is only meaningful within half a window
    int64_t half = (int64_t)std::min<__int128>(range / 2 - 1, 1 << 20);
    if (half < 1)
      continue;
    if (N(o, 2) == 1)
      start = (T)(MAX - 1 - (T)(steps % 5));
    steps = 1 + steps % half;
    if (steps > 3000)
      steps = 3000;
    Seq a(start), s(start);
    VP_CHECK(T(a) == start && a == s && !(a != s) && a <= s && a >= s && !(a < s) && !(a > s), "a number equals itself");
    bool wrapped = false;
    for (int64_t i = 1; i <= steps; ++i)
    {
      T before = T(s);
      if (i % 2)
      {
        Seq r = s++;
        VP_CHECK(T(r) == before, "postfix increment returns the old value");
      }
      else
      {
        Seq &r = ++s;
        VP_CHECK(&r == &s, "prefix increment returns its object");
      }
      T now = T(s);
      Seq other(before);
      if (i % 2)
        ++other;
      else
        other++;
      VP_CHECK(T(other) == now, "after " << (long long)before << " the prefix increment goes to " << (long long)(i % 2 ? T(other) : now)
                                         << ", the postfix one to " << (long long)(i % 2 ? now : T(other)));
      VP_CHECK(now >= MIN && now <= MAX, "counting leaves the range: " << (long long)now);
      VP_CHECK(now == (T)(before + 1) || (now == MIN && ((__int128)before + 1 >= (__int128)MAX)),
               "after " << (long long)before << " comes " << (long long)now);
      if (now == MIN)
        wrapped = true;
      // order within half the range
      VP_CHECK(a < s, (long long)start << " < " << (long long)now << " after " << i << " increments");
      VP_CHECK(a <= s && s > a && s >= a && !(s < a) && !(s <= a) && !(a > s) && !(a >= s) && a != s && !(a == s),
               "the comparisons of " << (long long)start << " and " << (long long)now << " (" << i << " increments apart) disagree");
    }
    Seq d(start);
    d = s;
    VP_CHECK(d == s, "assignment");
    d = start;
    VP_CHECK(d == a, "assignment of a raw value");
    Seq e(s);
    VP_CHECK(e == s, "copy");
    if (wrapped)
      x.label("wrapped");
    x.nontrivial(wrapped && steps > 1);
  }
}

int main(int argc, char **argv)
{
  auto g = opGen([]() { return mk(0, {wide(0, INT64_MAX), coin(50) ? pick(0, 300) : pick(0, 1 << 20), coin(60) ? 1 : 0}); });
  std::vector<Sub> subs;
  auto add = [&](const char *n, Runner r) {
    Sub s{n, opsCase(g), r, 160000, 2400000};
    s.max_size = 6;
    subs.push_back(s);
  };
  add("u8", runT<uint8_t, 255, 0, 0>);
  add("u8 small", runT<uint8_t, 10, 0, 3>);
  add("u16", runT<uint16_t, 1000, 0, 0>);
  add("u16 with minimum", runT<uint16_t, 300, 100, 150>);
  add("u32", runT<uint32_t, 0xffffffffu, 0, 0>);
  add("u32 with minimum", runT<uint32_t, 5000, 4000, 4000>);
  add("u64", runT<uint64_t, 0xffffffffffffffffull, 0, 0>);
  add("i32", runT<int32_t, 500, 1, 1>);
  return checkMain(argc, argv, "C06",
                   "Start values over the whole range of eight instantiations (8 to 64 bit, with and without a minimum and an initial value), "
                   "weighted to the wrap, and up to 3000 increments within less than half the range. Non-trivial: counting wrapped around.",
                   subs, "exploration", {"numbers half the range or more apart have no defined order"});
}
