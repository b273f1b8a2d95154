// vp: profile=asanub mods=core
// SHA-2 digests against an independent implementation of FIPS 180 whose constants are computed.
#include "vp.hpp"
#include <icl_core_crypt/Sha2.h>
#include <memory>
using namespace vp;

// ---- reference: constants from the roots of primes, textbook message schedule ----
typedef std::vector<uint32_t> Big; // little endian
static Big mul(const Big &a, const Big &b)
{
  Big r(a.size() + b.size(), 0);
  for (size_t i = 0; i < a.size(); ++i)
  {
    uint64_t carry = 0;
    for (size_t j = 0; j < b.size() || carry; ++j)
    {
      uint64_t t = r[i + j] + carry + (j < b.size() ? (uint64_t)a[i] * b[j] : 0);
      r[i + j] = (uint32_t)t;
      carry = t >> 32;
    }
  }
  return r;
}
static bool le(Big a, Big b)
{
  size_t n = std::max(a.size(), b.size());
  a.resize(n);
  b.resize(n);
  for (size_t i = n; i-- > 0;)
    if (a[i] != b[i])
      return a[i] < b[i];
  return true;
}
//! The first 64 bits of the fraction of the square or cube root of p.
static uint64_t rootFraction(uint32_t p, int k)
{
  Big target((size_t)(2 * k), 0);
  target.push_back(p); // p * 2^(64 k)
  Big x(3, 0);
  for (int bit = 69; bit >= 0; --bit)
  {
    Big y = x;
    y[bit / 32] |= 1u << (bit % 32);
    Big q = mul(y, y);
    if (k == 3)
      q = mul(q, y);
    if (le(q, target))
      x = y;
  }
  return (uint64_t)x[1] << 32 | x[0];
}

struct Consts
{
  uint64_t k[80], h512[8], h384[8];
  Consts()
  {
    int n = 0;
    for (uint32_t p = 2; n < 80; ++p)
    {
      bool prime = true;
      for (uint32_t d = 2; d * d <= p; ++d)
        prime = prime && p % d;
      if (!prime)
        continue;
      k[n] = rootFraction(p, 3);
      if (n < 8)
        h512[n] = rootFraction(p, 2);
      else if (n < 16)
        h384[n - 8] = rootFraction(p, 2);
      ++n;
    }
  }
};
static const Consts &consts()
{
  static Consts c;
  return c;
}

template <class W>
static W ror(W x, int n) { return (W)(x >> n | x << (8 * sizeof(W) - n)); }

template <class W>
static std::string refDigest(const std::string &msg, const W *init, int words)
{
  const bool wide = sizeof(W) == 8;
  const size_t block = 16 * sizeof(W);
  std::string m = msg + '\x80';
  while (m.size() % block != block - (wide ? 16 : 8))
    m += '\0';
  if (wide)
    m += std::string(8, '\0');
  for (int i = 7; i >= 0; --i)
    m += (char)((uint64_t)msg.size() * 8 >> (8 * i));
  W h[8];
  for (int i = 0; i < 8; ++i)
    h[i] = init[i];
  const int rounds = wide ? 80 : 64;
  const int s[12] = {28, 34, 39, 14, 18, 41, 1, 8, 7, 19, 61, 6}, t[12] = {2, 13, 22, 6, 11, 25, 7, 18, 3, 17, 19, 10};
  const int *r = wide ? s : t;
  for (size_t b = 0; b < m.size(); b += block)
  {
    std::vector<W> w(rounds);
    for (int i = 0; i < 16; ++i)
      for (size_t j = 0; j < sizeof(W); ++j)
        w[i] = (W)(w[i] << 8 | (uint8_t)m[b + i * sizeof(W) + j]);
    for (int i = 16; i < rounds; ++i)
      w[i] = w[i - 16] + (ror(w[i - 15], r[6]) ^ ror(w[i - 15], r[7]) ^ (W)(w[i - 15] >> r[8])) + w[i - 7] +
             (ror(w[i - 2], r[9]) ^ ror(w[i - 2], r[10]) ^ (W)(w[i - 2] >> r[11]));
    W v[8];
    for (int i = 0; i < 8; ++i)
      v[i] = h[i];
    for (int i = 0; i < rounds; ++i)
    {
      W k = wide ? (W)consts().k[i] : (W)(consts().k[i] >> 32);
      W t1 = v[7] + (ror(v[4], r[3]) ^ ror(v[4], r[4]) ^ ror(v[4], r[5])) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + k + w[i];
      W t2 = (ror(v[0], r[0]) ^ ror(v[0], r[1]) ^ ror(v[0], r[2])) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
      for (int j = 7; j > 0; --j)
        v[j] = v[j - 1];
      v[4] += t1;
      v[0] = t1 + t2;
    }
    for (int i = 0; i < 8; ++i)
      h[i] += v[i];
  }
  std::string out;
  for (int i = 0; i < words; ++i)
    for (int j = (int)sizeof(W) * 2 - 1; j >= 0; --j)
      out += "0123456789abcdef"[h[i] >> (4 * j) & 15];
  return out;
}

static std::string ref(int variant, const std::string &m)
{
  uint32_t w[8];
  for (int i = 0; i < 8; ++i)
    w[i] = variant == 0 ? (uint32_t)consts().h384[i] : (uint32_t)(consts().h512[i] >> 32);
  switch (variant)
  {
  case 0: return refDigest<uint32_t>(m, w, 7);
  case 1: return refDigest<uint32_t>(m, w, 8);
  case 2: return refDigest<uint64_t>(m, consts().h384, 6);
  default: return refDigest<uint64_t>(m, consts().h512, 8);
  }
}

static std::string bytes(int64_t seed, size_t n, bool zeros)
{
  std::string r;
  uint64_t s = (uint64_t)seed * 2862933555777941757ull + 3037000493ull;
  for (size_t i = 0; i < n; ++i)
  {
    s = s * 6364136223846793005ull + 1442695040888963407ull;
    char ch = (char)(s >> 37);
    r += ch || zeros ? ch : 'z';
  }
  return r;
}

template <class H>
static void runT(int variant, const Case &c, Ctx &x)
{
  std::unique_ptr<H> h(new H), other;
  std::string m, mo;
  int feeds = 0, clears = 0;
  auto finish = [&](H &g, const std::string &msg) {
    H &same = g.finalize();
    VP_CHECK(&same == &g, "finalize returns its object");
    std::string d = g.getHexDigest();
    VP_EQ(d, ref(variant, msg), "digest of a message of " << msg.size() << " bytes in " << feeds << " parts");
    VP_EQ(g.getHexDigest(), d, "digest asked for again");
    x.nontrivial(feeds > 1 && msg.size() > 64);
  };
  for (const Op &o : c.ops)
  {
    size_t n = (size_t)N(o, 1);
    switch (o.k)
    {
    case 0: // buffer with a size
    {
      std::string d = bytes(N(o, 0), n, true);
      std::unique_ptr<char[]> exact(new char[d.size() + 1]); // redzone directly behind the data
      std::copy(d.begin(), d.end(), exact.get());
      h->process((const void *)exact.get(), d.size());
      m += d;
      ++feeds;
      break;
    }
    case 1: // String
    {
      std::string d = bytes(N(o, 0), n, true);
      h->process(d);
      m += d;
      ++feeds;
      break;
    }
    case 2: // zero terminated
    {
      std::string d = bytes(N(o, 0), n, false);
      h->process(d.c_str());
      m += d;
      ++feeds;
      break;
    }
    case 3: // digest, then a new hash
      finish(*h, m);
      h->clear();
      m.clear();
      ++clears;
      break;
    case 4:
      h->clear();
      m.clear();
      break;
    case 5: // the state can be copied
      other.reset(new H(*h));
      mo = m;
      break;
    case 6:
      if (other)
      {
        std::swap(h, other);
        std::swap(m, mo);
      }
      break;
    }
  }
  finish(*h, m);
  if (other)
    finish(*other, mo);
  h->clear();
  h->process("abc");
  feeds = 1;
  m = "abc";
  finish(*h, m);
  if (clears)
    x.label("reused");
}

static void run(const Case &c, Ctx &x)
{
  runT<icl_core::crypt::Sha224>(0, c, x);
  runT<icl_core::crypt::Sha256>(1, c, x);
  runT<icl_core::crypt::Sha384>(2, c, x);
  runT<icl_core::crypt::Sha512>(3, c, x);
}

int main(int argc, char **argv)
{
  auto len = []() { return coin(50) ? oneOf<int64_t>({0, 1, 8, 9, 47, 55, 56, 57, 63, 64, 65, 111, 112, 113, 119, 120, 127, 128, 129, 256}) : coin(90) ? pick(0, 200) : pick(200, 1500); };
  auto g = opGen([len]() {
    int k = (int)pick(0, 99);
    if (k < 35)
      return mk(0, {pick(0, 1 << 20), len()});
    if (k < 60)
      return mk(1, {pick(0, 1 << 20), len()});
    if (k < 85)
      return mk(2, {pick(0, 1 << 20), len()});
    return mk(k < 92 ? 3 : k < 94 ? 4 : k < 97 ? 5 : 6);
  });
  auto one = oneCase(opGen([]() { return mk((int)pick(0, 2), {pick(0, 1 << 20), pick(0, 300)}); }));
  Sub s1{"histories", opsCase(g), run, 12000, 300000};
  Sub s2{"single parts", one, run, 6000, 100000};
  Sub s3{"long", opsCase(opGen([]() { return mk((int)pick(0, 2), {pick(0, 1 << 20), pick(30000, 200000)}); })), run, 16, 300};
  s1.max_size = 14;
  s3.max_size = 4;
  s3.timeout = 200;
  return checkMain(argc, argv, "C18",
                   "messages fed in parts through three interfaces, with reuse after clear and copies of the running state, for all four "
                   "algorithms; non-trivial: more than one part and more than one block",
                   {s1, s2, s3}, "exploration",
                   {"the reference is written from FIPS 180; its constants are computed from the primes and it reproduces the published digests of \"abc\""});
}
