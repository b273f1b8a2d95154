// Engine for the property checks: generated cases, oracles, shrinking, replay, evidence.
// A case is a list of operations, each with integer and string arguments, so that any case can be
// written to a file and replayed without the generator.
#ifndef VP_HPP
#define VP_HPP
#include <cstdint>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <vector>

#ifndef VP_NO_RC
#include <rapidcheck.h>
#endif

namespace vp {

struct Op
{
  int k = 0;
  std::vector<int64_t> n;
  std::vector<std::string> s;
};

struct Case
{
  std::vector<Op> ops;
};

std::string serialize(const Case &c);
bool deserialize(const std::string &text, Case &c);

struct Failure
{
  std::string msg;
};

class Ctx
{
public:
  //! Mark the case as non-trivial (see the rule of the check).
  void nontrivial(bool b = true) { m_nontrivial = m_nontrivial || b; }
  //! Count a class of case in the distribution that goes into the evidence.
  void label(const std::string &l) { m_labels[l] = 1; }
  //! A scratch directory of this case, created on first use and removed afterwards.
  const std::string &dir();

  bool m_nontrivial = false;
  std::map<std::string, int> m_labels;
  std::string m_dir;
};

typedef std::function<void(const Case &, Ctx &)> Runner;

struct Sub
{
  std::string name;
#ifndef VP_NO_RC
  rc::Gen<Case> gen;
#endif
  Runner run;
  int quick = 1000;
  int thorough = 20000;
  bool fork = false;   //!< run every case in a process of its own
  int timeout = 60;    //!< seconds without an end after which a case counts as not terminating
  int max_size = 60;
  bool racy = false;   //!< real threads: a replay need not fail every time
  int shards = 0;      //!< 0: chosen by the engine
};

//! Runs a forked function with a hard deadline; see vp.cpp.
struct ChildResult
{
  bool ok = false;          //!< function returned
  bool timed_out = false;
  std::string crash;        //!< non-empty: how it died, with the end of its output
  std::string data;         //!< what the function returned
};
ChildResult inChild(const std::function<std::string()> &f, int timeout_s);

//! Ends the case of the current (forked) process as failed, from any thread.
[[noreturn]] void failNow(const std::string &msg);

std::string escape(const std::string &s);
std::string unescape(const std::string &s);
std::string readFile(const std::string &path);
void writeFile(const std::string &path, const std::string &content);
void removeTree(const std::string &path);

} // namespace vp

#define VP_CHECK(cond, msg)                                                                        \
  do                                                                                               \
  {                                                                                                \
    if (!(cond))                                                                                   \
    {                                                                                              \
      std::ostringstream vp_o;                                                                     \
      vp_o << msg << "   [" #cond "]";                                                             \
      throw ::vp::Failure{vp_o.str()};                                                             \
    }                                                                                              \
  } while (0)

#define VP_EQ(got, want, msg)                                                                      \
  do                                                                                               \
  {                                                                                                \
    auto vp_g = (got);                                                                             \
    auto vp_w = (want);                                                                            \
    if (!(vp_g == vp_w))                                                                           \
    {                                                                                              \
      std::ostringstream vp_o;                                                                     \
      vp_o << msg << ": " #got " is " << vp_g << ", expected " << vp_w;                            \
      throw ::vp::Failure{vp_o.str()};                                                             \
    }                                                                                              \
  } while (0)

#ifndef VP_NO_RC
namespace rc { namespace detail {} }
namespace vp {

void showValue(const Case &c, std::ostream &os);
inline std::ostream &operator<<(std::ostream &os, const Case &c) { return os << serialize(c); }
inline std::ostream &operator<<(std::ostream &os, const Op &o) { Case c; c.ops.push_back(o); return os << serialize(c); }

//! A check: id, the rule for non-trivial cases, and its parts.
int checkMain(int argc, char **argv, const std::string &id, const std::string &rule,
              const std::vector<Sub> &subs, const std::string &level = "exploration",
              const std::vector<std::string> &assumptions = std::vector<std::string>());

// ---- generator helpers ---------------------------------------------------------------------
//! Uniform in [lo, hi], whatever the current size.
inline rc::Gen<int64_t> R(int64_t lo, int64_t hi)
{
  return rc::gen::resize(100, rc::gen::inRange<int64_t>(lo, hi + 1));
}
inline int64_t pick(int64_t lo, int64_t hi) { return *R(lo, hi); }
inline bool coin(int percent) { return pick(0, 99) < percent; }
template <class T>
inline T oneOf(std::initializer_list<T> l)
{
  std::vector<T> v(l);
  return v[pick(0, (int64_t)v.size() - 1)];
}
template <class T>
inline T oneOf(const std::vector<T> &v)
{
  return v[pick(0, (int64_t)v.size() - 1)];
}
inline std::string oneStr(std::initializer_list<const char *> l)
{
  std::vector<const char *> v(l);
  return v[pick(0, (int64_t)v.size() - 1)];
}
//! String over an alphabet with a length in [lo, hi]; shrinks by dropping characters.
std::string str(const std::string &alphabet, int lo, int hi);
//! 64 bit values with an emphasis on small values and boundaries.
int64_t wide(int64_t lo, int64_t hi);

//! A case from an operation generator; the length follows the size.
inline rc::Gen<Case> opsCase(const rc::Gen<Op> &g)
{
  return rc::gen::map(rc::gen::container<std::vector<Op>>(g), [](std::vector<Op> v) {
    Case c;
    c.ops = std::move(v);
    return c;
  });
}
//! A case with fixed leading operations followed by a generated sequence.
inline rc::Gen<Case> headCase(const rc::Gen<Op> &head, const rc::Gen<Op> &g)
{
  return rc::gen::map(rc::gen::pair(head, rc::gen::container<std::vector<Op>>(g)),
                      [](std::pair<Op, std::vector<Op>> p) {
                        Case c;
                        c.ops.push_back(std::move(p.first));
                        for (auto &o : p.second)
                          c.ops.push_back(std::move(o));
                        return c;
                      });
}
inline rc::Gen<Case> oneCase(const rc::Gen<Op> &g)
{
  return rc::gen::map(g, [](Op o) {
    Case c;
    c.ops.push_back(std::move(o));
    return c;
  });
}
inline rc::Gen<Op> opGen(const std::function<Op()> &f) { return rc::gen::exec(f); }
inline Op mk(int k, std::vector<int64_t> n = {}, std::vector<std::string> s = {})
{
  Op o;
  o.k = k;
  o.n = std::move(n);
  o.s = std::move(s);
  return o;
}
//! Argument access that tolerates cases whose operations were cut down by shrinking.
inline int64_t N(const Op &o, size_t i) { return i < o.n.size() ? o.n[i] : 0; }
inline const std::string &S(const Op &o, size_t i)
{
  static const std::string empty;
  return i < o.s.size() ? o.s[i] : empty;
}
} // namespace vp
#endif
#endif
