// Bounded exhaustive exploration framework used by every check in /verif.
//
// A check defines   void mc::explore(mc::Ctx& c)   which enumerates, deterministically, a finite set of items
// (c.item(...)). An item is one configuration; inside an item a mc::Dfs may enumerate every choice sequence of a
// stateless exploration. The supervisor (mc.cpp) forks one child per shard; every child runs the same enumeration and
// executes the items whose index falls into its shard. A crash, failed assertion, sanitizer report, escaped exception
// or hang in an item is a failure of that item. Every failure is replayed alone before it is reported.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>

namespace mc
{
struct CheckInfo
{
  const char* property;
  const char* level;   // exploration | model_checking | fault_enumeration
  const char* rule;    // how cases are made, and what makes one distinct and non-trivial
  std::vector<const char*> assumptions;
  int watchdog_s = 60; // no item/transition progress for this long: suspected hang (re-run alone with 3x the time)
};
extern const CheckInfo info;

struct CaseFailed {};
struct SkipExecution {};

struct Shared;  // shared-memory block of one shard (mc.cpp)

class Ctx
{
public:
  bool thorough = false;
  uint64_t seed = 1;

  // One configuration. desc is only evaluated for samples, failures and replays.
  void item(const std::function<std::string()>& desc, const std::function<void()>& body);
  // Skip a block of n items cheaply (not executed by any shard) is not offered on purpose: nothing is sampled.

  [[noreturn]] void fail(const std::string& key, const std::string& msg);
  void check(bool ok, const std::string& key, const std::string& msg)
  {
    if (!ok)
      fail(key, msg);
  }
  template <class F>
  void checkf(bool ok, const char* key, F msg)
  {
    if (!ok)
      fail(key, msg());
  }
  void transitions(uint64_t n = 1);          // operations / steps performed on the implementation
  void traces(uint64_t n = 1);               // complete executions compared with the reference
  bool state(uint64_t hash);                 // distinct states (or cases); true if new in this shard
  void outcome(uint64_t hash);               // distinct observed results
  void note(const std::string& s);           // text attached to the current item if it becomes a sample
  void count(const std::string& name, uint64_t n = 1);  // extra named counters in the evidence
  void beat();                               // progress for the watchdog

  // internal
  Shared* sh = nullptr;
  int shard = 0, nshards = 1;
  int64_t only = -1, start = 0, next = 0, cur = -1;
  bool replaying = false;
  std::function<std::string()> curdesc;
  std::string curnote;
  std::unordered_set<uint64_t> states, outcomes;
  std::vector<std::pair<std::string, uint64_t>> counters;
  std::vector<std::string> samples;
  int64_t next_sample = 0;
};

void explore(Ctx& c);

// Stateless depth-first exploration of a choice tree.
//   mc::Dfs d(c); d.run([&]{ ... int k = d.choose(3); ... });
// If max_dev >= 0, at most max_dev choices along one execution may differ from choice 0.
class Dfs
{
public:
  explicit Dfs(Ctx& c, int max_dev = -1) : c_(c), max_dev_(max_dev) {}
  void run(const std::function<void()>& body);
  int choose(int n);
  const std::vector<int>& path() const { return path_; }
  std::string pathText() const;
  uint64_t executions = 0;

private:
  Ctx& c_;
  int max_dev_;
  std::vector<int> path_, width_;
  size_t pos_ = 0;
  int dev_ = 0;
};

// hashing
struct Hash
{
  uint64_t h = 1469598103934665603ull;
  Hash& raw(const void* p, size_t n)
  {
    const auto* b = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; ++i)
    {
      h ^= b[i];
      h *= 1099511628211ull;
    }
    return *this;
  }
  Hash& u(uint64_t v)
  {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 32;
    return *this;
  }
  Hash& d(double v)
  {
    if (v == 0)
      v = 0;  // merge -0 and 0
    uint64_t b;
    std::memcpy(&b, &v, 8);
    return u(b);
  }
  Hash& s(const std::string& v) { return raw(v.data(), v.size()).u(v.size()); }
  operator uint64_t() const { return h; }
};

inline bool near(double a, double b, double tol = 1e-9)
{
  if (a == b)
    return true;
  if (std::isnan(a) || std::isnan(b) || std::isinf(a) || std::isinf(b))
    return false;
  return std::fabs(a - b) <= tol * (1.0 + std::fabs(a) + std::fabs(b));
}

template <class... A>
std::string str(const A&... a)
{
  std::ostringstream o;
  o.precision(12);
  (o << ... << a);
  return o.str();
}
template <class V>
std::string vec(const V& v)
{
  std::ostringstream o;
  o.precision(12);
  o << '[';
  for (size_t i = 0; i < static_cast<size_t>(v.size()); ++i)
    o << (i ? "," : "") << v[static_cast<int>(i)];
  o << ']';
  return o.str();
}
}  // namespace mc
