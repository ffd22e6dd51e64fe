// C01: the LRU object cache against a reference model, every operation sequence to the depth bound.
#include <mc/mc.hpp>
#include <trajopt_common/cache.h>
#include <deque>
#include <map>
using namespace mc;
const CheckInfo mc::info = { "C01", "model_checking",
  "every sequence of get / get-or-acquire / put(any object seen so far) / erase over 3 keys (two of them with colliding "
  "hashes) for each initial capacity, executed on a fresh cache in lockstep with a reference LRU map; a state is the "
  "reference state (recency order, key-object map, free and handed-out objects, capacity)",
  { "objects handed to put() come from the cache itself (the documented precondition)",
    "single-threaded use, as documented" } };

namespace
{
struct Key { int v = -1; };
struct KHash { size_t operator()(const Key& k) const { return size_t(k.v == 2 ? 1 : k.v); } };
struct KEq { bool operator()(const Key& a, const Key& b) const { return a.v == b.v; } };
struct Obj { int stamp = 0; };
using CacheT = trajopt_common::Cache<Key, Obj, KHash, KEq>;

struct Model
{
  size_t cap;
  std::vector<Obj*> seen;               // objects in order of first appearance (index = id)
  std::vector<std::shared_ptr<Obj>> ptr;
  std::vector<int> stamp;               // what the harness wrote into them
  std::vector<char> out;                // handed out, not stored since
  std::deque<std::pair<int, int>> lru;  // (key, object), front = most recent
  int find(int key) const
  {
    for (size_t i = 0; i < lru.size(); ++i)
      if (lru[i].first == key)
        return int(i);
    return -1;
  }
  bool mapped(int o) const
  {
    for (auto& p : lru)
      if (p.second == o)
        return true;
    return false;
  }
  int id(const std::shared_ptr<Obj>& p)
  {
    for (size_t i = 0; i < seen.size(); ++i)
      if (seen[i] == p.get())
        return int(i);
    return -1;
  }
  size_t nout() const
  {
    size_t n = 0;
    for (char c : out)
      n += c != 0;
    return n;
  }
  uint64_t hash() const
  {
    Hash h;
    h.u(cap);
    for (auto& p : lru)
      h.u(uint64_t(p.first)).u(uint64_t(p.second));
    h.u(99);
    for (char c : out)
      h.u(uint64_t(c) + 1);
    return h;
  }
};
const int NK = 3;

// executes one history; next(nops, step) gives the next operation or -1 to end. Returns the reference state.
uint64_t history(Ctx& c, size_t cap, const std::function<int(int, int)>& next)
{
    CacheT cache(cap);
    Model m;
    m.cap = cap == 0 ? 1 : cap;
    int stampc = 1;
    std::string trace;
    auto bad = [&](const char* key, const std::string& msg) { c.fail(key, "capacity " + std::to_string(cap) + ":" + trace + "\n  " + msg); };
    auto check = [&] {
      if (cache.size() != m.lru.size())
        bad("size", str("size() is ", cache.size(), ", ", m.lru.size(), " keys are stored"));
      if (cache.capacity() != m.cap)
        bad("capacity", str("capacity() is ", cache.capacity(), ", expected ", m.cap));
      for (size_t i = 0; i < m.seen.size(); ++i)
        if (m.seen[i]->stamp != m.stamp[i])
          bad("content", str("object ", i, " was changed"));
      c.state(m.hash());
    };
    check();
    for (int s = 0;; ++s)
    {
      const int nobj = int(std::min<size_t>(m.seen.size(), 4));
      const int nops = NK * 3 + NK * nobj;
      const int op = next(nops, s);
      if (op < 0 || op >= nops)
        break;
      c.transitions();
      const int k = op % NK;
      const int kind = op / NK;
      if (kind == 0)
      {
        trace += str(" goa(", k, ")");
        auto r = cache.getOrAcquire(Key{ k });
        int i = m.find(k);
        if (i >= 0)
        {
          auto e = m.lru[size_t(i)];
          if (!r.second || r.first.get() != m.seen[size_t(e.second)])
            bad("hit", "a stored key was not answered with its object");
          m.lru.erase(m.lru.begin() + i);
          m.lru.push_front(e);
        }
        else
        {
          if (r.second || !r.first)
            bad("miss", "a key that is not stored was answered as a hit or with nothing");
          int o = m.id(r.first);
          size_t nfree = m.cap - m.lru.size() - m.nout();
          if (o >= 0 && m.out[size_t(o)])
            bad("double-handout", str("object ", o, " is handed out a second time before being stored"));
          if (nfree > 0)
          {
            if (o >= 0 && m.mapped(o))
              bad("early-evict", str("object ", o, " of a stored key handed out although ", nfree, " slots are free"));
          }
          else if (!m.lru.empty())
          {
            if (o != m.lru.back().second)
              bad("evict-not-lru", str("handed out object ", o, " instead of that of the least recently used key ", m.lru.back().first));
            m.lru.pop_back();
          }
          else
          {
            if (o >= 0)
              bad("grow", "an object already in use was handed out instead of growing");
            m.cap *= 2;
          }
          if (o < 0)
          {
            o = int(m.seen.size());
            m.seen.push_back(r.first.get());
            m.ptr.push_back(r.first);
            m.stamp.push_back(0);
            m.out.push_back(0);
            if (m.seen.size() > m.cap)
              bad("pool", "more distinct objects than capacity");
          }
          m.out[size_t(o)] = 1;
          r.first->stamp = m.stamp[size_t(o)] = stampc++;
        }
      }
      else if (kind == 1)
      {
        trace += str(" get(", k, ")");
        auto p = cache.get(Key{ k });
        int i = m.find(k);
        if (i < 0)
        {
          if (p)
            bad("stale", "get() returned an object for a key that is not stored");
        }
        else
        {
          auto e = m.lru[size_t(i)];
          if (p.get() != m.seen[size_t(e.second)])
            bad("hit", "get() did not return the object stored for the key");
          m.lru.erase(m.lru.begin() + i);
          m.lru.push_front(e);
        }
      }
      else if (kind == 2)
      {
        trace += str(" erase(", k, ")");
        cache.erase(Key{ k });
        int i = m.find(k);
        if (i >= 0)
          m.lru.erase(m.lru.begin() + i);
      }
      else
      {
        const int o = kind - 3;
        trace += str(" put(", k, ",obj", o, ")");
        if (!cache.put(Key{ k }, m.ptr[size_t(o)]))
          bad("put", "put() of an object of this cache failed");
        for (size_t i = 0; i < m.lru.size();)
          if (m.lru[i].first == k || m.lru[i].second == o)
            m.lru.erase(m.lru.begin() + long(i));
          else
            ++i;
        m.lru.push_front({ k, o });
        m.out[size_t(o)] = 0;
      }
      check();
    }
    // final sweep: everything stored is answered, everything else is a miss
    for (int k = 0; k < NK; ++k)
    {
      auto p = cache.get(Key{ k });
      int i = m.find(k);
      if (i < 0 ? p != nullptr : p.get() != m.seen[size_t(m.lru[size_t(i)].second)])
        bad("final", str("final get(", k, ") wrong"));
    }
    c.traces();
    c.outcome(m.hash());
    c.note(trace);
    return m.hash();
}
}  // namespace

void mc::explore(Ctx& c)
{
  for (size_t cap : { 2, 1, 3, 0 })
    for (int first = 0; first < 3 * NK; ++first)
    {
      const int depth = c.thorough ? 6 : 5;
      c.item([=] { return str("all sequences: capacity=", cap, " first-op=", first, " depth=", depth); },
             [&, cap, first, depth] {
               Dfs d(c);
               d.run([&] { history(c, cap, [&](int n, int s) { return s == 0 ? first : s < depth ? d.choose(n) : -1; }); });
             });
    }
  // beyond that depth: breadth-first over (reference state, last operations), every operation from every such state
  for (size_t cap : { 1, 2, 3, 4 })
    c.item([=] { return str("breadth-first: capacity=", cap); },
           [&, cap] {
             const size_t tail = c.thorough ? 2 : 1;
             std::unordered_set<uint64_t> seen;
             std::deque<std::vector<int>> q{ {} };
             size_t maxlen = 0;
             const size_t maxdepth = c.thorough ? 10 : 8;
             while (!q.empty() && q.front().size() < maxdepth)
             {
               auto h = q.front();
               q.pop_front();
               for (int op = 0; op < NK * 7; ++op)
               {
                 auto g = h;
                 g.push_back(op);
                 bool taken = false;
                 uint64_t st = history(c, cap, [&](int n, int s) {
                   if (s >= int(g.size()))
                     return -1;
                   if (s == int(g.size()) - 1)
                     taken = g[size_t(s)] < n;
                   return g[size_t(s)];
                 });
                 if (!taken)
                   continue;
                 Hash k;
                 k.u(st);
                 for (size_t i = g.size() > tail ? g.size() - tail : 0; i < g.size(); ++i)
                   k.u(uint64_t(g[i]));
                 if (seen.insert(k).second)
                 {
                   maxlen = std::max(maxlen, g.size());
                   q.push_back(g);
                 }
               }
             }
             c.count("bfs_states", seen.size());
             c.note(str(seen.size(), " states, longest history ", maxlen));
           });
}
