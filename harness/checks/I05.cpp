// I05: layout of trajectory variables, observers and fingerprint.
#include <mc/mc.hpp>
#include <trajopt_ifopt/variable_sets/node.h>
#include <trajopt_ifopt/variable_sets/nodes_observer.h>
#include <trajopt_ifopt/variable_sets/nodes_variables.h>
#include <trajopt_ifopt/variable_sets/var.h>
#include <console_bridge/console.h>
#include <limits>
using namespace mc;
using namespace trajopt_ifopt;
using Eigen::VectorXd;
const CheckInfo mc::info = { "I05", "model_checking",
  "every arrangement of up to 3 (thorough 4) nodes, each with up to 2 (one node: 4; two nodes: 3) variables that are scalar or blocks of 1-3, with 0-2 observers, and on each every sequence "
  "of 3 (thorough 4) full-vector assignments from {zero, minus zero, ramp, out of bounds, one entry changed}; complete read-back after every assignment; initial values inside and outside bounds",
  { "variable names are unique within a node" } };
static const double INF = std::numeric_limits<double>::infinity();

struct Obs : NodesObserver
{
  std::weak_ptr<NodesVariables> s;
  std::vector<VectorXd> seen, first;
  Obs(const std::shared_ptr<NodesVariables>& v) : NodesObserver(v), s(v) {}
  void updateNodes() override
  {
    auto p = s.lock();
    seen.push_back(p->getValues());
    VectorXd f(p->getRows());
    int k = 0;
    for (auto& n : p->getNodes())
    {
      VectorXd x = n->getValues();
      for (int i = 0; i < x.size() && k < f.size(); ++i)
        f[k++] = x[i];
    }
    first.push_back(f);
  }
};
struct Model
{
  // flat expectations, in declaration order
  struct V { int node; std::string id; std::vector<std::string> names; int start, size; };
  std::vector<V> vars;
  std::vector<std::pair<double, double>> bounds;
  VectorXd x;
};
static bool same(const VectorXd& a, const VectorXd& b) { return a.size() == b.size() && (a.size() == 0 || (a.array() == b.array()).all()); }

static void compare(Ctx& c, const NodesVariables& nv, const Model& m, const std::vector<std::vector<std::shared_ptr<const Var>>>& handles)
{
  c.transitions();
  int N = int(m.x.size());
  c.checkf(nv.getRows() == N && nv.getDim() == N, "size", [&] { return str(nv.getRows(), " ", nv.getDim(), " expected ", N); });
  c.checkf(same(nv.getValues(), m.x), "read-back", [&] { return vec(nv.getValues()) + " expected " + vec(m.x); });
  auto b = nv.getBounds();
  c.checkf(int(b.size()) == N, "bounds-size", [&] { return str(b.size()); });
  for (int i = 0; i < N; ++i)
    c.checkf(b[size_t(i)].getLower() == m.bounds[size_t(i)].first && b[size_t(i)].getUpper() == m.bounds[size_t(i)].second, "bounds", [&] { return str("entry ", i); });
  auto nodes = nv.getNodes();
  c.checkf(nodes.size() == handles.size(), "node-count", [&] { return str(nodes.size()); });
  std::vector<int> used(size_t(N), 0);
  std::vector<int> pos(handles.size(), 0);
  std::vector<VectorXd> nodev(handles.size());
  for (auto& v : m.vars)
  {
    auto& node = *nodes[size_t(v.node)];
    c.checkf(nv.getNode(size_t(v.node)).get() == &node, "node-order", [&] { return str("node ", v.node); });
    c.checkf(node.hasVar(v.id) && !node.hasVar(v.id + "x"), "has-var", [&] { return v.id; });
    auto h = handles[size_t(v.node)][size_t(pos[size_t(v.node)]++)];
    c.checkf(node.getVar(v.id) == h, "handle", [&] { return v.id; });
    c.checkf(h->getIdentifier() == v.id && h->name() == v.names, "names", [&] { return v.id; });
    c.checkf(h->getIndex() == v.start && h->size() == v.size, "block", [&] { return str(v.id, " of node ", v.node, " at ", h->getIndex(), "+", h->size(), " expected ", v.start, "+", v.size); });
    c.checkf(same(h->value(), m.x.segment(v.start, v.size)), "block-value", [&] { return str(v.id, " of node ", v.node, " is ", vec(h->value()), " expected ", vec(VectorXd(m.x.segment(v.start, v.size)))); });
    c.checkf(int(h->bounds().size()) == v.size, "block-bounds", [&] { return v.id; });
    for (int i = 0; i < v.size; ++i)
    {
      ++used[size_t(v.start + i)];
      c.checkf(h->bounds()[size_t(i)].getLower() == b[size_t(v.start + i)].getLower() && h->bounds()[size_t(i)].getUpper() == b[size_t(v.start + i)].getUpper(), "block-bounds", [&] { return v.id; });
    }
    VectorXd& nvv = nodev[size_t(v.node)];
    VectorXd t(nvv.size() + v.size);
    t << nvv, m.x.segment(v.start, v.size);
    nvv = t;
  }
  for (int u : used)
    c.checkf(u == 1, "unique-block", [&] { return std::string("an entry does not belong to exactly one variable"); });
  for (size_t i = 0; i < nodes.size(); ++i)
  {
    c.checkf(nodes[i]->size() == nodev[i].size() && same(nodes[i]->getValues(), nodev[i]) && int(nodes[i]->getBounds().size()) == nodev[i].size(), "node-values",
             [&] { return str("node ", i, " is ", vec(nodes[i]->getValues()), " expected ", vec(nodev[i])); });
    c.checkf(nodes[i]->getParent() == &nv, "node-parent", [&] { return str("node ", i); });
  }
  c.outcome(Hash().raw(m.x.data(), sizeof(double) * size_t(N)));
}

// a node is a sequence of variable types: 0 scalar, 1..3 block of that many
using NodeT = std::vector<int>;
static void arrangement(Ctx& c, const std::vector<NodeT>& t, int nobs, int init)
{
  Model m;
  std::vector<std::unique_ptr<Node>> nodes;
  std::vector<std::vector<std::shared_ptr<const Var>>> handles;
  std::vector<double> xs;
  int start = 0;
  for (size_t n = 0; n < t.size(); ++n)
  {
    nodes.push_back(std::make_unique<Node>("n" + std::to_string(n)));
    handles.emplace_back();
    c.checkf(nodes.back()->getName() == "n" + std::to_string(n), "node-name", [&] { return std::string(); });
    for (size_t k = 0; k < t[n].size(); ++k)
    {
      int sz = std::max(1, t[n][k]);
      std::string id = "v" + std::to_string(k);
      Model::V v{ int(n), id, {}, start, sz };
      std::vector<Bounds> bs;
      VectorXd val(sz);
      for (int i = 0; i < sz; ++i)
      {
        int g = start + i;
        double lo = g % 4 == 1 ? -INF : -1.0 - g, hi = g % 4 == 2 ? INF : 2.0 + 0.5 * g;
        if (g % 4 == 3)
          lo = hi = 0.125 * g;
        m.bounds.emplace_back(lo, hi);
        bs.emplace_back(lo, hi);
        v.names.push_back(t[n][k] == 0 ? id : id + "_" + std::to_string(i));
        val[i] = init == 0 ? 0.25 * g : init == 1 ? 1e3 : -1e3;
        xs.push_back(std::min(std::max(val[i], lo), hi));
      }
      // a block with mismatched sizes is refused and leaves no trace
      bool threw = false;
      try
      {
        auto nm = v.names;
        nm.push_back("extra");
        nodes.back()->addVar("bad", nm, val, bs);
      }
      catch (const std::exception&)
      {
        threw = true;
      }
      c.checkf(threw, "mismatch-accepted", [&] { return id; });
      handles.back().push_back(t[n][k] == 0 ? nodes.back()->addVar(id, val[0], bs[0]) : nodes.back()->addVar(id, v.names, val, bs));
      m.vars.push_back(v);
      start += sz;
    }
  }
  m.x = Eigen::Map<VectorXd>(xs.data(), Eigen::Index(xs.size()));
  auto nv = std::make_shared<NodesVariables>("vars", std::move(nodes));
  std::vector<std::shared_ptr<Obs>> obs;
  for (int i = 0; i < nobs; ++i)
  {
    obs.push_back(std::make_shared<Obs>(nv));
    nv->addObserver(obs.back());
  }
  compare(c, *nv, m, handles);
  int N = start;
  std::vector<VectorXd> pts;
  pts.push_back(VectorXd::Zero(N));
  pts.push_back(-VectorXd::Zero(N));
  VectorXd r(N);
  for (int i = 0; i < N; ++i)
    r[i] = 0.1 * (i + 1);
  pts.push_back(r);
  pts.push_back(r * -1e6);
  if (N)
  {
    r[N - 1] = std::nextafter(r[N - 1], 1e9);
    pts.push_back(r);
    if (N > 1)
    {
      std::swap(r[0], r[N - 1]);
      pts.push_back(r);
    }
  }
  std::vector<std::pair<VectorXd, size_t>> hashes{ { m.x, nv->getHash() } };
  Dfs d(c);
  std::vector<size_t> before;
  d.run([&] {
    for (auto& o : obs)
      o->seen.clear(), o->first.clear();
    int depth = c.thorough ? 4 : 3;
    for (int s = 0; s < depth; ++s)
    {
      m.x = pts[size_t(d.choose(int(pts.size())))];
      nv->setVariables(m.x);
      compare(c, *nv, m, handles);
      size_t h = nv->getHash();
      for (auto& [x, hx] : hashes)
        c.checkf((hx == h) == same(x, m.x), "fingerprint", [&] { return str(vec(x), " and ", vec(m.x), " have ", hx == h ? "equal" : "different", " fingerprints"); });
      if (hashes.size() < 8)
        hashes.emplace_back(m.x, h);
      for (auto& o : obs)
      {
        c.checkf(int(o->seen.size()) == s + 1, "notification", [&] { return str("observer notified ", o->seen.size(), " times after ", s + 1, " changes"); });
        c.checkf(same(o->seen.back(), m.x) && same(o->first.back(), m.x), "notified-values", [&] { return vec(o->first.back()); });
      }
    }
    c.traces();
  });
}

void mc::explore(Ctx& c)
{
  console_bridge::setLogLevel(console_bridge::CONSOLE_BRIDGE_LOG_NONE);
  auto seqs = [](int len) {
    std::vector<NodeT> r{ {} }, last{ {} };
    for (int l = 0; l < len; ++l)
    {
      std::vector<NodeT> nx;
      for (auto& s : last)
        for (int k = 0; k < 4; ++k)
        {
          nx.push_back(s);
          nx.back().push_back(k);
        }
      r.insert(r.end(), nx.begin(), nx.end());
      last = nx;
    }
    return r;
  };
  auto go = [&](const std::vector<NodeT>& t) {
    for (int init = 0; init < 3; ++init)
    {
      int nobs = (init + int(t.size())) % 3;
      std::string d;
      for (auto& n : t)
      {
        d += "(";
        for (int k : n)
          d += std::to_string(k);
        d += ")";
      }
      c.item([=] { return str("nodes ", d, ", initial values ", init, ", ", nobs, " observers"); }, [&] {
        c.state(Hash().s(d).u(uint64_t(init)));
        arrangement(c, t, nobs, init);
      });
    }
  };
  go({});
  for (auto& a : seqs(c.thorough ? 5 : 4))
    go({ a });
  auto s3 = seqs(c.thorough ? 3 : 2), s2 = seqs(c.thorough ? 2 : 1);
  for (auto& a : s3)
    for (auto& b : s3)
      go({ a, b });
  for (auto& a : s2)
    for (auto& b : s2)
      for (auto& e : seqs(2))
      {
        go({ a, b, e });
        if (c.thorough && a.size() < 2 && b.size() < 2)
          for (auto& f : seqs(1))
            go({ a, b, e, f });
      }
}
