// C03: collision weights, contact filtering, worst-case bookkeeping and averaged gradients.
#include <mc/mc.hpp>
#include <trajopt_common/collision_types.h>
#include <trajopt_common/collision_utils.h>
#include <trajopt_ifopt/constraints/collision/weighted_average_methods.h>
#include <algorithm>
#include <limits>
#include <map>
#include <unordered_map>
using namespace mc;
using namespace trajopt_common;
using CC = tesseract::collision::ContinuousCollisionType;
using Eigen::VectorXd;
const CheckInfo mc::info = { "C03", "model_checking",
  "weights: every sequence of 3 (thorough 4) settings over three links (all ordered pairs incl. a link with itself), three weights and the default, read back completely after every step; "
  "bookkeeping: every sequence of up to 3 contact gradients out of every combination of contact type per link and error (two: also buffers), compared after every insertion; filtering: every "
  "pair of contacts out of every combination of types, distances and fixed timesteps; keys of 300 (thorough 1500) shapes with as many subshapes pairwise distinct",
  { "not both timesteps are fixed", "weights below the comparison tolerance of 1e-6 other than 0 are not used", "an average is asked for with a positive worst error only" } };

static void weights(Ctx& c)
{
  const std::vector<std::string> L = { "base", "arm", "tool" };
  const std::vector<double> W = { 0, 1, 20 };
  const int NP = 9, OPS = NP * 3 + 3;
  int depth = c.thorough ? 4 : 3;
  for (int first = 0; first < OPS; ++first)
    for (int init = 0; init < 2; ++init)
      c.item([=] { return str("weight settings starting with ", first, init ? ", default 5" : ", default construction"); }, [&] {
        Dfs d(c);
        d.run([&] {
          CollisionCoeffData cd = init ? CollisionCoeffData(5) : CollisionCoeffData();
          double def = init ? 5 : 1;
          std::map<std::pair<std::string, std::string>, double> m;
          for (int s = 0; s < depth; ++s)
          {
            int op = s == 0 ? first : d.choose(OPS);
            if (op < 3)
              cd.setDefaultCollisionCoeff(def = W[size_t(op)]);
            else
            {
              op -= 3;
              const auto &a = L[size_t(op / 3 / 3)], &b = L[size_t(op / 3 % 3)];
              cd.setCollisionCoeff(a, b, W[size_t(op % 3)]);
              m[{ std::min(a, b), std::max(a, b) }] = W[size_t(op % 3)];
            }
            c.transitions();
            c.checkf(cd.getDefaultCollisionCoeff() == def, "default", [&] { return str(cd.getDefaultCollisionCoeff()); });
            std::set<std::pair<std::string, std::string>> zero;
            for (auto& a : L)
              for (auto& b : L)
              {
                auto it = m.find({ std::min(a, b), std::max(a, b) });
                double w = it == m.end() ? def : it->second;
                if (it != m.end() && w == 0)
                  zero.insert(it->first);
                c.checkf(cd.getCollisionCoeff(a, b) == w, "weight", [&] { return str(a, ",", b, " has ", cd.getCollisionCoeff(a, b), " expected ", w); });
              }
            auto z = cd.getPairsWithZeroCoeff();
            c.checkf(z == zero, "zero-pairs", [&] { return str(z.size(), " pairs with zero weight, expected ", zero.size()); });
            c.checkf(cd.getCollisionCoeffPairData().size() == m.size(), "pair-count", [&] { return str(cd.getCollisionCoeffPairData().size()); });
            // the same settings in another order of pairs and names compare equal, different ones do not
            CollisionCoeffData o(def);
            for (auto it = m.rbegin(); it != m.rend(); ++it)
              o.setCollisionCoeff(it->first.second, it->first.first, it->second);
            c.checkf(cd == o && !(cd != o), "equality", [&] { return std::string("equal settings compare different"); });
            o.setDefaultCollisionCoeff(def + 1);
            c.checkf(cd != o, "equality", [&] { return std::string("different defaults compare equal"); });
            if (!m.empty())
            {
              CollisionCoeffData q(def);
              for (auto& kv : m)
                q.setCollisionCoeff(kv.first.first, kv.first.second, kv.first == m.begin()->first ? kv.second + 3 : kv.second);
              c.checkf(cd != q, "equality", [&] { return std::string("different weights compare equal"); });
            }
            Hash h;
            h.d(def);
            for (auto& kv : m)
              h.s(kv.first.first).s(kv.first.second).d(kv.second);
            c.state(h);
            c.outcome(h);
          }
          c.traces();
        });
      });
}

struct G { int t[2]; double err, buf; };   // type per link: 0 none, 1 CCType_None, 2 Time0, 3 Time1, 4 Between
static CC cc(int t) { return t == 2 ? CC::CCType_Time0 : t == 3 ? CC::CCType_Time1 : t == 4 ? CC::CCType_Between : CC::CCType_None; }
static GradientResults make(const G& g, int id)
{
  GradientResults r;
  r.error = g.err;
  r.error_with_buffer = g.err + g.buf;
  for (int i = 0; i < 2; ++i)
    if (g.t[i])
    {
      double time = g.t[i] == 2 ? 0 : g.t[i] == 3 ? 1 : 0.25;
      for (int k = 0; k < 2; ++k)
      {
        auto& l = k ? r.cc_gradients[size_t(i)] : r.gradients[size_t(i)];
        l.has_gradient = true;
        l.cc_type = cc(g.t[i]);
        l.scale = g.t[i] == 1 ? 1 : k ? time : 1 - time;
        l.gradient = VectorXd(2);
        l.gradient << 1.5 * id + i + 1, (id % 2 ? -1 : 1) * (0.5 + i + 3 * k);
      }
    }
  return r;
}
static double maxOr(const std::vector<double>& v, bool& any)
{
  any = !v.empty();
  return any ? *std::max_element(v.begin(), v.end()) : 0;
}
static void verify(Ctx& c, const GradientResultsSet& s, const std::vector<G>& gs)
{
  c.transitions();
  c.checkf(s.results.size() == gs.size(), "stored", [&] { return str(s.results.size()); });
  // [link][time] contributing errors
  std::vector<double> e[2][2], eb[2][2];
  for (auto& g : gs)
    for (int i = 0; i < 2; ++i)
      for (int t = 0; t < 2; ++t)
        if (g.t[i] && g.t[i] != (t == 0 ? 3 : 2))
          e[i][t].push_back(g.err), eb[i][t].push_back(g.err + g.buf);
  auto join = [](std::initializer_list<const std::vector<double>*> l) {
    std::vector<double> r;
    for (auto* p : l)
      r.insert(r.end(), p->begin(), p->end());
    return r;
  };
  auto cmp = [&](const char* key, const std::vector<double>& exp, const std::function<double()>& f) {
    bool any;
    double m = maxOr(exp, any), v = 0;
    bool threw = false;
    try
    {
      v = f();
    }
    catch (const std::exception&)
    {
      threw = true;
    }
    c.checkf(threw == !any, key, [&] { return threw ? std::string("no maximum reported") : str("maximum ", v, " reported for nothing"); });
    c.checkf(threw || v == m, key, [&] { return str(v, " expected ", m); });
  };
  cmp("max-both", join({ &e[0][0], &e[0][1], &e[1][0], &e[1][1] }), [&] { return s.getMaxError(); });
  cmp("max-start", join({ &e[0][0], &e[1][0] }), [&] { return s.getMaxErrorT0(); });
  cmp("max-end", join({ &e[0][1], &e[1][1] }), [&] { return s.getMaxErrorT1(); });
  cmp("max-buffer-both", join({ &eb[0][0], &eb[0][1], &eb[1][0], &eb[1][1] }), [&] { return s.getMaxErrorWithBuffer(); });
  cmp("max-buffer-start", join({ &eb[0][0], &eb[1][0] }), [&] { return s.getMaxErrorWithBufferT0(); });
  cmp("max-buffer-end", join({ &eb[0][1], &eb[1][1] }), [&] { return s.getMaxErrorWithBufferT1(); });
  for (int i = 0; i < 2; ++i)
  {
    cmp("link-max", join({ &e[i][0], &e[i][1] }), [&] { return s.max_error[size_t(i)].getMaxError(); });
    cmp("link-max-buffer", join({ &eb[i][0], &eb[i][1] }), [&] { return s.max_error[size_t(i)].getMaxErrorWithBuffer(); });
    for (int t = 0; t < 2; ++t)
      c.checkf(s.max_error[size_t(i)].has_error[size_t(t)] == !e[i][t].empty(), "has-error", [&] { return str("link ", i, " time ", t); });
  }
  bool any;
  double worst = maxOr(join({ &eb[0][0], &eb[0][1], &eb[1][0], &eb[1][1] }), any);
  if (!any || worst <= 0)
    return;
  for (int t = 0; t < 2; ++t)
    for (double scale : { worst, 2.5 })
    {
      VectorXd g = VectorXd::Zero(2);
      double tw = 0;
      for (size_t k = 0; k < gs.size(); ++k)
        for (int i = 0; i < 2; ++i)
          if (gs[k].t[i] && gs[k].t[i] != (t == 0 ? 3 : 2))
          {
            double w = std::max(0., gs[k].err + gs[k].buf);
            GradientResults r = make(gs[k], int(k));
            auto& l = t ? r.cc_gradients[size_t(i)] : r.gradients[size_t(i)];
            g += w * l.scale * l.gradient;
            tw += w;
          }
      if (tw > 0)
        g /= tw;
      VectorXd a = t ? trajopt_ifopt::getWeightedAvgGradientT1(s, scale, 2) : trajopt_ifopt::getWeightedAvgGradientT0(s, scale, 2);
      c.checkf(a.size() == 2 && near(a[0], g[0], 1e-12) && near(a[1], g[1], 1e-12), t ? "average-end" : "average-start", [&] { return vec(a) + " expected " + vec(g); });
      c.outcome(Hash().d(a[0]).d(a[1]));
    }
}
static void bookkeeping(Ctx& c)
{
  auto alphabet = [](bool buffers) {
    std::vector<G> a;
    for (int i = 0; i < 25; ++i)
      for (double e : { -0.5, 0.0, 0.3, 1.25 })
        for (double b : { 0.2, 0.0, 0.6 })
        {
          if (!buffers && (b != 0.2 || e == 0.0))
            continue;
          a.push_back({ { i / 5, i % 5 }, e, b });
        }
    return a;
  };
  auto run = [&](const std::vector<G>& A, int depth) {
    for (size_t f = 0; f < A.size(); ++f)
      c.item([=] { return str("contact gradients starting with types ", A[f].t[0], ",", A[f].t[1], " error ", A[f].err, " buffer ", A[f].buf, ", ", depth, " long"); }, [&] {
        Dfs d(c);
        d.run([&] {
          GradientResultsSet s(4);
          std::vector<G> gs;
          verify(c, s, gs);
          for (int k = 0; k < depth; ++k)
          {
            gs.push_back(k == 0 ? A[f] : A[size_t(d.choose(int(A.size())))]);
            s.add(make(gs.back(), k));
            verify(c, s, gs);
          }
          Hash h;
          for (auto& g : gs)
            h.u(uint64_t(g.t[0])).u(uint64_t(g.t[1])).d(g.err).d(g.buf);
          c.state(h);
          c.traces();
        });
      });
  };
  run(alphabet(true), 2);
  run(alphabet(false), 3);
  c.item([] { return std::string("an empty set averages to zero; clearing a result"); }, [&] {
    GradientResultsSet s;
    c.checkf(trajopt_ifopt::getWeightedAvgGradientT0(s, 1, 3).isZero() && trajopt_ifopt::getWeightedAvgGradientT1(s, 1, 3).isZero(), "empty-average", [] { return std::string(); });
    GradientResults r = make({ { 4, 3 }, 1, 1 }, 0);
    r.clear();
    bool ok = r.error == 0 && r.error_with_buffer == 0;
    for (int i = 0; i < 2; ++i)
      ok = ok && !r.gradients[size_t(i)].has_gradient && !r.cc_gradients[size_t(i)].has_gradient;
    c.checkf(ok, "clear", [] { return std::string("a cleared result still carries gradients"); });
  });
}

static void filtering(Ctx& c)
{
  struct R { int t0, t1, d; };
  std::vector<R> A;
  for (int a = 1; a < 5; ++a)
    for (int b = 1; b < 5; ++b)
      for (int d = 0; d < 5; ++d)
        A.push_back({ a, b, d });
  for (int fx = 0; fx < 3; ++fx)
    for (double margin : { 0.0, 0.025, -0.01 })
      for (double buf : { 0.0, 0.01 })
        for (size_t f = 0; f < A.size(); ++f)
          c.item([=] { return str("filtering with fixed ", fx, " margin ", margin, " buffer ", buf, " first contact ", f); }, [&] {
            double lim = margin + buf;
            const double D[] = { lim - 1, lim, std::nextafter(lim, 1), lim + 0.005, std::nextafter(lim, -1) };
            int depth = c.thorough ? 3 : 2;
            Dfs dfs(c);
            dfs.run([&] {
              tesseract::collision::ContactResultVector v;
              std::vector<int> want;
              for (int k = 0; k < depth; ++k)
              {
                int ch = k == 0 ? int(f) : dfs.choose(int(A.size()) + 1) - 1;
                if (ch < 0)
                  break;
                const R& r = A[size_t(ch)];
                tesseract::collision::ContactResult x;
                x.distance = D[r.d];
                x.cc_type = { cc(r.t0), cc(r.t1) };
                x.shape_id = { k, ch };
                v.push_back(x);
                bool dep = fx == 0 || (fx == 1 ? (r.t0 >= 3 || r.t1 >= 3) : (r.t0 == 2 || r.t0 == 4 || r.t1 == 2 || r.t1 == 4));
                if (!(D[r.d] > lim) && dep)
                  want.push_back(k * 1000 + ch);
              }
              removeInvalidContactResults(v, margin, buf, fx == 1, fx == 2);
              c.transitions();
              std::vector<int> got;
              for (auto& x : v)
                got.push_back(x.shape_id[0] * 1000 + x.shape_id[1]);
              c.checkf(got == want, "filter", [&] { return str("kept ", vec(got), " expected ", vec(want)); });
              Hash h;
              h.u(uint64_t(fx)).d(lim);
              for (int g : got)
                h.u(uint64_t(g));
              c.state(h);
            });
            c.traces();
          });
}

// contacts are grouped by the shapes they are on: no two shapes or subshapes share a key
static void keys(Ctx& c)
{
  const int S = c.thorough ? 1500 : 300;
  c.item([=] { return str("keys of ", S, " shapes with up to ", S, " subshapes"); }, [&] {
    std::unordered_map<std::size_t, std::pair<int, int>> seen;
    auto add = [&](int s, int sub) {
      auto [it, fresh] = seen.insert({ cantorHash(s, sub), { s, sub } });
      c.transitions();
      c.checkf(fresh || it->second == std::make_pair(s, sub), "shared-key",
               [&] { return str("shape ", s, " subshape ", sub, " has the key of shape ", it->second.first, " subshape ", it->second.second); });
      c.checkf(cantorHash(s, sub) == cantorHash(s, sub), "key-changes", [] { return std::string(); });
    };
    for (int s = 0; s < S; ++s)
      for (int sub = -1; sub < S; ++sub)
        add(s, sub);
    for (int s : { 0, 1, 2, 40000, 46340, 46341, 1000000 })
      for (int sub : { 5000000, 46339, 46340, 46341, 65535, 65536, 1000000 })
        add(s, sub);
    c.state(Hash().u(seen.size()));
    c.traces();
  });
}

void mc::explore(Ctx& c)
{
  keys(c);
  weights(c);
  bookkeeping(c);
  filtering(c);
}
