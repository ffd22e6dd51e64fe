// S09: bounds and start points of an optimisation problem.
#include <mc/mc.hpp>
#include <common/bpmpd_decode.hpp>
#include <common/qp_exact.hpp>
#include <trajopt_sco/expr_op_overloads.hpp>
#include <trajopt_sco/expr_ops.hpp>
#include <trajopt_sco/modeling.hpp>
#include <algorithm>
#include <map>
using namespace mc;
using namespace sco;
extern "C" bool wire_on;
const CheckInfo mc::info = { "S09", "exploration",
  "every sequence of up to 4 (thorough 5) calls out of {create one or two variables with or without bounds, set all lower or upper bounds, set those of any ordered selection of up to two variables} against plain "
  "vectors; projection of every point of a 9-value grid per coordinate in up to 3 variables with 9 kinds of bounds each and 4 margins; projection by QP over boxes and 0 to 2 linear constraints of 6 "
  "kinds against the exact solution, and every solver failure code",
  { "the bundled solver's routine is replaced by an exact solver for small problems" } };
static const double INF = INFINITY;

static void history(Ctx& c, int depth, int first)
{
  mc::Dfs d(c);
  d.run([&] {
    OptProb p(ModelType::BPMPD);
    std::vector<double> lb, ub;
    std::vector<std::string> names;
    VarVector vars;
    std::string log;
    auto num = [&](int step, int i) { return double(step * 10 + i); };
    for (int step = 1; step <= depth; ++step)
    {
      size_t n = vars.size();
      // ordered selections of up to two variables
      std::vector<std::vector<size_t>> sel = { {} };
      for (size_t i = 0; i < std::min(n, size_t(3)); ++i)
      {
        sel.push_back({ i });
        for (size_t j = 0; j < std::min(n, size_t(3)); ++j)
          if (i != j)
            sel.push_back({ i, j });
      }
      int nops = 4 + (n ? 2 + 2 * int(sel.size()) : 0);
      int k = step == 1 ? first : d.choose(nops);
      log += str(" ", k);
      if (k < 4)
      {
        std::vector<std::string> nn;
        DblVec l, u;
        for (int i = 0; i < 1 + k / 2; ++i)
          nn.push_back(str("v", step, i)), l.push_back(k % 2 ? -num(step, i) : -INF), u.push_back(k % 2 ? num(step, i) : INF);
        VarVector got = k % 2 ? p.createVariables(nn, l, u) : p.createVariables(nn);
        c.checkf(got.size() == nn.size(), "created", [&] { return log; });
        for (size_t i = 0; i < nn.size(); ++i)
        {
          c.checkf(got[i].var_rep->name == nn[i] && got[i].var_rep->index == n + i, "created", [&] { return log; });
          vars.push_back(got[i]), lb.push_back(l[i]), ub.push_back(u[i]), names.push_back(nn[i]);
        }
      }
      else if (k < 6)
      {
        DblVec v;
        for (size_t i = 0; i < n; ++i)
          v.push_back((k == 4 ? -1 : 1) * (num(step, int(i)) + 0.5));
        k == 4 ? p.setLowerBounds(v) : p.setUpperBounds(v);
        (k == 4 ? lb : ub) = v;
      }
      else
      {
        auto& s = sel[size_t(k - 6) / 2];
        VarVector sv;
        DblVec v;
        for (size_t i : s)
          sv.push_back(vars[i]), v.push_back((k % 2 ? -1 : 1) * (num(step, int(i)) + 0.25));
        k % 2 ? p.setLowerBounds(v, sv) : p.setUpperBounds(v, sv);
        for (size_t i = 0; i < s.size(); ++i)
          (k % 2 ? lb : ub)[s[i]] = v[i];
      }
      c.transitions();
      c.checkf(p.getLowerBounds() == lb && p.getUpperBounds() == ub, "bounds", [&] { return str("calls", log, ": bounds are not those set"); });
      c.checkf(p.getNumVars() == int(vars.size()) && p.getVars().size() == vars.size(), "variables", [&] { return log; });
      for (size_t i = 0; i < vars.size(); ++i)
        c.checkf(p.getVars()[i].var_rep == vars[i].var_rep && vars[i].var_rep->index == i && vars[i].var_rep->name == names[i], "variables", [&] { return log; });
    }
    Hash h;
    for (size_t i = 0; i < lb.size(); ++i)
      h.d(lb[i]).d(ub[i]);
    c.state(h);
    c.traces();
  });
}
static const std::vector<std::pair<double, double>> BOUNDS = { { -INF, INF }, { -INF, 1 }, { -1, INF }, { -1, 1 }, { 0, 0.5 }, { 0.25, 0.2505 }, { 2, 2 }, { -3, -2 }, { -1e6, 1e6 } };
static void project(Ctx& c, int n, int code)
{
  OptProb p(ModelType::BPMPD);
  DblVec lb, ub;
  std::vector<std::string> names;
  for (int i = 0; i < n; ++i, code /= int(BOUNDS.size()))
    names.push_back(str("x", i)), lb.push_back(BOUNDS[size_t(code) % BOUNDS.size()].first), ub.push_back(BOUNDS[size_t(code) % BOUNDS.size()].second);
  p.createVariables(names, lb, ub);
  const std::vector<double> V = { -4, -2, -1, -0.75, 0, 0.2501, 1, 1.0005, 7 };
  int total = 1;
  for (int i = 0; i < n; ++i)
    total *= int(V.size());
  for (double delta : { -1.0, 0.0, 1e-3, 0.25, 0.5 })
    for (int w = 0; w < total; ++w)
    {
      DblVec x;
      for (int i = 0, u = w; i < n; ++i, u /= int(V.size()))
        x.push_back(V[size_t(u) % V.size()]);
      double m = delta < 0 ? 1e-3 : delta;
      DblVec y = delta < 0 ? p.getClosestFeasiblePoint(x) : p.getClosestFeasiblePoint(x, delta);
      c.transitions();
      c.checkf(y.size() == x.size(), "projection-size", [] { return std::string("size"); });
      for (int i = 0; i < n; ++i)
      {
        size_t k = size_t(i);
        auto what = [&] { return str("x = ", x[k], " in [", lb[k], ",", ub[k], "] with margin ", m, " becomes ", y[k]); };
        double lo = lb[k] + m, hi = ub[k] - m;
        if (!(lo <= hi))
          continue;          // no room for the margin
        c.checkf(y[k] >= lo && y[k] <= hi, "outside", what);
        c.checkf(y[k] == std::min(std::max(x[k], lo), hi), x[k] >= lo && x[k] <= hi ? "moved" : "not-closest", what);
      }
      // the centre does not depend on the point
      if (w == 0 && delta < 0)
      {
        bool finite = true;
        for (int i = 0; i < n; ++i)
          finite &= std::isfinite(lb[size_t(i)] + ub[size_t(i)]) && ub[size_t(i)] - lb[size_t(i)] >= 2e-3;
        if (finite)
        {
          DblVec z = p.getCentralFeasiblePoint(x);
          for (int i = 0; i < n; ++i)
            c.checkf(near(z[size_t(i)], (lb[size_t(i)] + ub[size_t(i)]) / 2, 1e-12), "centre", [&] { return str("centre ", z[size_t(i)], " of [", lb[size_t(i)], ",", ub[size_t(i)], "]"); });
        }
      }
      c.outcome(Hash().raw(y.data(), y.size() * 8));
    }
  c.state(Hash().u(n).raw(lb.data(), lb.size() * 8).raw(ub.data(), ub.size() * 8));
}
static void byQP(Ctx& c, int b0, int b1, int k0, int k1)
{
  wire_on = true;
  OptProb p(ModelType::BPMPD);
  VarVector v = p.createVariables({ "x", "y" });
  DblVec lb = { BOUNDS[size_t(b0)].first, BOUNDS[size_t(b1)].first }, ub = { BOUNDS[size_t(b0)].second, BOUNDS[size_t(b1)].second };
  p.setLowerBounds(lb), p.setUpperBounds(ub);
  SmallQP ref(2);
  ref.Q.diagonal().setConstant(2);
  auto row = [](double a, double b) { return Eigen::VectorXd((Eigen::VectorXd(2) << a, b).finished()); };
  ref.range(row(1, 0), lb[0], ub[0]), ref.range(row(0, 1), lb[1], ub[1]);
  for (int k : { k0, k1 })
    switch (k)
    {
      case 0: break;
      case 1: p.addLinearConstraint(v[0] + v[1] - 1.0, INEQ), ref.range(row(1, 1), -INF, 1); break;
      case 2: p.addLinearConstraint(v[0] - 2.0 * v[1], EQ), ref.range(row(1, -2), 0, 0); break;
      case 3: p.addLinearConstraint(-v[1] + 0.5, INEQ), ref.range(row(0, -1), -INF, -0.5); break;
      case 4: p.addLinearConstraint(v[1] + v[0] + v[0] - 5.0, EQ), ref.range(row(2, 1), 5, 5); break;
      case 5: p.addLinearConstraint(AffExpr(-1.0), INEQ); break;
    }
  for (double x : { -4.0, -1.0, 0.0, 0.2501, 3.0 })
    for (double y : { -4.0, -2.5, 0.5, 1.0, 6.0 })
    {
      ref.c << -2 * x, -2 * y;
      auto want = ref.solve();
      int code = 0;
      wire::solver = [&](wire::Problem& q) {
        auto d = wire::decode(q);
        SmallQP s(d.n());
        for (int i = 0; i < d.n(); ++i)
          s.c[i] = d.c[size_t(i)], s.range(Eigen::VectorXd::Unit(d.n(), i), d.lb[size_t(i)], d.ub[size_t(i)]);
        for (auto& [ij, k] : d.q)
          s.Q(ij.first, ij.second) += k, s.Q(ij.second, ij.first) += k;
        bool trivially = true;
        for (auto& r : d.rows)
        {
          Eigen::VectorXd a = Eigen::VectorXd::Zero(d.n());
          for (auto& [j, k] : r.a)
            a[j] += k;
          if (a.isZero())
            trivially &= r.lo <= 0 && r.hi >= 0;
          else
            s.range(a, r.lo, r.hi);
        }
        auto z = trivially ? s.solve() : std::nullopt;
        *q.code = code ? code : z ? 2 : 4;
        for (int i = 0; i < d.n(); ++i)
          q.primal[i] = z ? (*z)[i] : 777;
      };
      auto what = [&] { return str("(", x, ",", y, ") over [", lb[0], ",", ub[0], "]x[", lb[1], ",", ub[1], "] with constraints ", k0, ",", k1); };
      for (int forced : { 0, 1, 3, 4, -1, 0 })
      {
        code = forced;
        bool threw = false;
        DblVec got;
        try { got = p.getClosestFeasiblePointQP({ x, y }); }
        catch (const std::exception&) { threw = true; }
        c.transitions();
        if (forced || !want)
          c.checkf(threw, "failure-hidden", [&] { return str(what(), ": no error for solver code ", forced); });
        else
        {
          c.checkf(!threw && got.size() == 2, "not-projected", [&] { return str(what(), ": refused"); });
          Eigen::Vector2d g(got[0], got[1]);
          c.checkf(ref.violation(g) < 1e-7, "qp-infeasible", [&] { return str(what(), ": ", vec(g), " is not feasible"); });
          c.checkf((g - *want).norm() < 1e-6, "qp-not-closest", [&] { return str(what(), ": ", vec(g), ", closest is ", vec(*want)); });
          if (ref.violation(Eigen::Vector2d(x, y)) == 0)
            c.checkf((g - Eigen::Vector2d(x, y)).norm() < 1e-6, "qp-moved", what);
        }
        c.outcome(Hash().u(threw).u(forced).raw(got.data(), got.size() * 8));
      }
      c.checkf(p.getLowerBounds() == lb && p.getUpperBounds() == ub, "bounds", what);
    }
  c.state(Hash().u(b0).u(b1).u(k0).u(k1));
  wire_on = false;
}
void mc::explore(Ctx& c)
{
  for (int first = 0; first < 4; ++first)
    c.item([=] { return str("bound histories starting with ", first); }, [=, &c] {
      wire_on = true;
      history(c, c.thorough ? 5 : 4, first);
      wire_on = false;
    });
  for (int n = 1; n <= (c.thorough ? 3 : 2); ++n)
  {
    int total = 1;
    for (int i = 0; i < n; ++i)
      total *= int(BOUNDS.size());
    for (int code = 0; code < total; ++code)
      c.item([=] { return str("projection, ", n, " variables, bounds #", code); }, [=, &c] {
        wire_on = true;
        project(c, n, code);
        wire_on = false;
      });
  }
  const int nb = int(BOUNDS.size());
  for (int b0 = 0; b0 < nb; ++b0)
    for (int b1 = 0; b1 < nb; ++b1)
      for (int k0 = 0; k0 < 6; ++k0)
        for (int k1 = 0; k1 < 6; ++k1)
          if (k1 != k0 || k0 == 0)
            c.item([=] { return str("QP projection over bounds #", b0, ",", b1, " with constraints ", k0, ",", k1); }, [=, &c] { byQP(c, b0, b1, k0, k1); });
}
