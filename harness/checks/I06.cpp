// I06: squared and absolute cost wrappers against bound errors computed independently.
#include <common/qp_terms.hpp>
#include <trajopt_ifopt/core/composite.h>
#include <trajopt_ifopt/core/problem.h>
#include <trajopt_ifopt/costs/absolute_cost.h>
#include <trajopt_ifopt/costs/squared_cost.h>
using namespace qpt;
using trajopt_ifopt::AbsoluteCost;
using trajopt_ifopt::ConstraintSet;
using trajopt_ifopt::CostTerm;
using trajopt_ifopt::SquaredCost;
const CheckInfo mc::info = { "I06", "exploration",
  "every tuple of up to 3 (thorough 4) rows of a function catalogue with each of 7 bound kinds (up to two rows: every combination; more: every rotation), every weighting (none given, ones, "
  "distinct, with a zero, negative), squared and absolute, alone and inside a problem, at every point of a grid visited one after the other on the same object",
  { "without explicit weights every row counts once; a negative weight counts by its magnitude", "the absolute cost is not judged where a row sits exactly on a bound" } };

struct Fn { double c, a, b, q; };   // c + a x + b y + q x y
static const std::vector<Fn> kFn = { { 0, 1, 0, 0 }, { -0.5, 2, -1, 0 }, { 1, 0, 0, 0 }, { 0.25, 0, 1, 1 }, { 0, -3, 0.5, -2 } };
static const std::vector<std::pair<double, double>> kB = { { 0, 0 }, { 0.5, 0.5 }, { -INF, 0.25 }, { -0.25, INF }, { -0.5, 0.75 }, { -INF, INF }, { -1, -1 } };

struct Wrapped : ConstraintSet
{
  std::vector<Fn> f;
  std::vector<Bounds> b;
  VectorXd v;
  Jacobian J;
  int updates = 0;
  Wrapped(std::vector<Fn> ff, std::vector<Bounds> bb) : ConstraintSet("w", int(ff.size())), f(std::move(ff)), b(std::move(bb))
  {
    non_zeros_ = 2 * rows_;
    v = VectorXd::Constant(rows_, NAN);
    J.resize(rows_, 2);
  }
  int update() override
  {
    ++updates;
    VectorXd x = variables_->getValues();
    J.resize(rows_, 2);
    J.setZero();
    for (int r = 0; r < rows_; ++r)
    {
      auto& g = f[size_t(r)];
      v[r] = g.c + g.a * x[0] + g.b * x[1] + g.q * x[0] * x[1];
      double dx = g.a + g.q * x[1], dy = g.b + g.q * x[0];
      if (dx != 0)
        J.coeffRef(r, 0) = dx;
      if (dy != 0)
        J.coeffRef(r, 1) = dy;
    }
    J.makeCompressed();
    return rows_;
  }
  VectorXd getValues() const override { return v; }
  VectorXd getCoefficients() const override { return VectorXd::LinSpaced(rows_, 3, 4); }
  std::vector<Bounds> getBounds() const override { return b; }
  Jacobian getJacobian() const override { return J; }
};

static void one(Ctx& c, const std::vector<Fn>& f, const std::vector<std::pair<double, double>>& b, int wm, bool sq, bool inProblem)
{
  int n = int(f.size());
  std::vector<Bounds> bs;
  for (auto& p : b)
    bs.emplace_back(p.first, p.second);
  auto vars = makeVars(V2(0.1, 0.2), { -INF, INF }, { -INF, INF });
  auto w = std::make_shared<Wrapped>(f, bs);
  w->linkWithVariables(vars);
  VectorXd wt = VectorXd::Ones(n);
  for (int i = 0; i < n; ++i)
  {
    if (wm == 2)
      wt[i] = 0.5 + 2.25 * i;
    if (wm == 3)
      wt[i] = i == n - 1 ? 0 : 4;
    if (wm == 4)
      wt[i] = i % 2 ? 1.5 : -2;
  }
  std::shared_ptr<CostTerm> t;
  if (wm == 0)
    t = sq ? std::shared_ptr<CostTerm>(std::make_shared<SquaredCost>(w)) : std::make_shared<AbsoluteCost>(w);
  else
    t = sq ? std::shared_ptr<CostTerm>(std::make_shared<SquaredCost>(w, wt)) : std::make_shared<AbsoluteCost>(w, wt);
  wt = wt.cwiseAbs();
  std::shared_ptr<trajopt_ifopt::Problem> pr;
  if (inProblem)
  {
    pr = std::make_shared<trajopt_ifopt::Problem>(vars);
    pr->addCostSet(t);
  }
  else
    t->linkWithVariables(vars);
  c.checkf(t->getRows() == 1, "rows", [&] { return str(t->getRows()); });
  const std::vector<double> G = c.thorough ? std::vector<double>{ -3, -1, -0.5, -0.25, 0, 0.25, 0.3, 0.5, 1, 2.5 } : std::vector<double>{ -2, -0.5, 0, 0.25, 0.3, 1.5 };
  Hash h;
  for (double x : G)
    for (double y : G)
    {
      V2 p(x, y);
      double val;
      Jacobian J;
      if (inProblem)
      {
        pr->setVariables(p.data());
        val = pr->evaluateCostFunction();
        VectorXd g = pr->evaluateCostFunctionGradient();
        c.checkf(g.size() == 2, "gradient-size", [&] { return str(g.size()); });
        J.resize(1, 2);
        J.coeffRef(0, 0) = g[0];
        J.coeffRef(0, 1) = g[1];
      }
      else
      {
        vars->setVariables(p);
        int before = w->updates;
        c.checkf(t->update() == 1, "update-rows", [&] { return std::string(); });
        c.checkf(w->updates > before, "not-updated", [&] { return std::string("updating the cost did not update the wrapped rows"); });
        
        VectorXd vv = t->getValues();
        val = vv.size() ? vv[0] : NAN;
        c.checkf(vv.size() == 1, "values", [&] { return vec(vv); });
        J = t->getJacobian();
      }
      c.transitions();
      double e = 0;
      V2 g(0, 0);
      bool kink = false;
      for (int r = 0; r < n; ++r)
      {
        auto& q = f[size_t(r)];
        double v = q.c + q.a * x + q.b * y + q.q * x * y;
        auto [lo, hi] = b[size_t(r)];
        double d = v < lo ? v - lo : v > hi ? v - hi : 0;
        kink = kink || (!sq && wt[r] != 0 && (std::fabs(v - lo) < 1e-9 || std::fabs(v - hi) < 1e-9));
        V2 dg(q.a + q.q * y, q.b + q.q * x);
        e += sq ? wt[r] * d * d : wt[r] * std::fabs(d);
        g += sq ? V2(2 * wt[r] * d * dg) : V2(wt[r] * (d > 0 ? 1. : d < 0 ? -1. : 0.) * dg);
      }
      c.checkf(near(val, e, 1e-12), "value", [&] { return str("cost ", val, " expected ", e, " at ", show(p)); });
      c.checkf(J.rows() == 1 && J.cols() == 2, "jacobian-size", [&] { return str(J.rows(), "x", J.cols()); });
      MatrixXd D(J);
      c.checkf(kink || (near(D(0, 0), g[0], 1e-11) && near(D(0, 1), g[1], 1e-11)), "jacobian",
               [&] { return str("derivative (", D(0, 0), ",", D(0, 1), ") expected ", show(g), " at ", show(p)); });
      h.d(val).d(D(0, 0)).d(D(0, 1));
    }
  c.outcome(h);
  c.traces();
}

void mc::explore(Ctx& c)
{
  console_bridge::setLogLevel(console_bridge::CONSOLE_BRIDGE_LOG_NONE);
  const int NF = int(kFn.size()), NB = int(kB.size());
  for (int n = 0; n <= (c.thorough ? 4 : 3); ++n)
  {
    int nf = 1, nb = 1;
    for (int i = 0; i < n; ++i)
      nf *= NF, nb *= NB;
    bool all = n <= (c.thorough ? 3 : 2);
    for (int fi = 0; fi < nf; ++fi)
      for (int bi = 0; bi < (all ? nb : NB * NB); ++bi)
        c.item([=] { return str(n, " rows, functions ", fi, ", bounds ", bi); }, [&] {
          std::vector<Fn> f;
          std::vector<std::pair<double, double>> b;
          int a = fi, q = bi;
          for (int i = 0; i < n; ++i)
          {
            f.push_back(kFn[size_t(a % NF)]);
            a /= NF;
            if (all)
            {
              b.push_back(kB[size_t(q % NB)]);
              q /= NB;
            }
            else
              b.push_back(kB[size_t((bi % NB + i * (bi / NB)) % NB)]);
          }
          c.state(Hash().u(uint64_t(n)).u(uint64_t(fi)).u(uint64_t(bi)));
          for (int wm = 0; wm < 5; ++wm)
            for (int k = 0; k < 4; ++k)
              one(c, f, b, wm, (k & 1) != 0, (k & 2) != 0);
        });
  }
}
