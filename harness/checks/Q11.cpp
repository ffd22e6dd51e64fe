// Q11: on a convex problem the SQP solver ends at the optimum, whatever was solved before with the same solver; on a curved one at a stationary point.
#include <common/qp_ipm.hpp>
#include <common/qp_terms.hpp>
#include <OsqpEigen/OsqpEigen.h>
#include <trajopt_sqp/osqp_eigen_solver.h>
#include <trajopt_sqp/trust_region_sqp_solver.h>
#include <iostream>
using namespace qpt;
using namespace trajopt_sqp;
const CheckInfo mc::info = { "Q11", "exploration",
  "every ordered tuple of up to 2 (thorough: 3) linear terms of a catalogue (equality, one- and two-sided constraints, squared, absolute and hinge costs), every start point, variable limits and parameter set of "
  "the grid, solved from start to end by the real SQP solver, QP problem (both classes) and OSQP interface; the same with every ordered tuple of up to 2 (thorough: 3) curved terms; and every ordered pair of problems (thorough: triple) solved by one solver",
  { "the QP library is a stand-in that solves each QP accurately", "linear rows: the quadratic model is exact and the optimum is known independently; curved rows: judged by the linearisation at the result within its trust box",
    "the solver ends when the predicted improvement within the trust box is below min_approx_improve; the result may be as far from the optimum as that allows" } };

namespace
{
const double kImprove = 1e-4, kTol = 1e-4;
const std::vector<TermSpec>& linear()
{
  static const std::vector<TermSpec> t = {
    { "a-2b+.5=1", CNT, { { 0, 1, 1, 1 } } },
    { "a+b-1<=.5", CNT, { { 8, -INF, 0.5, 1 } } },
    { "3a>=1,b=.3", CNT, { { 6, 1, INF, 1 }, { 9, 0, 0, 1 } } },
    { "b-.3<=-1", CNT, { { 9, -INF, -1, 1 } } },
    { ".75<=1", CNT, { { 3, -INF, 1, 1 } } },
    { "a+b-1=2", CNT, { { 8, 2, 2, 1 } } },
    { "(a-2b+.5)^2", SQ, { { 0, 0, 0, 1 } } },
    { "5(a+b-2)^2+(b-2.3)^2", SQ, { { 8, 1, 1, 5 }, { 9, 2, 2, 1 } } },
    { ".2(3a+4)^2", SQ, { { 6, -4, -4, 0.2 } } },
    { "2|a-2b-.5|", ABS, { { 0, 1, 1, 2 } } },
    { "|b-1|+3|3a|", ABS, { { 9, 0.7, 0.7, 1 }, { 6, 0, 0, 3 } } },
    { "3max(a+b,0)", HINGE, { { 8, -INF, -1, 3 } } },
    { "max(2-3a,0)+4max(b-.4,0)", HINGE, { { 6, 2, INF, 1 }, { 9, -INF, 0.1, 4 } } },
  };
  return t;
}
// and of curved ones, where only the end at a stationary point can be judged
const std::vector<TermSpec>& curved()
{
  static const std::vector<TermSpec> t = {
    { "aa+b<=.5", CNT, { { 1, -INF, 0.5, 1 } } },
    { "ab=.25", CNT, { { 2, 0.25, 0.25, 1 } } },
    { "bbb>=.2,a-2b<=0", CNT, { { 4, 0.2, INF, 1 }, { 0, -INF, 0.5, 1 } } },
    { "(aa+b-2)^2", SQ, { { 1, 2, 2, 1 } } },
    { "3(ab+1)^2+(3a-4)^2", SQ, { { 2, -1, -1, 3 }, { 6, 4, 4, 1 } } },
    { "2|aa+b|", ABS, { { 1, 0, 0, 2 } } },
    { "max(bbb-ab..)", HINGE, { { 4, 0.7, INF, 2 }, { 2, -INF, 0, 1 } } },
    { "(a-2b-.5)^2", SQ, { { 0, 1, 1, 1 } } },
  };
  return t;
}
struct Params
{
  const char* name;
  double box = 0.1, merit = 10, expand = 1.5;
  bool individually = true;
};
const std::vector<Params> paramSets = { { "default" }, { "uniform, box 1", 1, 10, 1.5, false }, { "penalty .1, expand 3", 0.1, 0.1, 3, true } };
struct Limits
{
  const char* name;
  VarSpec a, b;
};
const std::vector<Limits> limitSets = { { "wide", { -8, 8 }, { -8, 8 } }, { "tight", { -0.5, 0.75 }, { 0, 2 } } };

// least of: sum of costs + sum over constraint terms of mu * violation; variables a, b and one auxiliary per bounded side
struct Best
{
  double value = 0;
  V2 x;
  double residual = 0;
};
// (of the terms linearised at a point, within a box around it, where one is given)
Best least(const std::vector<TermSpec>& terms, const std::function<double(int term, int row)>& mu, bool costs, const Limits& limits, const V2* at = nullptr, double box = 0)
{
  Limits lim = limits;
  const V2 xc = at ? *at : V2(0, 0);
  if (at)
  {
    lim.a.lo = std::max(lim.a.lo, xc[0] - box), lim.a.hi = std::min(lim.a.hi, xc[0] + box);
    lim.b.lo = std::max(lim.b.lo, xc[1] - box), lim.b.hi = std::min(lim.b.hi, xc[1] + box);
  }
  struct Aux { double price; V2 g; double c; };  // aux >= g x + c
  std::vector<Aux> aux;
  MatrixXd P2 = MatrixXd::Zero(2, 2);
  V2 q2(0, 0);
  double k = 0;
  int cnt = 0;
  for (auto& t : terms)
  {
    for (size_t i = 0; i < t.rows.size(); ++i)
    {
      const Row& r = t.rows[i];
      const V2 g = fgrad(r.f, xc[0], xc[1]);
      const double f0 = fval(r.f, xc[0], xc[1]) - g.dot(xc);
      if (t.kind == SQ)
      {
        if (costs)
        {
          P2 += 2 * r.w * g * g.transpose();
          q2 += 2 * r.w * (f0 - r.lo) * g;
          k += r.w * (f0 - r.lo) * (f0 - r.lo);
        }
        continue;
      }
      if (t.kind != CNT && !costs)
        continue;
      const double price = t.kind == CNT ? mu(cnt, int(i)) : r.w;
      if (std::isfinite(r.hi))
        aux.push_back({ price, g, f0 - r.hi });
      if (std::isfinite(r.lo))
        aux.push_back({ price, -g, r.lo - f0 });
    }
    cnt += t.kind == CNT;
  }
  const int na = int(aux.size()), n = 2 + na;
  MatrixXd P = MatrixXd::Zero(n, n), A = MatrixXd::Zero(na + n, n);
  VectorXd q = VectorXd::Zero(n), l = VectorXd::Constant(na + n, -INF), u = VectorXd::Constant(na + n, INF);
  P.topLeftCorner(2, 2) = P2;
  q.head(2) = q2;
  for (int i = 0; i < na; ++i)
  {
    q[2 + i] = aux[size_t(i)].price;
    A.row(i).head(2) = -aux[size_t(i)].g.transpose();
    A(i, 2 + i) = 1;
    l[i] = aux[size_t(i)].c;
    l[na + 2 + i] = 0;
  }
  A.bottomRows(n).setIdentity();
  l[na] = lim.a.lo, u[na] = lim.a.hi, l[na + 1] = lim.b.lo, u[na + 1] = lim.b.hi;
  IpmResult r = solveIpm(P, q, A, l, u);
  Best b;
  b.residual = r.residual;
  if (r.x.size() != n)
    return b.residual = INFINITY, b;
  b.x = r.x.head<2>();
  b.x[0] = std::min(std::max(b.x[0], lim.a.lo), lim.a.hi);
  b.x[1] = std::min(std::max(b.x[1], lim.b.lo), lim.b.hi);
  // the value at that point, exactly
  b.value = b.x.dot(P2 * b.x) / 2 + q2.dot(b.x) + k;
  for (auto& a : aux)
    b.value += a.price * std::max(0.0, a.g.dot(b.x) + a.c);
  return b;
}
double merit(const std::vector<TermSpec>& terms, const std::function<double(int, int)>& mu, const V2& x)
{
  double v = 0;
  int cnt = 0;
  for (auto& t : terms)
  {
    if (t.kind != CNT)
      v += termValue(t, x, x, true);
    else
      for (size_t i = 0; i < t.rows.size(); ++i)
        v += mu(cnt, int(i)) * dist(fval(t.rows[i].f, x[0], x[1]), t.rows[i].lo, t.rows[i].hi);
    cnt += t.kind == CNT;
  }
  return v;
}
struct Run
{
  SQPStatus status;
  VectorXd x;
  SQPResults r;
  VectorXd final_x;
  double final_cost = 0;
};
int qps = 0, inaccurate = 0;
void connect()
{
  auto& lib = OsqpEigen::library();
  lib.refuse = nullptr;
  lib.solve = [](const OsqpEigen::Problem& p, const VectorXd*, const VectorXd*, const OSQPSettings&) {
    ++qps;
    OsqpEigen::Answer a;
    IpmResult r = solveIpm(p.P, p.q, p.A, p.l, p.u);
    if (r.residual > 1e-5)
      ++inaccurate;
    a.x = r.x;
    a.y = VectorXd::Zero(p.m);
    if (r.residual > 1e-3)
      a.status = OsqpEigen::Status::MaxIterReached;
    return a;
  };
}
QPProblem::Ptr build(const std::vector<TermSpec>& terms, bool generic, const V2& x0, const Limits& lim)
{
  auto vars = makeVars(x0, lim.a, lim.b);
  QPProblem::Ptr p;
  if (generic)
    p = std::make_shared<IfoptQPProblem>(vars);
  else
    p = std::make_shared<TrajOptQPProblem>(vars);
  for (auto& t : terms)
    addTerm(*p, t);
  p->setup();
  return p;
}
Run solve(TrustRegionSQPSolver& s, const QPProblem::Ptr& p)
{
  s.solve(p);
  Run r;
  r.status = s.getStatus();
  r.r = s.getResults();
  r.x = r.r.best_var_vals.head(2);
  r.final_x = p->getVariableValues();
  r.final_cost = p->getExactCosts().sum();
  return r;
}
void setParams(TrustRegionSQPSolver& s, const Params& p)
{
  s.params.initial_trust_box_size = p.box;
  s.params.initial_merit_error_coeff = p.merit;
  s.params.trust_expand_ratio = p.expand;
  s.params.inflate_constraints_individually = p.individually;
  s.params.max_iterations = 200;
  s.params.max_time = 1e9;
}
// the penalties of the last round
std::function<double(int, int)> penalties(const std::vector<TermSpec>& terms, bool generic, const Params& ps, const Run& r, double& big)
{
  VectorXd mu = r.r.merit_error_coeffs;
  if (r.status == SQPStatus::kPenaltyIterationLimit)
    for (int i = 0; i < mu.size(); ++i)
      if (!ps.individually || r.r.best_constraint_violations[i] > kTol)
        mu[i] /= 10;
  std::vector<std::vector<double>> m;
  int row = 0, term = 0;
  for (auto& t : terms)
    if (t.kind == CNT)
    {
      m.push_back({});
      for (size_t i = 0; i < t.rows.size(); ++i, ++row)
        m.back().push_back(mu[generic ? row : term]);
      ++term;
    }
  big = mu.size() ? std::max(1.0, mu.maxCoeff()) : 1;
  return [m](int t, int i) { return m[size_t(t)][size_t(i)]; };
}
// what holds at the end of every run
bool basics(Ctx& c, const std::vector<TermSpec>& terms, const Limits& lim, const Run& r, const std::string& where)
{
  auto at = [&](const std::string& w) { return [&where, w] { return where + ": " + w; }; };
  c.transitions();
  c.traces();
  c.state(Hash().s(show(terms)).d(r.x[0]).d(r.x[1]).h);
  c.checkf(r.final_x.size() == 2 && (r.final_x - r.x).isZero(), "final-variables", at("the problem is not left at the best point"));
  const double tolx = 1e-6;
  c.checkf(r.x[0] >= lim.a.lo - tolx && r.x[0] <= lim.a.hi + tolx && r.x[1] >= lim.b.lo - tolx && r.x[1] <= lim.b.hi + tolx, "limits", at(str("the result ", show(V2(r.x)), " violates the variable limits")));
  c.checkf(near(r.r.best_costs.sum(), merit(terms, [](int, int) { return 0.0; }, V2(r.x)), 1e-7), "cost", at("the cost reported is not that of the result"));
  c.checkf(near(r.final_cost, r.r.best_costs.sum(), 1e-7), "cost", at("the problem's cost is not the one reported"));
  const double viol = r.r.best_constraint_violations.size() ? r.r.best_constraint_violations.maxCoeff() : 0;
  c.checkf(r.status != SQPStatus::kConverged || viol < kTol, "violation", at(str("the converged result violates a constraint by ", viol)));
  double own = 0;
  for (auto& t : terms)
    if (t.kind == CNT)
      for (auto& q : t.rows)
        own = std::max(own, dist(fval(q.f, r.x[0], r.x[1]), q.lo, q.hi));
  c.checkf(r.status != SQPStatus::kConverged || own < 1.01 * kTol, "violation", at(str("the converged result violates a row by ", own)));
  if (inaccurate)
    c.count("solves with an inaccurate QP");
  return !inaccurate;
}
void judge(Ctx& c, const std::vector<TermSpec>& terms, bool generic, const Limits& lim, const Params& ps, const Run& r, const std::string& where)
{
  auto at = [&](const std::string& w) { return [&where, w] { return where + ": " + w; }; };
  if (!basics(c, terms, lim, r, where))
    return;
  // feasibility of the problem
  Best f = least(terms, [](int, int) { return 1.0; }, false, lim);
  if (f.residual > 1e-7)
    return c.count("oracle not accurate");
  const bool feasible = f.value < 1e-6;
  if (!feasible && f.value < 1e-2)
    return;
  c.outcome(Hash().u(uint64_t(r.status)).u(feasible).u(terms.size()).h);
  c.checkf(r.status == SQPStatus::kConverged || r.status == SQPStatus::kPenaltyIterationLimit, "status", at(str("ended with status ", int(r.status))));
  c.checkf(feasible || r.status != SQPStatus::kConverged, "status", at("the infeasible problem is said to be solved"));
  double big = 1;
  auto price = penalties(terms, generic, ps, r, big);
  Best b = least(terms, price, true, lim);
  if (b.residual > 1e-7)
    return c.count("oracle not accurate");
  if (feasible && r.status == SQPStatus::kPenaltyIterationLimit)
  {
    // only if the penalties, raised as often as allowed, are still too small
    double viol = 0;
    for (auto& t : terms)
      if (t.kind == CNT)
        for (auto& q : t.rows) viol = std::max(viol, dist(fval(q.f, b.x[0], b.x[1]), q.lo, q.hi));
    c.checkf(viol > 0.5 * kTol, "status", at("the feasible problem is said to be infeasible though the penalties are large enough"));
    c.count("feasible problems whose penalties stay too small");
  }
  const double got = merit(terms, price, V2(r.x));
  const double far = (b.x - V2(r.x)).cwiseAbs().maxCoeff();
  const double allowed = (kImprove + 2e-6 * big) * std::max(1.0, far / r.r.box_size.minCoeff());
  c.checkf(got <= b.value + allowed, "optimum", at(str("the result ", show(V2(r.x)), " has merit ", got, ", ", show(b.x), " has ", b.value, " (trust box ", r.r.box_size.minCoeff(), ", allowed difference ", allowed, ")")));
}
void judgeCurved(Ctx& c, const std::vector<TermSpec>& terms, bool generic, const Limits& lim, const Params& ps, const Run& r, const std::string& where)
{
  auto at = [&](const std::string& w) { return [&where, w] { return where + ": " + w; }; };
  if (!basics(c, terms, lim, r, where))
    return;
  c.outcome(Hash().u(uint64_t(r.status)).u(terms.size()).u(100).h);
  const double box = r.r.box_size.minCoeff();
  if (r.status != SQPStatus::kConverged || box < 1e-4 || r.r.overall_iteration >= 200 || r.r.convexify_iteration >= 99)
    return c.count("curved problems that do not end at a stationary point");
  double big = 1;
  auto price = penalties(terms, generic, ps, r, big);
  const V2 x = r.x;
  Best b = least(terms, price, true, lim, &x, box);
  if (b.residual > 1e-7)
    return c.count("oracle not accurate");
  // the value of the linearised terms at that point
  double model = 0;
  int cnt = 0;
  for (auto& t : terms)
  {
    for (size_t i = 0; i < t.rows.size(); ++i)
    {
      const double d = dist(rowLin(t.rows[i], x, b.x), t.rows[i].lo, t.rows[i].hi);
      model += t.kind == CNT ? price(cnt, int(i)) * d : t.kind == SQ ? t.rows[i].w * d * d : t.rows[i].w * d;
    }
    cnt += t.kind == CNT;
  }
  const double got = merit(terms, price, x);
  c.checkf(got <= model + kImprove + 2e-6 * big, "stationary", at(str("the result ", show(x), " has merit ", got, ", its linearisation has ", model, " at ", show(b.x), " within the trust box ", box)));
}
const std::vector<V2>& starts(bool dense)
{
  static const std::vector<V2> few = { { 0, 0.25 }, { -3, 2.5 } }, many = grid({ -3, 0, 0.5, 4 }, { -2, 0.25, 2.5 });
  return dense ? many : few;
}
V2 into(const V2& x, const Limits& l) { return { std::min(std::max(x[0], l.a.lo), l.a.hi), std::min(std::max(x[1], l.b.lo), l.b.hi) }; }
void one(Ctx& c, const std::vector<TermSpec>& terms, bool generic, bool isCurved = false)
{
  for (auto& lim : limitSets)
    for (auto& ps : paramSets)
      for (auto& s0 : starts(c.thorough || terms.size() < 2))
      {
        const V2 x0 = into(s0, lim);
        connect();
        inaccurate = 0;
        TrustRegionSQPSolver s(std::make_shared<OSQPEigenSolver>());
        setParams(s, ps);
        Run r = solve(s, build(terms, generic, x0, lim));
        (isCurved ? judgeCurved : judge)(c, terms, generic, lim, ps, r, str(generic ? "generic" : "trajectory", " problem {", show(terms), "}, limits ", lim.name, ", parameters ", ps.name, ", start ", show(x0)));
      }
}
void sequence(Ctx& c, const std::vector<std::vector<TermSpec>>& problems, bool generic)
{
  for (auto& s0 : starts(false))
  {
    connect();
    TrustRegionSQPSolver s(std::make_shared<OSQPEigenSolver>());
    setParams(s, paramSets[0]);
    std::string where = str(generic ? "generic" : "trajectory", " problems, start ", show(s0), ":");
    for (auto& p : problems)
    {
      where += " {" + show(p) + "}";
      inaccurate = 0;
      Run r = solve(s, build(p, generic, s0, limitSets[0]));
      TrustRegionSQPSolver f(std::make_shared<OSQPEigenSolver>());
      setParams(f, paramSets[0]);
      Run e = solve(f, build(p, generic, s0, limitSets[0]));
      c.transitions();
      c.traces();
      c.checkf(r.status == e.status, "reuse-status", [&] { return str(where, ": status ", int(r.status), ", a new solver ends with ", int(e.status)); });
      c.checkf((r.x - e.x).cwiseAbs().maxCoeff() < 1e-9, "reuse-result", [&] { return str(where, ": result ", show(V2(r.x)), ", a new solver ends at ", show(V2(e.x))); });
      c.checkf(r.r.overall_iteration == e.r.overall_iteration, "reuse-iterations", [&] { return str(where, ": ", r.r.overall_iteration, " QPs, a new solver needs ", e.r.overall_iteration); });
    }
  }
}
}  // namespace
void mc::explore(Ctx& c)
{
  quiet();
  std::cout.setstate(std::ios::failbit);
  const auto& cat = linear();
  auto build = [&](std::vector<int> idx) {
    std::vector<TermSpec> t;
    for (int i : idx)
    {
      t.push_back(cat[size_t(i)]);
      t.back().name += "#" + std::to_string(t.size());
    }
    return t;
  };
  for (int generic = 0; generic < 2; ++generic)
  {
    std::vector<int> from;
    for (int i = 0; i < int(cat.size()); ++i)
      if (!generic || cat[size_t(i)].kind == CNT || cat[size_t(i)].kind == SQ)  // the adapter has no hinge, and models |.| as a square
        from.push_back(i);
    std::function<void(std::vector<int>)> rec = [&](std::vector<int> cur) {
      c.item([=] { return str(generic ? "generic" : "trajectory", " problem {", show(build(cur)), "}"); }, [&, cur, generic] { one(c, build(cur), generic); });
      if (int(cur.size()) < (c.thorough ? 3 : 2))
        for (int i : from)
        {
          auto next = cur;
          next.push_back(i);
          rec(next);
        }
    };
    rec({});
    auto curvedOf = [](std::vector<int> idx) {
      std::vector<TermSpec> t;
      for (int i : idx)
      {
        t.push_back(curved()[size_t(i)]);
        t.back().name += "#" + std::to_string(t.size());
      }
      return t;
    };
    std::vector<int> cfrom;
    for (int i = 0; i < int(curved().size()); ++i)
      if (!generic || curved()[size_t(i)].kind == CNT || curved()[size_t(i)].kind == SQ)
        cfrom.push_back(i);
    std::function<void(std::vector<int>)> crec = [&](std::vector<int> cur) {
      if (!cur.empty())
        c.item([=] { return str(generic ? "generic" : "trajectory", " curved problem {", show(curvedOf(cur)), "}"); }, [&, cur, generic] { one(c, curvedOf(cur), generic, true); });
      if (int(cur.size()) < (c.thorough ? 3 : 2))
        for (int i : cfrom)
        {
          auto next = cur;
          next.push_back(i);
          crec(next);
        }
    };
    crec({});
    // problems one after the other
    std::vector<std::vector<int>> pool = { {}, { 6 }, { 0, 7 }, { 7, 1 }, { 2, 8 }, { 0, 5, 6 }, { 4, 6 }, { 3, 1, 8 } };
    if (!generic)
      for (auto& v : std::vector<std::vector<int>>{ { 9 }, { 10, 1 }, { 11, 6 }, { 12, 0 } })
        pool.push_back(v);
    for (auto& a : pool)
      for (auto& b : pool)
      {
        c.item([=] { return str(generic ? "generic" : "trajectory", " problem {", show(build(a)), "} and then {", show(build(b)), "}"); }, [&, a, b, generic] {
          if (!c.thorough)
            return sequence(c, { build(a), build(b) }, generic);
          for (auto& d : pool)
            sequence(c, { build(a), build(b), build(d) }, generic);
        });
      }
  }
}
