// Q06: a QP problem's answers do not depend on its past.
#include <common/qp_terms.hpp>
using namespace qpt;
const CheckInfo mc::info = { "Q06", "model_checking",
  "every sequence of up to 5 (thorough: 6) operations out of {move to one of 4 points (some of which add or remove rows of the terms), convexify, set box, scale box, "
  "set penalty weights, add the next term and set up, set up again} on a trajectory QP problem, for every term list of the configuration; after each convexification every accessor is compared "
  "with a freshly built problem in the same state (terms, point, box, weights), and exact values after every move. The generic adapter is driven the same way",
  { "setup is run after terms were added", "the term list has one-sided or equality bounds" } };
using trajopt_sqp::TrajOptQPProblem;

static const std::vector<V2> kPts = { { 0.3, 0.7 }, { -2, 0.5 }, { 1.5, -1 }, { 0.5, 0.7 } };
struct St
{
  size_t nterms;
  V2 x, box;
  int w;
};
static std::unique_ptr<trajopt_sqp::QPProblem> mk(bool ifopt, std::shared_ptr<trajopt_ifopt::NodesVariables> v)
{
  if (ifopt)
    return std::make_unique<trajopt_sqp::IfoptQPProblem>(v);
  return std::make_unique<TrajOptQPProblem>(v);
}
static VectorXd weights(const trajopt_sqp::QPProblem& p, int sel)
{
  VectorXd w(p.getNumNLPConstraints());
  for (int i = 0; i < w.size(); ++i)
    w[i] = sel == 0 ? 10 : sel * 5.0 + 3 * i;
  return w;
}
static std::string diffV(const char* n, const VectorXd& a, const VectorXd& b)
{
  if (a.size() != b.size())
    return str(n, " has ", a.size(), " entries instead of ", b.size());
  for (int i = 0; i < a.size(); ++i)
    if (!(a[i] == b[i] || near(a[i], b[i], 1e-9)))
      return str(n, "[", i, "] is ", a[i], " instead of ", b[i]);
  return "";
}
static std::string diffM(const char* n, const MatrixXd& a, const MatrixXd& b)
{
  if (a.rows() != b.rows() || a.cols() != b.cols())
    return str(n, " is ", a.rows(), "x", a.cols(), " instead of ", b.rows(), "x", b.cols());
  for (int i = 0; i < a.rows(); ++i)
    for (int j = 0; j < a.cols(); ++j)
      if (!near(a(i, j), b(i, j), 1e-9))
        return str(n, "(", i, ",", j, ") is ", a(i, j), " instead of ", b(i, j));
  return "";
}
static std::string compareExact(const trajopt_sqp::QPProblem& a, const trajopt_sqp::QPProblem& b)
{
  std::string s;
  if (a.getNLPCostNames() != b.getNLPCostNames())
    return "cost names differ";
  if (a.getNLPConstraintNames() != b.getNLPConstraintNames())
    return str("constraint names differ (", a.getNLPConstraintNames().size(), " instead of ", b.getNLPConstraintNames().size(), ")");
  if (a.getNumNLPCosts() != b.getNumNLPCosts() || a.getNumNLPConstraints() != b.getNumNLPConstraints() || a.getNumNLPVars() != b.getNumNLPVars())
    return "numbers of terms or variables differ";
  for (auto f : { diffV("variables", a.getVariableValues(), b.getVariableValues()), diffV("exact costs", a.getExactCosts(), b.getExactCosts()),
                  diffV("exact violations", a.getExactConstraintViolations(), b.getExactConstraintViolations()), diffV("box", a.getBoxSize(), b.getBoxSize()),
                  diffV("penalty weights", a.getConstraintMeritCoeff(), b.getConstraintMeritCoeff()) })
    if (!f.empty())
      return f;
  if (!near(a.getTotalExactCost(), b.getTotalExactCost(), 1e-9))
    return str("total exact cost ", a.getTotalExactCost(), " instead of ", b.getTotalExactCost());
  return "";
}
static std::string compareQP(const trajopt_sqp::QPProblem& a, const trajopt_sqp::QPProblem& b)
{
  if (a.getNumQPVars() != b.getNumQPVars() || a.getNumQPConstraints() != b.getNumQPConstraints())
    return str("QP has ", a.getNumQPVars(), "/", a.getNumQPConstraints(), " variables/constraints instead of ", b.getNumQPVars(), "/", b.getNumQPConstraints());
  std::string s = diffM("Hessian", a.getHessian(), b.getHessian());
  if (s.empty()) s = diffV("gradient", a.getGradient(), b.getGradient());
  if (s.empty()) s = diffM("constraint matrix", a.getConstraintMatrix(), b.getConstraintMatrix());
  if (s.empty()) s = diffV("lower bounds", a.getBoundsLower(), b.getBoundsLower());
  if (s.empty()) s = diffV("upper bounds", a.getBoundsUpper(), b.getBoundsUpper());
  for (int k = 0; k < 2 && s.empty(); ++k)
  {
    VectorXd q = VectorXd::Constant(a.getNumQPVars(), 0.5 * k);
    q.head<2>() = V2(0.25 - k, 1.5 * k);
    s = diffV("convex costs", a.evaluateConvexCosts(q), b.evaluateConvexCosts(q));
    if (s.empty()) s = diffV("convex violations", a.evaluateConvexConstraintViolations(q), b.evaluateConvexConstraintViolations(q));
    if (s.empty() && !near(a.evaluateTotalConvexCost(q), b.evaluateTotalConvexCost(q), 1e-9))
      s = "total convex cost differs";
  }
  return s;
}
struct Cfg { std::vector<TermSpec> terms; size_t start; bool ifopt; };

static void run(Ctx& c, const Cfg& cfg, int first)
{
  Dfs d(c);
  std::unordered_set<uint64_t> seen;  // operation sequences already judged
  const int depth = c.thorough ? 6 : 5;
  VarSpec lim[2] = { { -1, 1 }, { -INF, INF } };
  d.run([&] {
    auto vars = makeVars(kPts[0], lim[0], lim[1]);
    auto p = mk(cfg.ifopt, vars);
    St s{ cfg.start, kPts[0], { 0.1, 0.1 }, 0 };
    for (size_t i = 0; i < s.nterms; ++i)
      addTerm(*p, cfg.terms[i]);
    p->setup();
    std::string ops;
    auto fresh = [&](bool convexify) {
      auto fv = makeVars({ -0.75, 0.125 }, lim[0], lim[1]);
      auto f = mk(cfg.ifopt, fv);
      for (size_t i = 0; i < s.nterms; ++i)
        addTerm(*f, cfg.terms[i]);
      f->setup();
      f->setVariables(s.x.data());
      f->setConstraintMeritCoeff(weights(*f, s.w));
      if (convexify)
      {
        f->setBoxSize(s.box);
        f->convexify();
      }
      else
        f->setBoxSize(s.box);
      return f;
    };
    auto where = [&] {
      return str(cfg.ifopt ? "generic" : "trajopt", " problem, terms {", show(cfg.terms), "} (first ", cfg.start, "):", ops);
    };
    bool clean = false;   // convexified since the last setup
    for (int k = 0; k < depth; ++k)
    {
      int op = k == 0 ? first : d.choose(9);
      c.transitions();
      bool cvx = false;
      if (op < 4)
      {
        s.x = kPts[size_t(op)];
        p->setVariables(s.x.data());
        ops += " move" + show(s.x);
      }
      else if (op == 4)
      {
        p->convexify();
        cvx = clean = true;
        ops += " convexify";
      }
      else if (op == 5)
      {
        if (k % 2)
        {
          s.box = V2(0.5, 0.25);
          p->setBoxSize(s.box);
          ops += " setBox";
        }
        else
        {
          double f = 1.5;
          s.box *= f;
          p->scaleBoxSize(f);
          ops += " scaleBox";
        }
      }
      else if (op == 6)
      {
        s.w = 1 + k % 2;
        p->setConstraintMeritCoeff(weights(*p, s.w));
        ops += " setWeights";
      }
      else
      {
        if (op == 7)
        {
          if (s.nterms >= cfg.terms.size())
            break;
          addTerm(*p, cfg.terms[s.nterms++]);
          ops += " addTerm";
        }
        p->setup();
        s.box = V2(0.1, 0.1);
        s.w = 0;
        clean = false;
        ops += " setup";
      }
      if (!seen.insert(Hash().s(ops)).second)
        continue;
      auto f = fresh(cvx);
      std::string e = compareExact(*p, *f);
      c.checkf(e.empty(), "exact", [&] { return where() + ": " + e; });
      c.outcome(Hash().raw(p->getVariableValues().data(), 16).u(uint64_t(p->getNumQPVars())).d(p->getTotalExactCost()));
      if (cvx)
      {
        e = compareQP(*p, *f);
        c.checkf(e.empty(), "qp", [&] { return where() + ": " + e; });
        c.traces();
      }
      c.state(Hash().u(s.nterms).d(s.x[0]).d(s.x[1]).d(s.box[0]).d(s.box[1]).u(s.w).u(clean).s(show(cfg.terms)).u(cfg.ifopt));
    }
  });
}
void mc::explore(Ctx& c)
{
  quiet();
  const auto& cat = catalogue();
  auto pick = [&](std::initializer_list<int> l) {
    std::vector<TermSpec> v;
    for (int i : l)
    {
      v.push_back(cat[size_t(i)]);
      v.back().name += "#" + std::to_string(v.size());
    }
    return v;
  };
  std::vector<Cfg> cfgs = {
    { pick({ 5, 4, 0, 10 }), 1, false }, { pick({ 10, 7, 14, 1 }), 1, false }, { pick({ 17, 5, 18, 12 }), 2, false },
    { pick({ 0, 8, 15, 4 }), 3, false },  { pick({ 5, 10, 17, 13 }), 0, false }, { pick({ 6, 14, 5, 2 }), 4, false },
    { pick({ 4, 5, 10, 14, 17, 0 }), 6, false }, { pick({ 9, 18, 6 }), 2, false },
    { pick({ 4, 19, 10, 20 }), 2, false }, { pick({ 10, 20, 14, 22, 0 }), 4, false }, { pick({ 17, 21, 19 }), 2, false }, { pick({ 19, 1, 5 }), 1, false },
    { pick({ 0, 8, 6, 7 }), 1, true },    { pick({ 2, 9 }), 2, true },
  };
  for (auto& g : cfgs)
    for (int f = 0; f < 9; ++f)
      c.item([=] { return str(g.ifopt ? "generic" : "trajopt", " terms {", show(g.terms), "} start ", g.start, " first op ", f); }, [&] { run(c, g, f); });
}
