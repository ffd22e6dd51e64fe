// Q05: exact and convexified costs and violations agree with their definitions, term by term.
#include <common/qp_terms.hpp>
using namespace qpt;
const CheckInfo mc::info = { "Q05", "exploration",
  "every ordered tuple of up to 2 (thorough: 3) terms of the 23-term catalogue, every pair (expansion point, evaluation point) of the grid, slack values "
  "zero / consistent / arbitrary in the evaluated vector; exact values are read at the evaluation point before and after convexifying there. "
  "A case compares every per-term entry (matched by reported name) and the totals with the definition",
  { "row weights are non-negative", "term names are unique" } };
using trajopt_sqp::TrajOptQPProblem;

static int find(const std::vector<std::string>& names, const std::string& n)
{
  for (size_t i = 0; i < names.size(); ++i)
    if (names[i] == n)
      return int(i);
  return -1;
}
static void compare(Ctx& c, const char* what, const std::vector<TermSpec>& terms, bool cnt, const std::vector<std::string>& names,
                    const VectorXd& got, const V2& xc, const V2& x, const std::function<std::string()>& where)
{
  size_t n = 0;
  for (auto& t : terms)
    n += (t.kind == CNT) == cnt;
  if (names.size() != n || size_t(got.size()) != n)
  {
    c.fail("sizes", str(where(), ": ", what, " has ", got.size(), " entries and ", names.size(), " names for ", n, " terms"));
    return;
  }
  for (auto& t : terms)
  {
    if ((t.kind == CNT) != cnt)
      continue;
    int i = find(names, t.name);
    if (i < 0)
    {
      c.fail("names", str(where(), ": no reported name for ", t.name));
      continue;
    }
    double e = termValue(t, xc, x, !cnt);
    c.checkf(near(got[i], e, 1e-6), what, [&] { return str(where(), ": ", what, " of ", t.name, " is ", got[i], ", by definition ", e); });
  }
}
static void one(Ctx& c, const std::vector<TermSpec>& terms, bool dense)
{
  const auto pts = dense ? grid({ -1, 0, 1.25, 2 }, { -1.5, 0, 0.75 }) : grid({ -1, 1.5 }, { -1, 0.5 });
  std::vector<std::string> expNames[2];
  for (auto& xc : pts)
  {
    auto vars = makeVars({ 0.3, 0.7 });
    TrajOptQPProblem p(vars);
    for (auto& t : terms)
      addTerm(p, t);
    p.setup();
    p.setVariables(xc.data());
    p.convexify();
    for (auto& x : pts)
    {
      auto where = [&] { return str("terms {", show(terms), "} convexified at ", show(xc), " evaluated at ", show(x)); };
      p.setVariables(x.data());
      c.transitions();
      VectorXd e = p.getExactCosts(), v = p.getExactConstraintViolations();
      compare(c, "exact-cost", terms, false, p.getNLPCostNames(), e, x, x, where);
      compare(c, "exact-violation", terms, true, p.getNLPConstraintNames(), v, x, x, where);
      c.checkf(near(p.getTotalExactCost(), e.sum(), 1e-9), "exact-total", [&] { return where() + ": the total exact cost is not the sum of its entries"; });
      c.checkf(p.getNumNLPCosts() == e.size() && p.getNumNLPConstraints() == v.size(), "counts", [&] { return where() + ": number of costs or constraints"; });
      // convexified quantities, still those of the expansion point xc
      for (int sl = 0; sl < 3; ++sl)
      {
        VectorXd q = VectorXd::Zero(p.getNumQPVars());
        q[0] = x[0];
        q[1] = x[1];
        for (int j = 2; j < q.size(); ++j)
          q[j] = sl == 0 ? 0 : sl == 1 ? 0.25 * (j + 1) : 100;
        VectorXd ce = p.evaluateConvexCosts(q), cv = p.evaluateConvexConstraintViolations(q);
        compare(c, "convex-cost", terms, false, p.getNLPCostNames(), ce, xc, x, where);
        compare(c, "convex-violation", terms, true, p.getNLPConstraintNames(), cv, xc, x, where);
        c.checkf(near(p.evaluateTotalConvexCost(q), ce.sum(), 1e-9), "convex-total", [&] { return where() + ": the total convex cost is not the sum of its entries"; });
        if (q.size() == 2)
          break;
      }
      c.state(Hash().s(show(terms)).d(xc[0]).d(xc[1]).d(x[0]).d(x[1]));
      c.traces();
    }
    // agreement at the expansion point
    p.setVariables(xc.data());
    VectorXd q = VectorXd::Zero(p.getNumQPVars());
    q.head<2>() = xc;
    VectorXd e = p.getExactCosts(), ce = p.evaluateConvexCosts(q);
    for (int i = 0; i < e.size() && i < ce.size(); ++i)
      c.checkf(near(e[i], ce[i], 1e-7), "tangent", [&] { return str("terms {", show(terms), "}: at the expansion point ", show(xc), " cost ", i, " is ", e[i], " but its model ", ce[i]); });
  }
}
void mc::explore(Ctx& c)
{
  quiet();
  tuples(2, allTerms(), [&](const std::vector<TermSpec>& t) {
    c.item([t] { return "terms {" + show(t) + "}"; }, [&] { one(c, t, t.size() < 2 || c.thorough); });
  });
  const std::vector<int> few = { 0, 4, 5, 6, 8, 10, 13, 14, 16, 17 };
  tuples(3, c.thorough ? allTerms() : few, [&](const std::vector<TermSpec>& t) {
    if (t.size() == 3)
      c.item([t] { return "terms {" + show(t) + "}"; }, [&] { one(c, t, false); });
  });
}
