// Q09: the generic NLP-to-QP adapter.
#include <common/qp_terms.hpp>
using namespace qpt;
const CheckInfo mc::info = { "Q09", "exploration",
  "every ordered tuple of up to 3 (thorough: 4) fixed-size terms of the catalogue (constraints, squared and absolute costs), interleaved with every refused term, every expansion point and "
  "penalty-weight pattern of the grid; a case is one convexified QP, compared with the penalised linearisation at a grid of points after minimising exactly over the slacks, "
  "plus every per-term cost and violation accessor",
  { "squared and absolute costs have equality bounds and fixed weights", "constraint row weights are not used by this adapter (the penalty weights are per row)" } };
using trajopt_sqp::IfoptQPProblem;

static const std::vector<int> kStatic = { 0, 1, 2, 3, 6, 7, 8, 9, 11, 12, 13 };
static std::vector<std::string> rowNames(const std::vector<TermSpec>& terms)
{
  std::vector<std::string> v;
  for (auto& t : terms)
    if (t.kind == CNT)
      for (size_t i = 0; i < t.rows.size(); ++i)
        v.push_back(t.name + "_" + std::to_string(i));
  return v;
}
static void one(Ctx& c, const std::vector<TermSpec>& terms, bool dense, int refuseAt)
{
  const auto pts = dense ? grid({ -1, 0, 1.25, 2 }, { -1.5, 0, 0.75 }) : grid({ -1, 1.5 }, { -1, 0.5 });
  const auto evals = grid({ -1.5, 0, 1 }, { -1, 0.25, 2 });
  std::vector<const TermSpec*> cnts, costs;
  bool abs = false;
  for (auto& t : terms)
  {
    (t.kind == CNT ? cnts : costs).push_back(&t);
    abs |= t.kind == ABS;
  }
  for (auto& xc : pts)
    for (int wsel = 0; wsel < 2; ++wsel)
    {
      IfoptQPProblem p(makeVars({ 0.3, 0.7 }));
      for (size_t i = 0; i <= terms.size(); ++i)
      {
        if (int(i) == refuseAt)
          for (int k : { 4, 10, 15 })  // row-changing constraint and cost, hinge cost
          {
            bool thrown = false;
            try { addTerm(p, catalogue()[size_t(k)]); } catch (const std::exception&) { thrown = true; }
            c.checkf(thrown, "refuse", [&] { return "term " + catalogue()[size_t(k)].name + " was accepted"; });
          }
        if (i < terms.size())
          addTerm(p, terms[i]);
      }
      p.setup();
      p.setVariables(xc.data());
      auto names = rowNames(terms);
      auto where = [&] { return str("terms {", show(terms), "} convexified at ", show(xc), " penalties ", wsel ? "3+4r" : "10"); };
      c.checkf(p.getNLPConstraintNames() == names, "constraint-names", [&] { return where() + ": constraint row names"; });
      VectorXd w = VectorXd::Constant(int(names.size()), 10);
      if (wsel)
        for (int i = 0; i < w.size(); ++i)
          w[i] = 3.0 + 4 * i;
      p.setConstraintMeritCoeff(w);
      p.convexify();
      c.transitions();
      QPView q(p);
      std::string sh = q.shape();
      c.checkf(sh.empty(), "shape", [&] { return where() + ": " + sh; });
      // the least objective over the slacks
      auto ref = [&](const V2& x) {
        double o = 0;
        int row = 0;
        for (auto t : cnts)
          for (auto& r : t->rows)
            o += w[row++] * dist(rowLin(r, xc, x), r.lo, r.hi);
        for (auto t : costs)
          for (auto& r : t->rows)
            o += r.w * std::pow(dist(rowLin(r, xc, x), r.lo, r.hi), 2);
        return o;
      };
      if (!abs)
      {
        const double o0 = q.least(evals[0]), r0 = ref(evals[0]);
        for (auto& x : evals)
        {
          double o = q.least(x) - o0, r = ref(x) - r0;
          c.checkf(near(o, r, 1e-6), "objective", [&] {
            return str(where(), ": the least objective changes by ", o, " from ", show(evals[0]), " to ", show(x), ", the penalised linearisation by ", r);
          });
        }
      }
      else
      {
        // the objective has the gradient of the exact total cost at the expansion point
        V2 g = 2 * (q.H.topLeftCorner(2, 2) * xc) + q.g.head<2>(), e(0, 0);
        bool smooth = true;
        for (auto t : costs)
          for (auto& r : t->rows)
          {
            double v = fval(r.f, xc[0], xc[1]) - r.lo;
            if (t->kind == ABS && std::fabs(v) < 1e-6)
              smooth = false;
            e += r.w * (t->kind == SQ ? 2 * v : v > 0 ? 1 : -1) * fgrad(r.f, xc[0], xc[1]);
          }
        c.checkf(!smooth || (g - e).norm() < 1e-5 * (1 + e.norm()), "absolute-as-squared", [&] {
          return str(where(), ": the gradient of the objective at the expansion point is ", show(g), ", that of the exact cost ", show(e));
        });
      }
      // values
      for (auto& x : evals)
      {
        p.setVariables(x.data());
        VectorXd ec = p.getExactCosts(), ev = p.getExactConstraintViolations(), qv = VectorXd::Constant(q.nv, 0.5);
        qv.head<2>() = x;
        VectorXd cc = p.evaluateConvexCosts(qv), cv = p.evaluateConvexConstraintViolations(qv);
        c.transitions();
        if (ec.size() != int(costs.size()) || cc.size() != int(costs.size()) || ev.size() != int(names.size()) || cv.size() != ev.size() ||
            p.getNumNLPCosts() != ec.size() || p.getNumNLPConstraints() != ev.size())
        {
          c.fail("sizes", str(where(), ": sizes of the cost and violation vectors"));
          continue;
        }
        double tot = 0;
        for (size_t i = 0; i < costs.size(); ++i)
        {
          double e = termValue(*costs[i], x, x, true), m = termValue(*costs[i], xc, x, true);
          tot += e;
          c.checkf(near(ec[int(i)], e, 1e-7), "exact-cost", [&] { return str(where(), ": exact cost of ", costs[i]->name, " at ", show(x), " is ", ec[int(i)], ", by definition ", e); });
          if (costs[i]->kind == SQ)
            c.checkf(near(cc[int(i)], m, 1e-6), "convex-cost", [&] { return str(where(), ": convex cost of ", costs[i]->name, " at ", show(x), " is ", cc[int(i)], ", by definition ", m); });
          c.checkf(p.getNLPCostNames().size() == costs.size() && p.getNLPCostNames()[i].find(costs[i]->name) == 0, "cost-names", [&] { return where() + ": cost names"; });
        }
        c.checkf(near(p.getTotalExactCost(), tot, 1e-7), "exact-total", [&] { return str(where(), ": total exact cost at ", show(x), " is ", p.getTotalExactCost(), ", the terms sum to ", tot); });
        c.checkf(near(p.evaluateTotalConvexCost(qv), cc.sum(), 1e-9), "convex-total", [&] { return where() + ": total convex cost is not the sum of its entries"; });
        int row = 0;
        for (auto t : cnts)
          for (auto& r : t->rows)
          {
            double e = dist(fval(r.f, x[0], x[1]), r.lo, r.hi), m = dist(rowLin(r, xc, x), r.lo, r.hi);
            c.checkf(near(ev[row], e, 1e-7), "exact-violation", [&] { return str(where(), ": exact violation of row ", row, " at ", show(x), " is ", ev[row], ", by definition ", e); });
            c.checkf(near(cv[row], m, 1e-6), "convex-violation", [&] { return str(where(), ": convex violation of row ", row, " at ", show(x), " is ", cv[row], ", by definition ", m); });
            ++row;
          }
      }
      // agreement at the expansion point
      p.setVariables(xc.data());
      VectorXd qx = VectorXd::Zero(q.nv);
      qx.head<2>() = xc;
      VectorXd ec = p.getExactCosts(), cc = p.evaluateConvexCosts(qx);
      for (int i = 0; i < ec.size() && i < cc.size(); ++i)
        c.checkf(near(ec[i], cc[i], 1e-7), "tangent", [&] { return str(where(), ": cost ", i, " is ", ec[i], " but its model ", cc[i], " at the expansion point"); });
      c.state(Hash().s(show(terms)).d(xc[0]).d(xc[1]).u(wsel).u(refuseAt));
      c.traces();
    }
}
void mc::explore(Ctx& c)
{
  quiet();
  tuples(2, kStatic, [&](const std::vector<TermSpec>& t) {
    for (int r = -1; r <= int(t.size()); ++r)
      c.item([t, r] { return str("terms {", show(t), "} refused terms tried at ", r); }, [&] { one(c, t, t.size() < 2 || c.thorough, r); });
  });
  tuples(c.thorough ? 4 : 3, kStatic, [&](const std::vector<TermSpec>& t) {
    if (t.size() >= 3)
      c.item([t] { return "terms {" + show(t) + "}"; }, [&] { one(c, t, false, -1); });
  });
}
