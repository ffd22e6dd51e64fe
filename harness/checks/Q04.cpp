// Q04: the assembled QP is the penalised linearisation of the nonlinear problem, for every small problem and point.
#include <common/qp_terms.hpp>
using namespace qpt;
const CheckInfo mc::info = { "Q04", "exploration",
  "every ordered tuple of up to 2 (thorough: 3) terms out of an 23-term catalogue (constraints, squared, absolute and hinge costs; "
  "fixed, row-changing and weight-changing terms; zero, constant and tiny derivative entries), every expansion point, penalty weights and box "
  "of the grid; a case is one convexified QP, compared with the penalised linearisation at a grid of points after minimising exactly over the slacks",
  { "row weights are non-negative", "constraints have one-sided or equality bounds (others must be refused)" } };
using trajopt_sqp::TrajOptQPProblem;

static void one(Ctx& c, const std::vector<TermSpec>& terms, bool dense)
{
  const auto pts = dense ? grid({ -1, 0, 0.5, 1.25, 2 }, { -1.5, 0, 0.75, 2 }) : grid({ -1, 0, 1.5 }, { -1, 0.5 });
  const auto evals = grid({ -1.5, 0, 1 }, { -1, 0.25, 2 });
  for (size_t pi = 0; pi < pts.size(); ++pi)
    for (int wsel = 0; wsel < 2; ++wsel)
    {
      const V2 xc = pts[pi];
      auto vars = makeVars({ 0.3, 0.7 });
      TrajOptQPProblem p(vars);
      for (auto& t : terms)
        addTerm(p, t);
      p.setup();
      p.setVariables(xc.data());
      auto w = [&](int k) { return wsel ? 3.0 + 4 * k : 10.0; };
      p.setConstraintMeritCoeff(weightVector(p, terms, w));
      p.convexify();
      c.transitions();
      QPView q(p);
      auto where = [&] { return str("terms {", show(terms), "} convexified at ", show(xc), " penalties ", wsel ? "3+4k" : "10"); };
      std::string sh = q.shape();
      c.checkf(sh.empty(), "shape", [&] { return where() + ": " + sh; });
      int slacks = 0, rows = 0;
      for (auto& t : terms)
        if (t.kind != SQ)
          for (int i : t.active(xc))
          {
            ++rows;
            slacks += t.rows[size_t(i)].lo == t.rows[size_t(i)].hi ? 2 : 1;
          }
      c.checkf(q.nv == 2 + slacks && q.m == rows, "sizes",
               [&] { return str(where(), ": ", q.nv, " variables and ", q.m, " constraint rows, expected ", 2 + slacks, " and ", rows); });
      auto ref = [&](const V2& x) {
        double o = 0;
        for (size_t k = 0; k < terms.size(); ++k)
          o += (terms[k].kind == CNT ? w(int(k)) : 1) * termValue(terms[k], xc, x, true);
        return o;
      };
      Hash h;
      for (int i = 0; i < q.nv; ++i)
        h.d(q.g[i]);
      for (int i = 0; i < q.m; ++i)
        h.d(q.lb[i]).d(q.ub[i]);
      h.d(xc[0]).d(xc[1]).s(show(terms));
      c.state(h);
      const double o0 = q.least(evals[0]), r0 = ref(evals[0]);
      for (auto& x : evals)
      {
        double o = q.least(x) - o0, r = ref(x) - r0;
        c.checkf(near(o, r, 1e-6), "objective", [&] {
          return str(where(), ": the least objective changes by ", o, " from ", show(evals[0]), " to ", show(x), ", the penalised linearisation by ", r);
        });
      }
      c.traces();
    }
}
static void refused(Ctx& c)
{
  const Row bad[] = { { 0, -1, 1, 1 }, { 0, -INF, INF, 1 }, { 0, 1, 1, 1 }, { 0, 0, INF, 1 }, { 0, -INF, 0, 1 } };
  for (int b = 0; b < 5; ++b)
    for (int k = 0; k < 4; ++k)
    {
      const bool eq = b == 2, one = b >= 3;
      const bool allowed = k == CNT ? eq || one : k == HINGE ? one : eq;
      auto vars = makeVars({ 0.5, -1 });
      TrajOptQPProblem p(vars);
      bool thrown = false;
      try
      {
        addTerm(p, { "t", Kind(k), { bad[b] } });
        p.setup();
        p.convexify();
      }
      catch (const std::exception&)
      {
        thrown = true;
      }
      c.transitions();
      c.state(Hash().u(77).u(b).u(k));
      c.checkf(thrown == !allowed, "refuse", [&] { return str("bounds kind ", b, " for term kind ", k, thrown ? " refused" : " accepted"); });
    }
}
void mc::explore(Ctx& c)
{
  quiet();
  c.item([] { return "bounds a term kind cannot represent"; }, [&] { refused(c); });
  tuples(2, allTerms(), [&](const std::vector<TermSpec>& t) {
    c.item([t] { return "terms {" + show(t) + "}"; }, [&] { one(c, t, t.size() < 2 || c.thorough); });
  });
  const std::vector<int> few = { 0, 2, 4, 5, 6, 8, 10, 13, 14, 16, 17 };
  tuples(3, c.thorough ? allTerms() : few, [&](const std::vector<TermSpec>& t) {
    if (t.size() == 3)
      c.item([t] { return "terms {" + show(t) + "}"; }, [&] { one(c, t, false); });
  });
}
