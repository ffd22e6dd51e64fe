// Q07: the variable rows of the QP are the variable limits intersected with the trust box around the clamped value.
#include <common/qp_terms.hpp>
using namespace qpt;
const CheckInfo mc::info = { "Q07", "exploration",
  "every pair of limit kinds for two variables (free, lower, upper, range, point, outside start), every value of the grid inside and outside the limits, every box size of the list "
  "(uniform and per variable), problems with no / slack-free / slack-carrying / row-changing terms, and every sequence of up to 3 (thorough: 4) of {move variables, set box, "
  "scale box, convexify} followed by a read; both QP adapters where the operations exist",
  { "box sizes are non-negative and finite", "limits are not NaN" } };
using trajopt_sqp::TrajOptQPProblem;

static const std::vector<VarSpec> kLim = { { -INF, INF }, { -0.5, INF }, { -INF, 0.5 }, { -0.5, 1 }, { 0.25, 0.25 }, { 2, 3 } };
struct Prob
{
  std::shared_ptr<trajopt_ifopt::NodesVariables> vars;
  std::unique_ptr<trajopt_sqp::QPProblem> p;
};
static std::vector<TermSpec> termSet(int k)
{
  const auto& c = catalogue();
  auto pick = [&](std::initializer_list<int> l) {
    std::vector<TermSpec> v;
    for (int i : l)
      v.push_back(c[size_t(i)]);
    return v;
  };
  return k == 0 ? pick({}) : k == 1 ? pick({ 7 }) : k == 2 ? pick({ 0, 15 }) : k == 3 ? pick({ 4, 14, 10 }) : pick({ 2, 8 });
}
static Prob build(bool ifopt, const VarSpec& a, const VarSpec& b, int terms)
{
  Prob r;
  r.vars = makeVars({ 0.1, 0.2 }, a, b);
  if (ifopt)
    r.p = std::make_unique<trajopt_sqp::IfoptQPProblem>(r.vars);
  else
    r.p = std::make_unique<TrajOptQPProblem>(r.vars);
  for (auto& t : termSet(terms))
    addTerm(*r.p, t);
  r.p->setup();
  return r;
}
static void judge(Ctx& c, const Prob& r, const VarSpec* lim, const V2& at, const V2& box, const std::function<std::string()>& where)
{
  const VectorXd &lb = r.p->getBoundsLower(), &ub = r.p->getBoundsUpper();
  const int nv = int(r.p->getNumQPVars()), m = int(r.p->getNumQPConstraints()) - nv;
  if (lb.size() != m + nv || ub.size() != m + nv)
  {
    c.fail("size", where() + ": bound vectors have the wrong size");
    return;
  }
  for (int i = 0; i < 2; ++i)
  {
    double cl = at[i] < lim[i].lo ? lim[i].lo : at[i] > lim[i].hi ? lim[i].hi : at[i];
    double lo = std::max(cl - box[i], lim[i].lo), hi = std::min(cl + box[i], lim[i].hi);
    c.checkf(near(lb[m + i], lo, 1e-12) && near(ub[m + i], hi, 1e-12), "box", [&] {
      return str(where(), ": variable ", i, " bounded to [", lb[m + i], ",", ub[m + i], "], expected [", lo, ",", hi, "]");
    });
    c.checkf(lb[m + i] <= ub[m + i], "empty", [&] { return str(where(), ": empty box for variable ", i); });
    c.checkf(lb[m + i] >= lim[i].lo && ub[m + i] <= lim[i].hi, "limits", [&] { return str(where(), ": box of variable ", i, " leaves its limits"); });
  }
  for (int j = 2; j < nv; ++j)
    c.checkf(lb[m + j] == 0 && ub[m + j] > 1e20, "slack", [&] { return str(where(), ": slack variable ", j, " bounded to [", lb[m + j], ",", ub[m + j], "]"); });
}
static void grids(Ctx& c, int ai, int bi, bool ifopt)
{
  const std::vector<double> vals = { -1e6, -2, -0.5, -0.25, 0, 0.25, 0.5, 1, 2.5, 4 };
  const std::vector<double> vb = { -2, -0.5, 0.25, 0.75, 1e3 };
  const std::vector<V2> boxes = { { 0.1, 0.1 }, { 0, 0 }, { 1e-9, 2 }, { 3, 0.01 }, { 1e8, 1e8 } };
  VarSpec lim[2] = { kLim[size_t(ai)], kLim[size_t(bi)] };
  for (int terms : ifopt ? std::vector<int>{ 0, 1, 4 } : std::vector<int>{ 0, 1, 2, 3 })
    for (double a : vals)
      for (double b : vb)
      {
        V2 x(a, b);
        Prob r = build(ifopt, lim[0], lim[1], terms);
        r.p->setVariables(x.data());
        r.p->convexify();
        auto where = [&](const char* how, const V2& box) {
          return str(ifopt ? "generic" : "trajopt", " problem, limits [", lim[0].lo, ",", lim[0].hi, "]x[", lim[1].lo, ",", lim[1].hi, "], terms ", terms, ", x ", show(x), ", ", how, " ", show(box));
        };
        judge(c, r, lim, x, { 0.1, 0.1 }, [&] { return where("initial box", { 0.1, 0.1 }); });
        for (auto& bx : boxes)
        {
          r.p->setBoxSize(bx);
          judge(c, r, lim, x, bx, [&] { return where("setBoxSize", bx); });
          double s = 0.25;
          r.p->scaleBoxSize(s);
          V2 sb = bx * 0.25;
          judge(c, r, lim, x, sb, [&] { return where("scaled", sb); });
          c.checkf(near(r.p->getBoxSize()[0], sb[0], 1e-12) && near(r.p->getBoxSize()[1], sb[1], 1e-12), "report", [&] { return where("reported box after scaling", sb); });
          c.transitions(2);
        }
        r.p->convexify();
        judge(c, r, lim, x, boxes.back() * 0.25, [&] { return where("convexified with", boxes.back() * 0.25); });
        c.state(Hash().u(ai).u(bi).u(terms).u(ifopt).d(a).d(b));
        c.traces();
      }
}
static void sequences(Ctx& c, int terms, bool ifopt)
{
  const VarSpec lim[2] = { { -0.5, 1 }, { -INF, 2 } };
  Dfs d(c);
  const int depth = c.thorough ? 5 : 4;
  d.run([&] {
    Prob r = build(ifopt, lim[0], lim[1], terms);
    r.p->convexify();
    V2 x(0.1, 0.2), box(0.1, 0.1);
    std::string trace;
    bool current = true;  // does the QP reflect x and box?
    for (int k = 0; k < depth; ++k)
    {
      int op = d.choose(7);
      c.transitions();
      switch (op)
      {
        case 0: x = V2(-3, 1.5); break;
        case 1: x = V2(0.9, 5); break;
        case 2: x = V2(1.5, -1); break;
      }
      if (op < 3)
      {
        r.p->setVariables(x.data());
        trace += str(" move", show(x));
        current = false;
      }
      else if (op == 3)
      {
        box = V2(0.5, 0.02);
        r.p->setBoxSize(box);
        trace += " setBox(0.5,0.02)";
        current = true;
      }
      else if (op < 6)
      {
        double s = op == 4 ? 1.5 : 0.1;
        box *= s;
        r.p->scaleBoxSize(s);
        trace += str(" scale(", s, ")");
        current = true;
      }
      else
      {
        r.p->convexify();
        trace += " convexify";
        current = true;
      }
      if (current)
        judge(c, r, lim, x, box, [&] { return str(ifopt ? "generic" : "trajopt", " problem, terms ", terms, ", after", trace); });
      c.state(Hash().d(x[0]).d(x[1]).d(box[0]).d(box[1]).u(current).u(terms).u(ifopt));
    }
    c.traces();
  });
}
void mc::explore(Ctx& c)
{
  quiet();
  for (int ifopt = 0; ifopt < 2; ++ifopt)
  {
    for (int a = 0; a < int(kLim.size()); ++a)
      for (int b = 0; b < int(kLim.size()); ++b)
        c.item([=] { return str(ifopt ? "generic" : "trajopt", " limits ", a, " x ", b); }, [&] { grids(c, a, b, ifopt); });
    for (int t : ifopt ? std::vector<int>{ 0, 1, 4 } : std::vector<int>{ 0, 1, 2, 3 })
      c.item([=] { return str(ifopt ? "generic" : "trajopt", " sequences, terms ", t); }, [&] { sequences(c, t, ifopt); });
  }
}
