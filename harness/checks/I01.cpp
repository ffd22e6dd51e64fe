// I01: a nonlinear problem's evaluation aggregates its parts faithfully.
#include <common/qp_terms.hpp>
#include <trajopt_ifopt/core/composite.h>
#include <trajopt_ifopt/core/cost_term.h>
#include <trajopt_ifopt/core/problem.h>
using namespace qpt;
const CheckInfo mc::info = { "I01", "model_checking",
  "every ordered tuple of up to 3 (thorough: 4) parts out of 4 constraint sets (0-3 rows) and 3 cost terms over 4 variables in three node layouts, and for each every sequence of up to 4 "
  "of {set variables to one of 3 points, save iterate, restore first / last saved iterate} with every accessor compared after every step; plus nested row-stacking composites of fixed and "
  "row-changing parts",
  { "parts of the problem itself have a fixed number of rows", "variables are set before the first evaluation" } };
using trajopt_ifopt::CompositeDifferentiable;
using trajopt_ifopt::ConstraintSet;
using trajopt_ifopt::CostTerm;
using trajopt_ifopt::Differentiable;
using trajopt_ifopt::Problem;
using V4 = Eigen::Vector4d;

// value c + a*x_i + x_i*x_j (j<0: linear)
struct F { int i, j; double a, c; };
static double val(const F& f, const V4& x) { return f.c + f.a * x[f.i] + (f.j >= 0 ? x[f.i] * x[f.j] : 0); }
static V4 grad(const F& f, const V4& x)
{
  V4 g = V4::Zero();
  g[f.i] += f.a;
  if (f.j >= 0)
  {
    g[f.i] += x[f.j];
    g[f.j] += x[f.i];
  }
  return g;
}
struct Part { const char* name; bool cost; std::vector<F> rows; };
static const std::vector<Part> kParts = {
  { "c0", false, {} },
  { "c1", false, { { 3, -1, 2, 0.5 } } },
  { "c2", false, { { 0, 1, 0, -1 }, { 2, 3, 1, 0 } } },
  { "c3", false, { { 1, -1, -1, 0 }, { 3, 0, 3, 2 }, { 2, -1, 0.25, 1 } } },
  { "k1", true, { { 1, 2, 1, 3 } } },
  { "k2", true, { { 0, -1, -2, -4 } } },
  { "k3", true, { { 3, 3, 0, 1 } } },
};
static Bounds rowBound(size_t r) { return r == 0 ? Bounds(-1, 1) : r == 1 ? Bounds(-INF, 2) : Bounds(0.5, 0.5); }

template <class Base>
struct Impl : Base
{
  Part p;
  VectorXd v;
  Jacobian J;
  void compute()
  {
    const V4 x = this->variables_->getValues();
    v.resize(int(p.rows.size()));
    std::vector<Eigen::Triplet<double>> t;
    for (size_t r = 0; r < p.rows.size(); ++r)
    {
      v[int(r)] = val(p.rows[r], x);
      V4 g = grad(p.rows[r], x);
      for (int k = 0; k < 4; ++k)
        if (g[k] != 0)
          t.emplace_back(int(r), k, g[k]);
    }
    J.resize(int(p.rows.size()), 4);
    J.setFromTriplets(t.begin(), t.end());
  }
  int update() override
  {
    compute();
    return this->rows_;
  }
  VectorXd getCoefficients() const override { return VectorXd::Ones(this->rows_); }
  Jacobian getJacobian() const override { return J; }
  template <class... A> Impl(const Part& q, A... a) : Base(q.name, a...), p(q) { this->non_zeros_ = 12; v = VectorXd::Constant(int(q.rows.size()), NAN); }
};
struct Cnt : Impl<ConstraintSet>
{
  Cnt(const Part& q) : Impl<ConstraintSet>(q, int(q.rows.size())) {}
  VectorXd getValues() const override { return v; }
  std::vector<Bounds> getBounds() const override
  {
    std::vector<Bounds> b;
    for (size_t r = 0; r < p.rows.size(); ++r)
      b.push_back(rowBound(r));
    return b;
  }
};
struct Cost : Impl<CostTerm>
{
  Cost(const Part& q) : Impl<CostTerm>(q) {}
  double getCost() const override { return v[0]; }
};
static std::shared_ptr<trajopt_ifopt::NodesVariables> vars4(int layout)
{
  std::vector<std::unique_ptr<trajopt_ifopt::Node>> nodes;
  const std::vector<std::vector<int>> lay[] = { { { 1 }, { 1 }, { 1 }, { 1 } }, { { 2 }, { 2 } }, { { 1, 3 } } };
  int k = 0;
  for (size_t n = 0; n < lay[layout].size(); ++n)
  {
    nodes.push_back(std::make_unique<trajopt_ifopt::Node>("n" + std::to_string(n)));
    for (size_t q = 0; q < lay[layout][n].size(); ++q)
    {
      int d = lay[layout][n][q];
      std::vector<std::string> nm;
      for (int i = 0; i < d; ++i)
        nm.push_back("x" + std::to_string(k++));
      std::vector<Bounds> b(size_t(d), Bounds(-5, 5));
      if (d == 1)
        nodes.back()->addVar(nm[0], 0.5, b[0]);
      else
        nodes.back()->addVar("v" + std::to_string(q), nm, VectorXd::Constant(d, 0.5), b);
    }
  }
  return std::make_shared<trajopt_ifopt::NodesVariables>("vars", std::move(nodes));
}
static const V4 kX[3] = { V4(0.5, -1, 2, 0.25), V4(3, 1, -2, -1.5), V4(0, 0, 0, 0) };

static void judge(Ctx& c, Problem& p, const std::vector<Part>& parts, const V4& x, const std::function<std::string()>& where)
{
  std::vector<double> v;
  std::vector<V4> J;
  std::vector<Bounds> b;
  double cost = 0;
  V4 cg = V4::Zero();
  int ncost = 0;
  std::vector<V4> CJ;
  for (auto& q : parts)
    for (size_t r = 0; r < q.rows.size(); ++r)
      if (q.cost)
      {
        cost += val(q.rows[r], x);
        cg += grad(q.rows[r], x);
        CJ.push_back(grad(q.rows[r], x));
        ++ncost;
      }
      else
      {
        v.push_back(val(q.rows[r], x));
        J.push_back(grad(q.rows[r], x));
        b.push_back(rowBound(r));
      }
  c.checkf((p.getVariableValues() - x).norm() == 0, "variables", [&] { return where() + ": variables are not the point asked for"; });
  VectorXd g = p.evaluateConstraints();
  MatrixXd jac(p.getJacobianOfConstraints()), cj(p.getJacobianOfCosts());
  auto gb = p.getBoundsOnConstraints();
  bool ok = g.size() == int(v.size()) && jac.rows() == int(v.size()) && jac.cols() == 4 && gb.size() == v.size() && p.getNumberOfConstraints() == int(v.size());
  c.checkf(ok, "sizes", [&] { return str(where(), ": ", g.size(), " values, ", jac.rows(), " Jacobian rows, ", gb.size(), " bounds for ", v.size(), " rows"); });
  if (!ok)
    return;
  for (size_t i = 0; i < v.size(); ++i)
  {
    c.checkf(near(g[int(i)], v[i], 1e-12), "values", [&] { return str(where(), ": constraint value ", i, " is ", g[int(i)], " not ", v[i]); });
    c.checkf((jac.row(int(i)).transpose() - J[i]).norm() <= 1e-12, "jacobian", [&] { return str(where(), ": Jacobian row ", i); });
    c.checkf(gb[i].getLower() == b[i].getLower() && gb[i].getUpper() == b[i].getUpper(), "bounds", [&] { return str(where(), ": bounds of row ", i); });
  }
  std::vector<double> nz(size_t(jac.size()) + 1, 1234.5);
  p.evalNonzerosOfJacobian(nz.data());
  auto sp = p.getJacobianOfConstraints();
  size_t k = 0;
  for (int r = 0; r < sp.outerSize(); ++r)
    for (Jacobian::InnerIterator it(sp, r); it; ++it, ++k)
      c.checkf(nz[k] == it.value(), "nonzeros", [&] { return where() + ": non-zeros of the Jacobian out of order"; });
  c.checkf(p.hasCostTerms() == (ncost > 0), "has-cost", [&] { return where() + ": hasCostTerms"; });
  c.checkf(near(p.evaluateCostFunction(), cost, 1e-12), "cost", [&] { return str(where(), ": cost is ", p.evaluateCostFunction(), ", the terms sum to ", cost); });
  VectorXd ag = p.evaluateCostFunctionGradient();
  c.checkf(ag.size() == 4 && (ag - cg).norm() <= 1e-10, "cost-gradient", [&] { return str(where(), ": cost gradient ", vec(ag), " not ", vec(cg)); });
  c.checkf(cj.rows() == ncost && cj.cols() == 4, "cost-jacobian-size", [&] { return where() + ": size of the cost Jacobian"; });
  for (int i = 0; i < ncost && i < cj.rows(); ++i)
    c.checkf((cj.row(i).transpose() - CJ[size_t(i)]).norm() <= 1e-12, "cost-jacobian", [&] { return str(where(), ": cost Jacobian row ", i); });
  VectorXd fd = p.evaluateCostFunctionGradient(true, 1e-6);
  c.checkf(fd.size() == 4 && (fd - cg).norm() <= 1e-4 * (1 + cg.norm()), "cost-gradient-numeric", [&] { return str(where(), ": numeric cost gradient ", vec(fd), " not ", vec(cg)); });
  c.checkf((p.getVariableValues() - x).norm() == 0, "variables-after", [&] { return where() + ": evaluation moved the variables"; });
  c.checkf(near(p.evaluateCostFunction(), cost, 1e-12), "cost-after", [&] { return where() + ": cost differs after the numeric gradient"; });
}
static void problem(Ctx& c, const std::vector<Part>& parts, int layout, int depth)
{
  Dfs d(c);
  auto names = [&] {
    std::string s;
    for (auto& q : parts)
      s += std::string(" ") + q.name;
    return s;
  };
  d.run([&] {
    Problem p(vars4(layout));
    for (auto& q : parts)
      if (q.cost)
        p.addCostSet(std::make_shared<Cost>(q));
      else
        p.addConstraintSet(std::make_shared<Cnt>(q));
    p.setVariables(kX[0].data());
    V4 x = kX[0];
    std::vector<V4> saved;
    std::string ops;
    auto where = [&] { return str("parts", names(), " layout ", layout, ":", ops); };
    for (int k = 0; k < depth; ++k)
    {
      int op = d.choose(saved.empty() ? 4 : 6);
      c.transitions();
      if (op < 3)
      {
        x = kX[op];
        p.setVariables(x.data());
        ops += str(" set", op);
      }
      else if (op == 3)
      {
        p.saveCurrent();
        saved.push_back(x);
        ops += " save";
      }
      else if (op == 4)
      {
        x = saved.front();
        p.setOptVariables(0);
        ops += " restore0";
      }
      else
      {
        x = saved.back();
        p.setOptVariablesFinal();
        ops += " restoreLast";
      }
      c.checkf(p.getIterationCount() == int(saved.size()), "iterations", [&] { return where() + ": number of saved iterates"; });
      judge(c, p, parts, x, where);
      Hash h;
      h.s(names()).u(layout).d(x[0]).u(saved.size());
      if (!saved.empty())
        h.d(saved.front()[0]).d(saved.back()[0]);
      c.state(h);
    }
    c.traces();
  });
}
// nested composites, including row-changing parts
static void composites(Ctx& c, int shape)
{
  Dfs d(c);
  const auto& cat = catalogue();
  const bool dyn = shape >= 2;
  const std::vector<int> pool = dyn ? std::vector<int>{ 4, 5, 10, 17 } : std::vector<int>{ 0, 2, 3, 8 };
  const auto pts = grid({ -2, 0, 1.5 }, { -1, 0.5 });
  d.run([&] {
    auto vars = makeVars({ 0.3, 0.7 });
    auto outer = std::make_shared<CompositeDifferentiable>("outer", 2, Differentiable::Mode::kStackRows, dyn);
    std::vector<TermSpec> flat;
    std::string desc;
    for (int blk = 0; blk < 2 + (shape & 1); ++blk)
    {
      auto inner = std::make_shared<CompositeDifferentiable>("inner", 2, Differentiable::Mode::kStackRows, dyn);
      const bool nested = blk != 1;
      const int n = d.choose(3);
      for (int i = 0; i < n; ++i)
      {
        const TermSpec& s = cat[size_t(pool[size_t(d.choose(int(pool.size())))])];
        std::shared_ptr<Term> t(Term::make(s));
        t->linkWithVariables(vars);
        flat.push_back(s);
        desc += " " + s.name;
        if (nested)
          inner->addComponent(t);
        else
          outer->addComponent(t);
      }
      desc += " |";
      if (nested && n)
      {
        if (!dyn)
          inner->update();
        outer->addComponent(inner);
      }
    }
    auto where = [&] { return "composite of" + desc; };
    for (auto& x : pts)
    {
      vars->setVariables(x);
      int rows = outer->update();
      c.transitions();
      std::vector<std::pair<const TermSpec*, int>> ref;
      for (auto& s : flat)
        for (int r : s.active(x))
          ref.push_back({ &s, r });
      VectorXd v = outer->getValues(), w = outer->getCoefficients();
      MatrixXd J(outer->getJacobian());
      auto b = outer->getBounds();
      const int n = int(ref.size());
      bool ok = rows == n && outer->getRows() == n && v.size() == n && w.size() == n && J.rows() == n && J.cols() == 2 && int(b.size()) == n;
      c.checkf(ok, "composite-sizes", [&] { return str(where(), " at ", show(x), ": ", rows, " rows reported, ", v.size(), " values, ", J.rows(), " Jacobian rows, ", b.size(), " bounds, expected ", n); });
      for (int i = 0; ok && i < n; ++i)
      {
        const Row& r = ref[size_t(i)].first->rows[size_t(ref[size_t(i)].second)];
        bool good = near(v[i], fval(r.f, x[0], x[1]), 1e-12) && near(w[i], ref[size_t(i)].first->weight(ref[size_t(i)].second, x), 1e-12) &&
                    (J.row(i).transpose() - fgrad(r.f, x[0], x[1])).norm() < 1e-12 && b[size_t(i)].getLower() == r.lo && b[size_t(i)].getUpper() == r.hi;
        c.checkf(good, "composite", [&] { return str(where(), " at ", show(x), ": row ", i, " is not that of ", ref[size_t(i)].first->name); });
      }
      c.state(Hash().s(desc).d(x[0]).d(x[1]).u(shape));
    }
    c.traces();
  });
}
void mc::explore(Ctx& c)
{
  quiet();
  std::vector<Part> cur;
  std::function<void(int)> rec = [&](int left) {
    for (int lay = 0; lay < (cur.size() <= 2 ? 3 : 1); ++lay)
      c.item([cur, lay] {
        std::string s;
        for (auto& q : cur)
          s += std::string(" ") + q.name;
        return str("parts", s, " layout ", lay);
      }, [&] { problem(c, cur, lay, cur.size() <= 2 ? 4 : 2); });
    if (!left)
      return;
    for (auto& q : kParts)
    {
      cur.push_back(q);
      rec(left - 1);
      cur.pop_back();
    }
  };
  rec(c.thorough ? 4 : 3);
  for (int s = 0; s < 4; ++s)
    c.item([s] { return str("nested composites ", s); }, [&] { composites(c, s); });
}
