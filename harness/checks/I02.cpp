// I02: numerical derivative helpers.
#include <mc/mc.hpp>
#include <console_bridge/console.h>
#include <trajopt_ifopt/core/bounds.h>
#include <trajopt_ifopt/core/constraint_set.h>
#include <trajopt_ifopt/core/cost_term.h>
#include <trajopt_ifopt/core/problem.h>
#include <trajopt_ifopt/utils/ifopt_utils.h>
#include <trajopt_ifopt/utils/numeric_differentiation.h>
#include <trajopt_ifopt/variable_sets/node.h>
#include <trajopt_ifopt/variable_sets/nodes_variables.h>
#include <trajopt_ifopt/variable_sets/var.h>
using namespace mc;
using Eigen::MatrixXd;
using Eigen::VectorXd;
using trajopt_ifopt::Bounds;
using trajopt_ifopt::Jacobian;
const CheckInfo mc::info = { "I02", "exploration",
  "every linear map of up to 3 rows and 3 variables with entries in {-2,0,1} (split over one or two constraint sets and up to three cost terms), every pair (current point, point asked for) "
  "of the grid incl. points on and outside the variable limits and points of large magnitude, every step of {default, 1e-6, 1e-3, 0.5}; all five helpers; values, placement, and state "
  "of variables and of cached constraint values afterwards",
  { "the function is defined on a neighbourhood of the point" } };

struct Lin : trajopt_ifopt::ConstraintSet
{
  MatrixXd A;
  VectorXd b, v;
  Lin(const std::string& n, const MatrixXd& a, const VectorXd& bb) : ConstraintSet(n, int(a.rows())), A(a), b(bb) { non_zeros_ = a.size(); }
  int update() override { v = A * variables_->getValues() + b; return rows_; }
  VectorXd getValues() const override { return v; }
  VectorXd getCoefficients() const override { return VectorXd::Ones(rows_); }
  std::vector<Bounds> getBounds() const override { return std::vector<Bounds>(size_t(rows_), Bounds(0, 0)); }
  Jacobian getJacobian() const override { return A.sparseView(); }
};
struct LinCost : trajopt_ifopt::CostTerm
{
  VectorXd a;
  double b, v = 0;
  LinCost(const VectorXd& aa, double bb) : CostTerm("k"), a(aa), b(bb) { non_zeros_ = a.size(); }
  int update() override { v = a.dot(variables_->getValues()) + b; return rows_; }
  double getCost() const override { return v; }
  VectorXd getCoefficients() const override { return VectorXd::Ones(1); }
  Jacobian getJacobian() const override { return MatrixXd(a.transpose()).sparseView(); }
};
static std::shared_ptr<trajopt_ifopt::NodesVariables> mkVars(int n)
{
  std::vector<std::unique_ptr<trajopt_ifopt::Node>> nodes;
  nodes.push_back(std::make_unique<trajopt_ifopt::Node>("n0"));
  nodes[0]->addVar("a", 0.25, Bounds(-1, 1));
  if (n > 1)
  {
    nodes.push_back(std::make_unique<trajopt_ifopt::Node>("n1"));
    std::vector<std::string> nm;
    for (int i = 1; i < n; ++i)
      nm.push_back("b" + std::to_string(i));
    nodes[1]->addVar("b", nm, VectorXd::Constant(n - 1, -0.5), std::vector<Bounds>(size_t(n - 1), Bounds(-2, 0.5)));
  }
  return std::make_shared<trajopt_ifopt::NodesVariables>("v", std::move(nodes));
}
static void one(Ctx& c, const MatrixXd& A, int split)
{
  const int m = int(A.rows()), n = int(A.cols());
  std::vector<VectorXd> pts;
  for (double s : { 0.25, -1.0, 1.0, 3e3 })
  {
    VectorXd x(n);
    for (int i = 0; i < n; ++i)
      x[i] = s * (i == 0 ? 1 : i == 1 ? -0.5 : 2);
    pts.push_back(x);
  }
  VectorXd b(m);
  for (int i = 0; i < m; ++i)
    b[i] = i - 0.5;
  auto vars = mkVars(n);
  trajopt_ifopt::Problem p(vars);
  std::shared_ptr<Lin> whole = std::make_shared<Lin>("whole", A, b);
  whole->linkWithVariables(vars);
  if (split && m > 1)
  {
    p.addConstraintSet(std::make_shared<Lin>("c0", A.topRows(1), b.head(1)));
    p.addConstraintSet(std::make_shared<Lin>("c1", A.bottomRows(m - 1), b.tail(m - 1)));
  }
  else
    p.addConstraintSet(std::make_shared<Lin>("c", A, b));
  for (int i = 0; i < m; ++i)
    p.addCostSet(std::make_shared<LinCost>(A.row(i).transpose(), b[i]));
  VectorXd cg = m ? VectorXd(A.colwise().sum().transpose()) : VectorXd::Zero(n);
  for (size_t cur = 0; cur < pts.size(); ++cur)
    for (size_t at = 0; at < pts.size(); ++at)
      for (double eps : { 0.0, 1e-6, 1e-3, 0.5 })
      {
        const double e = eps == 0 ? 1e-8 : eps;
        const double mag = 1 + pts[at].cwiseAbs().maxCoeff() * 8;
        const double tol = 16 * mag * 2.3e-16 / e + 1e-9;
        std::ostringstream a;
        auto where = [&](const char* h) {
          std::ostringstream o;
          o << h << " for [" << A << "] current " << vec(pts[cur]) << " at " << vec(pts[at]) << " step " << eps;
          return o.str();
        };
        auto cmp = [&](const char* h, const MatrixXd& got, const MatrixXd& want) {
          c.checkf(got.rows() == want.rows() && got.cols() == want.cols() && (want.size() == 0 || (got - want).cwiseAbs().maxCoeff() <= tol), h, [&] {
            std::ostringstream o;
            o << where(h) << ": [" << got << "] instead of [" << want << "]";
            return o.str();
          });
        };
        auto state = [&](const char* h, const VectorXd& x) {
          c.checkf((p.getVariableValues() - x).norm() == 0, "moved", [&] { return where(h) + ": variables were left at " + vec(p.getVariableValues()); });
          VectorXd g = p.evaluateConstraints();
          c.checkf(m == 0 || (g - (A * x + b)).cwiseAbs().maxCoeff() <= 1e-9 * mag, "stale", [&] { return where(h) + ": constraint values afterwards are not those of the variables"; });
        };
        p.setVariables(pts[cur].data());
        VectorXd g = eps == 0 ? trajopt_ifopt::calcNumericalCostGradient(pts[at].data(), p) : trajopt_ifopt::calcNumericalCostGradient(pts[at].data(), p, eps);
        cmp("cost-gradient", g, cg);
        state("cost-gradient", pts[cur]);
        Jacobian J = eps == 0 ? trajopt_ifopt::calcNumericalConstraintGradient(pts[at].data(), p) : trajopt_ifopt::calcNumericalConstraintGradient(pts[at].data(), p, eps);
        cmp("constraint-gradient", J, A);
        state("constraint-gradient", pts[cur]);
        p.setVariables(pts[at].data());
        g = eps == 0 ? p.evaluateCostFunctionGradient(true) : p.evaluateCostFunctionGradient(true, eps);
        cmp("problem-cost-gradient", g, cg);
        state("problem-cost-gradient", pts[at]);
        J = eps == 0 ? trajopt_ifopt::calcNumericalConstraintGradient(*vars, *whole) : trajopt_ifopt::calcNumericalConstraintGradient(*vars, *whole, eps);
        cmp("set-gradient", J, A);
        c.checkf((vars->getValues() - pts[at]).norm() == 0, "moved", [&] { return where("set-gradient") + ": variables were moved"; });
        c.checkf(m == 0 || (whole->getValues() - (A * pts[at] + b)).cwiseAbs().maxCoeff() <= 1e-9 * mag, "stale", [&] { return where("set-gradient") + ": constraint values afterwards"; });
        VectorXd arg = pts[at];
        J = trajopt_ifopt::calcForwardNumJac([&](const Eigen::Ref<const VectorXd>& x) -> VectorXd { return A * x + b; }, arg, e);
        cmp("forward-jacobian", J, A);
        c.checkf(arg == pts[at], "moved", [&] { return where("forward-jacobian") + ": the argument was changed"; });
        c.transitions(5);
        c.traces();
        Hash h;
        for (int i = 0; i < A.size(); ++i)
          h.d(A.data()[i]);
        c.state(h.u(m).u(n).u(cur).u(at).d(eps).u(split));
      }
}
void mc::explore(Ctx& c)
{
  console_bridge::setLogLevel(console_bridge::CONSOLE_BRIDGE_LOG_NONE);
  for (int n = 1; n <= 3; ++n)
    for (int m = 0; m <= 3; ++m)
    {
      if (m * n > (c.thorough ? 9 : 6))
        continue;
      int tot = 1;
      for (int i = 0; i < n * m; ++i)
        tot *= 3;
      for (int part = 0; part < (tot > 100 ? 9 : 1); ++part)
        c.item([=] { return str(m, " rows, ", n, " variables, part ", part); }, [&] {
          for (int code = part; code < tot; code += tot > 100 ? 9 : 1)
            for (int split = 0; split < (m > 1 ? 2 : 1); ++split)
            {
              MatrixXd A(m, n);
              int r = code;
              for (int i = 0; i < m * n; ++i, r /= 3)
                A(i / n, i % n) = r % 3 == 0 ? 0 : r % 3 == 1 ? 1 : -2;
              one(c, A, split);
            }
        });
    }
}
