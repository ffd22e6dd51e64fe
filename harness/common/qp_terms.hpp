// Terms with known values, derivatives, bounds and weights for the QP problem checks (Q04-Q07, Q09), and the reference
// evaluation of the penalised problem they describe. Everything is a function of the term description and the point.
#pragma once
#include <mc/mc.hpp>
#include <cassert>
#include <console_bridge/console.h>
#include <trajopt_ifopt/core/bounds.h>
#include <trajopt_ifopt/core/constraint_set.h>
#include <trajopt_ifopt/variable_sets/node.h>
#include <trajopt_ifopt/variable_sets/nodes_variables.h>
#include <trajopt_ifopt/variable_sets/var.h>
#include <trajopt_sqp/ifopt_qp_problem.h>
#include <trajopt_sqp/qp_problem.h>
#include <trajopt_sqp/trajopt_qp_problem.h>
#include <trajopt_sqp/types.h>

namespace qpt
{
using namespace mc;
using trajopt_ifopt::Bounds;
using trajopt_ifopt::BoundsType;
using trajopt_ifopt::Jacobian;
using Eigen::VectorXd;
using Eigen::MatrixXd;
using V2 = Eigen::Vector2d;
constexpr double INF = std::numeric_limits<double>::infinity();

// scalar functions of two variables
inline double fval(int f, double a, double b)
{
  switch (f)
  {
    case 0: return a - 2 * b + 0.5;
    case 1: return a * a + b;
    case 2: return a * b;
    case 3: return 0.75;
    case 4: return b * b * b;
    case 5: return 2e-9 * a + b;
    case 7: return 1e-4 * a - 2e-3 * b;
    case 8: return a + b - 1;
    case 9: return b - 0.3;
    default: return 3 * a;
  }
}
inline V2 fgrad(int f, double a, double b)
{
  switch (f)
  {
    case 0: return { 1, -2 };
    case 1: return { 2 * a, 1 };
    case 2: return { b, a };
    case 3: return { 0, 0 };
    case 4: return { 0, 3 * b * b };
    case 5: return { 2e-9, 1 };
    case 7: return { 1e-4, -2e-3 };
    case 8: return { 1, 1 };
    case 9: return { 0, 1 };
    default: return { 3, 0 };
  }
}
// structurally non-zero columns
inline int fmask(int f) { return f == 3 ? 0 : f == 4 || f == 9 ? 2 : f == 6 ? 1 : 3; }

struct Row { int f; double lo, hi, w; };
enum Kind { CNT, SQ, ABS, HINGE };
struct TermSpec
{
  std::string name;
  Kind kind;
  std::vector<Row> rows;
  bool dynamic = false;   // row i exists where the first variable is at least thr + i
  double thr = 0;
  bool wvary = false;     // weights grow with the first variable
  bool rev = false;       // instead: row i exists where the first variable is less than thr + i (trades rows with the others)
  std::vector<int> active(const V2& x) const
  {
    std::vector<int> r;
    for (size_t i = 0; i < rows.size(); ++i)
      if (!dynamic || (x[0] >= thr + double(i)) != rev)
        r.push_back(int(i));
    return r;
  }
  double weight(int i, const V2& x) const { return rows[size_t(i)].w * (wvary ? 1 + std::fabs(x[0]) : 1); }
};

class Term : public trajopt_ifopt::ConstraintSet
{
public:
  TermSpec s;
  VectorXd val, coeff;
  Jacobian jac;
  std::vector<Bounds> bnd;
  static Term* make(const TermSpec& s) { return s.dynamic ? new Term(s, true) : new Term(s, int(s.rows.size())); }
  Term(const TermSpec& sp, bool dyn) : ConstraintSet(sp.name, dyn), s(sp) { non_zeros_ = 0; }
  Term(const TermSpec& sp, int n) : ConstraintSet(sp.name, n), s(sp)
  {
    non_zeros_ = 0;
    for (const Row& r : s.rows)
      non_zeros_ += __builtin_popcount(unsigned(fmask(r.f)));
    val = coeff = VectorXd::Constant(n, std::numeric_limits<double>::quiet_NaN());
    for (const Row& r : s.rows)
      bnd.emplace_back(r.lo, r.hi);
    if (!s.wvary)
      for (int i = 0; i < n; ++i)
        coeff[i] = s.rows[size_t(i)].w;
  }
  int update() override
  {
    const VectorXd xv = variables_->getValues();
    const V2 x = xv.head<2>();
    auto act = s.active(x);
    const int n = int(act.size());
    rows_ = n;
    val.resize(n);
    coeff.resize(n);
    bnd.clear();
    std::vector<Eigen::Triplet<double>> t;
    for (int k = 0; k < n; ++k)
    {
      const Row& r = s.rows[size_t(act[size_t(k)])];
      val[k] = fval(r.f, x[0], x[1]);
      V2 g = fgrad(r.f, x[0], x[1]);
      for (int j = 0; j < 2; ++j)
        if (fmask(r.f) >> j & 1)
          t.emplace_back(k, j, g[j]);
      coeff[k] = s.weight(act[size_t(k)], x);
      bnd.emplace_back(r.lo, r.hi);
    }
    jac.resize(n, xv.size());
    jac.setFromTriplets(t.begin(), t.end());
    if (s.dynamic)
      non_zeros_ = Eigen::Index(t.size());
    return n;
  }
  VectorXd getValues() const override { return val; }
  VectorXd getCoefficients() const override { return coeff; }
  std::vector<Bounds> getBounds() const override { return bnd; }
  Jacobian getJacobian() const override { return jac; }
};

inline double dist(double v, double lo, double hi) { return v < lo ? lo - v : v > hi ? v - hi : 0; }

// value of a row linearised at xc (xc == x: exact)
inline double rowLin(const Row& r, const V2& xc, const V2& x)
{
  V2 g = fgrad(r.f, xc[0], xc[1]);
  return fval(r.f, xc[0], xc[1]) + g.dot(x - xc);
}
// cost of a term / violation of a constraint, linearised at xc
inline double termValue(const TermSpec& s, const V2& xc, const V2& x, bool weighted)
{
  double t = 0;
  for (int i : s.active(xc))
  {
    const Row& r = s.rows[size_t(i)];
    double d = dist(rowLin(r, xc, x), r.lo, r.hi), w = weighted ? s.weight(i, xc) : 1;
    t += s.kind == SQ ? w * d * d : w * d;
  }
  return t;
}

struct VarSpec { double lo = -INF, hi = INF; };
inline std::shared_ptr<trajopt_ifopt::NodesVariables> makeVars(const V2& x0, const VarSpec& a = {}, const VarSpec& b = {})
{
  std::vector<std::unique_ptr<trajopt_ifopt::Node>> nodes;
  nodes.push_back(std::make_unique<trajopt_ifopt::Node>("n0"));
  nodes.back()->addVar("a", x0[0], Bounds(a.lo, a.hi));
  nodes.push_back(std::make_unique<trajopt_ifopt::Node>("n1"));
  nodes.back()->addVar("b", x0[1], Bounds(b.lo, b.hi));
  return std::make_shared<trajopt_ifopt::NodesVariables>("vars", std::move(nodes));
}
inline void addTerm(trajopt_sqp::QPProblem& p, const TermSpec& s)
{
  std::shared_ptr<trajopt_ifopt::ConstraintSet> t(Term::make(s));
  if (s.kind == CNT)
    p.addConstraintSet(t);
  else
    p.addCostSet(t, s.kind == SQ ? trajopt_sqp::CostPenaltyType::kSquared :
                    s.kind == ABS ? trajopt_sqp::CostPenaltyType::kAbsolute : trajopt_sqp::CostPenaltyType::kHinge);
}
inline std::string show(const std::vector<TermSpec>& v)
{
  std::string s;
  for (auto& t : v)
    s += (s.empty() ? "" : "; ") + t.name;
  return s;
}
inline std::string show(const V2& x) { return str("(", x[0], ",", x[1], ")"); }

// ---- independent reading of a QP: least objective over the slacks --------------------------------------------------
struct QPView
{
  MatrixXd A, H;
  VectorXd g, lb, ub;
  int n, nv, m;   // nlp variables, all variables, rows that are not variable bounds
  explicit QPView(const trajopt_sqp::QPProblem& p)
    : A(p.getConstraintMatrix()), H(p.getHessian()), g(p.getGradient()), lb(p.getBoundsLower()), ub(p.getBoundsUpper())
    , n(int(p.getNumNLPVars())), nv(int(p.getNumQPVars())), m(int(p.getNumQPConstraints()) - nv)
  {
  }
  // shape problems; empty if none
  std::string shape() const
  {
    if (m < 0 || A.rows() != m + nv || A.cols() != nv || H.rows() != nv || H.cols() != nv || g.size() != nv ||
        lb.size() != m + nv || ub.size() != m + nv)
      return "sizes of the QP matrices and vectors do not match";
    for (int i = 0; i < nv; ++i)
      for (int j = 0; j < nv; ++j)
      {
        if (A(m + i, j) != (i == j ? 1.0 : 0.0))
          return str("row of variable ", i, " is not a unit row");
        if ((i >= n || j >= n) && H(i, j) != 0)
          return "the Hessian couples slack variables";
        if (std::fabs(H(i, j) - H(j, i)) > 1e-9 * (1 + std::fabs(H(i, j))))
          return "the Hessian is not symmetric";
      }
    for (int j = n; j < nv; ++j)
    {
      if (lb[m + j] != 0 || ub[m + j] < 1e20)
        return str("slack variable ", j, " is not bounded to be non-negative");
      int rows = 0;
      for (int i = 0; i < m; ++i)
        if (A(i, j) != 0)
        {
          ++rows;
          if (std::fabs(A(i, j)) != 1)
            return str("slack variable ", j, " has coefficient ", A(i, j));
        }
      if (rows != 1)
        return str("slack variable ", j, " occurs in ", rows, " constraint rows");
      if (!(g[j] >= 0))
        return str("slack variable ", j, " has price ", g[j]);
    }
    return "";
  }
  // least objective over the slacks at the NLP point x (infinite if a row cannot be satisfied)
  double least(const VectorXd& x) const
  {
    double o = x.dot(H.topLeftCorner(n, n) * x) + g.head(n).dot(x);
    for (int i = 0; i < m; ++i)
    {
      double v = A.row(i).head(n).dot(x);
      double up = INF, down = INF;  // price of raising / lowering the row
      for (int j = n; j < nv; ++j)
      {
        if (A(i, j) > 0)
          up = std::min(up, g[j]);
        if (A(i, j) < 0)
          down = std::min(down, g[j]);
      }
      if (v < lb[i] - 1e-12)
        o += up == INF ? INF : up * (lb[i] - v);
      else if (v > ub[i] + 1e-12)
        o += down == INF ? INF : down * (v - ub[i]);
    }
    return o;
  }
};

inline const std::vector<TermSpec>& catalogue()
{
  static const std::vector<TermSpec> c = {
    { "cnt-eq", CNT, { { 0, 1, 1, 1 } } },
    { "cnt-lower-w3", CNT, { { 1, 0.5, INF, 3 } } },
    { "cnt-upper+eq", CNT, { { 2, -INF, 0.25, 1 }, { 4, -0.5, -0.5, 0.5 } } },
    { "cnt-constant-upper", CNT, { { 3, -INF, 0.5, 2 }, { 6, -INF, 1, 1 } } },
    { "cnt-dynamic", CNT, { { 1, -INF, 0, 2 }, { 0, -INF, 0.5, 1 }, { 2, 1, INF, 4 } }, true, -1 },
    { "cnt-dynamic-late", CNT, { { 0, 0.5, 0.5, 1 }, { 7, -INF, -1, 3 } }, true, 1 },
    { "cnt-weights-vary", CNT, { { 1, 0, 0, 1 }, { 5, -INF, -1, 1 } }, false, 0, true },
    { "sq-eq", SQ, { { 0, 2, 2, 1 } } },
    { "sq-two-weights", SQ, { { 1, -1, -1, 2 }, { 2, 0.5, 0.5, 5 } } },
    { "sq-zero-weight+const", SQ, { { 4, 1, 1, 0 }, { 3, 2, 2, 3 }, { 6, 1, 1, 0.5 } } },
    { "sq-dynamic", SQ, { { 1, 0, 0, 2 }, { 0, 1, 1, 1 } }, true, 0 },
    { "sq-tiny", SQ, { { 5, 0.25, 0.25, 4 }, { 7, 1, 1, 2 } } },
    { "abs-eq", ABS, { { 0, -1, -1, 1 } } },
    { "abs-two-weights", ABS, { { 1, 0.5, 0.5, 3 }, { 2, 0, 0, 0.5 } } },
    { "abs-dynamic", ABS, { { 2, 1, 1, 2 }, { 6, 0, 0, 1 } }, true, 0 },
    { "hinge-upper", HINGE, { { 1, -INF, 0.5, 1 } } },
    { "hinge-lower+upper-w", HINGE, { { 0, 0.25, INF, 4 }, { 4, -INF, 0, 0.5 } } },
    { "hinge-dynamic", HINGE, { { 2, -INF, 0, 3 }, { 1, -INF, 1, 1 }, { 6, 0.5, INF, 2 } }, true, -1 },
    { "hinge-weights-vary", HINGE, { { 2, -INF, -0.5, 2 } }, false, 0, true },
    { "cnt-dynamic-rev", CNT, { { 0, 0.25, INF, 2 }, { 2, -INF, 0.5, 1 }, { 1, 0.5, 0.5, 3 } }, true, 0, true, true },
    { "sq-dynamic-rev", SQ, { { 2, 0, 0, 3 }, { 1, 0.5, 0.5, 1 } }, true, 0.5, false, true },
    { "hinge-dynamic-rev", HINGE, { { 0, -INF, 0, 1 }, { 2, 0.5, INF, 2 } }, true, 0.4, true, true },
    { "abs-dynamic-rev", ABS, { { 1, 0, 0, 2 }, { 7, 1, 1, 1 } }, true, 0.4, false, true },
  };
  return c;
}
inline void quiet() { console_bridge::setLogLevel(console_bridge::CONSOLE_BRIDGE_LOG_NONE); }

// every tuple of up to k catalogue terms (names made unique)
template <class F>
void tuples(int k, const std::vector<int>& from, F f)
{
  const auto& c = catalogue();
  std::vector<TermSpec> cur;
  std::function<void(int)> rec = [&](int left) {
    f(cur);
    if (!left)
      return;
    for (int i : from)
    {
      TermSpec t = c[size_t(i)];
      t.name += "#" + std::to_string(cur.size());
      cur.push_back(t);
      rec(left - 1);
      cur.pop_back();
    }
  };
  rec(k);
}
inline std::vector<int> allTerms()
{
  std::vector<int> v(catalogue().size());
  for (size_t i = 0; i < v.size(); ++i)
    v[i] = int(i);
  return v;
}
inline std::vector<V2> grid(const std::vector<double>& a, const std::vector<double>& b)
{
  std::vector<V2> v;
  for (double p : a)
    for (double q : b)
      v.push_back({ p, q });
  return v;
}
// order-independent order of the constraints of the problem: static ones before dynamic ones is an implementation
// detail, so weights are attached through the reported names
inline VectorXd weightVector(const trajopt_sqp::QPProblem& p, const std::vector<TermSpec>& terms, const std::function<double(int)>& w)
{
  const auto& names = p.getNLPConstraintNames();
  VectorXd r(int(names.size()));
  for (size_t i = 0; i < names.size(); ++i)
    for (size_t k = 0; k < terms.size(); ++k)
      if (terms[k].name == names[i])
        r[int(i)] = w(int(k));
  return r;
}
}  // namespace qpt
