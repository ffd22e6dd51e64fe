// Exact solution of a small convex QP over a bounded polyhedron by enumeration of active sets.
#pragma once
#include <Eigen/Dense>
#include <cmath>
#include <functional>
#include <optional>
#include <vector>
struct SmallQP
{
  Eigen::MatrixXd Q;                 // objective c'x + x'Qx/2
  Eigen::VectorXd c;
  std::vector<std::pair<Eigen::VectorXd, double>> eq, le;   // a'x = b, a'x <= b
  explicit SmallQP(int n) : Q(Eigen::MatrixXd::Zero(n, n)), c(Eigen::VectorXd::Zero(n)) {}
  int n() const { return int(c.size()); }
  void range(const Eigen::VectorXd& a, double lo, double hi)
  {
    if (lo == hi)
    {
      eq.push_back({ a, lo });
      return;
    }
    if (std::isfinite(hi)) le.push_back({ a, hi });
    if (std::isfinite(lo)) le.push_back({ -a, -lo });
  }
  double value(const Eigen::VectorXd& x) const { return c.dot(x) + 0.5 * x.dot(Q * x); }
  double violation(const Eigen::VectorXd& x) const
  {
    double v = 0;
    for (auto& [a, b] : eq) v = std::max(v, std::fabs(a.dot(x) - b));
    for (auto& [a, b] : le) v = std::max(v, a.dot(x) - b);
    return v;
  }
  // a minimiser, if the feasible set is not empty (it has to contain no line and the minimum has to be attained)
  std::optional<Eigen::VectorXd> solve(double tol = 1e-9) const
  {
    std::optional<Eigen::VectorXd> best;
    double bv = INFINITY;
    std::vector<const std::pair<Eigen::VectorXd, double>*> act;
    for (auto& e : eq) act.push_back(&e);
    std::function<void(size_t)> rec = [&](size_t from) {
      int m = int(act.size()), N = n() + m;
      Eigen::MatrixXd K = Eigen::MatrixXd::Zero(N, N);
      Eigen::VectorXd r = Eigen::VectorXd::Zero(N);
      K.topLeftCorner(n(), n()) = Q;
      r.head(n()) = -c;
      for (int i = 0; i < m; ++i)
        K.block(n() + i, 0, 1, n()) = act[size_t(i)]->first.transpose(), K.block(0, n() + i, n(), 1) = act[size_t(i)]->first, r[n() + i] = act[size_t(i)]->second;
      Eigen::CompleteOrthogonalDecomposition<Eigen::MatrixXd> d(K);
      Eigen::VectorXd z = d.solve(r);
      if ((K * z - r).norm() < 1e-9 * (1 + r.norm()))
      {
        Eigen::VectorXd x = z.head(n());
        if (violation(x) <= tol * (1 + x.norm()) && value(x) < bv)
          bv = value(x), best = x;
      }
      if (m < n() + int(eq.size()))
        for (size_t k = from; k < le.size(); ++k)
        {
          act.push_back(&le[k]);
          rec(k + 1);
          act.pop_back();
        }
    };
    rec(0);
    return best;
  }
};
