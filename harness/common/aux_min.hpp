// The least objective of a decoded problem over the variables that are not the user's, exactly (few coupled variables, linear).
#pragma once
#include "bpmpd_decode.hpp"
#include <Eigen/Dense>
#include <algorithm>
#include <functional>
#include <set>
namespace wire
{
// least objective over the variables that are not the user's, at user point x
inline double least(const wire::Decoded& d, const std::vector<int>& user, const std::vector<double>& ux, std::vector<double>& full)
{
  std::vector<int> comp(size_t(d.n()), -1);
  full.assign(size_t(d.n()), 0);
  for (size_t k = 0; k < user.size(); ++k)
    comp[size_t(user[k])] = -2, full[size_t(user[k])] = ux[k];
  for (int i = 0; i < d.n(); ++i)
  {
    if (comp[size_t(i)] != -1)
      continue;
    std::vector<int> vars = { i }, rows;
    std::set<int> seenRows;
    comp[size_t(i)] = i;
    for (size_t k = 0; k < vars.size(); ++k)
      for (int r = 0; r < int(d.rows.size()); ++r)
        if (d.rows[size_t(r)].a.count(vars[k]) && seenRows.insert(r).second)
        {
          rows.push_back(r);
          for (auto& [j, v] : d.rows[size_t(r)].a)
            if (comp[size_t(j)] == -1)
              comp[size_t(j)] = i, vars.push_back(j);
        }
    for (int j : vars)
      for (auto& [ij, k] : d.q)
        if (ij.first == j || ij.second == j)
          throw std::runtime_error("an auxiliary variable in a quadratic term");
    // half spaces a'z <= b of this component
    std::vector<std::pair<Eigen::VectorXd, double>> hs;
    int n = int(vars.size());
    if (n > 3)
      throw std::runtime_error("more than three auxiliary variables are coupled");
    auto add = [&](const Eigen::VectorXd& a, double lo, double hi) {
      if (std::isfinite(hi)) hs.push_back({ a, hi });
      if (std::isfinite(lo)) hs.push_back({ -a, -lo });
    };
    for (int k = 0; k < n; ++k)
      add(Eigen::VectorXd::Unit(n, k), std::max(d.lb[size_t(vars[size_t(k)])], -1e6), std::min(d.ub[size_t(vars[size_t(k)])], 1e6));
    for (int r : rows)
    {
      Eigen::VectorXd a = Eigen::VectorXd::Zero(n);
      double rest = 0;
      for (auto& [j, v] : d.rows[size_t(r)].a)
      {
        auto it = std::find(vars.begin(), vars.end(), j);
        if (it == vars.end())
          rest += v * full[size_t(j)];
        else
          a[it - vars.begin()] += v;
      }
      add(a, d.rows[size_t(r)].lo - rest, d.rows[size_t(r)].hi - rest);
    }
    Eigen::VectorXd cost(n);
    for (int k = 0; k < n; ++k)
      cost[k] = d.c[size_t(vars[size_t(k)])];
    double best = INFINITY;
    Eigen::VectorXd arg;
    std::vector<int> pick(static_cast<size_t>(n));
    std::function<void(int, int)> rec = [&](int depth, int from) {
      if (depth == n)
      {
        Eigen::MatrixXd A(n, n);
        Eigen::VectorXd b(n);
        for (int k = 0; k < n; ++k)
          A.row(k) = hs[size_t(pick[size_t(k)])].first, b[k] = hs[size_t(pick[size_t(k)])].second;
        Eigen::FullPivLU<Eigen::MatrixXd> lu(A);
        if (!lu.isInvertible())
          return;
        Eigen::VectorXd z = lu.solve(b);
        for (auto& [a, h] : hs)
          if (a.dot(z) > h + 1e-9 * (1 + std::fabs(h)))
            return;
        if (cost.dot(z) < best)
          best = cost.dot(z), arg = z;
        return;
      }
      for (int k = from; k < int(hs.size()); ++k)
        pick[size_t(depth)] = k, rec(depth + 1, k + 1);
    };
    rec(0, 0);
    if (!std::isfinite(best))
      throw std::runtime_error("no values of the auxiliary variables");
    for (int k = 0; k < n; ++k)
      full[size_t(vars[size_t(k)])] = arg[k];
  }
  return d.objective(full);
}
}
