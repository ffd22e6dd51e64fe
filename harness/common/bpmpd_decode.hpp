// What the argument list of the bundled solver means.
#pragma once
#include "wire.hpp"
#include <cmath>
#include <map>
#include <stdexcept>
#include <vector>
namespace wire
{
struct Row
{
  std::map<int, double> a;      // by column
  double lo, hi;                // lo <= a'x <= hi
};
struct Decoded
{
  std::vector<double> lb, ub, c;
  std::vector<Row> rows;
  std::map<std::pair<int, int>, double> q;   // coefficient of x_i x_j, i <= j
  int n() const { return int(lb.size()); }
  double objective(const std::vector<double>& x) const
  {
    double s = 0;
    for (size_t i = 0; i < c.size(); ++i)
      s += c[i] * x[i];
    for (auto& [ij, k] : q)
      s += k * x[size_t(ij.first)] * x[size_t(ij.second)];
    return s;
  }
};
inline Decoded decode(const Problem& p)
{
  Decoded d;
  auto inf = [&](double v) { return v >= p.big ? INFINITY : v <= -p.big ? -INFINITY : v; };
  for (int i = 0; i < p.n; ++i)
    d.lb.push_back(inf(p.lb[i])), d.ub.push_back(inf(p.ub[i])), d.c.push_back(p.obj[i]);
  for (int r = 0; r < p.m; ++r)
    d.rows.push_back({ {}, p.rhs[r] + inf(p.lb[p.n + r]), p.rhs[r] + inf(p.ub[p.n + r]) });
  for (int i = 0, k = 0; i < p.n; ++i)
    for (int e = k + p.acolcnt[i]; k < e; ++k)
    {
      if (k >= p.nz || p.acolidx[k] < 1 || p.acolidx[k] > p.m)
        throw std::runtime_error("constraint matrix out of range");
      d.rows[size_t(p.acolidx[k] - 1)].a[i] += p.acolnzs[k];
    }
  for (int i = 0, k = 0; i < p.n; ++i)
    for (int e = k + p.qcolcnt[i]; k < e; ++k)
    {
      if (k >= p.qnz || p.qcolidx[k] < i + 1 || p.qcolidx[k] > p.n)
        throw std::runtime_error("quadratic matrix out of range");
      int j = p.qcolidx[k] - 1;
      d.q[{ i, j }] += j == i ? p.qcolnzs[k] / 2 : p.qcolnzs[k];
    }
  return d;
}
}
