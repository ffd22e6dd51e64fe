// C02: array, slicing, interpolation and small geometry helpers on every small input.
#include <mc/mc.hpp>
#include <cassert>
#include <trajopt_common/basic_array.hpp>
#include <trajopt_common/eigen_conversions.hpp>
#include <trajopt_common/eigen_slicing.hpp>
#include <trajopt_common/interpolation.hpp>
#include <trajopt_common/utils.hpp>
#include <trajopt_common/vector_ops.hpp>
#include <trajopt_ifopt/utils/ifopt_utils.h>
using namespace mc;
const CheckInfo mc::info = { "C02", "exploration",
  "every array shape with every block/row-range/row/column start and length; every index list; every 0/1/2 flag vector; every "
  "strictly increasing table with every sorted query list; every start/end pair and step count; every pose/twist of the grid. "
  "A case is distinct by its arguments and non-trivial if the addressed part is non-empty",
  { "query points handed to the table interpolation are sorted (its documented use)" } };
using Arr = trajopt_common::BasicArray<int>;

static void arrays(Ctx& c, int R, int C)
{
  auto val = [](int i, int j) { return 100 + 10 * i + j; };
  std::vector<int> data;
  for (int i = 0; i < R; ++i)
    for (int j = 0; j < C; ++j)
      data.push_back(val(i, j));
  Arr a(R, C, data.data());
  auto eq = [&](const Arr& x, int r0, int c0, int nr, int nc, const char* what) {
    c.transitions();
    c.state(Hash().s(what).u(R).u(C).u(r0).u(c0).u(nr).u(nc));
    bool ok = x.rows() == nr && x.cols() == nc && x.size() == nr * nc;
    for (int i = 0; ok && i < nr; ++i)
      for (int j = 0; ok && j < nc; ++j)
        ok = x(i, j) == val(r0 + i, c0 + j) && x.at(i, j) == val(r0 + i, c0 + j);
    c.check(ok, what, str(what, " of a ", R, "x", C, " array from (", r0, ",", c0, ") size ", nr, "x", nc, " is wrong"));
  };
  auto guard = [&](const char* what, int s, int n, const std::function<void()>& f) {
    try { f(); }
    catch (const std::out_of_range& e) { c.fail(what, str(what, "(", s, ",", n, ") of a ", R, "x", C, " array throws out_of_range")); }
  };
  eq(a, 0, 0, R, C, "construct");
  Arr b(R, C);
  for (int i = 0; i < R; ++i)
    for (int j = 0; j < C; ++j)
      b(i, j) = val(i, j);
  eq(b, 0, 0, R, C, "assign");
  c.check(a.flatten() == data, "flatten", "flatten() is not the row-major element list");
  for (int r0 = 0; r0 <= R; ++r0)
    for (int nr = 0; r0 + nr <= R; ++nr)
    {
      guard("middleRows", r0, nr, [&] { eq(a.middleRows(r0, nr), r0, 0, nr, C, "middleRows"); });
      for (int c0 = 0; c0 <= C; ++c0)
        for (int nc = 0; c0 + nc <= C; ++nc)
          guard("block", r0, nr, [&] { eq(a.block(r0, c0, nr, nc), r0, c0, nr, nc, "block"); });
    }
  for (int n = 0; n <= R; ++n)
  {
    guard("topRows", 0, n, [&] { eq(a.topRows(n), 0, 0, n, C, "topRows"); });
    guard("bottomRows", R - n, n, [&] { eq(a.bottomRows(n), R - n, 0, n, C, "bottomRows"); });
  }
  for (int i = 0; i < R; ++i)
  {
    auto row = a.row(i);
    c.check(int(row.size()) == C, "row", "row() has the wrong length");
    for (int j = 0; j < C; ++j)
      c.check(row[size_t(j)] == val(i, j), "row", "row() has the wrong elements");
    for (int c0 = 0; c0 <= C; ++c0)
      for (int n = 0; c0 + n <= C; ++n)
      {
        auto v = a.rblock(i, c0, n);
        bool ok = int(v.size()) == n;
        for (int k = 0; ok && k < n; ++k)
          ok = v[size_t(k)] == val(i, c0 + k);
        c.check(ok, "rblock", str("rblock(", i, ",", c0, ",", n, ") wrong for ", R, "x", C));
      }
  }
  for (int j = 0; j < C; ++j)
  {
    auto col = a.col(j);
    c.check(int(col.size()) == R, "col", "col() has the wrong length");
    for (int i = 0; i < R; ++i)
      c.check(col[size_t(i)] == val(i, j), "col", "col() has the wrong elements");
    for (int r0 = 0; r0 <= R; ++r0)
      for (int n = 0; r0 + n <= R; ++n)
      {
        auto v = a.cblock(r0, j, n);
        bool ok = int(v.size()) == n;
        for (int k = 0; ok && k < n; ++k)
          ok = v[size_t(k)] == val(r0 + k, j);
        c.check(ok, "cblock", str("cblock(", r0, ",", j, ",", n, ") wrong for ", R, "x", C));
      }
  }
  Arr copy(a);
  Arr moved(std::move(copy));
  eq(moved, 0, 0, R, C, "move");
  for (int r2 = 0; r2 <= 3; ++r2)
    for (int c2 = 0; c2 <= 3; ++c2)
    {
      Arr d(a);
      d.resize(r2, c2);
      c.check(d.rows() == r2 && d.cols() == c2 && d.size() == r2 * c2, "resize", "resize() gives the wrong shape");
      eq(a, 0, 0, R, C, "copy");
    }
}

static void slices(Ctx& c, int n)
{
  Eigen::VectorXd x(n);
  std::vector<double> xs;
  for (int i = 0; i < n; ++i)
    xs.push_back(x[i] = 1.5 * i + 1);
  std::vector<int> idx;
  std::function<void(int)> rec = [&](int left) {
    c.transitions();
    c.state(Hash().u(7).u(n).raw(idx.data(), idx.size() * 4));
    auto y = trajopt_common::fancySlice(x, idx);
    auto ys = trajopt_common::fancySlice(xs, idx);
    bool ok = size_t(y.size()) == idx.size() && ys.size() == idx.size();
    for (size_t i = 0; ok && i < idx.size(); ++i)
      ok = y[long(i)] == x[idx[i]] && ys[i] == x[idx[i]];
    c.check(ok, "fancySlice", "wrong elements for indices " + vec(idx));
    if (left)
      for (int k = 0; k < n; ++k)
      {
        idx.push_back(k);
        rec(left - 1);
        idx.pop_back();
      }
  };
  rec(4);
  int total = 1;
  for (int i = 0; i < n; ++i)
    total *= 4;
  for (int m = 0; m < total; ++m)
  {
    Eigen::VectorXd f(n);
    std::vector<int> want;
    for (int i = 0, q = m; i < n; ++i, q /= 4)
    {
      f[i] = std::vector<double>{ 0, 1, -2, 1e-12 }[size_t(q % 4)];
      if (f[i] != 0)
        want.push_back(i);
    }
    c.transitions();
    c.check(trajopt_common::flatnonzero(f) == want, "flatnonzero", "wrong indices for " + vec(f));
  }
  c.check(trajopt_common::toVectorXd(xs) == x, "toVectorXd", "elements differ");
  auto ar = trajopt_common::arange(n);
  for (int i = 0; i < n; ++i)
    c.check(int(ar.size()) == n && ar[size_t(i)] == i, "arange", "wrong range");
  for (int m = 0; m <= 4; ++m)
  {
    Eigen::Matrix<double, -1, -1, Eigen::RowMajor> M(n, m);
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < m; ++j)
        M(i, j) = 10 * i + j;
    auto v = trajopt_common::toDblVec(M);
    bool ok = int(v.size()) == n * m;
    for (int i = 0; i < n; ++i)
      for (int j = 0; ok && j < m; ++j)
        ok = v[size_t(i * m + j)] == 10 * i + j;
    c.check(ok, "toDblVec", "not the row-major elements");
    std::vector<int> a(static_cast<size_t>(n), 1), b(static_cast<size_t>(m), 2);
    auto cc = trajopt_common::concat(a, b);
    ok = int(cc.size()) == n + m;
    for (int i = 0; ok && i < n + m; ++i)
      ok = cc[size_t(i)] == (i < n ? 1 : 2);
    c.check(ok, "concat", "wrong concatenation");
  }
}

static void interp(Ctx& c, int mask, int maxq)
{
  const double grid[] = { -1.0, 0.0, 0.5, 2.0, 2.25 };
  std::vector<double> t;
  for (int i = 0; i < 5; ++i)
    if (mask >> i & 1)
      t.push_back(grid[i]);
  const int n = int(t.size());
  Eigen::VectorXd xo(n);
  Eigen::MatrixXd yo(n, 2);
  for (int i = 0; i < n; ++i)
  {
    xo[i] = t[size_t(i)];
    yo(i, 0) = 3 * i * i - 4 * i + 1;
    yo(i, 1) = 7 - i * 2.5;
  }
  const double qs[] = { -3, -1, -0.5, 0, 0.25, 0.5, 1, 2, 2.125, 2.25, 5 };
  std::vector<double> q;
  std::function<void(int)> rec = [&](int from) {
    Eigen::VectorXd xn = trajopt_common::toVectorXd(q);
    Eigen::MatrixXd y = trajopt_common::interp2d(xn, xo, yo);
    c.transitions();
    c.state(Hash().u(mask).raw(q.data(), q.size() * 8));
    for (size_t i = 0; i < q.size(); ++i)
      for (int k = 0; k < 2; ++k)
      {
        double w;
        if (q[i] <= t[0])
          w = yo(0, k);
        else if (q[i] >= t[size_t(n - 1)])
          w = yo(n - 1, k);
        else
        {
          int j = 0;
          while (t[size_t(j + 1)] < q[i])
            ++j;
          double s = (q[i] - t[size_t(j)]) / (t[size_t(j + 1)] - t[size_t(j)]);
          w = (1 - s) * yo(j, k) + s * yo(j + 1, k);
        }
        c.checkf(y.rows() == int(q.size()) && near(y(int(i), k), w), "interp2d",
                 [&] { return str("table ", vec(t), " query ", vec(q), " entry ", i, " col ", k, ": ", y(int(i), k), " expected ", w); });
      }
    if (int(q.size()) < maxq)
      for (int k = from; k < 11; ++k)
      {
        q.push_back(qs[k]);
        rec(k);
        q.pop_back();
      }
  };
  rec(0);
}

static void line(Ctx& c, int n, int steps)
{
  const double g[] = { -2, 0, 0.3, 5 };
  int total = 1;
  for (int i = 0; i < 2 * n; ++i)
    total *= 4;
  for (int m = 0; m < total; ++m)
  {
    Eigen::VectorXd a(n), b(n);
    int q = m;
    for (int i = 0; i < n; ++i, q /= 4)
      a[i] = g[q % 4];
    for (int i = 0; i < n; ++i, q /= 4)
      b[i] = g[q % 4];
    c.transitions();
    c.state(Hash().u(3).u(n).u(steps).u(m));
    auto r = trajopt_ifopt::interpolate(a, b, steps);
    c.check(int(r.size()) == steps, "interpolate", "wrong number of points");
    for (int s = 0; s < steps; ++s)
      for (int i = 0; i < n; ++i)
        c.checkf(r[size_t(s)].size() == n && near(r[size_t(s)][i], a[i] + (b[i] - a[i]) * s / (steps - 1)), "interpolate",
                 [&] { return str("from ", vec(a), " to ", vec(b), " step ", s, "/", steps, ": ", vec(r[size_t(s)])); });
  }
}

static void twist(Ctx& c, int code)
{
  const double ang[] = { 0, 0.7, 3.0 };
  const Eigen::Vector3d ax[] = { { 0, 0, 1 }, { 1, 0, 0 }, { 0.6, 0, -0.8 } };
  const double val[] = { 0, 1, -0.5 };
  const double dts[] = { 0, 0.5, 2 };
  Eigen::Isometry3d t1 = Eigen::Isometry3d::Identity();
  t1.linear() = Eigen::AngleAxisd(ang[code % 3], ax[code / 3 % 3]).toRotationMatrix();
  t1.translation() = Eigen::Vector3d(1, -2, 3);
  for (int m = 0; m < 729 * 3; ++m)
  {
    Eigen::Matrix<double, 6, 1> w;
    int q = m;
    for (int i = 0; i < 6; ++i, q /= 3)
      w[i] = val[q % 3];
    const double dt = dts[q % 3];
    c.transitions();
    c.state(Hash().u(5).u(code).u(m));
    Eigen::Isometry3d t2 = trajopt_common::addTwist(t1, w, dt);
    Eigen::Vector3d th = w.tail<3>() * dt;
    Eigen::Matrix3d K;
    K << 0, -th[2], th[1], th[2], 0, -th[0], -th[1], th[0], 0;
    double n = th.norm();
    Eigen::Matrix3d E = Eigen::Matrix3d::Identity();
    if (n > 1e-12)
      E += std::sin(n) / n * K + (1 - std::cos(n)) / (n * n) * K * K;
    c.checkf((t2.linear() - E * t1.linear()).norm() < 1e-9 &&
                 (t2.translation() - (t1.translation() + w.head<3>() * dt)).norm() < 1e-9,
             "addTwist", [&] { return str("pose ", code, " twist ", w.transpose(), " dt ", dt); });
  }
}

void mc::explore(Ctx& c)
{
  const int N = c.thorough ? 6 : 4;
  for (int R = 0; R <= N; ++R)
    for (int C = 0; C <= N; ++C)
      c.item([=] { return str("array ", R, "x", C); }, [&] { arrays(c, R, C); c.traces(); });
  for (int n = 0; n <= 5; ++n)
    c.item([=] { return str("slices of length ", n); }, [&] { slices(c, n); c.traces(); });
  for (int mask = 1; mask < 32; ++mask)
    c.item([=] { return str("interpolation table mask ", mask); }, [&] { interp(c, mask, c.thorough ? 6 : 4); c.traces(); });
  for (int n = 0; n <= (c.thorough ? 4 : 3); ++n)
    for (int s = 2; s <= (c.thorough ? 9 : 6); ++s)
      c.item([=] { return str("line, ", n, " joints, ", s, " steps"); }, [&] { line(c, n, s); c.traces(); });
  for (int k = 0; k < 9; ++k)
    c.item([=] { return str("twist, pose ", k); }, [&] { twist(c, k); c.traces(); });
}
