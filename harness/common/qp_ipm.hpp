// Accurate solution of a small dense convex QP  min x'Px/2 + q'x, l <= Ax <= u  by a primal-dual interior point method.
// The result is certified by its optimality residual; a caller has to look at `residual`.
#pragma once
#include <Eigen/Dense>
#include <cmath>
#include <vector>
struct IpmResult
{
  Eigen::VectorXd x;
  double residual = INFINITY;  // of feasibility, stationarity and complementarity
};
inline IpmResult solveIpm(const Eigen::MatrixXd& P, const Eigen::VectorXd& q, const Eigen::MatrixXd& A, const Eigen::VectorXd& l, const Eigen::VectorXd& u)
{
  using Eigen::MatrixXd;
  using Eigen::VectorXd;
  const int n = int(q.size());
  std::vector<int> eq;
  std::vector<std::pair<int, double>> in;  // row, sign
  for (int i = 0; i < A.rows(); ++i)
  {
    if (l[i] == u[i])
    {
      eq.push_back(i);
      continue;
    }
    if (u[i] < 1e20)
      in.push_back({ i, 1 });
    if (l[i] > -1e20)
      in.push_back({ i, -1 });
  }
  const int me = int(eq.size()), mi = int(in.size());
  MatrixXd E(me, n), G(mi, n);
  VectorXd b(me), h(mi);
  for (int k = 0; k < me; ++k)
    E.row(k) = A.row(eq[size_t(k)]), b[k] = l[eq[size_t(k)]];
  for (int k = 0; k < mi; ++k)
  {
    auto [i, s] = in[size_t(k)];
    G.row(k) = s * A.row(i), h[k] = s > 0 ? u[i] : -l[i];
  }
  VectorXd x = VectorXd::Zero(n), y = VectorXd::Zero(me), z = VectorXd::Ones(mi), s = VectorXd::Ones(mi);
  if (mi)
    s = (h - G * x).cwiseMax(1.0);
  IpmResult best;
  const double scale = 1 + q.cwiseAbs().maxCoeff() + (P.size() ? P.cwiseAbs().maxCoeff() : 0);
  for (int it = 0; it < 80; ++it)
  {
    VectorXd rd = P * x + q;
    if (me) rd += E.transpose() * y;
    if (mi) rd += G.transpose() * z;
    VectorXd rp = me ? VectorXd(E * x - b) : VectorXd(0), ri = mi ? VectorXd(G * x + s - h) : VectorXd(0);
    const double mu = mi ? s.dot(z) / mi : 0;
    double res = rd.cwiseAbs().maxCoeff() / scale;
    if (me) res = std::max(res, rp.cwiseAbs().maxCoeff());
    if (mi) res = std::max(res, std::max(ri.cwiseAbs().maxCoeff(), (s.array() * z.array()).maxCoeff() / scale));
    if (res < best.residual)
      best.residual = res, best.x = x;
    if (res < 1e-12)
      break;
    auto direction = [&](const VectorXd& rc, VectorXd& dx, VectorXd& dy, VectorXd& dz, VectorXd& ds) {
      MatrixXd K = MatrixXd::Zero(n + me, n + me);
      K.topLeftCorner(n, n) = P;
      VectorXd r(n + me);
      r.head(n) = -rd;
      if (mi)
      {
        VectorXd w = z.cwiseQuotient(s);
        K.topLeftCorner(n, n) += G.transpose() * w.asDiagonal() * G;
        r.head(n) -= G.transpose() * (w.cwiseProduct(ri) - rc.cwiseQuotient(s));
      }
      for (int i = 0; i < n; ++i)
        K(i, i) += 1e-13 * scale;
      if (me)
      {
        K.topRightCorner(n, me) = E.transpose();
        K.bottomLeftCorner(me, n) = E;
        for (int i = 0; i < me; ++i)
          K(n + i, n + i) -= 1e-13;
        r.tail(me) = -rp;
      }
      Eigen::PartialPivLU<MatrixXd> lu(K);
      VectorXd d = lu.solve(r);
      d += lu.solve(r - K * d);
      dx = d.head(n), dy = d.tail(me);
      if (mi)
      {
        ds = -ri - G * dx;
        dz = -(rc + z.cwiseProduct(ds)).cwiseQuotient(s);
      }
    };
    VectorXd dx, dy, dz(0), ds(0), rc = s.cwiseProduct(z);
    direction(rc, dx, dy, dz, ds);
    double ap = 1, ad = 1;
    auto steps = [&] {
      ap = ad = 1;
      for (int k = 0; k < mi; ++k)
      {
        if (ds[k] < 0) ap = std::min(ap, -s[k] / ds[k]);
        if (dz[k] < 0) ad = std::min(ad, -z[k] / dz[k]);
      }
    };
    if (mi)
    {
      steps();
      const double muAff = (s + ap * ds).dot(z + ad * dz) / mi, sigma = std::pow(muAff / mu, 3);
      rc = s.cwiseProduct(z) + ds.cwiseProduct(dz) - VectorXd::Constant(mi, sigma * mu);
      direction(rc, dx, dy, dz, ds);
      steps();
      ap = std::min(1.0, 0.995 * ap), ad = std::min(1.0, 0.995 * ad);
      ap = ad = std::min(ap, ad);  // the same step keeps the quadratic case simple
      s += ap * ds, z += ad * dz;
    }
    x += ap * dx, y += ad * dy;
    if (!x.allFinite())
      break;
  }
  return best;
}
