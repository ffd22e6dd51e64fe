// Q08: affine and quadratic row expressions.
#include <mc/mc.hpp>
#include <trajopt_ifopt/core/eigen_types.h>
#include <trajopt_sqp/expressions.h>
using namespace mc;
using Eigen::MatrixXd;
using Eigen::VectorXd;
using trajopt_ifopt::Jacobian;
const CheckInfo mc::info = { "Q08", "exploration",
  "every expression with 1-3 variables and 0-2 rows (thorough: 3) whose values, Jacobian entries and Hessian entries come from the grid (Jacobians from {-2,0,1} exhaustively, structurally "
  "zero and explicit zero entries, absent and dense Hessians of either sign), every weight vector of {0,0.5,3}, every expansion point; affine, quadratic and squared-affine values and "
  "summed objective compared with the definition at a grid of points; the expression objects are reused from case to case, as the QP problem reuses its caches",
  { "weights are non-negative", "Hessians are symmetric" } };

static Jacobian sparse(const MatrixXd& d, bool explicitZeros)
{
  Jacobian s(d.rows(), d.cols());
  std::vector<Eigen::Triplet<double>> t;
  for (int i = 0; i < d.rows(); ++i)
    for (int j = 0; j < d.cols(); ++j)
      if (explicitZeros || d(i, j) != 0)
        t.emplace_back(i, j, d(i, j));
  s.setFromTriplets(t.begin(), t.end());
  return s;
}
struct Ws { trajopt_sqp::AffExprs aff; trajopt_sqp::QuadExprs sq, quad; };

static std::vector<VectorXd> points(int n)
{
  std::vector<VectorXd> v;
  for (double a : { -1.5, 0.0, 1.0, 2.25 })
  {
    VectorXd x(n);
    for (int i = 0; i < n; ++i)
      x[i] = a * (i == 1 ? -0.5 : 1) + 0.25 * i;
    v.push_back(x);
  }
  return v;
}
static void one(Ctx& c, Ws& ws, const MatrixXd& J, const VectorXd& f, const VectorXd& x0, const VectorXd& w, const std::vector<MatrixXd>& H, bool ez)
{
  const int m = int(J.rows()), n = int(J.cols());
  auto where = [&] {
    std::ostringstream o;
    o << m << " rows, " << n << " variables, J=[" << J << "] f=" << vec(f) << " x0=" << vec(x0) << " w=" << vec(w) << (ez ? " explicit zeros" : "");
    for (auto& h : H)
      o << " H=[" << h << "]";
    return o.str();
  };
  c.transitions();
  ws.aff.create(f, sparse(J, ez), x0);
  ws.aff.square(ws.sq, w);
  std::vector<Jacobian> hs;
  for (auto& h : H)
    hs.push_back(sparse(h, ez));
  ws.quad.create(f, sparse(J, ez), hs, x0);
  VectorXd a(m), q(m), s(m);
  auto pts = points(n);
  pts.push_back(x0);
  for (auto& x : pts)
  {
    VectorXd d = x - x0, ea = f + J * d;
    ws.aff.values(a, x);
    ws.quad.values(q, x);
    ws.sq.values(s, x);
    double obj = ws.sq.constants.sum() + (n ? ws.sq.objective_linear_coeffs.dot(x) : 0), eo = 0;
    if (n)
      obj += x.dot(ws.sq.objective_quadratic_coeffs * x);
    for (int i = 0; i < m; ++i)
    {
      c.checkf(near(a[i], ea[i]), "affine", [&] { return str(where(), ": affine row ", i, " at ", vec(x), " is ", a[i], " not ", ea[i]); });
      double eq = ea[i] + 0.5 * d.dot(H[size_t(i)] * d), es = w[i] * ea[i] * ea[i];
      eo += es;
      c.checkf(near(q[i], eq, 1e-9), "quadratic", [&] { return str(where(), ": quadratic row ", i, " at ", vec(x), " is ", q[i], " not ", eq); });
      c.checkf(near(s[i], es, 1e-8), "square", [&] { return str(where(), ": squared row ", i, " at ", vec(x), " is ", s[i], " not ", es); });
    }
    c.checkf(near(obj, eo, 1e-8), "objective", [&] { return str(where(), ": summed objective at ", vec(x), " is ", obj, " not ", eo); });
  }
  bool jacOk = ws.aff.linear_coeffs.rows() == m && ws.aff.linear_coeffs.cols() == n && (MatrixXd(ws.aff.linear_coeffs) - J).norm() == 0;
  c.checkf(jacOk, "jacobian", [&] { return where() + ": the Jacobian of the affine expression changed"; });
  MatrixXd Q(ws.sq.objective_quadratic_coeffs);
  c.checkf(Q.rows() == n && Q.cols() == n && (Q - Q.transpose()).norm() <= 1e-12 * (1 + Q.norm()), "symmetric", [&] { return where() + ": summed quadratic form is not symmetric"; });
  Hash h;
  h.u(m).u(n).u(ez);
  for (int i = 0; i < J.size(); ++i)
    h.d(J.data()[i]);
  for (int i = 0; i < m; ++i)
    h.d(f[i]).d(w[i]).d(H[size_t(i)](0, 0));
  c.state(h.d(x0[0]));
  c.traces();
}
static MatrixXd hess(int k, int n)
{
  MatrixXd h = MatrixXd::Zero(n, n);
  switch (k)
  {
    case 1: h.setIdentity(); h *= 2; break;
    case 2: h.setConstant(-1); h.diagonal().setConstant(-3); break;
    case 3: h(0, n - 1) = h(n - 1, 0) = 1.5; break;
  }
  return h;
}
void mc::explore(Ctx& c)
{
  const int maxRows = c.thorough ? 3 : 2;
  for (int n = 1; n <= 3; ++n)
    for (int m = 0; m <= maxRows; ++m)
    {
      if (m == 3 && n == 3)
        continue;
      int tot = 1;
      for (int i = 0; i < n * m; ++i)
        tot *= 3;
      for (int part = 0; part < (tot > 100 ? 27 : 1); ++part)
        c.item([=] { return str(m, " rows, ", n, " variables, part ", part); }, [&] {
          Ws ws;
          for (int code = part; code < tot; code += tot > 100 ? 27 : 1)
          {
            MatrixXd J(m, n);
            int r = code;
            for (int i = 0; i < m * n; ++i, r /= 3)
              J(i / n, i % n) = r % 3 == 0 ? 0 : r % 3 == 1 ? 1 : -2;
            int wt = 1;
            for (int i = 0; i < m; ++i)
              wt *= 3;
            for (int wc = 0; wc < wt; ++wc)
              for (int hc = 0; hc < (m ? 5 : 1); ++hc)
                for (int pc = 0; pc < 3; ++pc)
                {
                  VectorXd w(m), f(m), x0(n);
                  std::vector<MatrixXd> H;
                  int k = wc;
                  for (int i = 0; i < m; ++i, k /= 3)
                  {
                    w[i] = k % 3 == 0 ? 0 : k % 3 == 1 ? 0.5 : 3;
                    f[i] = pc == 0 ? 0 : pc * 1.25 - 2 * i;
                    H.push_back(hess(hc == 4 ? (i % 2 ? 0 : 2) : hc, n));
                  }
                  for (int i = 0; i < n; ++i)
                    x0[i] = pc == 1 ? 0 : pc * 0.5 - 0.75 * i;
                  one(c, ws, J, f, x0, w, H, (code + hc) % 2);
                }
          }
        });
    }
}
