// K03: the legacy velocity, acceleration, jerk, time and singularity calculators: values, and Jacobians as derivatives of the values.
#include <mc/mc.hpp>
#include <common/robot_terms.hpp>
#include <trajopt/kinematic_terms.hpp>
#include <trajopt/utils.hpp>
#include <Eigen/SVD>
using namespace mc;
using namespace rob;
const CheckInfo mc::info = { "K03", "exploration",
  "Cartesian velocity: three groups, every moving and a fixed link, tool points (none, rotated only, shifted, both), limits, all 25 pairs of a grid of configurations; joint velocity, acceleration, jerk and time: every "
  "trajectory of 2..4 (thorough 5) nodes over three positions and three inverse times, targets, tolerances and limits; singularity: two groups and four subsets in other orders, links, damping, 3^n (thorough 5^n) grid of configurations; "
  "subset extraction and scattering: every pair of duplicate-free lists over four names",
  { "the robot is a stand-in behind tesseract's interface", "kinematic_terms.cpp is compiled as in a release build (NDEBUG)",
    "the acceleration and jerk calculators with inverse times (marked as unfinished in the code, used by no term) are only required to be consistent with their Jacobians, to subtract their limit, and to vanish at constant velocity" } };

template <class F>
static MatrixXd deriv(F f, const VectorXd& x, double h = 1e-6)
{
  MatrixXd J;
  for (Eigen::Index j = 0; j < x.size(); ++j)
  {
    VectorXd a = x, b = x;
    a[j] += h;
    b[j] -= h;
    const VectorXd d = (f(a) - f(b)) / (2 * h);
    if (j == 0)
      J.resize(d.size(), x.size());
    J.col(j) = d;
  }
  return J;
}
static bool same(const MatrixXd& a, const MatrixXd& b, double tol)
{
  if (a.rows() != b.rows() || a.cols() != b.cols())
    return false;
  for (Eigen::Index i = 0; i < a.size(); ++i)
    if (!near(a.data()[i], b.data()[i], tol))
      return false;
  return true;
}
static std::string two(const std::string& w, const MatrixXd& a, const MatrixXd& b)
{
  std::ostringstream o;
  o << w << ":\n" << a << "\nexpected\n" << b;
  return o.str();
}
static void seen(Ctx& c, const VectorXd& v)
{
  Hash h;
  for (Eigen::Index i = 0; i < v.size(); ++i)
    h.d(v[i]);
  c.state(h.h);
  c.outcome(Hash().d(v.size() ? std::round(v[0] * 100) : 0).h);
  c.transitions(2);
  c.traces();
}
static void cartVel(Ctx& c, const JG& g)
{
  for (auto& link : g->getLinkNames())
    for (auto& tcp : { Isometry3d(Isometry3d::Identity()), pose(0, 0, 0, 1.1, Vector3d(1, 0, 1)), pose(0.2, -0.1, 0.3), pose(-0.1, 0, 0.4, -0.8, Vector3d(0, 1, 1)) })
      for (double limit : { 0.0, 0.1, 2.5 })
      {
        c.beat();
        trajopt::CartVelErrCalculator e(g, link, limit, tcp);
        trajopt::CartVelJacCalculator j(g, link, limit, tcp);
        for (int a = 0; a < 5; ++a)
          for (int b = 0; b < 5; ++b)
          {
            const Eigen::Index n = g->numJoints();
            VectorXd x(2 * n);
            x << cfg(g, a), cfg(g, b);
            auto spec = [&](const VectorXd& y) {
              const Vector3d d = (g->calcFwdKin(y.tail(n)).at(link) * tcp).translation() - (g->calcFwdKin(y.head(n)).at(link) * tcp).translation();
              VectorXd v(6);
              v << d.array() - limit, -d.array() - limit;
              return v;
            };
            const VectorXd v = e(x), ex = spec(x);
            c.checkf(same(v, ex, 1e-9), "cart-velocity", [&] { return two(str(link, " config ", a, " to ", b), v, ex); });
            const MatrixXd J = j(x), eJ = deriv(spec, x);
            c.checkf(same(J, eJ, 1e-6), "cart-velocity-jacobian", [&] { return two(str(link, " config ", a, " to ", b, " tool ", vec(Vector3d(tcp.translation()))), J, eJ); });
            seen(c, v);
          }
      }
}
static void joint(Ctx& c, int n)
{
  const double pos[3] = { -1, 0, 0.7 }, inv[3] = { 0.5, 1, 4 };
  Dfs d(c);
  int cnt = 0;
  d.run([&] {
    VectorXd x(2 * n);
    for (int i = 0; i < n; ++i)
      x[i] = pos[d.choose(3)];
    for (int i = 0; i < n; ++i)
      x[n + i] = inv[d.choose(3)];
    if (++cnt % 64 == 0)
      c.beat();
    const int variant = cnt % 4;
    const double target = variant == 0 ? 0 : variant == 1 ? 0.4 : -1.5, up = variant == 2 ? 0.3 : variant == 3 ? 1 : 0, lo = variant == 2 ? -0.2 : 0;
    trajopt::JointVelErrCalculator ve = variant == 0 ? trajopt::JointVelErrCalculator() : trajopt::JointVelErrCalculator(target, up, lo);
    auto vs = [&](const VectorXd& y) {
      VectorXd r(2 * (n - 1));
      for (int i = 0; i + 1 < n; ++i)
      {
        const double v = (y[i + 1] - y[i]) * y[n + i + 1] - target;
        r[i] = v - up;
        r[n - 1 + i] = lo - v;
      }
      return r;
    };
    c.checkf(same(ve(x), vs(x), 1e-12), "velocity", [&] { return two(d.pathText(), ve(x), vs(x)); });
    const MatrixXd vj = trajopt::JointVelJacCalculator()(x), ej = deriv(vs, x);
    c.checkf(same(vj, ej, 1e-6), "velocity-jacobian", [&] { return two(d.pathText(), vj, ej); });
    const double limit = 0.25 * variant;
    VectorXd uni = x;  // the same inverse times, constant velocity
    for (int i = 1; i < n; ++i)
      uni[i] = uni[i - 1] + 0.3 / uni[n + i];
    auto higher = [&](auto err0, auto err1, auto jac, int rows, const char* name) {
      const VectorXd v = err1(x), v0 = err0(x);
      c.checkf(v.size() == rows && same(v, v0.array() - limit, 1e-12), name, [&] { return two(d.pathText() + " limit", v, v0); });
      const MatrixXd J = jac(x), eJ = deriv([&](const VectorXd& y) { return VectorXd(err0(y)); }, x);
      c.checkf(same(J, eJ, 2e-5), name, [&] { return two(d.pathText() + " Jacobian", J, eJ); });
      const VectorXd z = err0(uni);
      c.checkf(z.norm() < 1e-9, name, [&] { return str(d.pathText(), ": constant velocity gives ", vec(z)); });
    };
    if (n >= 3)
      higher(trajopt::JointAccErrCalculator(), trajopt::JointAccErrCalculator(limit), trajopt::JointAccJacCalculator(), n - 2, "acceleration");
    if (n >= 4)
      higher(trajopt::JointJerkErrCalculator(), trajopt::JointJerkErrCalculator(limit), trajopt::JointJerkJacCalculator(), n - 3, "jerk");
    const VectorXd inverse = x.tail(n);
    auto ts = [&](const VectorXd& y) { return VectorXd(VectorXd::Constant(1, y.cwiseInverse().sum() - limit)); };
    c.checkf(same(trajopt::TimeCostCalculator(limit)(inverse), ts(inverse), 1e-12), "time", [&] { return d.pathText(); });
    c.checkf(same(trajopt::TimeCostJacCalculator()(inverse), deriv(ts, inverse, 1e-5), 1e-6), "time-jacobian", [&] { return d.pathText(); });
    seen(c, ve(x));
  });
}
static void singularity(Ctx& c, const JG& sup, const std::vector<std::string>& sub, const std::string& link)
{
  // the group of the subset moves alone; the values the other joints have are fixed in it
  JG sg = std::make_shared<Robot>(sub);
  const Eigen::Index n = sup->numJoints(), m = sg->numJoints();
  const int w = c.thorough ? 5 : 3;
  const double grid[5] = { -0.9, 0.35, 1.4, 0.05, 2.6 };
  int total = 1;
  for (Eigen::Index i = 0; i < n; ++i)
    total *= w;
  auto minsv = [&](const JG& g, const VectorXd& q) { return Eigen::JacobiSVD<MatrixXd>(g->calcJacobian(q, link)).singularValues(); };
  for (int k = 0; k < total; ++k)
  {
    if (k % 64 == 0)
      c.beat();
    VectorXd q(n);
    for (Eigen::Index i = 0, r = k; i < n; ++i, r /= w)
      q[i] = grid[r % w];
    const double lambda = k % 3 == 0 ? 1e-3 : k % 3 == 1 ? 0.1 : 1;
    auto value = [&](const JG& g, const VectorXd& x) {
      const VectorXd s = minsv(g, x);
      return 1 / (s[s.size() - 1] + lambda) - 1 / (0.1 + lambda);
    };
    auto smooth = [&](const JG& g, const VectorXd& x) {
      const VectorXd s = minsv(g, x);
      const Eigen::Index z = s.size();
      return s[z - 1] > 2e-3 && (z < 2 || s[z - 2] - s[z - 1] > 2e-3);
    };
    auto grad = [&](const JG& g, const VectorXd& x) {
      return deriv([&](const VectorXd& y) { return VectorXd(VectorXd::Constant(1, value(g, y))); }, x, 1e-5);
    };
    const VectorXd v = trajopt::AvoidSingularityErrCalculator(sup, link, lambda)(q);
    c.checkf(v.size() == 1 && near(v[0], value(sup, q), 1e-9), "singularity", [&] { return str(vec(q), ": ", vec(v), " expected ", value(sup, q)); });
    if (smooth(sup, q))
    {
      const MatrixXd J = trajopt::AvoidSingularityJacCalculator(sup, link, lambda)(q), e = grad(sup, q);
      c.checkf(same(J, e, 1e-2 * (1 + e.norm())), "singularity-jacobian", [&] { return two(vec(q), J, e); });
    }
    VectorXd s(m);
    for (Eigen::Index i = 0; i < m; ++i)
    {
      auto names = sup->getJointNames();
      s[i] = q[std::find(names.begin(), names.end(), sub[size_t(i)]) - names.begin()];
    }
    const VectorXd vs = trajopt::AvoidSingularitySubsetErrCalculator(sg, sup, link, lambda)(q);
    c.checkf(vs.size() == 1 && near(vs[0], value(sg, s), 1e-9), "subset-singularity", [&] { return str(vec(q), ": ", vec(vs), " expected ", value(sg, s)); });
    if (smooth(sg, s))
    {
      const MatrixXd J = trajopt::AvoidSingularitySubsetJacCalculator(sg, sup, link, lambda)(q), es = grad(sg, s);
      MatrixXd e = MatrixXd::Zero(1, n);
      auto names = sup->getJointNames();
      for (Eigen::Index i = 0; i < m; ++i)
        e(0, std::find(names.begin(), names.end(), sub[size_t(i)]) - names.begin()) = es(0, i);
      c.checkf(same(J, e, 1e-2 * (1 + e.norm())), "subset-singularity-jacobian", [&] { return two(vec(q), J, e); });
    }
    seen(c, v);
  }
}
static void subsets(Ctx& c)
{
  const std::vector<std::string> names{ "a", "b", "c", "d" };
  std::vector<std::vector<std::string>> ls;
  std::function<void(std::vector<std::string>)> rec = [&](std::vector<std::string> l) {
    ls.push_back(l);
    for (auto& n : names)
      if (std::find(l.begin(), l.end(), n) == l.end())
      {
        auto m = l;
        m.push_back(n);
        rec(m);
      }
  };
  rec({});
  for (auto& sup : ls)
    for (auto& sub : ls)
    {
      VectorXd sv(Eigen::Index(sup.size())), bv(Eigen::Index(sub.size()));
      for (Eigen::Index i = 0; i < sv.size(); ++i)
        sv[i] = 10 + sup[size_t(i)][0];
      for (Eigen::Index i = 0; i < bv.size(); ++i)
        bv[i] = 1000 + sub[size_t(i)][0];
      bool inside = true;
      for (auto& s : sub)
        inside &= std::find(sup.begin(), sup.end(), s) != sup.end();
      VectorXd got = VectorXd::Constant(bv.size(), -7), up = VectorXd::Constant(sv.size(), -7);
      const bool g = trajopt::getSubset(sup, sv, sub, got), u = trajopt::updateFromSubset(sup, sv, sub, bv, up);
      c.transitions(2);
      bool ok = g == inside && u == inside;
      if (inside)
      {
        for (Eigen::Index i = 0; i < bv.size(); ++i)
          ok &= got[i] == 10 + sub[size_t(i)][0];
        for (Eigen::Index i = 0; i < sv.size(); ++i)
          ok &= up[i] == (std::find(sub.begin(), sub.end(), sup[size_t(i)]) != sub.end() ? 1000 : 10) + sup[size_t(i)][0];
      }
      c.checkf(ok, "subset", [&] {
        std::string w;
        for (auto& s : sup)
          w += s;
        w += " / ";
        for (auto& s : sub)
          w += s;
        return w + str(" found ", g, u, " ", vec(got), " ", vec(up));
      });
      c.traces();
    }
}
void mc::explore(Ctx& c)
{
  c.item([] { return std::string("subsets of names"); }, [&] { subsets(c); });
  for (auto& g : { arm(), turn(), both() })
    c.item([&] { return str("Cartesian velocity of ", g->numJoints()); }, [&] { cartVel(c, g); });
  for (int n = 2; n <= (c.thorough ? 5 : 4); ++n)
    c.item([=] { return str("joint terms over ", n, " nodes"); }, [&] { joint(c, n); });
  struct P { JG g; std::vector<std::string> sub; std::string link; };
  for (auto& p : std::vector<P>{ { arm(), { "j2", "j1" }, "tool" }, { arm(), { "j4", "j3", "j2" }, "a4" }, { both(), { "j1", "j2", "j3", "j4" }, "tool" }, { both(), { "j3", "k1", "j1" }, "tool" },
                                 { arm(), { "j1", "j2", "j3", "j4" }, "tool" }, { both(), { "k1" }, "part" } })
    c.item([&] { return str("singularity of ", p.link, " with ", p.sub.size(), " of ", p.g->numJoints()); }, [&] { singularity(c, p.g, p.sub, p.link); });
}
