// K02: Cartesian line constraint and inverse-kinematics constraint of the SQP library.
#include <mc/mc.hpp>
#include <common/robot_terms.hpp>
#include <trajopt_ifopt/constraints/cartesian_line_constraint.h>
#include <trajopt_ifopt/constraints/inverse_kinematics_constraint.h>
using namespace mc;
using namespace rob;
const CheckInfo mc::info = { "K02", "model_checking",
  "line points: 12 lines (axis and oblique directions, both senses, lengths 0 to 3, turning by 0 to 3 rad) x an 7x7x7 lattice of points around each; constraint values and derivatives: three robot groups, line frames (fixed root, fixed, "
  "moving), source offsets, six lines placed on, beside, before and beyond the tool, five configurations, 67 component lists, all node positions; every sequence of 3 (thorough 4) evaluations and moves on three "
  "line constraints sharing the thread's cache; inverse kinematics: every list of 1..3 scripted solutions out of 5, two goals, moves, goal and limit changes in every order of length 3",
  { "the robot is a stand-in behind tesseract's interface; its pose-error helpers are modelled on their published behaviour",
    "the non-default analytic Jacobian (documented as buggy, own risk) is not judged; relative orientation of the ends below half a turn" } };

struct Line
{
  Isometry3d a, b;
};
static Isometry3d between(const Isometry3d& a, const Isometry3d& b, double t)
{
  Isometry3d r = Isometry3d::Identity();
  r.translation() = a.translation() + t * (b.translation() - a.translation());
  const Vector3d w = rotVec(a.linear().transpose() * b.linear());
  r.linear() = a.linear() * (w.norm() < 1e-12 ? Eigen::Matrix3d::Identity() : Eigen::Matrix3d(Eigen::AngleAxisd(t * w.norm(), w.normalized())));
  return r;
}
static double along(const Isometry3d& a, const Isometry3d& b, const Vector3d& p)
{
  const Vector3d l = b.translation() - a.translation();
  const double n = l.squaredNorm();
  return n < 1e-24 ? 0 : (p - a.translation()).dot(l) / n;
}
static double clamp01(double t) { return std::min(1.0, std::max(0.0, t)); }
static Isometry3d nearest(const Isometry3d& a, const Isometry3d& b, const Vector3d& p) { return between(a, b, clamp01(along(a, b, p))); }

static std::vector<Line> lines()
{
  std::vector<Line> v;
  for (auto& d : { Vector3d(1, 0, 0), Vector3d(-0.5, 0, 0), Vector3d(0, -3, 0), Vector3d(0.3, -0.4, 0.2), Vector3d(-1, -1, -1), Vector3d(0, 0, 0) })
    for (int k = 0; k < 2; ++k)
    {
      const Isometry3d a = pose(0.2, -0.3, 0.4, k ? 0.5 : 0, Vector3d(0, 1, 1));
      Isometry3d b = k ? a * pose(0, 0, 0, 1.5 + 0.25 * double(v.size() % 7), Vector3d(1, -1, 0.5)) : a;
      if (d.norm() == 0 && !k)
        b = a * pose(0, 0, 0, 0.8);
      b.translation() = a.translation() + d;
      v.push_back({ a, b });
    }
  return v;
}
static void points(Ctx& c, const Line& l, int li)
{
  CartLineInfo inf(arm(), "tool", "world", l.a, l.b);
  Traj t(arm(), { cfg(arm(), 0), cfg(arm(), 1), cfg(arm(), 2) });
  CartLineConstraint k(inf, t.v[0], VectorXd::Ones(6));
  const Vector3d dir = l.b.translation() - l.a.translation();
  const double scale = std::max(0.4, dir.norm());
  for (int x = -3; x <= 3; ++x)
    for (int y = -3; y <= 3; ++y)
      for (int z = -3; z <= 3; ++z)
      {
        Isometry3d p = pose(0, 0, 0, 0.3 * x);
        p.translation() = l.a.translation() + 0.5 * dir + scale * 0.35 * Vector3d(x, y, z);
        const Isometry3d got = k.getLinePoint(p, l.a, l.b), ex = nearest(l.a, l.b, p.translation());
        c.transitions();
        c.checkf((got.translation() - ex.translation()).norm() < 1e-9, "line-point", [&] {
          return str("line ", li, " point ", vec(Vector3d(p.translation())), ": ", vec(Vector3d(got.translation())), " expected ", vec(Vector3d(ex.translation())));
        });
        c.checkf((got.linear() - ex.linear()).norm() < 1e-8, "line-orientation", [&] { return str("line ", li, " point ", vec(Vector3d(p.translation()))); });
        c.checkf(got.matrix().row(3) == Eigen::RowVector4d(0, 0, 0, 1), "line-transform", [&] { return str("line ", li); });
        c.state(Hash().d(p.translation().x()).d(p.translation().y()).d(p.translation().z()).u(unsigned(li)).h);
        c.outcome(Hash().d(std::round(along(l.a, l.b, p.translation()) * 100)).h);
        c.traces();
      }
  auto g = k.getLine();
  c.checkf(g.first.isApprox(l.a, 1e-14) && g.second.isApprox(l.b, 1e-14), "line", [&] { return str("line ", li); });
}
struct Spec
{
  JG g;
  std::string src, tgt;
  Isometry3d so, a, b;
  bool wrong = false;  // the recorded defect: the line point is placed with the offsets as if the line's frame were the root
  VectorXd val(const VectorXd& q, double* t = nullptr) const
  {
    auto f = g->calcFwdKin(q);
    const Isometry3d s = f.at(src) * so, A = f.at(tgt) * a, B = f.at(tgt) * b;
    Isometry3d p = nearest(A, B, s.translation());
    const double x = along(A, B, s.translation());
    if (t)
      *t = x;
    if (wrong)
      p.translation() = x > 1 ? Vector3d(b.translation()) : Vector3d(a.translation() + clamp01(x) * (B.translation() - A.translation()));
    return poseError(p, s);
  }
  MatrixXd jac(const VectorXd& q) const
  {
    const double h = 1e-6;
    const VectorXd e0 = val(q);
    MatrixXd J(6, q.size());
    for (Eigen::Index j = 0; j < q.size(); ++j)
    {
      VectorXd x = q, y = q;
      x[j] += h;
      y[j] -= h;
      VectorXd ex = val(x), ey = val(y);
      ex.tail<3>() = nearestTo(ex.tail<3>(), e0.tail<3>());
      ey.tail<3>() = nearestTo(ey.tail<3>(), e0.tail<3>());
      J.col(j) = (ex - ey) / (2 * h);
    }
    return J;
  }
};
static bool matches(const Spec& s, const VectorXd& q, const std::vector<int>& idx, const VectorXd& val, const MatrixXd* jac)
{
  double t;
  const VectorXd e = s.val(q, &t);
  if (val.size() != Eigen::Index(idx.size()))
    return false;
  for (size_t i = 0; i < idx.size(); ++i)
    if (!near(val[Eigen::Index(i)], e[idx[i]], 1e-6))
      return false;
  if (!jac)
    return true;
  if (jac->rows() != Eigen::Index(idx.size()) || jac->cols() != q.size())
    return false;
  // at the ends of the line, and at half a turn, the derivative does not exist
  if (std::fabs(t) < 1e-3 || std::fabs(t - 1) < 1e-3 || e.tail<3>().norm() > M_PI - 1e-3)
    return true;
  const MatrixXd J = s.jac(q);
  for (size_t i = 0; i < idx.size(); ++i)
    for (Eigen::Index j = 0; j < q.size(); ++j)
      if (!near((*jac)(Eigen::Index(i), j), J(idx[i], j), 1e-3))
        return false;
  return true;
}
// false: the recorded defect shows
static bool judge(Ctx& c, const Spec& s, const CartLineConstraint& k, const Traj& t, size_t node, const std::vector<int>& idx, const std::string& where)
{
  const VectorXd q = t.v[node]->value();
  const VectorXd v = k.getValues();
  const MatrixXd J = k.getJacobian().toDense();
  const Eigen::Index n = q.size(), off = Eigen::Index(node) * n;
  bool placed = J.cols() == 3 * n;
  for (Eigen::Index i = 0; placed && i < J.rows(); ++i)
    for (Eigen::Index j = 0; placed && j < J.cols(); ++j)
      placed = J(i, j) == 0 || (j >= off && j < off + n);
  c.checkf(placed, "columns", [&] { return where + ": Jacobian has entries outside its variable's columns"; });
  const MatrixXd mine = J.middleCols(off, n);
  c.transitions(2);
  Hash h;
  for (Eigen::Index i = 0; i < v.size(); ++i)
    h.d(v[i]);
  c.state(h.h);
  c.outcome(Hash().d(v.size() ? std::round(v[0] * 1e3) : 0).h);
  c.checkf(vec(k.calcValues(q)) == vec(v), "given-values", [&] { return where + ": values at given joints differ from values at the variable"; });
  if (matches(s, q, idx, v, &mine))
    return true;
  Spec w = s;
  w.wrong = true;
  if (matches(w, q, idx, v, &mine))
    return false;
  const bool val = matches(s, q, idx, v, nullptr) || matches(w, q, idx, v, nullptr);
  std::ostringstream o;
  double tt;
  const VectorXd e = s.val(q, &tt);
  o << where << " at " << vec(q) << " (" << tt << " along)\nvalues " << vec(v) << " expected of all components " << vec(e) << "\nJacobian\n" << mine << "\nexpected of all components\n" << s.jac(q);
  c.fail(val ? "jacobian" : "value", o.str());
}
static std::vector<std::vector<int>> lists()
{
  std::vector<std::vector<int>> l;
  for (int m = 63; m > 0; --m)
  {
    std::vector<int> x;
    for (int i = 0; i < 6; ++i)
      if (m >> i & 1)
        x.push_back(i);
    l.push_back(x);
  }
  l.push_back({ 5, 4, 3, 2, 1, 0 });
  l.push_back({ 4, 0 });
  l.push_back({ 3, 3, 1 });
  l.push_back({ 5, 5, 5, 0, 0, 0 });
  return l;
}
// lines in the frame of the target, placed relative to where the source is at q
static std::vector<Line> around(const JG& g, const std::string& src, const std::string& tgt, const Isometry3d& so, const VectorXd& q)
{
  auto f = g->calcFwdKin(q);
  const Isometry3d m = f.at(tgt).inverse() * f.at(src) * so;
  auto sh = [&](double x, double y, double z, double r = 0) { return Isometry3d(m * pose(x, y, z, r, Vector3d(1, 0, 1))); };
  return { { sh(-0.5, 0, 0), sh(0.5, 0, 0) },                     // through
           { sh(0.4, 0.1, -0.2, 0.4), sh(-0.1, 0.3, 0.1, -0.7) },  // beside, turning
           { sh(0.2, 0.1, 0), sh(1.9, 0.4, -0.3, 0.9) },           // before the start
           { sh(-2, 0.1, 0.2, -0.5), sh(-0.3, 0.1, 0) },           // beyond the end
           { sh(0.1, 0.1, 0), sh(0.1, 0.1, 0, 0.7) },              // no extent
           { sh(-0.02, 0.01, 0, 2.5), sh(0.05, 0.01, 0.01, 2.9) } };  // short, far turned
}
static void geometry(Ctx& c, const JG& g, const std::string& src, const std::string& tgt)
{
  bool known = false;
  auto ls = lists();
  size_t li = 0;
  for (int qk = 0; qk < 5; ++qk)
    for (auto& so : { Isometry3d(Isometry3d::Identity()), pose(0.05, -0.1, 0.2, 0.9, Vector3d(1, 2, -1)) })
    {
      auto L = around(g, src, tgt, so, cfg(g, qk));
      for (size_t l = 0; l < L.size(); ++l)
        for (size_t k = 0; k < (c.thorough ? ls.size() : 4); ++k)
        {
          c.beat();
          const auto& idx = k == 0 ? ls[0] : c.thorough ? ls[k] : ls[++li % ls.size()];
          Eigen::VectorXi ix(Eigen::Index(idx.size()));
          VectorXd co(Eigen::Index(idx.size()));
          for (size_t i = 0; i < idx.size(); ++i)
          {
            ix[Eigen::Index(i)] = idx[i];
            co[Eigen::Index(i)] = 1.5 - double(i);
          }
          for (size_t node = 0; node < 3; ++node)
          {
            std::vector<VectorXd> q{ cfg(g, (qk + 1) % 5), cfg(g, (qk + 2) % 5), cfg(g, (qk + 3) % 5) };
            q[node] = cfg(g, qk);
            Traj t(g, q);
            CartLineConstraint con(CartLineInfo(g, src, tgt, L[l].a, L[l].b, so, ix), t.v[node], co);
            con.linkWithVariables(t.vars);
            Spec s{ g, src, tgt, so, L[l].a, L[l].b };
            const std::string w = str("config ", qk, " line ", l, " components ", vec(ix), " node ", node);
            auto b = con.getBounds();
            bool shape = con.getRows() == int(idx.size()) && b.size() == idx.size() && vec(con.getCoefficients()) == vec(co);
            for (auto& x : b)
              shape &= x.getLower() == 0 && x.getUpper() == 0;
            c.checkf(shape, "rows", [&] { return w; });
            known |= !judge(c, s, con, t, node, idx, w);
            for (int m = 0; m < 3; ++m)
            {
              VectorXd x(3 * g->numJoints());
              for (size_t i = 0; i < 3; ++i)
                x.segment(Eigen::Index(i) * g->numJoints(), g->numJoints()) = cfg(g, int((size_t(qk + m) + i + 1) % 5));
              t.vars->setVariables(x);
              known |= !judge(c, s, con, t, node, idx, str(w, " moved ", m));
            }
            std::vector<Bounds> nb;
            for (size_t i = 0; i < idx.size(); ++i)
              nb.emplace_back(-0.1 - double(i), 0.3 + double(i));
            con.setBounds(nb);
            auto rb = con.getBounds();
            bool same = rb.size() == nb.size();
            for (size_t i = 0; same && i < nb.size(); ++i)
              same = rb[i].getLower() == nb[i].getLower() && rb[i].getUpper() == nb[i].getUpper();
            c.checkf(same, "bounds", [&] { return w; });
            c.traces();
          }
        }
    }
  if (known)
    c.fail("line-not-in-target-frame", str("the line of '", src, "' in frame '", tgt, "' is placed as if it were given in the root frame"));
}
static void histories(Ctx& c, int first)
{
  const int depth = c.thorough ? 4 : 3;
  struct T { JG g; std::string src; };
  const std::vector<T> ts = { { arm(), "tool" }, { both(), "part" }, { both(), "a3" } };
  const std::vector<int> idx[3] = { { 0, 1, 2, 3, 4, 5 }, { 1, 4 }, { 0, 2, 5 } };
  Dfs d(c);
  d.run([&] {
    std::vector<Traj> tr;
    std::vector<std::unique_ptr<CartLineConstraint>> k;
    std::vector<Spec> sp;
    for (size_t w = 0; w < 3; ++w)
    {
      auto& g = ts[w].g;
      tr.emplace_back(g, std::vector<VectorXd>{ cfg(g, 0), cfg(g, 1), cfg(g, 2) });
      const Line l = around(g, ts[w].src, "world", Isometry3d::Identity(), cfg(g, 3))[w];
      Eigen::VectorXi ix(Eigen::Index(idx[w].size()));
      for (size_t i = 0; i < idx[w].size(); ++i)
        ix[Eigen::Index(i)] = idx[w][i];
      k.push_back(std::make_unique<CartLineConstraint>(CartLineInfo(g, ts[w].src, "world", l.a, l.b, Isometry3d::Identity(), ix), tr.back().v[w], VectorXd::Ones(ix.size())));
      k.back()->linkWithVariables(tr.back().vars);
      sp.push_back({ g, ts[w].src, "world", Isometry3d::Identity(), l.a, l.b });
    }
    for (int i = 0; i < depth; ++i)
    {
      const int op = i == 0 ? first : d.choose(15);
      const size_t w = size_t(op % 3);
      if (op < 3)
        c.checkf(judge(c, sp[w], *k[w], tr[w], w, idx[w], d.pathText()), "value", [&] { return d.pathText(); });
      else if (op < 6)
        (void)k[w]->calcValues(cfg(ts[w].g, 4));
      else if (op < 9)
        (void)k[w]->getJacobian();
      else
      {
        auto& g = ts[w].g;
        VectorXd x(3 * g->numJoints());
        const int s = op < 12 ? 1 : 2;
        x << cfg(g, s), cfg(g, s + 1), cfg(g, s + 2);
        tr[w].vars->setVariables(x);
      }
    }
    for (size_t w = 0; w < 3; ++w)
      c.checkf(judge(c, sp[w], *k[w], tr[w], w, idx[w], d.pathText() + " end"), "value", [&] { return d.pathText(); });
    c.traces();
  });
}
static void refusals(Ctx& c)
{
  const Isometry3d A = pose(0, 0, 0), B = pose(1, 0, 0), R = pose(0, 0, 0, 0.5);
  for (auto& s : { "tool", "table", "nolink", "" })
    for (auto& t : { "world", "part", "nolink", "" })
      for (int e = 0; e < 3; ++e)
        for (int n = 0; n < 9; ++n)
          for (int nc = 0; nc < 9; ++nc)
          {
            Eigen::VectorXi ix(n);
            for (int i = 0; i < n; ++i)
              ix[i] = i % 6;
            const bool good = arm()->hasLinkName(s) && arm()->hasLinkName(t) && e != 0 && n >= 1 && n <= 6;
            Traj tr(arm(), { cfg(arm(), 0), cfg(arm(), 0), cfg(arm(), 0) });
            const bool r1 = refuses([&] { CartLineInfo i(arm(), s, t, A, e == 0 ? A : e == 1 ? B : R, A, ix); });
            c.transitions();
            c.checkf(r1 == !good, "refusal", [&] { return str("source '", s, "' frame '", t, "' ends ", e, " components ", n, ": refused ", r1); });
            if (good)
            {
              CartLineInfo inf(arm(), s, t, A, e == 1 ? B : R, A, ix);
              const bool r2 = refuses([&] { CartLineConstraint k(inf, tr.v[0], VectorXd::Ones(nc)); });
              c.checkf(r2 == (nc != n), "refusal", [&] { return str(n, " components, ", nc, " weights: refused ", r2); });
            }
          }
}
// ---- inverse kinematics ---------------------------------------------------------------------------------------------
struct IkRobot : RobotT<tesseract::kinematics::KinematicGroup>
{
  using RobotT::RobotT;
  mutable std::vector<VectorXd> answers;
  mutable std::vector<std::string> asked;
  tesseract::kinematics::IKSolutions calcInvKin(const tesseract::kinematics::KinGroupIKInputs& in, const Eigen::Ref<const VectorXd>& seed) const override
  {
    std::string a = str(in.size());
    for (auto& i : in)
      a += str(" ", i.working_frame, " ", i.tip_link_name, " ", vec(VectorXd(Eigen::Map<const VectorXd>(i.pose.matrix().data(), 16))));
    asked.push_back(a + " seed " + vec(VectorXd(seed)));
    auto v = answers;
    if (in.size() == 1 && in[0].pose.translation().x() > 0.15)  // second goal: other solutions
      for (auto& s : v)
        s = s.reverse().eval() + VectorXd::Constant(s.size(), 0.1);
    return v;
  }
};
static void inverse(Ctx& c, int nsol)
{
  auto g = std::make_shared<IkRobot>(std::vector<std::string>{ "j1", "j2", "j3", "j4" });
  auto kg = std::shared_ptr<const tesseract::kinematics::KinematicGroup>(g);
  c.check(refuses([&] { InverseKinematicsInfo i(kg, "world", "nolink"); }), "refusal", "unknown tool link accepted");
  const std::vector<VectorXd> pal = { cfg(arm(), 0), cfg(arm(), 1), cfg(arm(), 2), -cfg(arm(), 1), cfg(arm(), 3) };
  const Isometry3d goals[2] = { pose(0.1, 0.2, 0.3, 0.4), pose(0.2, 0, 0.1, -1, Vector3d(1, 1, 0)) };
  Dfs d(c);
  d.run([&] {
    g->answers.clear();
    for (int i = 0; i < nsol; ++i)
      g->answers.push_back(pal[size_t(d.choose(5))]);
    const size_t cv = size_t(d.choose(2)), sv = cv + 1;
    Traj t(arm(), { cfg(arm(), 1), cfg(arm(), 2), cfg(arm(), 4) });
    auto inf = std::make_shared<const InverseKinematicsInfo>(kg, "table", "tool");
    InverseKinematicsConstraint k(goals[0], inf, t.v[cv], t.v[sv]);
    k.linkWithVariables(t.vars);
    int goal = 0;
    auto ok = [&] {
      g->asked.clear();
      const VectorXd v = k.getValues(), x = t.v[cv]->value();
      const std::string want = str("1 table tool ", vec(VectorXd(Eigen::Map<const VectorXd>(goals[goal].matrix().data(), 16))), " seed ", vec(t.v[sv]->value()));
      c.transitions();
      c.checkf(g->asked.size() == 1 && g->asked[0] == want, "question", [&] { return str(d.pathText(), ": asked ", g->asked.size(), " times; ", g->asked.empty() ? "" : g->asked[0], "\nexpected ", want); });
      auto sols = g->calcInvKin({ { goals[goal], "table", "tool" } }, x);
      double best = 1e300;
      for (auto& s : sols)
        best = std::min(best, (s - x).norm());
      bool one = v.size() == x.size() && near(v.norm(), best, 1e-9), is = false;
      for (auto& s : sols)
        is |= v.size() == x.size() && (s - x - v).norm() < 1e-9;
      c.checkf(one && is, "value", [&] { return str(d.pathText(), ": ", vec(v), " is not the offset of the nearest solution (", best, ")"); });
      MatrixXd ex = MatrixXd::Zero(4, 12);
      for (int i = 0; i < 4; ++i)
        ex(i, Eigen::Index(cv) * 4 + i) = -1;
      c.checkf(MatrixXd(k.getJacobian().toDense()) == ex, "jacobian", [&] { return d.pathText(); });
      c.checkf(k.getRows() == 4 && k.getCoefficients() == VectorXd::Ones(4), "rows", [&] { return d.pathText(); });
      Hash h;
      for (Eigen::Index i = 0; i < v.size(); ++i)
        h.d(v[i]);
      c.state(h.u(cv).h);
      c.outcome(Hash().d(best).h);
    };
    ok();
    for (int i = 0; i < 3; ++i)
    {
      const int op = d.choose(4);
      if (op == 0)
      {
        VectorXd x(12);
        x << cfg(arm(), 3), cfg(arm(), 0), cfg(arm(), 2);
        t.vars->setVariables(x);
      }
      else if (op == 1)
      {
        VectorXd x = t.vars->getValues();
        x.segment(Eigen::Index(sv) * 4, 4) += VectorXd::Constant(4, 0.05);
        t.vars->setVariables(x);
      }
      else if (op == 2)
        k.setTargetPose(goals[goal = 1 - goal]);
      else
      {
        std::vector<Bounds> b;
        for (int r = 0; r < 4; ++r)
          b.emplace_back(-0.1 * r, 0.2 * r);
        k.setBounds(b);
        auto rb = k.getBounds();
        bool same = rb.size() == 4;
        for (size_t r = 0; same && r < 4; ++r)
          same = rb[r].getLower() == b[r].getLower() && rb[r].getUpper() == b[r].getUpper();
        c.checkf(same, "bounds", [&] { return d.pathText(); });
      }
      ok();
    }
    c.traces();
  });
}
void mc::explore(Ctx& c)
{
  c.item([] { return std::string("what is refused"); }, [&] { refusals(c); });
  for (int n = 1; n <= 3; ++n)
    c.item([=] { return str("inverse kinematics with ", n, " solutions"); }, [&] { inverse(c, n); });
  for (int i = 0; i < 15; ++i)
    c.item([=] { return str("sequences starting with operation ", i); }, [&] { histories(c, i); });
  auto ls = lines();
  for (size_t i = 0; i < ls.size(); ++i)
    c.item([=] { return str("points around line ", i); }, [&] { points(c, ls[i], int(i)); });
  struct P { JG g; std::string s, t; };
  for (auto& p : std::vector<P>{ { arm(), "tool", "world" }, { arm(), "a3", "world" }, { turn(), "part", "world" }, { both(), "tool", "world" }, { both(), "part", "world" },
                                 { arm(), "tool", "table" }, { arm(), "tool", "part" }, { both(), "tool", "part" }, { both(), "part", "a2" } })
    c.item([&] { return str("line of ", p.s, " in ", p.t, " of ", p.g->numJoints()); }, [&] { geometry(c, p.g, p.s, p.t); });
}
