// K01: pose targets. The SQP library's Cartesian position constraint and the legacy (static and dynamic) pose error and
// Jacobian calculators, on a tree robot, against the pose error written from scratch and its derivative.
#include <mc/mc.hpp>
#include <common/robot_terms.hpp>
#include <trajopt_ifopt/constraints/cartesian_position_constraint.h>
#include <trajopt/kinematic_terms.hpp>
using namespace mc;
using namespace trajopt_ifopt;
using namespace rob;
const CheckInfo mc::info = { "K01", "model_checking",
  "three groups of one tree robot (arm, positioner, both), every kind of source and target (either or both moving), offsets (none, shifted, rotated, target met exactly, target half a turn away), "
  "a grid of configurations; every subset of weighted components, every assignment of the four kinds of limits to the six components (quick: with all components weighted, and 6 assignments per subset; thorough: all) in both ways of "
  "handling ranges, variable in every node of a trajectory; legacy calculators: every subset of components, permuted and repeated components, six tolerance bands; "
  "every sequence of 3 (thorough 4) evaluations, moves and target changes on five terms that share the thread's cache of poses",
  { "the robot is a stand-in behind tesseract's interface; its pose-error helpers (calcTransformError, calcJacobianTransformErrorDiff, applyTolerances) are modelled on their published behaviour",
    "the non-default analytic Jacobian of the SQP library (documented as buggy, own risk) is not judged", "equal non-zero lower and upper tolerances are not used" } };

struct Pair { JG g; std::string src, tgt; };
static std::vector<Pair> pairs()
{
  return { { arm(), "tool", "table" }, { arm(), "a3", "world" }, { arm(), "tool", "part" }, { arm(), "table", "tool" }, { arm(), "world", "a4" }, { turn(), "tool", "part" },
           { turn(), "part", "tool" }, { both(), "tool", "part" }, { both(), "part", "tool" }, { both(), "a2", "tool" }, { both(), "tool", "table" } };
}
// the error the term is about: the moving frame seen from the fixed one; source seen from target when both move
struct Spec
{
  JG g;
  std::string src, tgt;
  Isometry3d so, to;
  bool dynamic = false;  // always source seen from target
  VectorXd lo, up;
  bool swapped() const { return !dynamic && g->isActiveLinkName(tgt) && !g->isActiveLinkName(src); }
  VectorXd raw(const VectorXd& q) const
  {
    auto t = g->calcFwdKin(q);
    const Isometry3d s = t.at(src) * so, d = t.at(tgt) * to;
    return swapped() ? poseError(s, d) : poseError(d, s);
  }
  VectorXd val(const VectorXd& q) const { return banded(raw(q), lo, up); }
  // derivative, rotation vector continued from r0; undefined (kink of the band) entries are NaN
  MatrixXd jac(const VectorXd& q, const VectorXd& e0) const
  {
    const double h = 1e-6;
    MatrixXd J(6, q.size());
    for (Eigen::Index j = 0; j < q.size(); ++j)
    {
      VectorXd a = q, b = q;
      a[j] += h;
      b[j] -= h;
      VectorXd ea = raw(a), eb = raw(b);
      ea.tail<3>() = nearestTo(ea.tail<3>(), e0.tail<3>());
      eb.tail<3>() = nearestTo(eb.tail<3>(), e0.tail<3>());
      J.col(j) = (banded(ea, lo, up) - banded(eb, lo, up)) / (2 * h);
    }
    if (lo.size())
      for (int i = 0; i < 6; ++i)
        if (std::fabs(e0[i] - lo[i]) < 1e-3 || std::fabs(e0[i] - up[i]) < 1e-3)
          J.row(i).setConstant(NAN);
    return J;
  }
  // both representations of a half turn are the same rotation
  std::vector<VectorXd> raws(const VectorXd& q) const
  {
    VectorXd e = raw(q);
    std::vector<VectorXd> v{ e };
    if (e.tail<3>().norm() > M_PI - 1e-4)
    {
      VectorXd f = e;
      f.tail<3>() -= f.tail<3>().normalized() * 2 * M_PI;
      v.push_back(f);
    }
    return v;
  }
};
// values and Jacobian (dense, rows x dof) of the code against the specification, rows taken from idx
static void judge(Ctx& c, const Spec& s, const VectorXd& q, const std::vector<int>& idx, const VectorXd& val, const MatrixXd* jac, const std::string& where)
{
  std::string why;
  bool okv = false, okj = false;
  for (const VectorXd& e : s.raws(q))
  {
    const VectorXd b = banded(e, s.lo, s.up);
    bool v = val.size() == Eigen::Index(idx.size());
    for (size_t i = 0; v && i < idx.size(); ++i)
      v = near(val[Eigen::Index(i)], b[idx[i]], 1e-6);
    okv |= v;
    if (!v && why.empty())
      why = str("value ", vec(val), " expected (all components) ", vec(b));
    if (jac)
    {
      const MatrixXd J = s.jac(q, e);
      bool j = jac->rows() == Eigen::Index(idx.size()) && jac->cols() == q.size();
      for (size_t i = 0; j && i < idx.size(); ++i)
        for (Eigen::Index k = 0; j && k < q.size(); ++k)
          if (!std::isnan(J(idx[i], k)))
            j = near((*jac)(Eigen::Index(i), k), J(idx[i], k), 5e-4);
      okj |= j;
    }
  }
  c.transitions();
  c.checkf(okv, "value", [&] { return where + ": " + why; });
  if (jac)
    c.checkf(okj, "jacobian", [&] {
      std::ostringstream o;
      o << where << " at " << q.transpose() << "\n" << *jac << "\nexpected rows of\n" << s.jac(q, s.raw(q));
      return o.str();
    });
  Hash hs;
  for (Eigen::Index i = 0; i < val.size(); ++i)
    hs.d(val[i]);
  c.state(hs.h);
  c.outcome(Hash().d(okv ? std::round(val.size() ? val[0] * 1e3 : 0) : 0).u(idx.size()).h);
}
static std::vector<Isometry3d> sourceOffsets() { return { Isometry3d::Identity(), pose(0.05, -0.1, 0.2), pose(0, 0.1, 0, 1.9, Vector3d(1, 2, -1)) }; }
// target offsets: none, rotated, met exactly at q, half a turn away at q, and a hair beyond
static std::vector<Isometry3d> targetOffsets(const Pair& p, const Isometry3d& so, const VectorXd& q)
{
  auto t = p.g->calcFwdKin(q);
  const Isometry3d meet = t.at(p.tgt).inverse() * t.at(p.src) * so;
  return { Isometry3d::Identity(), pose(0.3, 0.1, -0.2, -2.4, Vector3d(0, 1, 2)), meet, meet * pose(0.1, 0, -0.05, M_PI, Vector3d(1, 2, 2)), meet * pose(0, 0, 0.1, M_PI + 1e-6, Vector3d(-1, 0, 1)) };
}
static const double kCoeff[6] = { 0.5, -1, 1.5, 2, 1e-3, -3 };
static Bounds boundOf(int kind, int i)
{
  const double inf = std::numeric_limits<double>::infinity();
  switch (kind)
  {
    case 0: return BoundZero;
    case 1: return Bounds(-0.1 - i, inf);
    case 2: return Bounds(-inf, 0.2 + i);
    default: return Bounds(-0.3 - i, 0.4 + i);
  }
}
struct Row { int comp; double coeff, lo, up; };
// rows a weighted component stands for
static std::vector<Row> rowsOf(const VectorXd& coeff, const std::vector<Bounds>& b, RangeBoundHandling h)
{
  std::vector<Row> r;
  const double inf = std::numeric_limits<double>::infinity();
  for (int i = 0; i < 6; ++i)
  {
    if (coeff[i] == 0)
      continue;
    const Bounds& x = b[size_t(i)];
    if (h == RangeBoundHandling::kSplitToTwoInequalities && std::isfinite(x.getLower()) && std::isfinite(x.getUpper()) && x.getUpper() - x.getLower() > 1e-8)
    {
      r.push_back({ i, coeff[i], x.getLower(), inf });
      r.push_back({ i, coeff[i], -inf, x.getUpper() });
    }
    else
      r.push_back({ i, coeff[i], x.getLower(), x.getUpper() });
  }
  return r;
}
static void judgeConstraint(Ctx& c, CartPosConstraint& k, const Traj& t, size_t node, const Spec& s, const std::vector<Row>& rows, const std::string& where, bool jac = true)
{
  std::vector<int> idx;
  for (auto& r : rows)
    idx.push_back(r.comp);
  const VectorXd q = t.v[node]->value();
  auto b = k.getBounds();
  const VectorXd co = k.getCoefficients();
  bool shape = k.getRows() == int(rows.size()) && b.size() == rows.size() && size_t(co.size()) == rows.size();
  for (size_t i = 0; shape && i < rows.size(); ++i)
    shape = b[i].getLower() == rows[i].lo && b[i].getUpper() == rows[i].up && co[Eigen::Index(i)] == rows[i].coeff;
  c.checkf(shape, "rows", [&] { return str(where, ": ", k.getRows(), " rows, expected ", rows.size(), " or their limits or weights differ"); });
  if (!jac)
  {
    judge(c, s, q, idx, k.getValues(), nullptr, where);
    return;
  }
  const MatrixXd J = k.getJacobian().toDense();
  const Eigen::Index n = q.size(), off = Eigen::Index(node) * n;
  bool placed = J.cols() == 3 * n;
  for (Eigen::Index i = 0; placed && i < J.rows(); ++i)
    for (Eigen::Index j = 0; placed && j < J.cols(); ++j)
      placed = J(i, j) == 0 || (j >= off && j < off + n);
  c.checkf(placed, "columns", [&] { return where + ": Jacobian has entries outside its variable's columns"; });
  const MatrixXd mine = placed ? MatrixXd(J.middleCols(off, n)) : MatrixXd();
  judge(c, s, q, idx, k.getValues(), placed ? &mine : nullptr, where);
  // evaluation at given joint values does not depend on the variable
  const VectorXd v2 = k.calcValues(q);
  judge(c, s, q, idx, v2, nullptr, where + " (given values)");
}

static void structure(Ctx& c, int mask, bool full)
{
  Pair p{ both(), "tool", "table" };
  std::vector<VectorXd> q{ cfg(p.g, 0), cfg(p.g, 2), cfg(p.g, 1) };
  Traj t(p.g, q);
  const Isometry3d so = pose(0.05, 0, 0.1), to = pose(0.1, 0, 0, 0.3);
  Spec s{ p.g, p.src, p.tgt, so, to };
  VectorXd coeff(6);
  for (int i = 0; i < 6; ++i)
    coeff[i] = mask >> i & 1 ? kCoeff[i] : 0;
  for (int a = 0; a < 4096; ++a)
  {
    if (!full && mask != 63 && !(a == 0 || a == 4095 || a == 0x6c6 || a == 0x939 || a == 0x1b1 || a == 0xd2d))
      continue;
    if (a % 256 == 0)
      c.beat();
    std::vector<Bounds> b;
    for (int i = 0; i < 6; ++i)
      b.push_back(boundOf(a >> (2 * i) & 3, i));
    for (auto h : { RangeBoundHandling::kSplitToTwoInequalities, RangeBoundHandling::kKeepAsIs })
    {
      CartPosConstraint k(t.v[1], coeff, b, p.g, p.src, p.tgt, so, to, "pose", h);
      k.linkWithVariables(t.vars);
      judgeConstraint(c, k, t, 1, s, rowsOf(coeff, b, h), str("weights ", mask, " limits ", a), a % 64 == 0 || !full);
      c.traces();
    }
  }
}
static void geometry(Ctx& c, const Pair& p)
{
  const bool ok = p.g->isActiveLinkName(p.src) || p.g->isActiveLinkName(p.tgt);
  for (int qk = 0; qk < 5; ++qk)
    for (auto& so : sourceOffsets())
    {
      const VectorXd q0 = cfg(p.g, qk);
      auto tos = targetOffsets(p, so, q0);
      for (size_t ti = 0; ti < tos.size(); ++ti)
      {
        c.beat();
        Spec s{ p.g, p.src, p.tgt, so, tos[ti] };
        for (size_t node = 0; node < 3; ++node)
        {
          std::vector<VectorXd> q{ cfg(p.g, (qk + 1) % 5), cfg(p.g, (qk + 2) % 5), cfg(p.g, (qk + 3) % 5) };
          q[node] = q0;
          Traj t(p.g, q);
          CartPosConstraint k(t.v[node], p.g, p.src, p.tgt, so, tos[ti]);
          k.linkWithVariables(t.vars);
          judgeConstraint(c, k, t, node, s, rowsOf(VectorXd::Ones(6), std::vector<Bounds>(6, BoundZero), RangeBoundHandling::kKeepAsIs), str("config ", qk, " target ", ti, " node ", node));
          const Isometry3d cur = k.getCurrentPose(), ex = p.g->calcFwdKin(q0).at(p.src) * so;
          c.checkf(cur.isApprox(ex, 1e-9), "current-pose", [&] { return str("config ", qk); });
          c.checkf(k.getTargetPose().isApprox(tos[ti], 1e-12), "target-pose", [&] { return str("config ", qk); });
          // move every node, then the target
          VectorXd x(3 * q0.size());
          for (size_t i = 0; i < 3; ++i)
            x.segment(Eigen::Index(i) * q0.size(), q0.size()) = cfg(p.g, int((size_t(qk) + i + 2) % 5));
          t.vars->setVariables(x);
          judgeConstraint(c, k, t, node, s, rowsOf(VectorXd::Ones(6), std::vector<Bounds>(6, BoundZero), RangeBoundHandling::kKeepAsIs), str("config ", qk, " target ", ti, " node ", node, " moved"));
          Spec s2 = s;
          s2.to = tos[(ti + 1) % tos.size()];
          k.setTargetPose(s2.to);
          judgeConstraint(c, k, t, node, s2, rowsOf(VectorXd::Ones(6), std::vector<Bounds>(6, BoundZero), RangeBoundHandling::kKeepAsIs), str("config ", qk, " target ", ti, " node ", node, " new target"));
          c.traces();
        }
      }
    }
  (void)ok;
}
static std::vector<std::pair<VectorXd, VectorXd>> bands()
{
  VectorXd z(0), o = VectorXd::Zero(6), a(6), b(6), cl(6), cu(6), dl(6), du(6);
  a.setConstant(-0.15);
  b.setConstant(0.15);
  cl << -0.5, 0, -0.02, -1, 0, -4;
  cu << 0.1, 0, 0.7, 0.2, 0.05, 4;
  dl << 0.05, -1, 0.2, 0.1, -0.4, -0.1;
  du << 0.4, -0.3, 0.9, 0.6, -0.1, 0;
  return { { z, z }, { o, o }, { a, b }, { cl, cu }, { dl, du }, { -10 * VectorXd::Ones(6), 10 * VectorXd::Ones(6) } };
}
template <class Err, class Jac>
static void legacyOne(Ctx& c, const Spec& s, const std::vector<int>& idx, const VectorXd& q, const std::string& where)
{
  Eigen::VectorXi ix(Eigen::Index(idx.size()));
  for (size_t i = 0; i < idx.size(); ++i)
    ix[Eigen::Index(i)] = idx[i];
  Err e(s.g, s.src, s.tgt, s.so, s.to, ix, s.lo, s.up);
  Jac j(s.g, s.src, s.tgt, s.so, s.to, ix, s.lo, s.up);
  const MatrixXd J = j(q);
  judge(c, s, q, idx, e(q), &J, where);
  judge(c, s, q, idx, e(q), nullptr, where + " again");
  c.traces();
}
static void legacy(Ctx& c, const Pair& p)
{
  const bool sa = p.g->isActiveLinkName(p.src), ta = p.g->isActiveLinkName(p.tgt);
  std::vector<std::vector<int>> lists;
  for (int m = 1; m < 64; ++m)
  {
    std::vector<int> l;
    for (int i = 0; i < 6; ++i)
      if (m >> i & 1)
        l.push_back(i);
    lists.push_back(l);
  }
  lists.push_back({ 5, 3, 1 });
  lists.push_back({ 2, 2, 4, 4 });
  lists.push_back({ 5, 4, 3, 2, 1, 0 });
  for (int qk = 0; qk < 5; ++qk)
    for (auto& so : sourceOffsets())
    {
      const VectorXd q = cfg(p.g, qk);
      auto tos = targetOffsets(p, so, q);
      for (size_t ti = 0; ti < tos.size(); ++ti)
      {
        c.beat();
        auto bs = bands();
        for (size_t bi = 0; bi < bs.size(); ++bi)
          for (size_t li = 0; li < lists.size(); ++li)
          {
            if (!c.thorough && li != 62 && (li + bi + ti + size_t(qk)) % 12)
              continue;
            Spec s{ p.g, p.src, p.tgt, so, tos[ti], false, bs[bi].first, bs[bi].second };
            const std::string w = str("config ", qk, " target ", ti, " band ", bi, " components ", li);
            if (sa != ta)
              legacyOne<trajopt::CartPoseErrCalculator, trajopt::CartPoseJacCalculator>(c, s, lists[li], q, w);
            s.dynamic = true;
            legacyOne<trajopt::DynamicCartPoseErrCalculator, trajopt::DynamicCartPoseJacCalculator>(c, s, lists[li], q, "dynamic " + w);
          }
      }
    }
}
// ---- sequences on terms that share the thread's cache ----------------------------------------------------------------
static void histories(Ctx& c, int first)
{
  const int depth = c.thorough ? 4 : 3;
  struct T { Pair p; Isometry3d so; };
  const std::vector<T> ts = { { { arm(), "tool", "part" }, pose(0.1, 0, 0) }, { { both(), "part", "tool" }, pose(0, 0.1, 0, 0.5) }, { { turn(), "tool", "part" }, pose(0, 0, 0.1, 1) } };
  const Isometry3d target[2] = { pose(0.2, 0, 0.1, 0.4), pose(-0.1, 0.1, 0, -1.2, Vector3d::UnitX()) };
  Eigen::VectorXi ix(4);
  ix << 5, 0, 1, 3;
  const std::vector<int> lx{ 5, 0, 1, 3 };
  VectorXd lo = VectorXd::Constant(6, -0.05), up = VectorXd::Constant(6, 0.02);
  const int NOP = 3 * 3 + 3 * 2 + 3 * 2 + 4;  // value/jacobian/pose of three, targets, moves, legacy
  Dfs d(c);
  d.run([&] {
    std::vector<Traj> tr;
    std::vector<std::unique_ptr<CartPosConstraint>> k;
    std::vector<Spec> sp;
    for (auto& t : ts)
    {
      tr.emplace_back(t.p.g, std::vector<VectorXd>{ cfg(t.p.g, 0), cfg(t.p.g, 1), cfg(t.p.g, 2) });
      k.push_back(std::make_unique<CartPosConstraint>(tr.back().v[1], t.p.g, t.p.src, t.p.tgt, t.so, target[0]));
      k.back()->linkWithVariables(tr.back().vars);
      sp.push_back({ t.p.g, t.p.src, t.p.tgt, t.so, target[0] });
    }
    trajopt::CartPoseErrCalculator le(arm(), "table", "tool", ts[0].so, target[1], ix, lo, up);
    trajopt::CartPoseJacCalculator lj(arm(), "table", "tool", ts[0].so, target[1], ix, lo, up);
    trajopt::DynamicCartPoseErrCalculator de(both(), "tool", "part", ts[1].so, target[1], ix);
    trajopt::DynamicCartPoseJacCalculator dj(both(), "tool", "part", ts[1].so, target[1], ix);
    Spec ls{ arm(), "table", "tool", ts[0].so, target[1], false, lo, up }, ds{ both(), "tool", "part", ts[1].so, target[1], true };
    const std::vector<int> all{ 0, 1, 2, 3, 4, 5 };
    for (int i = 0; i < depth; ++i)
    {
      const int op = i == 0 ? first : d.choose(NOP);
      if (op < 9)
      {
        const size_t w = size_t(op / 3);
        const VectorXd q = tr[w].v[1]->value();
        if (op % 3 == 0)
          judge(c, sp[w], q, all, k[w]->getValues(), nullptr, d.pathText());
        else if (op % 3 == 1)
        {
          const MatrixXd J = k[w]->getJacobian().toDense().middleCols(q.size(), q.size());
          judge(c, sp[w], q, all, k[w]->calcValues(q), &J, d.pathText());
        }
        else
          c.checkf(k[w]->getCurrentPose().isApprox(sp[w].g->calcFwdKin(q).at(sp[w].src) * sp[w].so, 1e-9), "current-pose", [&] { return d.pathText(); });
      }
      else if (op < 15)
      {
        const size_t w = size_t((op - 9) / 2);
        sp[w].to = target[(op - 9) % 2];
        k[w]->setTargetPose(sp[w].to);
      }
      else if (op < 21)
      {
        const size_t w = size_t((op - 15) / 2);
        auto& g = ts[w].p.g;
        VectorXd x(3 * g->numJoints());
        x << cfg(g, 4), cfg(g, 2 + (op - 15) % 2), cfg(g, 1);
        tr[w].vars->setVariables(x);
      }
      else
      {
        const VectorXd qa = cfg(arm(), 1 + i % 3), qb = cfg(both(), 1 + i % 3);
        if (op == 21)
          judge(c, ls, qa, lx, le(qa), nullptr, d.pathText());
        else if (op == 22)
        {
          const MatrixXd J = lj(qa);
          judge(c, ls, qa, lx, le(qa), &J, d.pathText());
        }
        else if (op == 23)
          judge(c, ds, qb, lx, de(qb), nullptr, d.pathText());
        else
        {
          const MatrixXd J = dj(qb);
          judge(c, ds, qb, lx, de(qb), &J, d.pathText());
        }
      }
    }
    Hash h;
    for (size_t w = 0; w < 3; ++w)
    {
      const VectorXd q = tr[w].v[1]->value();
      judge(c, sp[w], q, all, k[w]->getValues(), nullptr, d.pathText() + " end");
      for (Eigen::Index j = 0; j < q.size(); ++j)
        h.d(q[j]);
      h.d(sp[w].to.translation().x());
    }
    c.state(h);
    c.traces();
  });
}
static void refusals(Ctx& c)
{
  auto g = arm();
  Traj t(g, { cfg(g, 0), cfg(g, 1), cfg(g, 2) });
  const Isometry3d I = Isometry3d::Identity();
  auto mk = [&](const std::string& s, const std::string& d, int nb, int nc) {
    return refuses([&] { CartPosConstraint k(t.v[0], VectorXd::Ones(nc), std::vector<Bounds>(size_t(nb), BoundZero), g, s, d, I, I); });
  };
  for (auto& s : { "tool", "table", "nolink", "" })
    for (auto& d : { "a2", "world", "nolink", "" })
      for (int nb = 4; nb < 9; ++nb)
        for (int nc = 4; nc < 9; ++nc)
        {
          const bool known = g->hasLinkName(s) && g->hasLinkName(d), moving = known && (g->isActiveLinkName(s) || g->isActiveLinkName(d));
          const bool r = mk(s, d, nb, nc);
          c.transitions();
          c.checkf(r == !(moving && nb == 6 && nc == 6), "refusal", [&] { return str("source '", s, "' target '", d, "' ", nb, " limits ", nc, " weights: refused ", r); });
        }
  Eigen::VectorXi ix(1);
  ix << 0;
  for (int nl = 0; nl < 8; nl += 1)
    for (int nu = 0; nu < 8; ++nu)
      for (int inv = -1; inv < std::min(nl, nu); ++inv)
      {
        if (nl != 0 && nl != 6 && nl == nu)
          continue;
        VectorXd lo = VectorXd::Constant(nl, -0.1), up = VectorXd::Constant(nu, 0.1);
        if (inv >= 0)
          std::swap(lo[inv], up[inv]);
        const bool bad = nl != nu || inv >= 0;
        auto ck = [&](auto tag, const char* n) {
          using T = typename decltype(tag)::type;
          const bool r = refuses([&] { T x(g, "tool", "table", I, I, ix, lo, up); });
          c.transitions();
          c.checkf(r == bad, "refusal", [&] { return str(n, " tolerances of sizes ", nl, ",", nu, " inverted at ", inv, ": refused ", r); });
        };
        ck(std::enable_if<true, trajopt::CartPoseErrCalculator>{}, "static error");
        ck(std::enable_if<true, trajopt::CartPoseJacCalculator>{}, "static Jacobian");
        ck(std::enable_if<true, trajopt::DynamicCartPoseErrCalculator>{}, "dynamic error");
        ck(std::enable_if<true, trajopt::DynamicCartPoseJacCalculator>{}, "dynamic Jacobian");
      }
}
void mc::explore(Ctx& c)
{
  c.item([] { return std::string("what is refused"); }, [&] { refusals(c); });
  for (int i = 0; i < 25; ++i)
    c.item([=] { return str("sequences starting with operation ", i); }, [&] { histories(c, i); });
  auto ps = pairs();
  for (auto& p : ps)
  {
    c.item([&] { return str("geometry ", p.src, " to ", p.tgt, " of ", p.g->numJoints()); }, [&] { geometry(c, p); });
    c.item([&] { return str("legacy ", p.src, " to ", p.tgt, " of ", p.g->numJoints()); }, [&] { legacy(c, p); });
  }
  for (int m = 0; m < 64; ++m)
    c.item([=] { return str("rows for weights ", m); }, [&] { structure(c, m, c.thorough || m == 63); });
}
