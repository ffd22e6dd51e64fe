// A small tree robot behind tesseract's JointGroup interface: forward kinematics and geometric Jacobian in closed form.
//   world - base(fixed, rotated) - a1(rev z) - a2(rev y) - a3(prism x) - a4(rev x) - tool(fixed, rotated)
//   world - t1(rev z, off to the side) - part(fixed);   world - table(fixed)
#pragma once
#include <tesseract_stub.h>
#include <mc/mc.hpp>
namespace rob
{
using Eigen::Isometry3d;
using Eigen::MatrixXd;
using Eigen::Vector3d;
using Eigen::VectorXd;
inline Isometry3d pose(double x, double y, double z, double angle = 0, Vector3d axis = Vector3d::UnitZ())
{
  Isometry3d t = Isometry3d::Identity();
  t.translation() = Vector3d(x, y, z);
  t.linear() = Eigen::AngleAxisd(angle, axis.normalized()).toRotationMatrix();
  return t;
}
struct Link
{
  std::string name, parent, joint;  // joint empty: fixed
  char type = 'f';                  // f fixed, r revolute, p prismatic
  Isometry3d origin;
  Vector3d axis;
};
inline const std::vector<Link>& tree()
{
  static const std::vector<Link> t = {
    { "base", "world", "", 'f', pose(0.1, -0.05, 0.2, 0.4), Vector3d::Zero() },
    { "a1", "base", "j1", 'r', pose(0, 0, 0.3), Vector3d::UnitZ() },
    { "a2", "a1", "j2", 'r', pose(0.2, 0, 0.1, 0.3, Vector3d::UnitX()), Vector3d::UnitY() },
    { "a3", "a2", "j3", 'p', pose(0.3, 0.05, 0), Vector3d::UnitX() },
    { "a4", "a3", "j4", 'r', pose(0.1, 0, 0.02, -0.5, Vector3d::UnitY()), Vector3d::UnitX() },
    { "tool", "a4", "", 'f', pose(0.05, 0.02, 0.1, 0.7, Vector3d(1, 1, 0)), Vector3d::Zero() },
    { "t1", "world", "k1", 'r', pose(0.6, 0.4, 0.1, 0.2, Vector3d::UnitX()), Vector3d::UnitZ() },
    { "part", "t1", "", 'f', pose(0.1, 0, 0.05, -0.3, Vector3d::UnitY()), Vector3d::Zero() },
    { "table", "world", "", 'f', pose(0.5, -0.3, 0.4, 1.1, Vector3d(0, 1, 1)), Vector3d::Zero() },
  };
  return t;
}
// pose of every link for named joint values
inline tesseract::common::TransformMap fk(const std::map<std::string, double>& q)
{
  tesseract::common::TransformMap t;
  t["world"] = Isometry3d::Identity();
  for (const Link& l : tree())
  {
    Isometry3d m = t.at(l.parent) * l.origin;
    if (l.type == 'r')
      m = m * Eigen::AngleAxisd(q.at(l.joint), l.axis);
    else if (l.type == 'p')
      m = m * Eigen::Translation3d(l.axis * q.at(l.joint));
    t[l.name] = m;
  }
  return t;
}
template <class Base>
struct RobotT : Base
{
  std::vector<std::string> joints;            // joints of the group, in its order
  std::map<std::string, double> rest;         // values of the others
  RobotT(std::vector<std::string> j, std::map<std::string, double> r = { { "j1", 0.1 }, { "j2", 0.2 }, { "j3", 0 }, { "j4", 0 }, { "k1", 0.3 } }) : joints(std::move(j)), rest(std::move(r)) {}
  RobotT(const RobotT& o) : Base(), joints(o.joints), rest(o.rest) {}
  std::shared_ptr<const tesseract::kinematics::JointGroup> share() const override { return std::make_shared<RobotT>(*this); }
  std::map<std::string, double> named(const Eigen::Ref<const VectorXd>& q) const
  {
    if (size_t(q.size()) != joints.size())
      throw std::logic_error("robot: wrong number of joint values");
    auto m = rest;
    for (size_t i = 0; i < joints.size(); ++i)
      m[joints[i]] = q[Eigen::Index(i)];
    return m;
  }
  static const Link* find(const std::string& n)
  {
    for (auto& l : tree())
      if (l.name == n)
        return &l;
    return nullptr;
  }
  MatrixXd calcJacobian(const Eigen::Ref<const VectorXd>& q, const std::string& link) const override
  {
    auto t = fk(named(q));
    MatrixXd J = MatrixXd::Zero(6, Eigen::Index(joints.size()));
    const Vector3d p = t.at(link).translation();
    for (const Link* l = find(link); l; l = find(l->parent))
    {
      auto it = std::find(joints.begin(), joints.end(), l->joint);
      if (l->type == 'f' || it == joints.end())
        continue;
      const Vector3d w = t.at(l->name).linear() * l->axis;
      const Eigen::Index c = it - joints.begin();
      if (l->type == 'r')
      {
        J.col(c).template head<3>() = w.cross(p - t.at(l->name).translation());
        J.col(c).template tail<3>() = w;
      }
      else
        J.col(c).template head<3>() = w;
    }
    return J;
  }
  bool isActiveLinkName(const std::string& n) const override
  {
    for (const Link* l = find(n); l; l = find(l->parent))
      if (l->type != 'f' && std::find(joints.begin(), joints.end(), l->joint) != joints.end())
        return true;
    return false;
  }
  Eigen::Index numJoints() const override { return Eigen::Index(joints.size()); }
  using Base::calcFwdKin;
  using Base::calcJacobian;
  void calcFwdKin(tesseract::common::TransformMap& t, const Eigen::Ref<const VectorXd>& q) const override
  {
    for (auto& p : fk(named(q)))
      t[p.first] = p.second;
  }
  std::vector<std::string> getJointNames() const override { return joints; }
  std::vector<std::string> getLinkNames() const override
  {
    std::vector<std::string> v{ "world" };
    for (auto& l : tree())
      v.push_back(l.name);
    return v;
  }
  std::vector<std::string> getActiveLinkNames() const override
  {
    std::vector<std::string> v;
    for (auto& n : getLinkNames())
      if (isActiveLinkName(n))
        v.push_back(n);
    return v;
  }
  std::vector<std::string> getStaticLinkNames() const override
  {
    std::vector<std::string> v;
    for (auto& n : getLinkNames())
      if (!isActiveLinkName(n))
        v.push_back(n);
    return v;
  }
  bool hasLinkName(const std::string& n) const override
  {
    auto v = getLinkNames();
    return std::find(v.begin(), v.end(), n) != v.end();
  }
  std::string getBaseLinkName() const override { return "world"; }
  tesseract::common::KinematicLimits getLimits() const override
  {
    tesseract::common::KinematicLimits l;
    l.joint_limits.resize(numJoints(), 2);
    for (Eigen::Index i = 0; i < numJoints(); ++i)
      l.joint_limits.row(i) << -2.0 - 0.25 * double(i), 1.5 + 0.5 * double(i);
    return l;
  }
};
using Robot = RobotT<tesseract::kinematics::JointGroup>;

// ---- pose error, written independently of the helpers behind tesseract's names --------------------------------------
inline Vector3d rotVec(const Eigen::Matrix3d& R)  // angle in [0, pi]
{
  const Vector3d s(R(2, 1) - R(1, 2), R(0, 2) - R(2, 0), R(1, 0) - R(0, 1));
  const double sn = 0.5 * s.norm(), cs = 0.5 * (R.trace() - 1), a = std::atan2(sn, cs);
  if (sn > 1e-6 && cs > -0.5)
    return s * (0.5 * a / sn);
  if (cs > 0)
    return s * 0.5;
  // towards a half turn: axis from the symmetric part
  Eigen::Matrix3d B = (0.5 * (R + R.transpose()) - cs * Eigen::Matrix3d::Identity()) / (1 - cs);
  int k = 0;
  for (int i = 1; i < 3; ++i)
    if (B(i, i) > B(k, k))
      k = i;
  Vector3d n = B.col(k).normalized();
  if (n.dot(s) < 0)
    n = -n;
  return n * a;
}
// pose of b as seen from a
inline VectorXd poseError(const Isometry3d& a, const Isometry3d& b)
{
  VectorXd e(6);
  const Eigen::Matrix3d Rt = a.linear().transpose();
  e.head<3>() = Rt * (b.translation() - a.translation());
  e.tail<3>() = rotVec(Rt * b.linear());
  return e;
}
// the representative of rotation vector r (same rotation) nearest to ref
inline Vector3d nearestTo(const Vector3d& r, const Vector3d& ref)
{
  if (r.norm() < 1e-12)
    return r;
  const Vector3d alt = r - r.normalized() * 2 * M_PI;
  return (alt - ref).norm() < (r - ref).norm() ? alt : r;
}
inline VectorXd banded(VectorXd e, const VectorXd& lo, const VectorXd& up)
{
  if (lo.size())
    for (Eigen::Index i = 0; i < e.size(); ++i)
      e[i] = std::max(0.0, e[i] - up[i]) + std::min(0.0, e[i] - lo[i]);
  return e;
}
}  // namespace rob
