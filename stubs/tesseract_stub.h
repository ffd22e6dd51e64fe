// Minimal stand-ins for the tesseract types named by the trajopt sources the harnesses compile.
// tesseract itself is not installed in this sandbox; only declarations (and the few one-line numeric helpers whose
// published behaviour is unambiguous) are provided here.  No trajopt code lives in this file.
#pragma once
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <cstddef>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <utility>
#include <vector>

namespace tesseract
{
namespace common
{
using LinkNamesPair = std::pair<std::string, std::string>;
using TrajArray = Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>;
using VectorVector3d = std::vector<Eigen::Vector3d>;
template <typename K, typename V>
using AlignedMap = std::map<K, V, std::less<K>, Eigen::aligned_allocator<std::pair<const K, V>>>;
using TransformMap = AlignedMap<std::string, Eigen::Isometry3d>;

inline bool almostEqualRelativeAndAbs(double a,
                                      double b,
                                      double max_diff = 1e-6,
                                      double max_rel_diff = std::numeric_limits<double>::epsilon())
{
  const double diff = std::fabs(a - b);
  if (diff <= max_diff)
    return true;
  const double largest = std::max(std::fabs(a), std::fabs(b));
  return (diff <= largest * max_rel_diff);
}
inline bool almostEqualRelativeAndAbs(const Eigen::Ref<const Eigen::VectorXd>& v1,
                                      const Eigen::Ref<const Eigen::VectorXd>& v2,
                                      double max_diff = 1e-6,
                                      double max_rel_diff = std::numeric_limits<double>::epsilon())
{
  if (v1.size() != v2.size())
    return false;
  for (Eigen::Index i = 0; i < v1.size(); ++i)
    if (!almostEqualRelativeAndAbs(v1[i], v2[i], max_diff, max_rel_diff))
      return false;
  return true;
}

inline void makeOrderedLinkPair(LinkNamesPair& pair, const std::string& a, const std::string& b)
{
  if (a <= b)
    pair = std::make_pair(a, b);
  else
    pair = std::make_pair(b, a);
}
inline LinkNamesPair makeOrderedLinkPair(const std::string& a, const std::string& b)
{
  LinkNamesPair p;
  makeOrderedLinkPair(p, a, b);
  return p;
}

template <typename MapT, typename V>
bool isIdenticalMap(
    const MapT& a,
    const MapT& b,
    const std::function<bool(const V&, const V&)>& eq = [](const V& x, const V& y) { return x == y; })
{
  if (a.size() != b.size())
    return false;
  for (const auto& kv : a)
  {
    auto it = b.find(kv.first);
    if (it == b.end() || !eq(kv.second, it->second))
      return false;
  }
  return true;
}

struct JointState
{
  JointState() = default;
  JointState(std::vector<std::string> n, Eigen::VectorXd p) : joint_names(std::move(n)), position(std::move(p)) {}
  std::vector<std::string> joint_names;
  Eigen::VectorXd position, velocity, acceleration, effort;
  double time{ 0 };
};
struct JointTrajectory
{
  std::vector<JointState> states;
  std::string description;
  void push_back(const JointState& s) { states.push_back(s); }
  std::size_t size() const { return states.size(); }
  void reserve(std::size_t n) { states.reserve(n); }
  JointState& operator[](std::size_t i) { return states[i]; }
  const JointState& operator[](std::size_t i) const { return states[i]; }
};

class CollisionMarginData
{
public:
  CollisionMarginData(double m = 0) : default_(m) {}
  double getCollisionMargin(const std::string& a, const std::string& b) const
  {
    auto it = pairs_.find(makeOrderedLinkPair(a, b));
    return it == pairs_.end() ? default_ : it->second;
  }
  void setCollisionMargin(const std::string& a, const std::string& b, double m)
  {
    pairs_[makeOrderedLinkPair(a, b)] = m;
  }
  const std::map<LinkNamesPair, double>& getCollisionMargins() const { return pairs_; }
  double getDefaultCollisionMargin() const { return default_; }
  void incrementMargins(double v)
  {
    default_ += v;
    for (auto& p : pairs_)
      p.second += v;
  }
  double getMaxCollisionMargin() const
  {
    double m = default_;
    for (const auto& p : pairs_)
      m = std::max(m, p.second);
    return m;
  }

private:
  double default_;
  std::map<LinkNamesPair, double> pairs_;
};

inline void jacobianChangeRefPoint(Eigen::Ref<Eigen::MatrixXd> jac, const Eigen::Ref<const Eigen::Vector3d>& p)
{
  for (int i = 0; i < jac.cols(); ++i)
  {
    const Eigen::Vector3d w = jac.block(3, i, 3, 1);
    jac.block(0, i, 3, 1) += w.cross(p);
  }
}
// Rotates every column of a Jacobian into another base frame.
inline void jacobianChangeBase(Eigen::Ref<Eigen::MatrixXd> jac, const Eigen::Isometry3d& tf)
{
  for (int i = 0; i < jac.cols(); ++i)
  {
    jac.col(i).head<3>() = (tf.linear() * jac.col(i).head<3>()).eval();
    jac.col(i).tail<3>() = (tf.linear() * jac.col(i).tail<3>()).eval();
  }
}
// axis times angle, angle in [-pi, pi]
inline Eigen::Vector3d calcRotationalError(const Eigen::Ref<const Eigen::Matrix3d>& R)
{
  const Eigen::AngleAxisd r{ Eigen::Quaterniond(R) };
  double a = r.angle();
  a = std::remainder(a, 2 * M_PI);
  return r.axis() * a;
}
// error of t2 expressed in t1: translation, then axis times angle
inline Eigen::VectorXd calcTransformError(const Eigen::Isometry3d& t1, const Eigen::Isometry3d& t2)
{
  const Eigen::Isometry3d d = t1.inverse() * t2;
  Eigen::VectorXd e(6);
  e.head<3>() = d.translation();
  e.tail<3>() = calcRotationalError(d.linear());
  return e;
}
// distance of every element from its tolerance band
inline void applyTolerances(Eigen::VectorXd& e, const Eigen::VectorXd& lower, const Eigen::VectorXd& upper)
{
  if (lower.size() == 0 && upper.size() == 0)
    return;
  for (Eigen::Index i = 0; i < e.size(); ++i)
    e[i] = e[i] < lower[i] ? e[i] - lower[i] : e[i] > upper[i] ? e[i] - upper[i] : 0;
}
// change of the error between a configuration and a nearby one (the rotation vectors point the same way across pi)
inline Eigen::VectorXd calcJacobianTransformErrorDiff(const Eigen::Isometry3d& target, const Eigen::Isometry3d& target_pert, const Eigen::Isometry3d& source,
                                                      const Eigen::Isometry3d& source_pert, const Eigen::VectorXd& lower = Eigen::VectorXd(), const Eigen::VectorXd& upper = Eigen::VectorXd())
{
  Eigen::VectorXd e0 = calcTransformError(target, source), e1 = calcTransformError(target_pert, source_pert);
  Eigen::Vector3d r0 = e0.tail<3>(), r1 = e1.tail<3>();
  if (r1.norm() > 1e-9)
  {
    const Eigen::Vector3d alt = r1 - r1.normalized() * 2 * M_PI;
    if ((alt - r0).norm() < (r1 - r0).norm())
      e1.tail<3>() = alt;
  }
  applyTolerances(e0, lower, upper);
  applyTolerances(e1, lower, upper);
  return e1 - e0;
}
inline Eigen::VectorXd calcJacobianTransformErrorDiff(const Eigen::Isometry3d& target, const Eigen::Isometry3d& source, const Eigen::Isometry3d& source_pert,
                                                      const Eigen::VectorXd& lower = Eigen::VectorXd(), const Eigen::VectorXd& upper = Eigen::VectorXd())
{
  return calcJacobianTransformErrorDiff(target, target, source, source_pert, lower, upper);
}
inline Eigen::VectorXd concat(const Eigen::VectorXd& a, const Eigen::VectorXd& b)
{
  Eigen::VectorXd v(a.size() + b.size());
  v << a, b;
  return v;
}
struct KinematicLimits
{
  Eigen::MatrixX2d joint_limits;
  Eigen::MatrixX2d velocity_limits, acceleration_limits, jerk_limits;
};
}  // namespace common

namespace collision
{
class DiscreteContactManager;
class ContinuousContactManager;
struct ContactResult;
}
namespace kinematics
{
class JointGroup;
class KinematicGroup;
}
namespace scene_graph
{
struct Material
{
  Material(std::string n = "") : name(std::move(n)) {}
  std::string name;
  Eigen::Vector4d color{ 0.5, 0.5, 0.5, 1 };
};
struct SceneState
{
  std::unordered_map<std::string, double> joints;
  common::TransformMap link_transforms, joint_transforms;
};
class StateSolver
{
public:
  using UPtr = std::unique_ptr<StateSolver>;
  virtual ~StateSolver() = default;
};
}
namespace visualization
{
class Marker
{
public:
  virtual ~Marker() = default;
  void setScale(const Eigen::Vector3d& s) { scale = s; }
  Eigen::Vector3d scale{ 1, 1, 1 };
  std::shared_ptr<scene_graph::Material> material;
};
class AxisMarker : public Marker
{
public:
  AxisMarker(const Eigen::Isometry3d& p) : axis(p) {}
  Eigen::Isometry3d axis;
};
class ArrowMarker : public Marker
{
public:
  ArrowMarker(const Eigen::Vector3d& a, const Eigen::Vector3d& b) : from(a), to(b) {}
  Eigen::Vector3d from, to;
};
class ContactResultsMarker : public Marker
{
public:
  template <class V>
  ContactResultsMarker(std::vector<std::string> l, const V&, std::function<double(const std::string&, const std::string&)> f) : links(std::move(l)), margin(std::move(f))
  {
  }
  std::vector<std::string> links;
  std::function<double(const std::string&, const std::string&)> margin;
};
class Visualization
{
public:
  using Ptr = std::shared_ptr<Visualization>;
  virtual ~Visualization() = default;
  virtual void plotMarker(const Marker&, std::string = "") {}
  virtual void plotTrajectory(const common::JointTrajectory&, const scene_graph::StateSolver&, std::string = "") {}
  virtual void clear(std::string = "") {}
  virtual void waitForInput(std::string = "") {}
};
}
namespace environment
{
// Interface used by the collision evaluators and by problem construction; a harness supplies the scene.
class Environment
{
public:
  using Ptr = std::shared_ptr<Environment>;
  using ConstPtr = std::shared_ptr<const Environment>;
  virtual ~Environment() = default;
  virtual std::unique_ptr<collision::DiscreteContactManager> getDiscreteContactManager() const = 0;
  virtual std::unique_ptr<collision::ContinuousContactManager> getContinuousContactManager() const = 0;
  virtual std::vector<std::string> getActiveLinkNames() const = 0;
  virtual void getLinkTransforms(common::TransformMap& transforms, const std::vector<std::string>& names, const Eigen::Ref<const Eigen::VectorXd>& q) const = 0;
  virtual std::shared_ptr<const kinematics::JointGroup> getJointGroup(const std::string&) const { throw std::logic_error("stub"); }
  virtual scene_graph::SceneState getState() const { throw std::logic_error("stub"); }
  virtual std::vector<std::string> getActiveJointNames() const { throw std::logic_error("stub"); }
  virtual scene_graph::StateSolver::UPtr getStateSolver() const { return std::make_unique<scene_graph::StateSolver>(); }
};
}

namespace collision
{
enum class ContinuousCollisionType
{
  CCType_None,
  CCType_Time0,
  CCType_Time1,
  CCType_Between
};
enum class CollisionEvaluatorType
{
  NONE,
  DISCRETE,
  LVS_DISCRETE,
  CONTINUOUS,
  LVS_CONTINUOUS
};
enum class CollisionCheckProgramType
{
  ALL
};
enum class ContactTestType
{
  FIRST = 0,
  CLOSEST = 1,
  ALL = 2,
  LIMITED = 3
};
enum class CollisionMarginPairOverrideType
{
  NONE,
  REPLACE,
  MODIFY
};
struct ContactRequest
{
  ContactRequest(ContactTestType t = ContactTestType::ALL) : type(t) {}
  ContactTestType type;
  bool operator==(const ContactRequest&) const { return true; }
};
struct ContactManagerConfig
{
  ContactManagerConfig() = default;
  ContactManagerConfig(double m) : margin(m) {}
  double margin{ 0 };
  common::CollisionMarginData pair_margin_data;
  CollisionMarginPairOverrideType pair_margin_override_type{ CollisionMarginPairOverrideType::NONE };
  void scaleMargins(double s) { margin *= s; }
  bool operator==(const ContactManagerConfig& o) const { return margin == o.margin; }
  bool operator!=(const ContactManagerConfig& o) const { return !(*this == o); }
};
struct CollisionCheckConfig
{
  CollisionCheckConfig() = default;
  CollisionCheckConfig(ContactRequest r,
                       CollisionEvaluatorType t = CollisionEvaluatorType::DISCRETE,
                       double l = 0.005,
                       CollisionCheckProgramType m = CollisionCheckProgramType::ALL)
    : contact_request(r), type(t), longest_valid_segment_length(l), check_program_mode(m)
  {
  }
  ContactRequest contact_request;
  CollisionEvaluatorType type{ CollisionEvaluatorType::DISCRETE };
  double longest_valid_segment_length{ 0.005 };
  CollisionCheckProgramType check_program_mode{ CollisionCheckProgramType::ALL };
  bool operator==(const CollisionCheckConfig& o) const
  {
    return type == o.type && longest_valid_segment_length == o.longest_valid_segment_length;
  }
  bool operator!=(const CollisionCheckConfig& o) const { return !(*this == o); }
};
struct ContactResult
{
  double distance{ std::numeric_limits<double>::max() };
  std::array<int, 2> type_id{ { 0, 0 } };
  std::array<std::string, 2> link_names;
  std::array<int, 2> shape_id{ { 0, 0 } };
  std::array<int, 2> subshape_id{ { -1, -1 } };
  std::array<Eigen::Vector3d, 2> nearest_points{ { Eigen::Vector3d::Zero(), Eigen::Vector3d::Zero() } };
  std::array<Eigen::Vector3d, 2> nearest_points_local{ { Eigen::Vector3d::Zero(), Eigen::Vector3d::Zero() } };
  std::array<Eigen::Isometry3d, 2> transform{ { Eigen::Isometry3d::Identity(), Eigen::Isometry3d::Identity() } };
  Eigen::Vector3d normal{ Eigen::Vector3d::Zero() };
  std::array<double, 2> cc_time{ { -1, -1 } };
  std::array<ContinuousCollisionType, 2> cc_type{ { ContinuousCollisionType::CCType_None,
                                                    ContinuousCollisionType::CCType_None } };
  std::array<Eigen::Isometry3d, 2> cc_transform{ { Eigen::Isometry3d::Identity(), Eigen::Isometry3d::Identity() } };
};
using ContactResultVector = std::vector<ContactResult>;
// Contact results per link pair. Clearing keeps the keys with empty vectors, as tesseract does.
class ContactResultMap
{
public:
  using KeyType = std::pair<std::string, std::string>;
  using MappedType = ContactResultVector;
  using ContainerType = std::map<KeyType, MappedType>;
  using PairType = ContainerType::value_type;
  using FilterFn = std::function<void(PairType&)>;
  std::size_t count() const
  {
    std::size_t n = 0;
    for (const auto& p : data_)
      n += p.second.size();
    return n;
  }
  std::size_t size() const
  {
    std::size_t n = 0;
    for (const auto& p : data_)
      n += p.second.empty() ? 0 : 1;
    return n;
  }
  bool empty() const { return count() == 0; }
  void clear()
  {
    for (auto& p : data_)
      p.second.clear();
  }
  void release() { data_.clear(); }
  ContactResult& addContactResult(const KeyType& key, ContactResult r)
  {
    auto& v = data_[key];
    v.push_back(std::move(r));
    return v.back();
  }
  void filter(const FilterFn& f)
  {
    for (auto& p : data_)
      f(p);
  }
  void addInterpolatedCollisionResults(ContactResultMap& sub,
                                       long index,
                                       long last,
                                       const std::vector<std::string>& active,
                                       double dt,
                                       bool discrete,
                                       const FilterFn& f = nullptr)
  {
    for (auto& p : sub.data_)
    {
      for (auto& r : p.second)
        for (std::size_t j = 0; j < 2; ++j)
          if (std::find(active.begin(), active.end(), r.link_names[j]) != active.end())
          {
            r.cc_time[j] = double(index) * dt + (r.cc_time[j] < 0 ? 0 : r.cc_time[j] * dt);
            if (index == 0 && (discrete || r.cc_type[j] == ContinuousCollisionType::CCType_Time0))
              r.cc_type[j] = ContinuousCollisionType::CCType_Time0;
            else if (index == last && (discrete || r.cc_type[j] == ContinuousCollisionType::CCType_Time1))
              r.cc_type[j] = ContinuousCollisionType::CCType_Time1;
            else
              r.cc_type[j] = ContinuousCollisionType::CCType_Between;
            if (discrete)
              r.cc_transform = r.transform;
          }
      if (f)
        f(p);
      if (!p.second.empty())
      {
        auto& v = data_[p.first];
        v.insert(v.end(), p.second.begin(), p.second.end());
      }
    }
  }
  void flattenWrapperResults(std::vector<std::reference_wrapper<ContactResult>>& v)
  {
    v.clear();
    for (auto& p : data_)
      v.insert(v.end(), p.second.begin(), p.second.end());
  }
  void flattenWrapperResults(std::vector<std::reference_wrapper<const ContactResult>>& v) const
  {
    v.clear();
    for (const auto& p : data_)
      v.insert(v.end(), p.second.begin(), p.second.end());
  }
  ContainerType::const_iterator begin() const { return data_.begin(); }
  ContainerType::const_iterator end() const { return data_.end(); }

private:
  ContainerType data_;
};
class ContactManager
{
public:
  virtual ~ContactManager() = default;
  virtual void setActiveCollisionObjects(const std::vector<std::string>& names) = 0;
  virtual void applyContactManagerConfig(const ContactManagerConfig& config) = 0;
  virtual const common::CollisionMarginData& getCollisionMarginData() const = 0;
  virtual void incrementCollisionMargin(double increment) = 0;
  virtual void setCollisionObjectsTransform(const std::string& name, const Eigen::Isometry3d& pose) = 0;
  virtual void setCollisionObjectsTransform(const common::TransformMap& m)
  {
    for (const auto& p : m)
      setCollisionObjectsTransform(p.first, p.second);
  }
  virtual void contactTest(ContactResultMap& results, const ContactRequest& request) = 0;
};
class DiscreteContactManager : public ContactManager
{
public:
  using UPtr = std::unique_ptr<DiscreteContactManager>;
};
class ContinuousContactManager : public ContactManager
{
public:
  using UPtr = std::unique_ptr<ContinuousContactManager>;
  using ContactManager::setCollisionObjectsTransform;
  virtual void setCollisionObjectsTransform(const std::string& name, const Eigen::Isometry3d& pose1, const Eigen::Isometry3d& pose2) = 0;
  virtual void setCollisionObjectsTransform(const common::TransformMap& a, const common::TransformMap& b)
  {
    for (const auto& p : a)
      setCollisionObjectsTransform(p.first, p.second, b.at(p.first));
  }
};
}  // namespace collision

namespace kinematics
{
// Interface used by the kinematic terms and the collision gradient code; a harness supplies the robot.
// tesseract's class is copied by value: a copy made through the base forwards to the shared copy of the original.
class JointGroup
{
public:
  using Ptr = std::shared_ptr<JointGroup>;
  using ConstPtr = std::shared_ptr<const JointGroup>;
  JointGroup() = default;
  JointGroup(const JointGroup& o) : impl_(o.impl_ ? o.impl_ : o.share()) {}
  virtual ~JointGroup() = default;
  virtual std::shared_ptr<const JointGroup> share() const { throw std::logic_error("stub: no copy"); }
  virtual Eigen::MatrixXd calcJacobian(const Eigen::Ref<const Eigen::VectorXd>& q, const std::string& link) const { return impl().calcJacobian(q, link); }
  virtual bool isActiveLinkName(const std::string& link) const { return impl().isActiveLinkName(link); }
  virtual Eigen::Index numJoints() const { return impl().numJoints(); }
  virtual void calcFwdKin(common::TransformMap& transforms, const Eigen::Ref<const Eigen::VectorXd>& q) const { impl().calcFwdKin(transforms, q); }
  virtual std::vector<std::string> getActiveLinkNames() const { return impl().getActiveLinkNames(); }
  virtual std::vector<std::string> getJointNames() const { return impl().getJointNames(); }
  virtual bool hasLinkName(const std::string& link) const { return impl().hasLinkName(link); }
  virtual std::string getBaseLinkName() const { return impl().getBaseLinkName(); }
  virtual std::vector<std::string> getLinkNames() const { return impl().getLinkNames(); }
  virtual std::vector<std::string> getStaticLinkNames() const { return impl().getStaticLinkNames(); }
  virtual common::KinematicLimits getLimits() const { return impl().getLimits(); }
  common::TransformMap calcFwdKin(const Eigen::Ref<const Eigen::VectorXd>& q) const
  {
    common::TransformMap t;
    calcFwdKin(t, q);
    return t;
  }
  // reference point given in the link's frame
  Eigen::MatrixXd calcJacobian(const Eigen::Ref<const Eigen::VectorXd>& q, const std::string& link, const Eigen::Vector3d& point) const
  {
    Eigen::MatrixXd j = calcJacobian(q, link);
    common::jacobianChangeRefPoint(j, calcFwdKin(q).at(link).linear() * point);
    return j;
  }
  // expressed in, and relative to, another link of the group
  Eigen::MatrixXd calcJacobian(const Eigen::Ref<const Eigen::VectorXd>& q, const std::string& base, const std::string& link) const
  {
    return calcJacobian(q, base, link, Eigen::Vector3d::Zero());
  }
  Eigen::MatrixXd calcJacobian(const Eigen::Ref<const Eigen::VectorXd>& q, const std::string& base, const std::string& link, const Eigen::Vector3d& point) const
  {
    auto t = calcFwdKin(q);
    Eigen::MatrixXd j = calcJacobian(q, link);
    common::jacobianChangeRefPoint(j, t.at(link).linear() * point);
    if (isActiveLinkName(base))
    {
      Eigen::MatrixXd jb = calcJacobian(q, base);
      common::jacobianChangeRefPoint(jb, t.at(link) * point - t.at(base).translation());
      j -= jb;
    }
    common::jacobianChangeBase(j, t.at(base).inverse());
    return j;
  }

private:
  std::shared_ptr<const JointGroup> impl_;
  const JointGroup& impl() const
  {
    if (!impl_)
      throw std::logic_error("stub: not provided by this harness");
    return *impl_;
  }
};
using IKSolutions = std::vector<Eigen::VectorXd>;
struct KinGroupIKInput
{
  KinGroupIKInput(const Eigen::Isometry3d& p, std::string w, std::string t) : pose(p), working_frame(std::move(w)), tip_link_name(std::move(t)) {}
  Eigen::Isometry3d pose;
  std::string working_frame, tip_link_name;
};
using KinGroupIKInputs = std::vector<KinGroupIKInput>;
class KinematicGroup : public JointGroup
{
public:
  virtual IKSolutions calcInvKin(const KinGroupIKInputs&, const Eigen::Ref<const Eigen::VectorXd>&) const { throw std::logic_error("no inverse kinematics"); }
};
inline void numericalJacobian(Eigen::Ref<Eigen::MatrixXd> jac, const Eigen::Isometry3d& change_base, const JointGroup& g, const Eigen::Ref<const Eigen::VectorXd>& q, const std::string& link,
                              const Eigen::Ref<const Eigen::Vector3d>& point)
{
  const double d = 1e-8;
  const Eigen::Isometry3d p = change_base * g.calcFwdKin(q).at(link);
  for (Eigen::Index i = 0; i < q.size(); ++i)
  {
    Eigen::VectorXd q1 = q;
    q1[i] += d;
    const Eigen::Isometry3d p1 = change_base * g.calcFwdKin(q1).at(link);
    jac.col(i).head<3>() = (p1 * point - p * point) / d;
    jac.col(i).tail<3>() = p.linear() * common::calcRotationalError(p.linear().transpose() * p1.linear()) / d;
  }
}
}  // namespace kinematics
}  // namespace tesseract

namespace std
{
template <>
struct hash<tesseract::common::LinkNamesPair>
{
  std::size_t operator()(const tesseract::common::LinkNamesPair& p) const noexcept
  {
    return std::hash<std::string>()(p.first + "|" + p.second);
  }
};
}  // namespace std
