// A scripted contact checker: points on links of the tree robot, their distances known in closed form.
#pragma once
#include <common/problem.hpp>
namespace rob
{
namespace tc = tesseract::collision;
namespace tcm = tesseract::common;
using CC = tc::ContinuousCollisionType;
struct Src { const char *a, *b; Vector3d pa, pb; double r; };
inline const std::vector<Src> kSrc = {
  { "tool", "table", { 0.02, 0.01, 0.05 }, { 0, 0, 0.02 }, 0.45 }, { "tool", "table", { -0.03, 0.04, 0 }, { 0.1, 0, 0 }, 0.6 }, { "part", "tool", { 0, 0.05, 0 }, { 0, 0, 0.1 }, 0.5 },
  { "a2", "tool", { 0, 0.02, 0.03 }, { 0, 0, 0 }, 0.45 },          { "table", "a3", { 0, 0, 0 }, { 0.1, 0, 0.05 }, 0.3 },         { "part", "base", { 0.05, 0, 0 }, { 0, 0.1, 0.2 }, 0.4 },
};
inline unsigned gMask = 0;
inline int gRequest = -1;
inline std::string gGroup;
template <class Base>
struct Scripted : Base
{
  tcm::CollisionMarginData m;
  std::vector<std::string> act;
  std::map<std::string, std::pair<Isometry3d, Isometry3d>> at;
  Scripted()
  {
    auto k = group(gGroup);
    for (auto& p : k->calcFwdKin(VectorXd::Zero(k->numJoints()))) at[p.first] = { p.second, p.second };
  }
  void setActiveCollisionObjects(const std::vector<std::string>& n) override { act = n; }
  void applyContactManagerConfig(const tc::ContactManagerConfig& c) override
  {
    m = tcm::CollisionMarginData(c.margin);
    if (c.pair_margin_override_type != tc::CollisionMarginPairOverrideType::NONE)
      for (auto& p : c.pair_margin_data.getCollisionMargins()) m.setCollisionMargin(p.first.first, p.first.second, p.second);
  }
  const tcm::CollisionMarginData& getCollisionMarginData() const override { return m; }
  void incrementCollisionMargin(double i) override { m.incrementMargins(i); }
  void setCollisionObjectsTransform(const std::string& n, const Isometry3d& p) override { at[n] = { p, p }; }
  void test(tc::ContactResultMap& out, bool cont)
  {
    for (size_t k = 0; k < kSrc.size(); ++k)
    {
      const Src& s = kSrc[k];
      const std::array<const char*, 2> names{ s.a, s.b };
      const std::array<Vector3d, 2> pts{ s.pa, s.pb };
      std::array<bool, 2> moving;
      for (size_t i = 0; i < 2; ++i) moving[i] = std::find(act.begin(), act.end(), names[i]) != act.end();
      if (!(gMask >> k & 1) || !(moving[0] || moving[1])) continue;
      auto &a = at.at(s.a), &b = at.at(s.b);
      const Vector3d r0 = b.first * s.pb - a.first * s.pa, r1 = b.second * s.pb - a.second * s.pa, dr = r1 - r0;
      const double t = cont && dr.norm() > 1e-12 ? std::min(1.0, std::max(0.0, -r0.dot(dr) / dr.squaredNorm())) : 0;
      const Vector3d rel = r0 + t * dr;
      tc::ContactResult r;
      r.distance = rel.norm() - s.r;
      if (!(r.distance < m.getCollisionMargin(s.a, s.b))) continue;
      r.link_names = { s.a, s.b };
      r.normal = rel.normalized();
      for (size_t i = 0; i < 2; ++i)
      {
        auto& p = i ? b : a;
        r.transform[i] = p.first, r.cc_transform[i] = p.second;
        r.nearest_points_local[i] = pts[i];
        r.nearest_points[i] = p.first * pts[i];
        if (cont && moving[i]) r.cc_time[i] = t, r.cc_type[i] = t == 0 ? CC::CCType_Time0 : t == 1 ? CC::CCType_Time1 : CC::CCType_Between;
      }
      out.addContactResult(tcm::makeOrderedLinkPair(s.a, s.b), r);
    }
  }
};
struct DM : Scripted<tc::DiscreteContactManager>
{
  void contactTest(tc::ContactResultMap& o, const tc::ContactRequest& q) override { gRequest = int(q.type), test(o, false); }
};
struct CM : Scripted<tc::ContinuousContactManager>
{
  using Scripted<tc::ContinuousContactManager>::setCollisionObjectsTransform;
  void setCollisionObjectsTransform(const std::string& n, const Isometry3d& p, const Isometry3d& q) override { at[n] = { p, q }; }
  void contactTest(tc::ContactResultMap& o, const tc::ContactRequest& q) override { gRequest = int(q.type), test(o, true); }
};
struct Scene
{
  WireOn w;
  Scene(const std::string& g, unsigned mask)
  {
    gGroup = g, gMask = mask;
    env()->discrete = [] { return std::make_unique<DM>(); };
    env()->continuous = [] { return std::make_unique<CM>(); };
  }
};
}  // namespace rob
