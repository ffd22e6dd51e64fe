// I07: collision constraints on the real evaluators against a scripted scene whose contacts are known in closed form.
#include <mc/mc.hpp>
#include <trajopt_common/collision_types.h>
#include <trajopt_ifopt/constraints/collision/continuous_collision_constraint.h>
#include <trajopt_ifopt/constraints/collision/continuous_collision_evaluators.h>
#include <trajopt_ifopt/constraints/collision/continuous_collision_numerical_constraint.h>
#include <trajopt_ifopt/constraints/collision/discrete_collision_constraint.h>
#include <trajopt_ifopt/constraints/collision/discrete_collision_evaluators.h>
#include <trajopt_ifopt/constraints/collision/discrete_collision_numerical_constraint.h>
#include <trajopt_ifopt/variable_sets/node.h>
#include <trajopt_ifopt/variable_sets/nodes_variables.h>
#include <trajopt_ifopt/variable_sets/var.h>
#include <tesseract_stub.h>
#include <algorithm>
#include <functional>
using namespace mc;
using namespace trajopt_ifopt;
using Eigen::MatrixXd;
using Eigen::VectorXd;
namespace tc = tesseract::collision;
namespace tcm = tesseract::common;
using CC = tc::ContinuousCollisionType;
const CheckInfo mc::info = { "I07", "model_checking",
  "every scene of up to 4 (thorough: all) of 7 scripted contact sources (static and moving partners on either side, several shapes and contact points per pair, weighted and zero-weighted pairs), "
  "every constraint kind (fixed number of rows, one row per contact, numerical; single step, swept, swept and sampled in segments; either end fixed; fixed sparsity or not; 1, 2 or 5 rows): "
  "every sequence of 2 (thorough 4; all sources together: 3, thorough 5) trajectories out of 6, also after 11 others that overflow the result cache, with a second constraint on the same evaluator; after every update compared with a never-used "
  "constraint and with the contacts in closed form",
  { "the robot, scene and contact checker are scripted stand-ins behind tesseract's interfaces", "where a contact falls between segment ends the swept check in several segments is compared with a "
    "never-used constraint only", "contacts whose distance equals the checking distance exactly are not placed" } };

// ---- the world: all motion along x; link l1 at q0, link l2 at q0 + q1 + q0 q1 / 2 -------------------------------------
static double posOf(const std::string& l, double q0, double q1) { return l == "l1" ? q0 : l == "l2" ? q0 + q1 + 0.5 * q0 * q1 : l == "a_box" ? 1.0 : -2.0; }
static Eigen::Vector2d gradOf(const std::string& l, double q0, double q1)
{
  if (l == "l1")
    return { 1, 0 };
  if (l == "l2")
    return { 1 + 0.5 * q1, 1 + 0.5 * q0 };
  return { 0, 0 };
}
static bool active(const std::string& l) { return l[0] == 'l'; }
struct Src { const char *a, *b; int sa, sb, subb; double oa, ob, r; };
static const std::vector<Src> kSrc = {
  { "a_box", "l1", 0, 0, -1, 0, 0, 0.3 },  { "a_box", "l1", 0, 0, -1, 0.05, -0.1, 0.2 },  { "a_box", "l1", 1, 0, -1, 0.41, 0, 0.5 },
  { "l2", "z_box", 0, 0, 2, 0, 0.1, 0.4 }, { "l1", "l2", 0, 0, -1, 0, 0, 0.25 },          { "l2", "z_box", 0, 5, -1, -0.3, 0, 0.3 },
  { "a_box", "l2", 0, 2, 1, 0, 0.2, 0.35 },
};
struct Scene
{
  unsigned mask;
  tcm::CollisionMarginData margins;
};
static tcm::CollisionMarginData marginData(double def)
{
  tcm::CollisionMarginData m(def);
  m.setCollisionMargin("z_box", "l2", def + 0.15);
  return m;
}
template <class Base>
struct ManagerBase : Base
{
  unsigned mask;
  tcm::CollisionMarginData m;
  std::vector<std::string> act;
  std::map<std::string, std::pair<double, double>> x;
  void setActiveCollisionObjects(const std::vector<std::string>& n) override { act = n; }
  void applyContactManagerConfig(const tc::ContactManagerConfig& c) override { m = marginData(c.margin); }
  const tcm::CollisionMarginData& getCollisionMarginData() const override { return m; }
  void incrementCollisionMargin(double i) override { m.incrementMargins(i); }
  void setCollisionObjectsTransform(const std::string& n, const Eigen::Isometry3d& p) override { x[n] = { p.translation().x(), p.translation().x() }; }
  std::pair<double, double> at(const std::string& l) const
  {
    if (!active(l))
      return { posOf(l, 0, 0), posOf(l, 0, 0) };
    return x.at(l);
  }
  void test(tc::ContactResultMap& out, bool cont)
  {
    for (size_t k = 0; k < kSrc.size(); ++k)
    {
      const Src& s = kSrc[k];
      if (!(mask >> k & 1))
        continue;
      auto a = at(s.a), b = at(s.b);
      // gap(t) = b - a with linear motion of the links
      double g0 = (b.first + s.ob) - (a.first + s.oa), g1 = (b.second + s.ob) - (a.second + s.oa);
      double t = 0;
      if (cont)
        t = (g0 < 0) != (g1 < 0) && g0 != g1 ? g0 / (g0 - g1) : std::fabs(g1) < std::fabs(g0) ? 1 : 0;
      double g = g0 + t * (g1 - g0), d = std::fabs(g) - s.r;
      if (cont && (g0 < 0) != (g1 < 0))
        d = -s.r;
      if (!(d < m.getCollisionMargin(s.a, s.b)))
        continue;
      tc::ContactResult r;
      r.distance = d;
      r.link_names = { s.a, s.b };
      r.shape_id = { s.sa, s.sb };
      r.subshape_id = { -1, s.subb };
      r.normal = Eigen::Vector3d((cont && (g0 < 0) != (g1 < 0) ? g0 >= 0 : g >= 0) ? 1 : -1, 0, 0);
      for (int i = 0; i < 2; ++i)
      {
        auto p = i ? b : a;
        r.transform[size_t(i)].translation().x() = p.first;
        r.cc_transform[size_t(i)].translation().x() = p.second;
        if (cont && active(r.link_names[size_t(i)]))
        {
          r.cc_time[size_t(i)] = t;
          r.cc_type[size_t(i)] = t == 0 ? CC::CCType_Time0 : t == 1 ? CC::CCType_Time1 : CC::CCType_Between;
        }
      }
      out.addContactResult(tcm::makeOrderedLinkPair(s.a, s.b), r);
    }
  }
};
struct DM : ManagerBase<tc::DiscreteContactManager>
{
  void contactTest(tc::ContactResultMap& o, const tc::ContactRequest&) override { test(o, false); }
};
struct CM : ManagerBase<tc::ContinuousContactManager>
{
  using ManagerBase<tc::ContinuousContactManager>::setCollisionObjectsTransform;
  void setCollisionObjectsTransform(const std::string& n, const Eigen::Isometry3d& p, const Eigen::Isometry3d& q) override { x[n] = { p.translation().x(), q.translation().x() }; }
  void contactTest(tc::ContactResultMap& o, const tc::ContactRequest&) override { test(o, true); }
};
struct Robot : tesseract::kinematics::JointGroup
{
  MatrixXd calcJacobian(const Eigen::Ref<const VectorXd>& q, const std::string& l) const override
  {
    MatrixXd J = MatrixXd::Zero(6, 2);
    J.row(0) = gradOf(l, q[0], q[1]).transpose();
    return J;
  }
  bool isActiveLinkName(const std::string& l) const override { return active(l); }
  Eigen::Index numJoints() const override { return 2; }
  void calcFwdKin(tcm::TransformMap& t, const Eigen::Ref<const VectorXd>& q) const override
  {
    for (auto l : { "l1", "l2" })
    {
      Eigen::Isometry3d p = Eigen::Isometry3d::Identity();
      p.translation().x() = posOf(l, q[0], q[1]);
      t[l] = p;
    }
  }
  std::vector<std::string> getActiveLinkNames() const override { return { "l1", "l2" }; }
  std::vector<std::string> getJointNames() const override { return { "j0", "j1" }; }
};
struct Env : tesseract::environment::Environment
{
  unsigned mask;
  Robot robot;
  template <class M> std::unique_ptr<M> mk() const
  {
    auto m = std::make_unique<M>();
    m->mask = mask;
    return m;
  }
  std::unique_ptr<tc::DiscreteContactManager> getDiscreteContactManager() const override { return mk<DM>(); }
  std::unique_ptr<tc::ContinuousContactManager> getContinuousContactManager() const override { return mk<CM>(); }
  std::vector<std::string> getActiveLinkNames() const override { return robot.getActiveLinkNames(); }
  void getLinkTransforms(tcm::TransformMap& t, const std::vector<std::string>&, const Eigen::Ref<const VectorXd>& q) const override { robot.calcFwdKin(t, q); }
};

// ---- constraint kinds --------------------------------------------------------------------------------------------------
enum Ev { SINGLE, CONT, LVSC, LVSD };
enum Shape { FIXED, PERCONTACT, NUMERIC };
struct Kind { Ev ev; Shape sh; int rows; bool sparse, fix0, fix1, dyn; };
static std::string show(const Kind& k)
{
  static const char* e[] = { "single step", "swept", "swept in segments", "sampled in segments" };
  static const char* s[] = { "fixed rows", "row per contact", "numerical" };
  return str(e[k.ev], ", ", s[k.sh], ", rows ", k.rows, k.sparse ? ", fixed sparsity" : "", k.fix0 ? ", start fixed" : "", k.fix1 ? ", end fixed" : "", k.dyn ? ", dynamic scene" : "");
}
static const double kMargin = 0.1, kBuffer = 0.07, kLvs = 0.6;
static trajopt_common::TrajOptCollisionConfig config(Ev ev, bool zero)
{
  trajopt_common::TrajOptCollisionConfig cfg(kMargin, 3, tc::ContactRequest(),
    ev == SINGLE ? tc::CollisionEvaluatorType::DISCRETE : ev == CONT ? tc::CollisionEvaluatorType::CONTINUOUS : ev == LVSC ? tc::CollisionEvaluatorType::LVS_CONTINUOUS :
                                                                                                                tc::CollisionEvaluatorType::LVS_DISCRETE, kLvs);
  cfg.collision_margin_buffer = kBuffer;
  cfg.collision_coeff_data.setCollisionCoeff("l1", "a_box", 20);
  if (zero)
    cfg.collision_coeff_data.setCollisionCoeff("z_box", "l2", 0);
  return cfg;
}
static double coeffOf(const Src& s, bool zero)
{
  std::string a = s.a, b = s.b;
  if (a == "a_box" && b == "l1")
    return 20;
  if (b == "z_box")
    return zero ? 0 : 3;
  return 3;
}
struct Eval
{
  std::shared_ptr<DiscreteCollisionEvaluator> d;
  std::shared_ptr<ContinuousCollisionEvaluator> c;
};
static Eval evaluator(const Kind& k, const std::shared_ptr<const Env>& env, bool zero)
{
  auto robot = std::make_shared<const Robot>();
  auto cfg = config(k.ev, zero);
  Eval e;
  switch (k.ev)
  {
    case SINGLE: e.d = std::make_shared<SingleTimestepCollisionEvaluator>(robot, env, cfg, k.dyn); break;
    case LVSD: e.c = std::make_shared<LVSDiscreteCollisionEvaluator>(robot, env, cfg, k.dyn); break;
    default: e.c = std::make_shared<LVSContinuousCollisionEvaluator>(robot, env, cfg, k.dyn); break;
  }
  return e;
}
static std::shared_ptr<ConstraintSet> constraint(const Kind& k, const Eval& e, const std::vector<std::shared_ptr<const Var>>& q, int node)
{
  auto n = size_t(node);
  if (k.ev == SINGLE)
  {
    if (k.sh == FIXED)
      return std::make_shared<DiscreteCollisionConstraint>(e.d, q[n], k.rows, k.sparse, "c");
    if (k.sh == NUMERIC)
      return std::make_shared<DiscreteCollisionNumericalConstraint>(e.d, q[n], k.rows, k.sparse, "c");
    return std::make_shared<DiscreteCollisionConstraintD>(e.d, q[n], "c");
  }
  std::array<std::shared_ptr<const Var>, 2> v{ q[n], q[n + 1] };
  if (k.sh == FIXED)
    return std::make_shared<ContinuousCollisionConstraint>(e.c, v, k.fix0, k.fix1, k.rows, k.sparse, "c");
  if (k.sh == NUMERIC)
    return std::make_shared<ContinuousCollisionNumericalConstraint>(e.c, v, k.fix0, k.fix1, k.rows, k.sparse, "c");
  return std::make_shared<ContinuousCollisionConstraintD>(e.c, v, k.fix0, k.fix1, "c");
}

// ---- closed form -------------------------------------------------------------------------------------------------------
struct Row { double v, w; VectorXd g; bool bind0 = true, bind1 = true; };
struct Contact { int src; double d, t, s; bool tie = false; };   // s: side (sign of the gap); tie: both ends equally close, no gradient
static double gap(const Src& s, const Eigen::Vector2d& q) { return posOf(s.b, q[0], q[1]) + s.ob - posOf(s.a, q[0], q[1]) - s.oa; }
static std::vector<Row> expected(const Kind& k, unsigned mask, bool zero, const VectorXd& x, int node)
{
  Eigen::Vector2d q0 = x.segment<2>(3 * node), q1 = q0;
  if (k.ev != SINGLE)
    q1 = x.segment<2>(3 * node + 3);
  std::vector<Contact> cs;
  auto margins = marginData(kMargin);
  for (size_t i = 0; i < kSrc.size(); ++i)
  {
    const Src& s = kSrc[i];
    if (!(mask >> i & 1) || coeffOf(s, zero) == 0)
      continue;
    double lim = margins.getCollisionMargin(s.a, s.b) + kBuffer;
    auto add = [&](double d, double t, double side, bool tie) {
      if (!(d < lim))
        return;
      if (k.ev != SINGLE && ((k.fix0 && t == 0) || (k.fix1 && t == 1)))
        return;
      cs.push_back({ int(i), d, t, side, tie });
    };
    if (k.ev == SINGLE)
      add(std::fabs(gap(s, q0)) - s.r, 0, gap(s, q0) >= 0 ? 1 : -1, false);
    else if (k.ev == CONT)
    {
      double g0 = gap(s, q0), g1 = gap(s, q1);
      bool cross = (g0 < 0) != (g1 < 0);
      double t = cross ? g0 / (g0 - g1) : std::fabs(g1) < std::fabs(g0) ? 1 : 0;
      add(cross ? -s.r : std::min(std::fabs(g0), std::fabs(g1)) - s.r, t, (cross ? g0 : t == 1 ? g1 : g0) >= 0 ? 1 : -1, std::fabs(std::fabs(g0) - std::fabs(g1)) < 1e-6);
    }
    else
    {
      int n = 1;
      if ((q1 - q0).norm() > kLvs)
        n = int(std::ceil((q1 - q0).norm() / kLvs));
      for (int j = 0; j <= n; ++j)
      {
        Eigen::Vector2d q = q0 + (q1 - q0) * (double(j) / n);
        add(std::fabs(gap(s, q)) - s.r, double(j) / n, gap(s, q) >= 0 ? 1 : -1, false);
      }
    }
  }
  const int N = int(x.size());
  // derivative of (margin - distance) of one contact, split into the two ends
  auto part = [&](const Contact& c, VectorXd& g0, VectorXd& g1, int link) {
    const Src& s = kSrc[size_t(c.src)];
    const char* l = link ? s.b : s.a;
    Eigen::Vector2d q = q0 + (q1 - q0) * c.t;
    Eigen::Vector2d g = -c.s * (link ? 1 : -1) * gradOf(l, q[0], q[1]);
    g0 = g1 = VectorXd::Zero(N);
    if (k.ev == SINGLE)
      g0.segment<2>(3 * node) = g;
    else
    {
      g0.segment<2>(3 * node) = (1 - c.t) * g;
      g1.segment<2>(3 * node + 3) = c.t * g;
    }
  };
  std::vector<Row> rows;
  if (k.sh == PERCONTACT)
  {
    for (auto& c : cs)
    {
      const Src& s = kSrc[size_t(c.src)];
      Row r{ margins.getCollisionMargin(s.a, s.b) - c.d, coeffOf(s, zero), VectorXd::Zero(N) };
      for (int i = 0; i < 2; ++i)
      {
        if (!active(i ? s.b : s.a))
          continue;
        VectorXd g0, g1;
        part(c, g0, g1, i);
        if (!k.fix0)
          r.g += g0;
        if (!k.fix1)
          r.g += g1;
      }
      rows.push_back(r);
    }
    return rows;
  }
  // one row per pair of shapes
  std::map<std::tuple<std::string, std::string, int, int, int>, std::vector<Contact>> groups;
  for (auto& c : cs)
  {
    const Src& s = kSrc[size_t(c.src)];
    groups[{ s.a, s.b, s.sa, s.sb, s.subb }].push_back(c);
  }
  for (auto& kv : groups)
  {
    const Src& s = kSrc[size_t(kv.second[0].src)];
    double m = margins.getCollisionMargin(s.a, s.b);
    Row r{ -1e9, coeffOf(s, zero), VectorXd::Zero(N) };
    VectorXd a0 = VectorXd::Zero(N), a1 = a0;
    double w0 = 0, w1 = 0, best = -1e9, second = -1e9;
    Contact worst{};
    for (auto& c : kv.second)
    {
      bool start = k.ev == SINGLE || c.t != 1, end = k.ev != SINGLE && c.t != 0;
      // the value counts contacts that touch a free end
      if ((k.ev == SINGLE) || (!k.fix0 && !k.fix1) || (k.fix1 && start) || (k.fix0 && end))
        r.v = std::max(r.v, m - c.d);
      if (m - c.d > best)
        second = best, best = m - c.d, worst = c;
      else
        second = std::max(second, m - c.d);
      double w = m + kBuffer - c.d;
      for (int i = 0; i < 2; ++i)
        if (active(i ? s.b : s.a))
        {
          VectorXd g0, g1;
          part(c, g0, g1, i);
          if (start)
            a0 += w * g0, w0 += w;
          if (end)
            a1 += w * g1, w1 += w;
        }
    }
    if (k.sh == NUMERIC)
    {
      // the row follows its worst contact
      for (int i = 0; i < 2; ++i)
        if (active(i ? s.b : s.a))
        {
          VectorXd g0, g1;
          part(worst, g0, g1, i);
          r.g += g0 + g1;
        }
      if (best - second < 1e-6 || worst.tie || (k.ev == CONT && worst.t != 0 && worst.t != 1))
        r.bind0 = false;
    }
    else
    {
      if (!k.fix0 && w0 > 0)
        r.g += a0 / w0;
      if (!k.fix1 && w1 > 0)
        r.g += a1 / w1;
    }
    rows.push_back(r);
  }
  return rows;
}

struct Snapshot
{
  int rows;
  VectorXd v, w;
  MatrixXd J;
  std::vector<Bounds> b;
};
static Snapshot take(Ctx& c, ConstraintSet& cs)
{
  Snapshot s;
  s.rows = cs.update();
  s.v = cs.getValues();
  s.w = cs.getCoefficients();
  s.b = cs.getBounds();
  Jacobian J = cs.getJacobian();
  s.J = MatrixXd(J);
  c.transitions();
  int R = cs.getRows();
  c.checkf(s.rows == R && s.v.size() == R && s.w.size() == R && int(s.b.size()) == R && s.J.rows() == R, "row-counts",
           [&] { return str("rows ", R, " update ", s.rows, " values ", s.v.size(), " weights ", s.w.size(), " bounds ", s.b.size(), " jacobian ", s.J.rows()); });
  return s;
}
static void judge(Ctx& c, const Kind& k, const Snapshot& s, std::vector<Row> want)
{
  std::vector<char> used(want.size(), 0);
  int n = int(want.size());
  if (k.sh == PERCONTACT)
    c.checkf(s.rows == n, "contacts", [&] { return str(s.rows, " rows for ", n, " contacts"); });
  else
  {
    c.checkf(s.rows == k.rows, "rows", [&] { return str(s.rows); });
    // with more groups than rows the rows hold the worst ones
    if (n > k.rows)
      n = k.rows;
  }
  std::vector<double> got, top;
  for (int r = 0; r < s.rows; ++r)
  {
    c.checkf(s.b[size_t(r)].getUpper() == 0 && s.b[size_t(r)].getLower() < -1e19, "bounds", [&] { return str("row ", r); });
    c.checkf(s.v[r] == s.v[r] && s.J.row(r).allFinite(), "not-a-number", [&] { return str("row ", r); });
    if (r >= n)
    {
      c.checkf(near(s.v[r], -kBuffer, 1e-12) && s.J.row(r).isZero(0), "unused-row", [&] { return str("unused row ", r, " has value ", s.v[r], " gradient ", vec(VectorXd(s.J.row(r).transpose()))); });
      c.checkf(s.w[r] > 0, "unused-weight", [&] { return str("unused row ", r, " has weight ", s.w[r]); });
      continue;
    }
    got.push_back(s.v[r]);
    size_t m = want.size();
    for (size_t i = 0; i < want.size() && m == want.size(); ++i)
      if (!used[i] && near(want[i].v, s.v[r], 1e-9) && want[i].w == s.w[r] &&
          (!want[i].bind0 || (s.J.row(r).transpose() - want[i].g).cwiseAbs().maxCoeff() < (k.sh == NUMERIC ? 1e-5 : 1e-9)))
        m = i;
    c.checkf(m < want.size(), "row", [&] {
      std::string o = str("row ", r, " value ", s.v[r], " weight ", s.w[r], " gradient ", vec(VectorXd(s.J.row(r).transpose())), " is none of");
      for (auto& w : want)
        o += str(" {", w.v, " ", w.w, " ", vec(w.g), "}");
      return o;
    });
    used[m] = 1;
  }
  for (auto& w : want)
    top.push_back(w.v);
  std::sort(top.rbegin(), top.rend());
  std::sort(got.rbegin(), got.rend());
  for (int i = 0; i < int(got.size()); ++i)
    c.checkf(near(got[size_t(i)], top[size_t(i)], 1e-9), "worst-contacts", [&] { return str("the rows hold errors ", vec(got), " out of ", vec(top)); });
}

static const std::vector<std::vector<double>> kTraj = {
  // q0 q1 extra, three nodes
  { -0.6, 0.1, 0, 3, 3, 0, 9, 9, 0 },            // first node clear, then clear
  { 0.62, 0.45, 0, 0.83, -0.55, 0, 1.51, -2.2, 0 },
  { -1.4, -0.9, 0, 1.9, 0.3, 0, 0.9, 0.05, 0 },  // crosses everything
  { 0.62, 0.45, 7, 0.83, -0.55, 0, 1.51, -2.2, 0 },  // differs from trajectory 1 in an unrelated variable only
  { 1.1, -1.9, 0, 1.1, -1.9, 0, 0.7, -1.6, 0 },
  { -1.95, -0.3, 1, -2.3, 0.02, 2, -0.25, 0.1, 3 },
};

void mc::explore(Ctx& c)
{
  std::vector<Kind> kinds;
  for (int dyn = 0; dyn < 2; ++dyn)
  {
    for (int rows : { 1, 2, 5 })
      for (int sp = 0; sp < 2; ++sp)
        kinds.push_back({ SINGLE, FIXED, rows, sp != 0, false, false, dyn != 0 });
    kinds.push_back({ SINGLE, PERCONTACT, 0, false, false, false, dyn != 0 });
    kinds.push_back({ SINGLE, NUMERIC, 5, false, false, false, dyn != 0 });
    kinds.push_back({ SINGLE, NUMERIC, 2, true, false, false, dyn != 0 });
    for (Ev ev : { CONT, LVSC, LVSD })
      for (int fx = 0; fx < 3; ++fx)
      {
        kinds.push_back({ ev, FIXED, 5, dyn != 0, fx == 1, fx == 2, dyn != 0 });
        kinds.push_back({ ev, FIXED, 1 + dyn, dyn == 0, fx == 1, fx == 2, dyn != 0 });
        kinds.push_back({ ev, PERCONTACT, 0, false, fx == 1, fx == 2, dyn != 0 });
        kinds.push_back({ ev, NUMERIC, 5, dyn != 0, fx == 1, fx == 2, dyn != 0 });
      }
  }
  const unsigned NM = 1u << kSrc.size();
  for (unsigned mask = 0; mask < NM; ++mask)
  {
    int bits = __builtin_popcount(mask);
    if (bits > 4 && !c.thorough && bits < int(kSrc.size()))
      continue;
    if (!c.thorough && bits > 0 && bits < int(kSrc.size()) && (mask * 2654435761u >> 27) % 3 != 0 && bits > 2)
      continue;
    for (size_t ki = 0; ki < kinds.size(); ++ki)
      for (int zero = 0; zero < 2; ++zero)
      {
        if (zero && !(mask & 0x28))
          continue;
        const Kind k = kinds[ki];
        c.item([=] { return str(show(k), ", contact sources ", mask, zero ? ", one pair with zero weight" : ""); }, [&] {
          auto env = std::make_shared<Env>();
          env->mask = mask;
          // reference: never-used constraints per trajectory and node, and the closed form
          struct Ref { Snapshot s[2]; };
          std::vector<Ref> ref;
          auto build = [&](const VectorXd& x0, std::vector<std::shared_ptr<const Var>>& q) {
            std::vector<std::unique_ptr<Node>> nodes;
            for (int n = 0; n < 3; ++n)
            {
              nodes.push_back(std::make_unique<Node>("n"));
              q.push_back(nodes.back()->addVar("q", { "a", "b" }, x0.segment<2>(3 * n), { NoBound, NoBound }));
              nodes.back()->addVar("t", x0[3 * n + 2], NoBound);
            }
            return std::make_shared<NodesVariables>("v", std::move(nodes));
          };
          std::vector<VectorXd> xs;
          for (auto& t : kTraj)
          {
            VectorXd x = Eigen::Map<const VectorXd>(t.data(), Eigen::Index(t.size()));
            xs.push_back(x);
            Ref r;
            for (int n = 0; n < 2; ++n)
            {
              std::vector<std::shared_ptr<const Var>> q;
              auto v = build(x, q);
              auto cs = constraint(k, evaluator(k, env, zero != 0), q, n);
              cs->linkWithVariables(v);
              r.s[n] = take(c, *cs);
              if (k.ev != LVSC)
                judge(c, k, r.s[n], expected(k, mask, zero != 0, x, n));
              c.outcome(Hash().raw(r.s[n].v.data(), 8 * size_t(r.s[n].v.size())).raw(r.s[n].J.data(), 8 * size_t(r.s[n].J.size())));
            }
            ref.push_back(r);
          }
          auto same = [&](const Snapshot& a, const Snapshot& b, int n) {
            c.checkf(a.rows == b.rows, "history-rows", [&] { return str(a.rows, " rows, a never-used constraint has ", b.rows); });
            c.checkf(a.v == b.v, "history-values", [&] { return str("node ", n, ": ", vec(a.v), ", a never-used constraint has ", vec(b.v)); });
            c.checkf(a.w == b.w, "history-weights", [&] { return str("node ", n, ": ", vec(a.w), ", a never-used constraint has ", vec(b.w)); });
            c.checkf(a.J == b.J, "history-jacobian", [&] { return str("node ", n, ": rows differ from those of a never-used constraint"); });
          };
          // one value changes and changes back; the joints are the last values of a node here
          {
            const bool cont = k.ev != SINGLE;
            auto layout = [&](const VectorXd& x0, std::vector<std::shared_ptr<const Var>>& q) {
              std::vector<std::unique_ptr<Node>> nodes;
              for (int n = 0; n < 3; ++n)
              {
                nodes.push_back(std::make_unique<Node>("n"));
                nodes.back()->addVar("t", x0[3 * n], NoBound);
                q.push_back(nodes.back()->addVar("q", { "a", "b" }, x0.segment<2>(3 * n + 1), { NoBound, NoBound }));
              }
              return std::make_shared<NodesVariables>("v", std::move(nodes));
            };
            const int n = cont ? 1 : 2;
            for (size_t base : { size_t(1), size_t(4) })
            {
              VectorXd x(9);
              for (int m = 0; m < 3; ++m) x.segment<3>(3 * m) << xs[base][3 * m + 2], xs[base].segment<2>(3 * m);
              std::vector<std::shared_ptr<const Var>> q;
              auto v = layout(x, q);
              auto used = constraint(k, evaluator(k, env, zero != 0), q, n);
              used->linkWithVariables(v);
              take(c, *used);
              for (int j = 0; j < 9; ++j)
                for (double step : { 0.05, 0.0 })
                {
                  VectorXd y = x;
                  y[j] += step;
                  v->setVariables(y);
                  std::vector<std::shared_ptr<const Var>> q2;
                  auto v2 = layout(y, q2);
                  auto fresh = constraint(k, evaluator(k, env, zero != 0), q2, n);
                  fresh->linkWithVariables(v2);
                  same(take(c, *used), take(c, *fresh), n);
                }
            }
          }
          Dfs d(c);
          // the evaluators remember results of a limited number of iterates: histories starting after 11 others cover
          // the reuse of forgotten results
          bool full = mask == NM - 1;
          int depth = c.thorough ? (full ? 5 : 4) : (full ? 3 : 2);
          c.state(Hash().u(mask).u(ki).u(uint64_t(zero)));
          d.run([&] {
            std::vector<std::shared_ptr<const Var>> q;
            auto v = build(xs[0], q);
            auto e = evaluator(k, env, zero != 0);
            auto c0 = constraint(k, e, q, 0), c1 = constraint(k, e, q, 1);
            c0->linkWithVariables(v);
            c1->linkWithVariables(v);
            if ((full || c.thorough) && d.choose(2))
              for (int s = 0; s < 11; ++s)
              {
                VectorXd x = xs[size_t(s) % xs.size()];
                x[2] = 20 + s;
                v->setVariables(x);
                same(take(c, *c0), ref[size_t(s) % xs.size()].s[0], 0);
              }
            for (int s = 0; s < depth; ++s)
            {
              int t = d.choose(int(xs.size()));
              v->setVariables(xs[size_t(t)]);
              same(take(c, *c0), ref[size_t(t)].s[0], 0);
              if (s % 2)
                same(take(c, *c1), ref[size_t(t)].s[1], 1);
            }
            c.traces();
          });
        });
      }
  }
}
