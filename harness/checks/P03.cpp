// P03: the Cartesian, singularity and user-defined terms of a problem description.
#include <mc/mc.hpp>
#include <common/problem.hpp>
using namespace mc;
using namespace rob;
using namespace trajopt;
const CheckInfo mc::info = { "P03", "exploration",
  "pose terms: every pair of links of three groups of the tree robot (accepted or refused from JSON), every subset of weighted components x every time step x offsets x tolerance bands x cost and constraint, described and from JSON; Cartesian "
  "velocity terms: every first and last step of 1..4 steps x links x limits; singularity terms: every range of steps x full, subset and foreign joint sets x weights; user-defined terms: every range of 1..3 (thorough 4) steps x every "
  "set of fixed steps x every penalty and constraint kind x with and without derivatives x weights; each judged by number, name, kind, value, violations and convex model (exact at the point, first order in every direction); "
  "every missing, unknown and ill-typed parameter",
  { "robot and environment are stand-ins behind tesseract's interfaces", "weights are not negative", "described (not JSON) terms lie within the trajectory", "models are not compared near a half turn or the edge of a tolerance band" } };
namespace
{
VectorXd eigen(const DblVec& v) { return Eigen::Map<const VectorXd>(v.data(), long(v.size())); }
VectorXd rowOf(const DblVec& x, int step, int cols, int dof) { return Eigen::Map<const VectorXd>(x.data() + step * cols, dof); }
std::vector<DblVec> points(const std::string& g, int n, bool time, int count)
{
  auto k = group(g);
  std::vector<DblVec> r;
  for (int p = 0; p < count; ++p)
  {
    DblVec x;
    for (int i = 0; i < n; ++i)
    {
      const VectorXd q = cfg(k, (i + p + 1) % 5);
      for (Eigen::Index j = 0; j < q.size(); ++j) x.push_back(q[j] + 0.01 * (p + 1));
      if (time) x.push_back(0.5 + 0.25 * i);
    }
    r.push_back(x);
  }
  return r;
}
// ---- poses -----------------------------------------------------------------------------------------------------------
struct PoseTerm
{
  std::string g, src, tgt;
  Isometry3d so = Isometry3d::Identity(), to = Isometry3d::Identity();
  Vector3d pos = Vector3d::Ones(), rot = Vector3d::Ones();
  VectorXd lo, up;
  int step = 0;
  bool dynamic = false;
  VectorXd raw(const VectorXd& q) const
  {
    auto k = group(g);
    auto t = k->calcFwdKin(q);
    const Isometry3d s = t.at(src) * so, d = t.at(tgt) * to;
    return !dynamic && k->isActiveLinkName(tgt) && !k->isActiveLinkName(src) ? poseError(s, d) : poseError(d, s);
  }
  template <class T>
  TermInfo::Ptr termOf() const
  {
    auto t = std::make_shared<T>();
    t->timestep = step, t->pos_coeffs = pos, t->rot_coeffs = rot, t->source_frame = src, t->target_frame = tgt;
    t->source_frame_offset = so, t->target_frame_offset = to, t->lower_tolerance = lo, t->upper_tolerance = up;
    return t;
  }
  TermInfo::Ptr term() const { return dynamic ? termOf<DynamicCartPoseTermInfo>() : termOf<CartPoseTermInfo>(); }
  Json::Value js(int n) const
  {
    Json::Value v;
    if (lo.size()) return v;
    v["type"] = dynamic ? "dynamic_cart_pose" : "cart_pose";
    auto& p = v["params"];
    auto list = [](const VectorXd& x) { return json(DblVec(x.data(), x.data() + x.size())); };
    if (step != n - 1) p["timestep"] = step;
    if (pos != Vector3d::Ones()) p["pos_coeffs"] = list(pos);
    if (rot != Vector3d::Ones()) p["rot_coeffs"] = list(rot);
    p["source_frame"] = src, p["target_frame"] = tgt;
    auto offset = [&](const Isometry3d& o, const std::string& k) {
      const Eigen::Quaterniond q(o.linear());
      if (!o.translation().isZero()) p[k + "_xyz"] = list(o.translation());
      if (!o.linear().isIdentity()) p[k + "_wxyz"] = json(DblVec{ q.w(), q.x(), q.y(), q.z() });
    };
    offset(so, "source_frame_offset");
    offset(to, "target_frame_offset");
    return v;
  }
  Want want(bool cost, int cols) const
  {
    Want w{ "the term", cost, Pen::ABS, true, nullptr, VectorXd() };
    std::vector<int> idx;
    std::vector<double> k;
    for (int i = 0; i < 6; ++i)
    {
      const double v = i < 3 ? pos[i] : rot[i - 3];
      if (v > 1e-5) idx.push_back(i), k.push_back(v);
    }
    w.w = eigen(k);
    const PoseTerm s = *this;
    const int dof = int(group(g)->numJoints());
    w.err = [=](const DblVec& x) {
      const VectorXd e = banded(s.raw(rowOf(x, s.step, cols, dof)), s.lo, s.up);
      VectorXd r(Eigen::Index(idx.size()));
      for (size_t i = 0; i < idx.size(); ++i) r[Eigen::Index(i)] = e[idx[i]];
      return r;
    };
    return w;
  }
  bool smooth(const DblVec& x, int cols) const
  {
    const VectorXd e = raw(rowOf(x, step, cols, int(group(g)->numJoints())));
    if (e.tail<3>().norm() > 3) return false;
    for (Eigen::Index i = 0; i < lo.size(); ++i)
      if (std::fabs(e[i] - lo[i]) < 1e-2 || std::fabs(e[i] - up[i]) < 1e-2) return false;
    return true;
  }
};
void poses(Ctx& c, const std::string& g, const std::string& src, const std::string& tgt, bool dynamic, bool time)
{
  const int dof = int(group(g)->numJoints()), cols = dof + time;
  struct Band { VectorXd lo, up; };
  std::vector<Band> bands{ { VectorXd(), VectorXd() }, { VectorXd::Constant(6, -0.05), VectorXd::Constant(6, 0.1) } };
  VectorXd l(6), u(6);
  l << -1, -0.2, -2, -0.5, -0.01, -3, u << 0.01, 0.3, 1, 0.2, 0.02, 0.1;
  bands.push_back({ l, u });
  const double weight[6] = { 0.5, 1, 2, 3, 0.25, 7 };
  for (int n = 1; n <= (c.thorough ? 3 : 2); ++n)
    for (int step = 0; step < n; ++step)
      for (int mask = 0; mask < 64; ++mask)
        for (size_t b = 0; b < bands.size(); ++b)
          for (int off = 0; off < 4; ++off)
            for (bool cost : { true, false })
            {
              if (!c.thorough && mask != 63 && (off + mask + int(b)) % 4 != 0) continue;
              c.beat();
              PoseTerm t{ g, src, tgt };
              t.dynamic = dynamic, t.step = step, t.lo = bands[b].lo, t.up = bands[b].up;
              if (off & 1) t.so = pose(0.05, -0.1, 0.2, 1.1, Vector3d(1, 2, -1));
              if (off & 2) t.to = pose(0.3, 0.1, -0.2, -0.8, Vector3d(0, 1, 2));
              if (mask != 63 || off == 3)
                for (int i = 0; i < 6; ++i) (i < 3 ? t.pos[i] : t.rot[i - 3]) = mask >> i & 1 ? weight[i] : 0;
              std::vector<DblVec> xs;
              for (auto& x : points(g, n, time, c.thorough ? 5 : 2))
                if (t.smooth(x, cols)) xs.push_back(x);
              if (xs.empty())
              {
                c.count("no point to compare at");
                continue;
              }
              judgeDescription(c, g, n, time, cost, false, true, [&] { return t.term(); }, [&] { return t.js(n); }, [&] { return std::vector<Want>{ t.want(cost, cols) }; },
                               c.thorough || mask == 63 || mask % 8 == 5 ? 1e-3 : 0, xs,
                               [=] { return str(dynamic ? "dynamic " : "", "pose ", cost ? "cost" : "constraint", " of ", src, " to ", tgt, " (", g, "), ", n, time ? " steps with time, step " : " steps, step ", step, ", components ", mask, ", band ", b, ", offsets ", off); });
            }
}
void frames(Ctx& c, const std::string& g)
{
  auto k = group(g);
  auto names = k->getLinkNames();
  for (auto x : { "nowhere", "", "j1" }) names.push_back(x);
  for (auto& src : names)
    for (auto& tgt : names)
      for (bool dynamic : { false, true })
        for (const char* list : { "costs", "constraints" })
        {
          c.beat();
          PoseTerm t{ g, src, tgt };
          t.dynamic = dynamic;
          const bool s = k->hasLinkName(src), d = k->hasLinkName(tgt), sa = s && k->isActiveLinkName(src), da = d && k->isActiveLinkName(tgt);
          const bool fine = s && d && (dynamic ? sa && da : sa != da);
          auto js = startJson(g, 2);
          js[list].append(t.js(2));
          const bool refused = refuses([&] { ConstructProblem(js, env()); });
          c.transitions(), c.traces(), c.state(Hash().s(src).s(tgt).u(dynamic).s(g).h), c.outcome(refused);
          c.checkf(refused == !fine, refused ? "frames-refused" : "frames-accepted", [&] { return str(list, " ", dynamic ? "dynamic " : "", g, ": ", src, " to ", tgt); });
        }
}
// ---- velocity of a link ----------------------------------------------------------------------------------------------
void velocity(Ctx& c, const std::string& g, const std::string& link, int n, bool time)
{
  auto kin = group(g);
  const int dof = int(kin->numJoints()), cols = dof + time;
  const bool active = kin->isActiveLinkName(link);
  for (int first = 0; first < n; ++first)
    for (int last = 0; last < n; ++last)
      for (double limit : { 0.0, 0.3 })
        for (bool cost : { true, false })
        {
          c.beat();
          auto make = [&] {
            auto t = std::make_shared<CartVelTermInfo>();
            t->first_step = first, t->last_step = last, t->link = link, t->max_displacement = limit;
            return t;
          };
          auto wants = [&] {
            std::vector<Want> w;
            for (int i = first; i <= last && i + 1 < n; ++i)
            {
              w.push_back({ "the term", cost, Pen::ABS, false, nullptr, VectorXd::Ones(6) });
              w.back().err = [=](const DblVec& x) {
                const Vector3d d = kin->calcFwdKin(rowOf(x, i + 1, cols, dof)).at(link).translation() - kin->calcFwdKin(rowOf(x, i, cols, dof)).at(link).translation();
                VectorXd v(6);
                v << d.array() - limit, -d.array() - limit;
                return v;
              };
            }
            return w;
          };
          auto what = [=] { return str("velocity of ", link, cost ? " cost" : " constraint", ", ", g, ", ", n, time ? " steps with time, " : " steps, ", first, "..", last, ", limit ", limit); };
          judgeDescription(c, g, n, time, cost, false, true, make, [] { return Json::Value(); }, wants, 1e-3, points(g, n, time, c.thorough ? 4 : 2), what);
          // from JSON: two steps at least, an active link
          auto js = problemJson(g, n, time);
          Json::Value t;
          t["type"] = "cart_vel", t["name"] = "the term";
          auto& p = t["params"];
          p["first_step"] = first, p["last_step"] = last, p["link"] = link, p["max_displacement"] = limit;
          js[cost ? "costs" : "constraints"].append(t);
          TrajOptProb::Ptr made;
          const bool refused = refuses([&] { made = ConstructProblem(js, env()); }), fine = active && first < last;
          c.checkf(refused == !fine, refused ? "refused" : "accepted", [&] { return what() + ", from JSON"; });
          if (fine && !refused) judgeTerms(c, *made, wants(), time, points(g, n, time, 1), 0, [&] { return what() + ", from JSON"; });
        }
}
// ---- singularities ---------------------------------------------------------------------------------------------------
void singular(Ctx& c, const std::string& g, const std::vector<std::string>& sub, const std::string& link, int n)
{
  auto kin = group(g);
  const int dof = int(kin->numJoints());
  const auto own = kin->getJointNames();
  bool inside = true;
  for (auto& s : sub) inside = inside && std::find(own.begin(), own.end(), s) != own.end();
  JG part = sub.empty() ? nullptr : std::make_shared<Robot>(sub);
  JG used = part && inside ? part : kin;
  auto take = [=](const VectorXd& q) {
    const auto names = used->getJointNames();
    VectorXd r(Eigen::Index(names.size()));
    for (size_t i = 0; i < names.size(); ++i) r[Eigen::Index(i)] = q[std::find(own.begin(), own.end(), names[i]) - own.begin()];
    return r;
  };
  auto sv = [=](const DblVec& x, int i) { return VectorXd(Eigen::JacobiSVD<MatrixXd>(used->calcJacobian(take(rowOf(x, i, dof, dof)), link)).singularValues()); };
  for (int first = 0; first < n; ++first)
    for (int last = first; last < n; ++last)
      for (double lambda : { 0.5, 2.0 })
        for (double k : { 1.0, 0.25, 6.0 })
          for (bool cost : { true, false })
          {
            c.beat();
            std::vector<DblVec> xs;
            for (auto& x : points(g, n, false, c.thorough ? 5 : 3))
            {
              bool smooth = true;
              for (int i = first; i <= last; ++i)
              {
                const VectorXd s = sv(x, i);
                const Eigen::Index z = s.size();
                smooth = smooth && s[z - 1] > 2e-2 && (z < 2 || s[z - 2] - s[z - 1] > 2e-2);
              }
              if (smooth) xs.push_back(x);
            }
            if (xs.empty())
            {
              c.count("no point to compare at");
              continue;
            }
            auto wants = [&] {
              std::vector<Want> w;
              for (int i = first; i <= last; ++i)
              {
                w.push_back({ "the term_" + std::to_string(i), cost, Pen::ABS, false, nullptr, VectorXd::Constant(1, k) });
                w.back().err = [=](const DblVec& x) {
                  const VectorXd s = sv(x, i);
                  return VectorXd(VectorXd::Constant(1, 1 / (s[s.size() - 1] + lambda) - 1 / (0.1 + lambda)));
                };
              }
              return w;
            };
            judgeDescription(c, g, n, false, cost, false, true,
                             [&] {
                               auto t = std::make_shared<AvoidSingularityTermInfo>(part, lambda);
                               t->link = link, t->first_step = first, t->last_step = last, t->coeffs = { k };
                               return t;
                             },
                             [] { return Json::Value(); }, wants, 1e-4, xs, [=] { return str("singularity ", cost ? "cost" : "constraint", " of ", link, ", ", g, " joints ", vec(used->getJointNames()), ", ", n, " steps, ", first, "..", last, ", damping ", lambda, ", weight ", k); });
          }
}
// ---- user-defined ----------------------------------------------------------------------------------------------------
void user(Ctx& c, const std::string& g, int n)
{
  const int dof = int(group(g)->numJoints());
  auto f = [=](const VectorXd& q) {
    VectorXd e(3);
    e << q[0] * q[0] - 0.3, std::sin(2 * q[dof - 1]), q[0] * q[dof - 1] + 0.1;
    return e;
  };
  int called = 0;
  auto jac = [=, &called](const VectorXd& q) {
    ++called;
    MatrixXd J = MatrixXd::Zero(3, dof);
    J(0, 0) = 2 * q[0], J(1, dof - 1) = 2 * std::cos(2 * q[dof - 1]), J(2, 0) += q[dof - 1], J(2, dof - 1) += q[0];
    return J;
  };
  VectorXd weights(3);
  weights << 2, 0, 0.5;
  const char* pens[] = { "SQUARED", "ABS", "HING" };
  for (int first = 0; first < n; ++first)
    for (int last = first; last < n; ++last)
      for (int fixed = 0; fixed < 1 << n; ++fixed)
        for (int kind = 0; kind < 5; ++kind)
          for (bool withJac : { false, true })
            for (bool weighted : { false, true })
            {
              c.beat();
              const bool cost = kind < 3;
              auto make = [&] {
                auto t = std::make_shared<UserDefinedTermInfo>();
                t->name = "the term", t->first_step = first, t->last_step = last, t->error_function = f;
                for (int i = n; i-- > 0;)
                  if (fixed >> i & 1) t->fixed_steps.push_back(i);
                if (withJac) t->jacobian_function = jac;
                if (weighted) t->coeff = weights;
                if (cost) t->cost_penalty_type = kind == 0 ? sco::SQUARED : kind == 1 ? sco::ABS : sco::HINGE;
                t->constraint_type = kind == 3 ? sco::EQ : sco::INEQ;
                return t;
              };
              auto wants = [&] {
                std::vector<Want> w;
                for (int i = first; i <= last; ++i)
                  if (!(fixed >> i & 1))
                    w.push_back({ str("the term_", cost ? pens[kind] : kind == 3 ? "EQ" : "INEQ", "_", i), cost, kind == 0 ? Pen::SQUARED : kind == 1 ? Pen::ABS : Pen::HINGE, kind == 3,
                                  [=](const DblVec& x) { return f(rowOf(x, i, dof, dof)); }, weighted ? weights : VectorXd(VectorXd::Ones(3)) });
                return w;
              };
              called = 0;
              auto what = [=] { return str("user-defined ", cost ? pens[kind] : kind == 3 ? "EQ" : "INEQ", ", ", g, ", ", n, " steps, ", first, "..", last, ", fixed ", fixed, withJac ? ", derivatives given" : "", weighted ? ", weighted" : ""); };
              judgeDescription(c, g, n, false, cost, false, true, make, [] { return Json::Value(); }, wants, 1e-3, points(g, n, false, c.thorough ? 4 : 2), what);
              c.checkf((called > 0) == (withJac && !wants().empty()), "derivatives", [&] { return str(what(), ": derivatives asked for ", called, " times"); });
            }
}
// ---- parameters ------------------------------------------------------------------------------------------------------
void parameters(Ctx& c)
{
  auto refusal = [&](Json::Value t, bool fine, const std::string& what) {
    for (const char* list : { "costs", "constraints" })
    {
      auto js = startJson("both", 3);
      js[list].append(t);
      const bool refused = refuses([&] { ConstructProblem(js, env()); });
      c.transitions(), c.traces(), c.state(Hash().s(what).s(list).h), c.outcome(refused);
      c.checkf(refused == !fine, refused ? "json-refused" : "json-accepted", [&] { return str(list, ": ", what); });
    }
  };
  const std::vector<std::pair<const char*, int>> fields = { { "pos_coeffs", 3 }, { "rot_coeffs", 3 }, { "source_frame_offset_xyz", 3 }, { "target_frame_offset_xyz", 3 }, { "source_frame_offset_wxyz", 4 }, { "target_frame_offset_wxyz", 4 } };
  for (bool dynamic : { false, true })
  {
    PoseTerm p{ "both", "tool", dynamic ? "part" : "table" };
    p.dynamic = dynamic;
    auto base = p.js(3);
    const std::string name = base["type"].asString();
    refusal(base, true, name);
    for (int s : { -2, -1, 0, 1, 2, 3, 4, 100 })
    {
      auto t = base;
      t["params"]["timestep"] = s;
      refusal(t, s >= 0 && s < 3, str(name, " at step ", s));
    }
    for (auto& f : fields)
      for (int len = 0; len <= 5; ++len)
      {
        auto t = base;
        t["params"][f.first] = json(DblVec(size_t(len), 0.5));
        refusal(t, len == f.second, str(name, " with ", f.first, " of length ", len));
      }
    for (auto key : { "source_frame", "target_frame" })
    {
      auto t = base;
      t["params"].removeMember(key);
      refusal(t, false, str(name, " without ", key));
    }
    for (auto key : { "foo", "source", "Timestep", "", "lower_tolerance", "first_step" })
    {
      auto t = base;
      t["params"][key] = 1;
      refusal(t, false, str(name, " with unknown parameter '", key, "'"));
    }
    auto t = base;
    t.removeMember("params");
    refusal(t, false, name + " without parameters");
    t = base;
    t["use_time"] = true;
    refusal(t, false, name + " in time");
  }
  Json::Value v;
  v["type"] = "cart_vel";
  auto& p = v["params"];
  p["first_step"] = 0, p["last_step"] = 2, p["link"] = "tool", p["max_displacement"] = 0.1;
  refusal(v, true, "cart_vel");
  for (int f = -2; f <= 4; ++f)
    for (int l = -2; l <= 4; ++l)
    {
      auto t = v;
      t["params"]["first_step"] = f, t["params"]["last_step"] = l;
      refusal(t, f >= 0 && f < l && l < 3, str("cart_vel ", f, "..", l));
    }
  for (auto key : { "first_step", "last_step", "link", "max_displacement" })
  {
    auto t = v;
    t["params"].removeMember(key);
    refusal(t, false, str("cart_vel without ", key));
  }
  for (auto key : { "foo", "distance_limit", "" })
  {
    auto t = v;
    t["params"][key] = 1;
    refusal(t, false, str("cart_vel with unknown parameter '", key, "'"));
  }
  for (auto& n : { "world", "table", "nowhere", "" })
  {
    auto t = v;
    t["params"]["link"] = n;
    refusal(t, group("both")->hasLinkName(n) && group("both")->isActiveLinkName(n), str("cart_vel of ", n));
  }
}
}  // namespace
void mc::explore(Ctx& c)
{
  struct P { const char *g, *s, *t; bool d; };
  for (P p : { P{ "arm", "tool", "table", false }, P{ "arm", "table", "tool", false }, P{ "arm", "a3", "part", false }, P{ "turn", "part", "tool", false }, P{ "turn", "tool", "part", false }, P{ "both", "tool", "table", false },
               P{ "both", "tool", "part", true }, P{ "both", "part", "tool", true }, P{ "pair", "tool", "part", true }, P{ "pair", "table", "tool", false } })
    for (bool time : { false, true })
      if (c.thorough || !time || std::string(p.g) == "pair")
        c.item([=] { return str("pose of ", p.s, " to ", p.t, ", ", p.g, time ? " with time" : ""); }, [=, &c] { WireOn w; poses(c, p.g, p.s, p.t, p.d, time); });
  for (std::string g : { "turn", "pair", "arm", "both" })
  {
    c.item([=] { return "frames, " + g; }, [=, &c] { WireOn w; frames(c, g); });
    for (int n = 1; n <= 4; ++n)
      for (auto& link : group(g)->getLinkNames())
        if (c.thorough || link == "tool" || link == "part" || (n == 2 && link == "table"))
          for (bool time : { false, true })
            if (c.thorough || !time || n == 3) c.item([=] { return str("velocity of ", link, ", ", g, ", ", n, " steps", time ? " with time" : ""); }, [=, &c] { WireOn w; velocity(c, g, link, n, time); });
    for (int n = 1; n <= (c.thorough ? 4 : 3); ++n)
      c.item([=] { return str("user-defined, ", g, ", ", n, " steps"); }, [=, &c] { WireOn w; user(c, g, n); });
  }
  struct S { const char* g; std::vector<std::string> sub; const char* link; };
  for (S s : { S{ "arm", {}, "tool" }, S{ "arm", { "j1", "j2" }, "tool" }, S{ "arm", { "j2", "j1" }, "a3" }, S{ "both", { "j4", "j2", "j1" }, "tool" }, S{ "both", { "j1", "k1" }, "tool" }, S{ "arm", { "j1", "k1" }, "tool" }, S{ "both", { "k1" }, "part" },
               S{ "pair", {}, "tool" }, S{ "turn", {}, "part" }, S{ "turn", { "j1" }, "part" } })
    for (int n = 1; n <= 3; ++n)
      c.item([=] { return str("singularity of ", s.link, ", ", s.g, " with ", vec(s.sub), ", ", n, " steps"); }, [=, &c] { WireOn w; singular(c, s.g, s.sub, s.link, n); });
  c.item([] { return std::string("parameters"); }, [&] { WireOn w; parameters(c); });
}
