// P04: the collision terms of a problem description on a scripted scene whose distances are known in closed form.
#include <mc/mc.hpp>
#include <common/scene.hpp>
using namespace mc;
using namespace rob;
using namespace trajopt;
const CheckInfo mc::info = { "P04", "model_checking",
  "four ways of checking (single step, sampled in segments, swept, swept in segments) x every range of steps and every set of fixed steps of 1..3 (thorough 4) steps x cost and constraint x described and from JSON, and every set of 6 pairs of "
  "points on the links of the tree robot (same pair twice, both moving, either side) x 4 settings of margins, weights (also zero), pairs and buffer x 5 groups: number, name, kind, value and violations of the terms against the closed-form "
  "distances, convex model exact at the point and to first order; every sequence of 3 (thorough 4) evaluations and convexifications at 5 points (some differing in unrelated steps only) on one problem; JSON: every range, fixed step, "
  "missing, unknown and out-of-range parameter",
  { "robot, environment and contact checker are scripted stand-ins behind tesseract's interfaces", "two adjacent fixed steps are not combined in one continuous check", "a term that sweeps several segments is not combined with fixed ends",
    "first order: between the ends of a sampled or swept segment only where the motion is a translation or one cast", "distances equal to the margin or checking distance are not placed" } };
namespace
{
// ---- settings ----------------------------------------------------------------------------------------------------------
struct PairSetting { const char *a, *b; double margin, coeff; };
struct Setting { double margin, coeff, buffer; std::vector<PairSetting> pairs; };
const std::vector<Setting> kSet = {
  { 0.1, 1, 0, {} },
  { 0.05, 20, 0.1, { { "tool", "table", 0.3, 5 }, { "tool", "part", 0.3, 5 } } },
  { 0.2, 3, 0.05, { { "tool", "part", 0.1, 0 }, { "a2", "tool", -0.05, 7 } } },
  { 0, 0.5, 0.5, { { "base", "part", 0.4, 2 }, { "a3", "table", 0.25, 0.25 }, { "tool", "table", 0, 0 } } },
};
const PairSetting* pairOf(const Setting& s, const Src& k)
{
  for (auto& p : s.pairs)
    if ((std::string(p.a) == k.a && std::string(p.b) == k.b) || (std::string(p.a) == k.b && std::string(p.b) == k.a)) return &p;
  return nullptr;
}
enum Ev { SINGLE = 1, SAMPLED = 2, SWEPT = 3, SEGMENTS = 4 };
const char* kEv[] = { "", "single step", "sampled", "swept", "swept in segments" };
struct Term
{
  std::string g;
  int n;
  bool time;
  Ev ev;
  int set, first, last;
  unsigned fixed;
  double lvs;
  bool isFixed(int i) const { return fixed >> i & 1; }
  TermInfo::Ptr term() const
  {
    const Setting& s = kSet[size_t(set)];
    auto t = std::make_shared<CollisionTermInfo>();
    t->first_step = first, t->last_step = last;
    for (int i = n; i-- > 0;)
      if (isFixed(i)) t->fixed_steps.push_back(i);
    t->config = trajopt_common::TrajOptCollisionConfig(s.margin, s.coeff, tc::ContactRequest(), tc::CollisionEvaluatorType(ev), lvs);
    t->config.collision_margin_buffer = s.buffer;
    for (auto& p : s.pairs)
    {
      t->config.contact_manager_config.pair_margin_data.setCollisionMargin(p.a, p.b, p.margin);
      t->config.contact_manager_config.pair_margin_override_type = tc::CollisionMarginPairOverrideType::MODIFY;
      t->config.collision_coeff_data.setCollisionCoeff(p.a, p.b, p.coeff);
    }
    return t;
  }
  Json::Value js() const
  {
    const Setting& s = kSet[size_t(set)];
    Json::Value v;
    v["type"] = "collision";
    auto& p = v["params"];
    if (ev != SINGLE) p["evaluator_type"] = int(ev);
    if (first != 0) p["first_step"] = first;
    if (last != n - 1) p["last_step"] = last;
    if (lvs != 0.5) p["longest_valid_segment_length"] = lvs;
    if (s.buffer != 0.5) p["safety_margin_buffer"] = s.buffer;
    for (int i = 0; i < n; ++i)
      if (isFixed(i)) p["fixed_steps"].append(i);
    p["coeffs"] = s.coeff, p["dist_pen"] = s.margin;
    for (size_t k = 0; k < s.pairs.size(); ++k)
    {
      auto& q = s.pairs[k];
      // partners of one link with the same settings share an entry
      if (k > 0 && std::string(s.pairs[k - 1].a) == q.a && s.pairs[k - 1].margin == q.margin && s.pairs[k - 1].coeff == q.coeff)
      {
        auto& all = p["pairs"];
        all[all.size() - 1]["pair"].append(q.b);
        continue;
      }
      Json::Value e;
      e["link"] = q.a, e["coeffs"] = q.coeff, e["dist_pen"] = q.margin;
      e["pair"].append(q.b);
      p["pairs"].append(e);
    }
    return v;
  }
  int cols() const { return int(group(g)->numJoints()) + time; }
  VectorXd row(const DblVec& x, int i) const { return Eigen::Map<const VectorXd>(x.data() + i * cols(), group(g)->numJoints()); }
  int segments(const DblVec& x, int i) const
  {
    const double d = (row(x, i + 1) - row(x, i)).norm();
    return d > lvs ? int(std::ceil(d / lvs)) : 1;
  }
  std::vector<int> steps() const
  {
    std::vector<int> r;
    for (int i = first; i < last + (ev == SINGLE); ++i)
      if (ev != SINGLE || !isFixed(i)) r.push_back(i);
    return r;
  }
  // weighted (margin - distance) of each contact of the term at step i
  VectorXd errors(const DblVec& x, int i, bool& kink) const
  {
    const Setting& s = kSet[size_t(set)];
    auto kin = group(g);
    std::vector<double> e;
    auto fkAt = [&](const VectorXd& q) { return kin->calcFwdKin(q); };
    std::vector<tcm::TransformMap> poses;
    const int n = ev == SINGLE ? 0 : ev == SWEPT ? 1 : segments(x, i);
    if (n > 0)
    {
      const double f = (row(x, i + 1) - row(x, i)).norm() / lvs;
      kink = kink || (f > 0.5 && std::fabs(f - std::round(f)) < 1e-3);
    }
    if (n == 0)
      poses.push_back(fkAt(row(x, i)));
    else
      for (int j = 0; j <= n; ++j) poses.push_back(fkAt(row(x, i) + (row(x, i + 1) - row(x, i)) * (double(j) / n)));
    for (size_t k = 0; k < kSrc.size(); ++k)
    {
      const Src& c = kSrc[k];
      if (!(gMask >> k & 1) || !(kin->isActiveLinkName(c.a) || kin->isActiveLinkName(c.b))) continue;
      auto* p = pairOf(s, c);
      const double margin = p ? p->margin : s.margin, coeff = p ? p->coeff : s.coeff;
      if (coeff == 0) continue;
      auto rel = [&](size_t j) { return Vector3d(poses[j].at(c.b) * c.pb - poses[j].at(c.a) * c.pa); };
      auto add = [&](double dist, double t) {
        const double d = dist - c.r;
        if (ev != SINGLE && ((isFixed(i) && t == 0) || (isFixed(i + 1) && t == 1))) return;
        kink = kink || std::fabs(margin - d) < 1e-3 || std::fabs(margin + s.buffer - d) < 1e-3;
        e.push_back(coeff * (margin - d));
      };
      if (ev == SINGLE)
        add(rel(0).norm(), 0);
      else if (ev == SAMPLED)
        for (int j = 0; j <= n; ++j) add(rel(size_t(j)).norm(), double(j) / n);
      else
        for (int j = 0; j < n; ++j)
        {
          const Vector3d r0 = rel(size_t(j)), dr = rel(size_t(j) + 1) - r0;
          const double raw = dr.norm() > 1e-12 ? -r0.dot(dr) / dr.squaredNorm() : 0, t = std::min(1.0, std::max(0.0, raw));
          kink = kink || std::fabs(raw) < 1e-2 || std::fabs(raw - 1) < 1e-2;
          add((r0 + t * dr).norm(), n == 1 ? t : (j + t) / n);
        }
    }
    return Eigen::Map<VectorXd>(e.data(), long(e.size()));
  }
  std::vector<Want> wants(bool cost) const
  {
    std::vector<Want> w;
    const Term t = *this;
    for (int i : steps())
    {
      w.push_back({ "the term_" + std::to_string(i), cost, Pen::HINGE, false, nullptr, VectorXd::Ones(1000) });
      w.back().err = [=](const DblVec& x) {
        bool kink = false;
        return t.errors(x, i, kink);
      };
      if (ev != SINGLE)
        for (int e = 0; e < 2; ++e)
          if (isFixed(i + e))
            for (int j = 0; j < cols(); ++j) w.back().frozen.insert(size_t((i + e) * cols() + j));
    }
    return w;
  }
  bool smooth(const DblVec& x) const
  {
    bool kink = false;
    for (int i : steps()) errors(x, i, kink);
    return !kink;
  }
  bool exact(const DblVec& x) const
  {
    if (ev == SINGLE || ev == SWEPT || g == "slide") return true;
    for (int i : steps())
      if (segments(x, i) > 1) return false;
    return true;
  }
  std::string show(bool cost) const
  {
    return str(kEv[ev], cost ? " cost, " : " constraint, ", g, ", ", n, time ? " steps with time, " : " steps, ", first, "..", last, ", fixed ", fixed, ", setting ", set, ", segments of ", lvs, ", contacts ", gMask);
  }
};
std::vector<DblVec> points(const std::string& g, int n, bool time)
{
  auto k = group(g);
  std::vector<DblVec> r;
  for (int p = 0; p < 3; ++p)
  {
    DblVec x;
    for (int i = 0; i < n; ++i)
    {
      const VectorXd q = cfg(k, p == 0 ? (i + 1) % 5 : p == 1 ? 1 : (i * 2) % 5);
      for (Eigen::Index j = 0; j < q.size(); ++j) x.push_back(q[j] + 0.03 * (p + 1) + (p == 1 ? 0.07 * i * (j % 2 ? -1 : 1) : 0));
      if (time) x.push_back(0.5 + 0.25 * i);
    }
    r.push_back(x);
  }
  return r;
}
// value, model and first order of the term, the first order only where it is defined
void judgeTerm(Ctx& c, const Term& t, bool cost, bool first)
{
  auto what = [&] { return t.show(cost); };
  std::vector<DblVec> good, all = points(t.g, t.n, t.time);
  for (auto& x : all)
    if (t.smooth(x) && t.exact(x)) good.push_back(x);
  judgeDescription(c, t.g, t.n, t.time, cost, false, true, [&] { return t.term(); }, [&] { return t.js(); }, [&] { return t.wants(cost); }, 0, all, what);
  if (!first) return;
  c.count(good.empty() ? "terms without first order" : "terms with first order");
  if (!good.empty())
    judgeDescription(c, t.g, t.n, t.time, cost, false, true, [&] { return t.term(); }, [&] { return Json::Value(); }, [&] { return t.wants(cost); }, 1e-5, good, what);
}
bool allowed(const Term& t)
{
  if (t.ev == SINGLE) return true;
  for (int i = 0; i + 1 < t.n; ++i)
    if (t.isFixed(i) && t.isFixed(i + 1)) return false;
  if (t.ev == SEGMENTS && t.fixed)
    for (auto& x : points(t.g, t.n, t.time))
      for (int i = 0; i + 1 < t.n; ++i)
        if (t.segments(x, i) > 1) return false;
  return true;
}
void ranges(Ctx& c, const std::string& g, Ev ev, int n, bool time)
{
  Scene s(g, 63);
  for (int first = 0; first < n; ++first)
    for (int last = first; last < n; ++last)
      for (unsigned fixed = 0; fixed < 1u << n; ++fixed)
        for (double lvs : { 100.0, 0.6, 0.5 })
          for (bool cost : { true, false })
          {
            c.beat();
            if (lvs != 100 && (ev == SINGLE || ev == SWEPT || (lvs == 0.5 && !c.thorough && n != 2))) continue;
            bool in = true;
            for (int i = 0; i < n; ++i) in = in && (!(fixed >> i & 1) || (i >= first && i <= last));
            Term t{ g, n, time, ev, int(fixed + unsigned(first)) % 4, first, last, fixed, lvs };
            if (!in || !allowed(t)) continue;
            judgeTerm(c, t, cost, c.thorough || n < 3);
          }
}
void contacts(Ctx& c, const std::string& g, Ev ev, int set)
{
  for (unsigned mask = 0; mask < 64; ++mask)
  {
    Scene s(g, mask);
    for (double lvs : { 100.0, 0.5 })
      for (bool cost : { true, false })
      {
        c.beat();
        if (lvs != 100 && (ev == SINGLE || ev == SWEPT)) continue;
        judgeTerm(c, { g, 2, false, ev, set, 0, 1, 0, lvs }, cost, c.thorough || mask == 63 || __builtin_popcount(mask) == 1);
      }
  }
}
// the same problem evaluated again and again
void histories(Ctx& c, const std::string& g, Ev ev, bool cost)
{
  Scene s(g, 63);
  Term t{ g, 3, true, ev, 1, 0, 2, 0, 0.7 };
  if (ev == SWEPT) t.lvs = 100;
  auto xs = points(g, 3, true);
  xs.pop_back();
  DblVec y = xs[0];
  y[size_t(t.cols()) - 1] += 1;
  xs.push_back(y);
  y = xs[1];
  y[0] += 0.5;
  xs.push_back(y);
  y = xs[0];
  y[size_t(t.cols())] += 0.4;
  xs.push_back(y);
  auto wants = t.wants(cost);
  Dfs d(c);
  d.run([&] {
    c.beat();
    auto p = problem(g, 3, true);
    auto ti = t.term();
    ti->name = "the term", ti->term_type = cost ? TermType::TT_COST : TermType::TT_CNT;
    (cost ? p.cost_infos : p.cnt_infos).push_back(ti);
    auto prob = ConstructProblem(p);
    auto costs = prob->getCosts();
    auto ins = prob->getIneqConstraints();
    if ((cost ? costs.size() - 1 : ins.size()) != wants.size())
    {
      c.fail("terms", t.show(cost));
      return;
    }
    for (int k = 0; k < (c.thorough ? 4 : 3); ++k)
    {
      const int what = d.choose(10);
      const DblVec& x = xs[size_t(what % 5)];
      c.transitions(), c.state(Hash().s(d.pathText()).s(g).u(ev).u(cost).h);
      for (size_t i = 0; i < wants.size(); ++i)
      {
        const auto parts = wants[i].parts(x);
        std::vector<double> got;
        double sum;
        if (cost)
        {
          auto& k = costs[i + 1];
          if (what < 5)
            sum = k->value(x);
          else
          {
            auto keep = k->convex(x, prob->getModel().get());
            sum = costModel(*prob, *k, x, keep)(x);
          }
        }
        else
        {
          got = positive(what < 5 ? ins[i]->violations(x) : ins[i]->convex(x, prob->getModel().get())->violations(x));
          sum = total(got);
        }
        c.checkf(near(sum, total(parts), 1e-6) && (cost || alike(got, positive(parts), 1e-7)), "history", [&] { return str(t.show(cost), ", evaluations ", d.pathText(), ": term of step ", i, " is ", sum, ", expected ", total(parts)); });
        c.outcome(Hash().d(std::round(sum * 1e6)).h);
      }
    }
    c.traces();
  });
}
// one value of the trajectory changes and changes back
void single(Ctx& c, const std::string& g, Ev ev, bool cost)
{
  Scene s(g, 63);
  for (bool time : { false, true })
  {
    Term t{ g, 3, time, ev, 1, 0, 2, 0, 0.7 };
    if (ev == SWEPT) t.lvs = 100;
    auto wants = t.wants(cost);
    auto p = problem(g, 3, time);
    auto ti = t.term();
    ti->name = "the term", ti->term_type = cost ? TermType::TT_COST : TermType::TT_CNT;
    (cost ? p.cost_infos : p.cnt_infos).push_back(ti);
    auto prob = ConstructProblem(p);
    for (auto& x : points(g, 3, time))
      for (size_t j = 0; j <= 2 * x.size(); ++j)
      {
        c.beat();
        DblVec y = x;
        if (j % 2) y[j / 2] += 0.06;
        c.transitions(), c.state(Hash().s(g).u(ev).u(cost).u(time).u(j).d(x[0]).h);
        for (size_t i = 0; i < wants.size(); ++i)
        {
          const auto parts = wants[i].parts(y);
          const double sum = cost ? prob->getCosts()[prob->getCosts().size() - wants.size() + i]->value(y) : total(positive(prob->getIneqConstraints()[i]->violations(y)));
          c.checkf(near(sum, total(parts), 1e-6), "single-value", [&] { return str(t.show(cost), ", value ", j / 2, j % 2 ? " changed" : " changed back", ": term of step ", i, " is ", sum, ", expected ", total(parts)); });
        }
      }
    c.traces();
  }
}
void parameters(Ctx& c)
{
  Scene s("arm", 63);
  auto make = [&](const Json::Value& t, const char* list) {
    auto js = startJson("arm", 3);
    js[list].append(t);
    return ConstructProblem(js, env());
  };
  auto refusal = [&](Json::Value t, bool fine, const std::string& what) {
    for (const char* list : { "costs", "constraints" })
    {
      const bool refused = refuses([&] { make(t, list); });
      c.transitions(), c.traces(), c.state(Hash().s(what).s(list).h), c.outcome(refused);
      c.checkf(refused == !fine, refused ? "json-refused" : "json-accepted", [&] { return str(list, ": ", what); });
    }
  };
  Json::Value base;
  base["type"] = "collision";
  base["params"]["coeffs"] = 2.0, base["params"]["dist_pen"] = 0.1;
  refusal(base, true, "collision");
  for (int f = -1; f <= 4; ++f)
    for (int l = -1; l <= 4; ++l)
      for (int e = 0; e <= 5; ++e)
      {
        auto t = base;
        auto& p = t["params"];
        p["first_step"] = f, p["last_step"] = l, p["evaluator_type"] = e;
        const bool in = f >= 0 && f < 3 && l >= f && l < 3;
        if (e == 0 && in && f == l) continue;  // no check at all: nothing to refuse
        refusal(t, in && e >= 1 && e <= 4, str("steps ", f, "..", l, ", evaluator ", e));
      }
  for (int f = 0; f < 3; ++f)
    for (int l = f; l < 3; ++l)
      for (int x = -1; x <= 3; ++x)
      {
        auto t = base;
        t["params"]["first_step"] = f, t["params"]["last_step"] = l, t["params"]["fixed_steps"].append(x);
        refusal(t, x >= f && x <= l, str("steps ", f, "..", l, ", fixed step ", x));
      }
  for (auto key : { "coeffs", "dist_pen" })
  {
    auto t = base;
    t["params"].removeMember(key);
    refusal(t, false, str("without ", key));
    t["params"][key] = "x";
    refusal(t, false, str("with a word for ", key));
  }
  for (auto key : { "foo", "coeff", "margin", "Type", "" })
  {
    auto t = base;
    t["params"][key] = 1;
    refusal(t, false, str("with unknown parameter '", key, "'"));
  }
  for (double v : { -1.0, -1e-9, 0.0, 0.3 })
    for (auto key : { "longest_valid_segment_length", "safety_margin_buffer" })
    {
      auto t = base;
      t["params"][key] = v;
      refusal(t, v >= 0, str(key, " ", v));
    }
  auto bare = base;
  bare.removeMember("params");
  refusal(bare, false, "without parameters");
  for (int k = -1; k <= 4; ++k)
    for (int e = 1; e <= 4; ++e)
    {
      auto t = base;
      t["params"]["contact_test_type"] = k, t["params"]["evaluator_type"] = e;
      const bool fine = k >= 0 && k < 3;
      refusal(t, fine, str("kind of contact test ", k));
      if (!fine) continue;
      gRequest = -1;
      make(t, "costs")->getCosts()[0]->value(points("arm", 3, false)[0]);
      c.checkf(gRequest == k, "contact-test-kind", [&] { return str("asked for contacts of kind ", gRequest, ", expected ", k); });
    }
  for (auto key : { "link", "pair", "coeffs", "dist_pen" })
  {
    auto t = base;
    Json::Value e;
    e["link"] = "tool", e["coeffs"] = 1.0, e["dist_pen"] = 0.2;
    e["pair"].append("table");
    e.removeMember(key);
    t["params"]["pairs"].append(e);
    refusal(t, false, str("a pair without ", key));
    e["link"] = "tool", e["coeffs"] = 1.0, e["dist_pen"] = 0.2;
    e["pair"] = Json::arrayValue;
    auto u = base;
    u["params"]["pairs"].append(e);
    refusal(u, false, "a link with no partners");
    e["pair"].append("table"), e["pair"].append("part");
    u = base;
    u["params"]["pairs"].append(e);
    refusal(u, true, "a link with two partners");
  }
}
}  // namespace
void mc::explore(Ctx& c)
{
  for (std::string g : { "arm", "both", "pair", "turn", "slide" })
    for (Ev ev : { SINGLE, SAMPLED, SWEPT, SEGMENTS })
    {
      for (int n = 1; n <= (c.thorough ? 4 : 3); ++n)
        for (bool time : { false, true })
          if (c.thorough || !time || g == "pair") c.item([=] { return str("ranges, ", kEv[ev], ", ", g, ", ", n, time ? " steps with time" : " steps"); }, [=, &c] { ranges(c, g, ev, n, time); });
      for (int set = 0; set < 4; ++set) c.item([=] { return str("contacts, ", kEv[ev], ", ", g, ", setting ", set); }, [=, &c] { contacts(c, g, ev, set); });
      if (g == "both" || g == "pair" || g == "slide")
        for (bool cost : { true, false }) c.item([=] { return str("histories, ", kEv[ev], ", ", g, cost ? ", cost" : ", constraint"); }, [=, &c] { histories(c, g, ev, cost); });
      for (bool cost : { true, false }) c.item([=] { return str("single values, ", kEv[ev], ", ", g, cost ? ", cost" : ", constraint"); }, [=, &c] { single(c, g, ev, cost); });
    }
  c.item([] { return std::string("parameters"); }, [&] { parameters(c); });
}
