// Pieces shared by the checks of the problem description: an environment around the tree robot, and what a constructed problem says.
#pragma once
#include <common/robot_terms.hpp>
#include <common/aux_min.hpp>
#include <trajopt/problem_description.hpp>
#include <trajopt_sco/bpmpd_interface.hpp>
#include <trajopt_sco/expr_ops.hpp>
#include <json/json.h>
#include <set>
extern "C" bool wire_on;
namespace rob
{
using trajopt::ProblemConstructionInfo;
using trajopt::TrajArray;
using trajopt::TrajOptProb;
using sco::DblVec;
inline JG pairGroup() { static JG g = std::make_shared<Robot>(std::vector<std::string>{ "k1", "j2" }); return g; }
inline JG slide() { static JG g = std::make_shared<Robot>(std::vector<std::string>{ "j3" }, std::map<std::string, double>{ { "j1", 0.4 }, { "j2", 0.2 }, { "j4", 0 }, { "k1", 0.3 } }); return g; }
inline JG group(const std::string& n)
{
  return n == "arm" ? arm() : n == "both" ? both() : n == "turn" ? turn() : n == "pair" ? pairGroup() : n == "slide" ? slide() : nullptr;
}
struct Env : tesseract::environment::Environment
{
  std::map<std::string, double> state{ { "j1", 0.5 }, { "j2", -0.25 }, { "j3", 0.125 }, { "j4", 1 }, { "k1", -0.75 }, { "other", 9 } };
  std::function<std::unique_ptr<tesseract::collision::DiscreteContactManager>()> discrete;
  std::function<std::unique_ptr<tesseract::collision::ContinuousContactManager>()> continuous;
  std::unique_ptr<tesseract::collision::DiscreteContactManager> getDiscreteContactManager() const override { return discrete ? discrete() : nullptr; }
  std::unique_ptr<tesseract::collision::ContinuousContactManager> getContinuousContactManager() const override { return continuous ? continuous() : nullptr; }
  std::vector<std::string> getActiveLinkNames() const override { return arm()->getActiveLinkNames(); }
  void getLinkTransforms(tesseract::common::TransformMap& t, const std::vector<std::string>& n, const Eigen::Ref<const VectorXd>& q) const override
  {
    auto m = state;
    for (size_t i = 0; i < n.size(); ++i) m[n[i]] = q[Eigen::Index(i)];
    for (auto& p : fk(m)) t[p.first] = p.second;
  }
  JG getJointGroup(const std::string& n) const override { return group(n); }
  tesseract::scene_graph::SceneState getState() const override
  {
    tesseract::scene_graph::SceneState s;
    for (auto& p : state) s.joints[p.first] = p.second;
    return s;
  }
  std::vector<std::string> getActiveJointNames() const override
  {
    std::vector<std::string> v;
    for (auto& p : state) v.push_back(p.first);
    return v;
  }
};
inline std::shared_ptr<Env> env() { static auto e = std::make_shared<Env>(); return e; }
struct WireOn
{
  WireOn() { wire_on = true; }
  ~WireOn() { wire_on = false; }
};
inline ProblemConstructionInfo start(const std::string& g, int steps)
{
  ProblemConstructionInfo p(env());
  p.kin = group(g);
  p.basic_info.n_steps = steps;
  p.basic_info.manip = g;
  p.basic_info.convex_solver = sco::ModelType("BPMPD");
  return p;
}
inline Json::Value json(const DblVec& v)
{
  Json::Value a(Json::arrayValue);
  for (double d : v) a.append(d);
  return a;
}
inline Json::Value json(const std::vector<int>& v)
{
  Json::Value a(Json::arrayValue);
  for (int d : v) a.append(d);
  return a;
}
inline Json::Value startJson(const std::string& g, int steps)
{
  Json::Value v;
  v["basic_info"]["n_steps"] = steps;
  v["basic_info"]["manip"] = g;
  v["basic_info"]["convex_solver"] = "BPMPD";
  v["init_info"]["type"] = "stationary";
  return v;
}
// what the solver behind (with the wire on since before the problem was made) the problem's model is handed
inline wire::Decoded handed(sco::Model& m, const sco::QuadExpr& objective)
{
  m.setObjective(objective);
  wire::Decoded d;
  wire::solver = [&](wire::Problem& p) { d = wire::decode(p), *p.code = 2; };
  m.optimize();
  return d;
}
// the fixed values a problem's model contains: {variable index, value} of each row a x = b; other rows are counted in others
inline std::multiset<std::pair<int, double>> fixedValues(const wire::Decoded& d, int& others)
{
  std::multiset<std::pair<int, double>> s;
  others = 0;
  for (auto& r : d.rows)
  {
    std::vector<std::pair<int, double>> nz;
    for (auto& p : r.a)
      if (p.second != 0) nz.push_back(p);
    if (nz.size() == 1 && r.lo == r.hi)
      s.insert({ nz[0].first, std::round(r.lo / nz[0].second * 1e9) / 1e9 });
    else
      ++others;
  }
  return s;
}
// a cost's convex model as a function of the problem's variables (the auxiliary variables minimised out)
inline std::function<double(const DblVec&)> costModel(TrajOptProb& p, sco::Cost& cost, const DblVec& x, const std::shared_ptr<sco::ConvexObjective>& keep)
{
  keep->addConstraintsToModel();
  auto d = std::make_shared<wire::Decoded>(handed(*p.getModel(), keep->quad_));
  const double k = keep->quad_.affexpr.constant;
  std::vector<int> user;
  for (auto& v : p.getVars()) user.push_back(int(v.var_rep->index));
  return [=](const DblVec& at) {
    std::vector<double> full;
    return wire::least(*d, user, at, full) + k;
  };
}

// ---- a term of a problem against what it was asked to be ---------------------------------------------------------------
enum class Pen { SQUARED, ABS, HINGE };
struct Want
{
  std::string name;
  bool cost;
  Pen pen;                                            // of a cost
  bool eq;                                            // of a constraint
  std::function<VectorXd(const DblVec&)> err;
  VectorXd w;                                         // weights, same size
  bool convex = true;                                 // the convex model is compared, too
  std::set<size_t> frozen;                            // variables whose first order is not compared
  // the penalties (costs) or violations (constraints) of the parts
  std::vector<double> parts(const DblVec& x) const
  {
    const VectorXd e = err(x);
    std::vector<double> p;
    for (Eigen::Index i = 0; i < e.size(); ++i)
    {
      const double k = w[i];
      if (cost)
        p.push_back(k * (pen == Pen::SQUARED ? e[i] * e[i] : pen == Pen::ABS ? std::fabs(e[i]) : std::max(0.0, e[i])));
      else
        p.push_back(eq ? std::fabs(k * e[i]) : std::max(0.0, k * e[i]));
    }
    return p;
  }
};
inline std::vector<double> positive(const std::vector<double>& v, double tol = 1e-9)
{
  std::vector<double> r;
  for (double x : v)
    if (x > tol) r.push_back(x);
  std::sort(r.begin(), r.end());
  return r;
}
inline bool alike(const std::vector<double>& a, const std::vector<double>& b, double tol)
{
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i)
    if (!mc::near(a[i], b[i], tol)) return false;
  return true;
}
inline double total(const std::vector<double>& v)
{
  double s = 0;
  for (double x : v) s += x;
  return s;
}
// the problem's terms from the given cost / constraint on are exactly the wanted ones
template <class What>
void judgeTerms(mc::Ctx& c, TrajOptProb& p, const std::vector<Want>& wants, size_t fromCost, const std::vector<DblVec>& xs, double h, What what, double slack = 0.05)
{
  std::vector<sco::Cost::Ptr> costs(p.getCosts().begin() + long(fromCost), p.getCosts().end());
  std::vector<sco::Constraint::Ptr> eqs = p.getEqConstraints(), ins = p.getIneqConstraints();
  size_t nc = 0, ne = 0, ni = 0;
  for (auto& w : wants) ++(w.cost ? nc : w.eq ? ne : ni);
  c.checkf(costs.size() == nc && eqs.size() == ne && ins.size() == ni, "terms", [&] { return mc::str(what(), ": ", costs.size(), " costs, ", eqs.size(), " equality and ", ins.size(), " inequality constraints, expected ", nc, ", ", ne, ", ", ni); });
  if (costs.size() != nc || eqs.size() != ne || ins.size() != ni) return;
  nc = ne = ni = 0;
  for (auto& w : wants)
  {
    sco::Cost::Ptr cost = w.cost ? costs[nc++] : nullptr;
    sco::Constraint::Ptr cnt = w.cost ? nullptr : w.eq ? eqs[ne++] : ins[ni++];
    const std::string name = cost ? cost->name() : cnt->name();
    c.checkf(name == w.name, "term-name", [&] { return mc::str(what(), ": ", name, ", expected ", w.name); });
    if (cnt) c.checkf(cnt->type() == (w.eq ? sco::EQ : sco::INEQ), "term-type", what);
    for (auto& x : xs)
    {
      auto parts = w.parts(x);
      auto at = [&](auto got) { return mc::str(what(), ", ", w.name, " at ", mc::vec(x), " is ", got, ", expected ", mc::vec(parts)); };
      c.transitions();
      c.outcome(mc::Hash().d(std::round(total(parts) * 1e6)).u(w.cost).h);
      if (cost)
        c.checkf(mc::near(cost->value(x), total(parts), 1e-9), "term-value", [&] { return at(cost->value(x)); });
      else
      {
        auto v = cnt->violations(x);
        c.checkf(alike(positive(v), positive(parts), 1e-9) && mc::near(cnt->violation(x), total(parts), 1e-9), "term-violations", [&] { return at(mc::vec(v)); });
      }
      if (!w.convex) continue;
      // the convex model agrees at the point, and to first order around it
      std::function<double(const DblVec&)> model;
      sco::ConvexObjective::Ptr keep;
      sco::ConvexConstraints::Ptr cc;
      if (cost)
        keep = cost->convex(x, p.getModel().get()), model = costModel(p, *cost, x, keep);
      else
        cc = cnt->convex(x, p.getModel().get());
      auto compare = [&](const DblVec& y, double tol) {
        auto q = w.parts(y);
        c.transitions();
        auto off = [&](auto got) { return mc::str(what(), ", ", w.name, ", convex model at ", mc::vec(x), " evaluated at ", mc::vec(y), " is ", got, ", expected ", mc::vec(q)); };
        if (cost)
        {
          const double m = model(y);
          c.checkf(mc::near(m, total(q), tol), "term-model", [&] { return off(m); });
        }
        else
        {
          auto v = cc->violations(y);
          c.checkf(mc::near(total(v), total(q), tol), "term-model", [&] { return off(mc::vec(v)); });
        }
      };
      compare(x, 1e-6);
      if (h > 0)
        for (size_t k = 0; k < x.size(); ++k)
          for (double s : { h, -h })
          {
            if (w.frozen.count(k)) continue;
            DblVec y = x;
            y[k] += s;
            compare(y, slack * h);
          }
    }
    c.traces();
  }
}
inline ProblemConstructionInfo problem(const std::string& g, int n, bool time)
{
  auto p = start(g, n);
  p.basic_info.use_time = time;
  if (time)
  {
    auto t = std::make_shared<trajopt::TotalTimeTermInfo>();
    t->term_type = trajopt::TermType::TT_COST | trajopt::TermType::TT_USE_TIME, t->name = "time";
    p.cost_infos.push_back(t);
  }
  return p;
}
inline Json::Value problemJson(const std::string& g, int n, bool time)
{
  auto v = startJson(g, n);
  if (time)
  {
    Json::Value t;
    t["type"] = "total_time", t["use_time"] = true, t["params"] = Json::objectValue, t["name"] = "time";
    v["costs"].append(t);
  }
  return v;
}
// a term in a problem, three ways: described, described and constructed a second time, from JSON
template <class Term, class TermJson, class Wants>
void judgeDescription(mc::Ctx& c, const std::string& g, int n, bool time, bool cost, bool ownTime, bool fine, Term make, TermJson makeJson, Wants wants, double h, const std::vector<DblVec>& xs, const std::function<std::string()>& what, double slack = 0.05)
{
  auto pci = problem(g, n, time);
  const size_t from = pci.cost_infos.size();
  trajopt::TermInfo::Ptr t = make();
  t->name = "the term";
  t->term_type = (cost ? trajopt::TermType::TT_COST : trajopt::TermType::TT_CNT) | (ownTime ? trajopt::TermType::TT_USE_TIME : trajopt::TermType::TT_INVALID);
  (cost ? pci.cost_infos : pci.cnt_infos).push_back(t);
  auto js = problemJson(g, n, time);
  Json::Value tj = makeJson();
  const bool json = !tj.isNull();
  tj["name"] = "the term";
  if (ownTime) tj["use_time"] = true;
  js[cost ? "costs" : "constraints"].append(tj);
  c.state(mc::Hash().s(what()).h);
  for (int way = 0; way < (json ? 3 : 2); ++way)
  {
    auto how = [&] { return mc::str(what(), way == 0 ? ", described" : way == 1 ? ", constructed again" : ", from JSON"); };
    TrajOptProb::Ptr p;
    const bool refused = refuses([&] { p = way == 2 ? trajopt::ConstructProblem(js, env()) : trajopt::ConstructProblem(pci); });
    c.transitions();
    c.checkf(refused == !fine, refused ? "refused" : "accepted", how);
    if (!refused && fine) judgeTerms(c, *p, wants(), from, way == 1 ? std::vector<DblVec>{ xs.back() } : xs, h, how, slack);
  }
}
}  // namespace rob
