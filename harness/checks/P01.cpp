// P01: what ConstructProblem makes of a problem description, programmatically and from JSON.
#include <mc/mc.hpp>
#include <common/problem.hpp>
#include <trajopt_sco/optimizers.hpp>
#include <trajopt/utils.hpp>
using namespace mc;
using namespace rob;
using namespace trajopt;
const CheckInfo mc::info = { "P01", "exploration",
  "groups of 1, 2 and 4 joints x 1..4 steps x with and without time: every initialisation (data as row, column and in wrong shapes), every pair of fixed time steps and pair of fixed joints out of -1..n (and none), time bounds, each from "
  "JSON as well; every pair of terms over supported kinds x declared kinds x list (cost, constraint) x time setting; every section, key and pair of keys of the options, wrong and missing sections and values",
  { "robot and environment are stand-ins behind tesseract's interfaces", "the fixed values are read off what the bundled solver's routine is handed" } };
namespace
{
struct Dummy : TermInfo
{
  std::vector<int>* log;
  int id;
  Dummy(TermType sup, TermType t, std::vector<int>* l, int i) : TermInfo(sup), log(l), id(i) { term_type = t, name = "d" + std::to_string(i); }
  void fromJson(ProblemConstructionInfo&, const Json::Value&) override {}
  void hatch(TrajOptProb&) override { log->push_back(id); }
};
struct ZeroCost : sco::Cost
{
  using sco::Cost::Cost;
  double value(const DblVec&) override { return 0; }
  sco::ConvexObjective::Ptr convex(const DblVec&, sco::Model* m) override { return std::make_shared<sco::ConvexObjective>(m); }
  sco::VarVector getVars() override { return {}; }
};
struct ZeroCnt : sco::Constraint
{
  sco::ConstraintType t;
  ZeroCnt(std::string n, sco::ConstraintType t) : Constraint(std::move(n)), t(t) {}
  sco::ConstraintType type() override { return t; }
  DblVec value(const DblVec&) override { return { 0 }; }
  sco::ConvexConstraints::Ptr convex(const DblVec&, sco::Model* m) override { return std::make_shared<sco::ConvexConstraints>(m); }
  sco::VarVector getVars() override { return {}; }
};
const TermType kTime = TermType::TT_COST | TermType::TT_USE_TIME;
TermInfo::Ptr timeTerm()
{
  auto t = std::make_shared<TotalTimeTermInfo>();
  t->term_type = kTime, t->name = "time";
  return t;
}
struct Setup
{
  std::string g;
  int n;
  bool time;
  int init;   // 0 stationary, 1 interpolated row, 2 interpolated column, 3 given, 4.. wrong
  std::vector<int> ft, fd;
  double dt = 1, lo = 1, up = 1;
};
std::string show(const Setup& s)
{
  return str(s.g, ", ", s.n, " steps", s.time ? ", time" : "", ", initialisation ", s.init, ", fixed steps ", vec(s.ft), ", fixed joints ", vec(s.fd), ", dt ", s.dt, " in ", s.lo, "..", s.up);
}
TrajArray given(int rows, int cols)
{
  TrajArray t(rows, cols);
  for (int i = 0; i < rows; ++i)
    for (int j = 0; j < cols; ++j) t(i, j) = 0.125 * (i + 1) * (j % 2 ? -1 : 1) - 0.0625 * j;
  return t;
}
VectorXd goal(int dof)
{
  VectorXd g(dof);
  for (int j = 0; j < dof; ++j) g[j] = 0.75 - 0.5 * j;
  return g;
}
VectorXd current(const std::string& g)
{
  auto n = group(g)->getJointNames();
  VectorXd q(long(n.size()));
  for (size_t i = 0; i < n.size(); ++i) q[long(i)] = env()->state.at(n[i]);
  return q;
}
// shape of the data of each initialisation; false: has to be refused
bool initData(const Setup& s, int dof, InitInfo& i)
{
  i.dt = s.dt;
  switch (s.init)
  {
    case 0: i.type = InitInfo::STATIONARY; return true;
    case 1: i.type = InitInfo::JOINT_INTERPOLATED, i.data = goal(dof).transpose(); return true;
    case 2: i.type = InitInfo::JOINT_INTERPOLATED, i.data = goal(dof); return true;
    case 3: i.type = InitInfo::GIVEN_TRAJ, i.data = given(s.n, dof); return true;
    case 4: i.type = InitInfo::GIVEN_TRAJ, i.data = given(s.n + 1, dof); return false;
    case 5: i.type = InitInfo::GIVEN_TRAJ, i.data = given(s.n, dof + 1); return false;
    case 6: i.type = InitInfo::JOINT_INTERPOLATED, i.data = goal(dof + 1).transpose(); return false;
    case 7: i.type = InitInfo::JOINT_INTERPOLATED, i.data = given(2, dof + 1); return false;
    case 8: i.type = InitInfo::Type(7); return false;
    default: i.type = InitInfo::GIVEN_TRAJ, i.data = given(s.n, dof - 1); return dof == 0;
  }
}
TrajArray expectedInit(const Setup& s, int dof)
{
  TrajArray t(s.n, dof + s.time);
  for (int i = 0; i < s.n; ++i)
  {
    for (int j = 0; j < dof; ++j)
      if (s.init == 0)
        t(i, j) = current(s.g)[j];
      else if (s.init == 3)
        t(i, j) = given(s.n, dof)(i, j);
      else
        t(i, j) = s.n == 1 ? goal(dof)[j] : current(s.g)[j] + (goal(dof)[j] - current(s.g)[j]) * i / (s.n - 1);
    if (s.time) t(i, dof) = s.dt;
  }
  return t;
}
void judge(Ctx& c, const Setup& s, const std::function<TrajOptProb::Ptr()>& build, const char* how)
{
  const int dof = int(group(s.g)->numJoints());
  InitInfo ii;
  bool fine = initData(s, dof, ii);
  for (int t : s.ft) fine = fine && t >= 0 && t < s.n;
  for (int d : s.fd) fine = fine && d >= 0 && d < dof;
  auto what = [&] { return str(how, ": ", show(s)); };
  TrajOptProb::Ptr p;
  bool refused = refuses([&] { p = build(); });
  c.transitions();
  c.state(Hash().s(show(s)).h);
  c.outcome(Hash().u(refused).h);
  c.checkf(refused == !fine, refused ? "refused" : "accepted", what);
  if (refused) return c.traces();
  const int cols = dof + s.time;
  c.checkf(p->GetNumSteps() == s.n && p->GetNumDOF() == cols && p->GetHasTime() == s.time && p->getNumVars() == s.n * cols, "shape", what);
  c.checkf(p->GetKin() == group(s.g) && p->GetEnv() == env(), "kinematics", what);
  auto lim = group(s.g)->getLimits().joint_limits;
  auto d = handed(*p->getModel(), sco::QuadExpr());
  c.checkf(d.n() == s.n * cols, "variables", what);
  std::set<std::pair<int, double>> want;
  TrajArray init = expectedInit(s, dof);
  for (int i = 0; i < s.n; ++i)
    for (int j = 0; j < cols; ++j)
    {
      const size_t k = size_t(i * cols + j);
      const double lo = j < dof ? lim(j, 0) : s.lo, up = j < dof ? lim(j, 1) : s.up;
      sco::Var& v = p->GetVar(i, j);
      c.checkf(v.var_rep == p->getVars()[k].var_rep && v.var_rep->index == k, "arrangement", what);
      c.checkf(v.var_rep->name == (j < dof ? str("j_", i, "_", j) : str("dt_", i)), "name", [&] { return str(what(), ": ", v.var_rep->name); });
      c.checkf(p->getLowerBounds()[k] == lo && p->getUpperBounds()[k] == up && d.lb[k] == lo && d.ub[k] == up, "bounds", [&] { return str(what(), ": ", v.var_rep->name, " in ", p->getLowerBounds()[k], "..", p->getUpperBounds()[k]); });
      const bool fixed = j < dof && (std::count(s.ft.begin(), s.ft.end(), i) || std::count(s.fd.begin(), s.fd.end(), j));
      if (fixed) want.insert({ int(k), std::round(init(i, j) * 1e9) / 1e9 });
    }
  const TrajArray got = p->GetInitTraj();
  c.checkf(got.rows() == init.rows() && got.cols() == init.cols() && (got - init).cwiseAbs().maxCoeff() < 1e-12, "initial-trajectory", [&] {
    std::ostringstream o;
    o << what() << ":\n" << got << "\nexpected\n" << init;
    return o.str();
  });
  int others;
  auto rows = fixedValues(d, others);
  std::set<std::pair<int, double>> have(rows.begin(), rows.end());
  c.checkf(!others && have == want, "fixed-values", [&] { return str(what(), ": ", have.size(), " fixed values and ", others, " other rows, expected ", want.size()); });
  std::set<int> a(s.ft.begin(), s.ft.end()), b(s.fd.begin(), s.fd.end());
  if (a.size() == s.ft.size() && b.size() == s.fd.size()) c.checkf(rows.size() == have.size(), "fixed-twice", what);
  // the starting point and the result are arranged alike
  sco::OptResults r;
  for (int k = 0; k < s.n * cols; ++k) r.x.push_back(0.5 * k - 3);
  TrajOptResult res(r, *p);
  bool ok = res.traj.rows() == s.n && res.traj.cols() == cols;
  for (int i = 0; ok && i < s.n; ++i)
    for (int j = 0; j < cols; ++j) ok = ok && res.traj(i, j) == 0.5 * (i * cols + j) - 3;
  c.checkf(ok, "result-trajectory", what);
  c.traces();
}
ProblemConstructionInfo describe(const Setup& s)
{
  auto p = start(s.g, s.n);
  p.basic_info.fixed_timesteps = s.ft;
  p.basic_info.fixed_dofs = s.fd;
  p.basic_info.use_time = s.time;
  p.basic_info.dt_lower_lim = s.lo;
  p.basic_info.dt_upper_lim = s.up;
  initData(s, int(p.kin->numJoints()), p.init_info);
  if (s.time) p.cost_infos.push_back(timeTerm());
  return p;
}
Json::Value describeJson(const Setup& s)
{
  auto v = startJson(s.g, s.n);
  if (!s.ft.empty()) v["basic_info"]["fixed_timesteps"] = json(s.ft);
  if (!s.fd.empty()) v["basic_info"]["fixed_dofs"] = json(s.fd);
  if (s.lo != 1) v["basic_info"]["dt_lower_lim"] = s.lo;
  if (s.up != 1) v["basic_info"]["dt_upper_lim"] = s.up;
  InitInfo i;
  initData(s, int(group(s.g)->numJoints()), i);
  auto& w = v["init_info"];
  if (s.dt != 1) w["dt"] = s.dt;
  if (i.type == InitInfo::JOINT_INTERPOLATED)
  {
    w["type"] = "JOINT_Interpolated";
    w["endpoint"] = Json::Value(Json::arrayValue);
    for (long k = 0; k < i.data.size(); ++k) w["endpoint"].append(i.data.data()[k]);
  }
  else if (i.type == InitInfo::GIVEN_TRAJ)
  {
    w["type"] = "given_traj";
    w["data"] = Json::Value(Json::arrayValue);
    for (long r = 0; r < i.data.rows(); ++r)
    {
      Json::Value row(Json::arrayValue);
      for (long k = 0; k < i.data.cols(); ++k) row.append(i.data(r, k));
      w["data"].append(row);
    }
  }
  else if (i.type != InitInfo::STATIONARY)
    w["type"] = "somewhere";
  if (s.time)
  {
    Json::Value t;
    t["type"] = "total_time", t["use_time"] = true, t["params"] = Json::objectValue;
    v["costs"].append(t);
  }
  return v;
}
void construct(Ctx& c, const std::string& g, int n, bool time)
{
  const int dof = int(group(g)->numJoints());
  std::vector<std::vector<int>> ft = { {} }, fd = { {} };
  for (int a = -1; a <= n; ++a)
  {
    ft.push_back({ a });
    for (int b = -1; b <= n; ++b) ft.push_back({ a, b });
  }
  for (int a = -1; a <= dof; ++a)
  {
    fd.push_back({ a });
    if (dof <= 2 || c.thorough)
      for (int b = -1; b <= dof; ++b) fd.push_back({ a, b });
  }
  auto one = [&](const Setup& s) {
    c.beat();
    ProblemConstructionInfo p = describe(s);
    judge(c, s, [&] { return ConstructProblem(p); }, "from a description");
    judge(c, s, [&] { return ConstructProblem(p); }, "again from the same description");
    judge(c, s, [&] { return ConstructProblem(describeJson(s), env()); }, "from JSON");
  };
  for (int init = 0; init < 10; ++init)
    for (auto lim : std::vector<std::pair<double, double>>{ { 1, 1 }, { 0.5, 1 }, { 0.5, 3 } })
      for (double dt : { 1.0, 0.75 })
        if (time || (dt == 1 && lim.second == 1)) one({ g, n, time, init, {}, {}, dt, lim.first, lim.second });
  for (auto& a : ft)
    for (auto& b : fd) one({ g, n, time, 3, a, b, 1, 1, 1 });
  for (int init = 0; init < 3; ++init)
    for (int t = 0; t < n; ++t)
      for (int d = 0; d < dof; ++d) one({ g, n, time, init, { t }, { d }, 0.75, 0.5, 3 });
}
// declared and supported kinds of terms
void kinds(Ctx& c, int first)
{
  // one term: supported (8) x declared (8) x list (2), or none
  auto has = [](int m, TermType t) { return (m & int(t)) != 0; };
  for (int second = -1; second < 128; ++second)
    for (int flag = 0; flag < 2; ++flag)
    {
      std::vector<int> log, order;
      auto p = start("turn", 2);
      p.basic_info.use_time = flag;
      bool fine = true, time = false;
      int id = 0;
      std::vector<int> cnts;
      for (int k : { first, second })
      {
        if (k < 0) continue;
        const int sup = k & 7, decl = k >> 3 & 7;
        const bool cnt = k >> 6 & 1;
        auto t = std::make_shared<Dummy>(TermType(sup), TermType(decl), &log, id);
        (cnt ? p.cnt_infos : p.cost_infos).push_back(t);
        (cnt ? cnts : order).push_back(id++);
        fine = fine && has(sup, cnt ? TermType::TT_CNT : TermType::TT_COST) && (!has(decl, TermType::TT_USE_TIME) || has(sup, TermType::TT_USE_TIME));
        time = time || has(decl, TermType::TT_USE_TIME);
      }
      order.insert(order.end(), cnts.begin(), cnts.end());
      fine = fine && time == bool(flag);
      auto what = [&] { return str("terms ", first, ", ", second, " time ", flag); };
      TrajOptProb::Ptr q;
      const bool refused = refuses([&] { q = ConstructProblem(p); });
      c.transitions();
      c.state(Hash().u(first).u(second + 1).u(flag).h);
      c.checkf(refused == !fine, refused ? "terms-refused" : "terms-accepted", what);
      c.checkf(log == (fine ? order : std::vector<int>()), "terms-added", what);
      if (q) c.checkf(q->GetHasTime() == bool(flag), "terms-time", what);
      c.traces();
    }
}
struct Key { const char* name; std::function<void(sco::BasicTrustRegionSQPParameters&)> set; Json::Value v; };
bool sameOpts(const sco::BasicTrustRegionSQPParameters& a, const sco::BasicTrustRegionSQPParameters& b)
{
  return a.improve_ratio_threshold == b.improve_ratio_threshold && a.min_trust_box_size == b.min_trust_box_size && a.min_approx_improve == b.min_approx_improve && a.min_approx_improve_frac == b.min_approx_improve_frac &&
         a.max_iter == b.max_iter && a.trust_shrink_ratio == b.trust_shrink_ratio && a.trust_expand_ratio == b.trust_expand_ratio && a.cnt_tolerance == b.cnt_tolerance &&
         a.max_merit_coeff_increases == b.max_merit_coeff_increases && a.merit_coeff_increase_ratio == b.merit_coeff_increase_ratio && a.max_time == b.max_time && a.initial_merit_error_coeff == b.initial_merit_error_coeff &&
         a.inflate_constraints_individually == b.inflate_constraints_individually && a.trust_box_size == b.trust_box_size;
}
void options(Ctx& c)
{
#define KEY(n, val) Key{ #n, [](sco::BasicTrustRegionSQPParameters& p) { p.n = val; }, Json::Value(val) }
  const std::vector<Key> keys = { KEY(improve_ratio_threshold, 0.11), KEY(min_trust_box_size, 0.012), KEY(min_approx_improve, 0.013), KEY(min_approx_improve_frac, 0.014), KEY(max_iter, 15.0), KEY(trust_shrink_ratio, 0.16),
    KEY(trust_expand_ratio, 1.7), KEY(cnt_tolerance, 0.018), KEY(max_merit_coeff_increases, 19.0), KEY(merit_coeff_increase_ratio, 2.5), KEY(max_time, 21.5), KEY(initial_merit_error_coeff, 22.5),
    KEY(inflate_constraints_individually, false), KEY(trust_box_size, 0.24) };
  std::vector<Json::Value> val;
  for (auto& k : keys) val.push_back(std::string(k.name) == "max_iter" || std::string(k.name) == "max_merit_coeff_increases" ? Json::Value(int(k.v.asDouble())) : k.v);
  for (int inflate = 0; inflate < 2; ++inflate)
    for (size_t a = 0; a < keys.size(); ++a)
      for (size_t b = a; b < keys.size(); ++b)
      {
        auto v = startJson("turn", 2);
        sco::BasicTrustRegionSQPParameters want;
        ProblemConstructionInfo p(env());
        p.opt_info.max_iter = want.max_iter = 77;   // options not named keep what they have
        p.opt_info.inflate_constraints_individually = want.inflate_constraints_individually = inflate;
        for (size_t k : { a, b }) keys[k].set(want), v["opt_info"][keys[k].name] = val[k];
        p.fromJson(v);
        c.transitions(), c.traces(), c.state(Hash().u(a).u(b).u(inflate).h);
        c.checkf(sameOpts(p.opt_info, want), "options", [&] { return str(keys[a].name, " and ", keys[b].name); });
      }
}
void sections(Ctx& c)
{
  auto read = [&](const Json::Value& v, const std::string& what, bool fine, const std::function<bool(ProblemConstructionInfo&)>& ok = nullptr) {
    ProblemConstructionInfo p(env());
    const bool refused = refuses([&] { p.fromJson(v); });
    c.transitions(), c.traces(), c.state(Hash().s(what).h);
    c.checkf(refused == !fine, refused ? "json-refused" : "json-accepted", [&] { return what; });
    if (!refused && ok) c.checkf(ok(p), "json-read", [&] { return what; });
  };
  Json::Value base = startJson("pair", 3);
  read(base, "as it should be", true, [](ProblemConstructionInfo& p) {
    return p.basic_info.n_steps == 3 && p.basic_info.manip == "pair" && p.kin == pairGroup() && p.basic_info.fixed_timesteps.empty() && p.basic_info.fixed_dofs.empty() && p.basic_info.dt_lower_lim == 1 &&
           p.basic_info.dt_upper_lim == 1 && !p.basic_info.use_time && p.init_info.dt == 1 && p.cost_infos.empty() && p.cnt_infos.empty() && p.init_info.type == InitInfo::STATIONARY;
  });
  for (const char* s : { "basic_info", "init_info" })
  {
    auto v = base;
    v.removeMember(s);
    read(v, str("without ", s), false);
  }
  for (const char* k : { "n_steps", "manip" })
  {
    auto v = base;
    v["basic_info"].removeMember(k);
    read(v, str("without ", k), false);
  }
  auto v = base;
  v["basic_info"]["manip"] = "nobody";
  read(v, "unknown group", false);
  v = base;
  v["init_info"].removeMember("type");
  read(v, "initialisation without type", false);
  for (auto t : { "stationary", "STATIONARY", "Stationary", "given", "", "stationary " })
  {
    v = base;
    v["init_info"]["type"] = t;
    read(v, str("initialisation '", t, "'"), std::string(t).size() == 10);
  }
  for (auto t : { "given_traj", "joint_interpolated" })
  {
    v = base;
    v["init_info"]["type"] = t;
    read(v, str(t, " without data"), false);
  }
  for (double lo : { -1.0, 0.0, 0.25, 1.0, 2.0 })
    for (double up : { -1.0, 0.0, 0.25, 1.0, 2.0 })
    {
      v = base;
      v["basic_info"]["dt_lower_lim"] = lo, v["basic_info"]["dt_upper_lim"] = up;
      read(v, str("time bounds ", lo, "..", up), lo > 0 && up >= lo, [&](ProblemConstructionInfo& p) { return p.basic_info.dt_lower_lim == lo && p.basic_info.dt_upper_lim == up; });
    }
  for (bool time : { false, true })
  {
    v = base;
    v["basic_info"]["use_time"] = time;
    read(v, str("time ", time), true, [&](ProblemConstructionInfo& p) { return p.basic_info.use_time == time; });
    c.checkf(refuses([&] { ConstructProblem(v, env()); }) == time, "time-without-terms", [] { return std::string("time asked for, no term uses it"); });
  }
  // terms: kind, list, name and use of time as written, in order
  for (const char* list : { "costs", "constraints" })
    for (int mask = 0; mask < 27; ++mask)
    {
      v = base;
      bool fine = true;
      bool time = false;
      std::vector<std::string> names;
      std::vector<int> types;
      for (int k = 0, m = mask; k < 3; ++k, m /= 3)
      {
        Json::Value t;
        t["type"] = k == 2 ? "joint_vel" : "joint_pos";
        t["params"]["targets"] = json(DblVec{ 0, 0.5 * k });
        if (m % 3 == 1) t["name"] = str("own ", k);
        if (m % 3 == 2) t["use_time"] = true, time = true;
        names.push_back(m % 3 == 1 ? str("own ", k) : t["type"].asString());
        types.push_back(int(std::string(list) == "costs" ? TermType::TT_COST : TermType::TT_CNT) | (m % 3 == 2 ? int(TermType::TT_USE_TIME) : 0));
        v[list].append(t);
      }
      read(v, str(list, " ", mask), fine, [&](ProblemConstructionInfo& p) {
        auto& l = std::string(list) == "costs" ? p.cost_infos : p.cnt_infos;
        auto& o = std::string(list) == "costs" ? p.cnt_infos : p.cost_infos;
        bool ok = l.size() == 3 && o.empty() && p.basic_info.use_time == time;
        for (size_t k = 0; ok && k < 3; ++k) ok = l[k]->name == names[k] && int(l[k]->term_type) == types[k];
        return ok;
      });
    }
  for (const char* list : { "costs", "constraints" })
    for (auto t : { "nothing", "", "Joint_pos" })
    {
      v = base;
      Json::Value w;
      w["type"] = t, w["params"]["targets"] = json(DblVec{ 0, 0 });
      v[list].append(w);
      read(v, str(list, ": type '", t, "'"), false);
      v = base;
      w.removeMember("type");
      v[list].append(w);
      read(v, str(list, ": no type"), false);
    }
  // a term kind of the user's own
  static std::vector<int> log;
  log.clear();
  TermInfo::RegisterMaker("mine", [] { return TermInfo::Ptr(std::make_shared<Dummy>(TermType::TT_COST, TermType::TT_INVALID, &log, 5)); });
  v = base;
  Json::Value w;
  w["type"] = "mine";
  v["costs"].append(w);
  bool refused = refuses([&] { ConstructProblem(v, env()); });
  c.checkf(!refused && log == std::vector<int>{ 5 }, "own-kind", [] { return std::string("a registered kind of term"); });
  // results carry the names of the terms in the order of their values
  for (int n = 0; n < 4; ++n)
    for (int m = 0; m < 16; ++m)
    {
      auto p = ConstructProblem(start("pair", 2));
      std::vector<std::string> cn, eq, in;
      for (int k = 0; k < n; ++k) p->addCost(std::make_shared<ZeroCost>(str("cost", k))), cn.push_back(str("cost", k));
      for (int k = 0; k < 4; ++k)
      {
        const bool e = m >> k & 1;
        p->addConstraint(std::make_shared<ZeroCnt>(str("cnt", k), e ? sco::EQ : sco::INEQ));
        (e ? eq : in).push_back(str("cnt", k));
      }
      eq.insert(eq.end(), in.begin(), in.end());
      sco::OptResults r;
      r.x = { 1, 2, 3, 4 };
      r.cost_vals = DblVec(size_t(n), 0.5), r.cnt_viols = { 1, 2, 3, 4 };
      r.status = sco::OPT_SCO_ITERATION_LIMIT;
      TrajOptResult t(r, *p);
      c.transitions(), c.traces();
      c.checkf(t.cost_names == cn && t.cnt_names == eq && t.cost_vals == r.cost_vals && t.cnt_viols == r.cnt_viols && t.status == r.status && t.traj(0, 0) == 1 && t.traj(0, 1) == 2 && t.traj(1, 0) == 3 && t.traj(1, 1) == 4,
               "result", [&] { return str("result with ", n, " costs, constraints ", m); });
    }
}
}  // namespace
void mc::explore(Ctx& c)
{
  for (std::string g : { "turn", "pair", "arm" })
    for (int n = 1; n <= (c.thorough ? 5 : 4); ++n)
      for (bool time : { false, true })
        c.item([=] { return str(g, ", ", n, " steps", time ? ", time" : ""); }, [=, &c] { WireOn w; construct(c, g, n, time); });
  for (int k = 0; k < 128; k += 8)
    c.item([=] { return str("kinds of terms ", k); }, [=, &c] { WireOn w; for (int i = k; i < k + 8; ++i) kinds(c, i); });
  c.item([] { return std::string("options"); }, [&] { WireOn w; options(c); });
  c.item([] { return std::string("sections"); }, [&] { WireOn w; sections(c); });
}
