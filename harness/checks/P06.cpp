// P06: what is logged and drawn while a problem is optimised.
#include <mc/mc.hpp>
#include <common/scene.hpp>
#include <trajopt/file_write_callback.hpp>
#include <trajopt/plot_callback.hpp>
#include <trajopt_sco/optimizers.hpp>
#include <trajopt_ifopt/constraints/cartesian_position_constraint.h>
#include <trajopt_sqp/callbacks/cartesian_error_plotter.h>
#include <trajopt_sqp/callbacks/clear_plotter.h>
#include <trajopt_sqp/callbacks/joint_state_plotter.h>
#include <trajopt_sqp/callbacks/wait_for_input.h>
#include <trajopt_sqp/ifopt_qp_problem.h>
#include <trajopt_sqp/types.h>
#include <fstream>
#include <sstream>
#include <unistd.h>
using namespace mc;
using namespace rob;
using namespace trajopt;
namespace viz = tesseract::visualization;
const CheckInfo mc::info = { "P06", "model_checking",
  "5 groups x 1..4 steps x with and without time x 8 sets of pose terms x every sequence of 3 (thorough 4) iterates out of 3 through the log and the drawing call back of one problem; every sequence of 3 (4) moves and "
  "call backs of the SQP library's drawing call backs x 4 groups x 1..3 steps x 3 orders",
  { "robot, environment and display are stand-ins behind tesseract's interfaces", "the log is read back to the six digits the stream writes" }, 60 };
namespace
{
// ---- a display that records ---------------------------------------------------------------------------------------------
struct Event
{
  char what;                                   // c clear, w wait, t trajectory, x axis, > arrow, ? other
  Isometry3d pose = Isometry3d::Identity();
  Vector3d a = Vector3d::Zero(), b = Vector3d::Zero();
  tesseract::common::JointTrajectory traj;
};
struct Display : viz::Visualization
{
  std::vector<Event> log;
  void plotMarker(const viz::Marker& m, std::string) override
  {
    Event e{ '?' };
    if (auto* x = dynamic_cast<const viz::AxisMarker*>(&m)) e.what = 'x', e.pose = x->axis;
    if (auto* x = dynamic_cast<const viz::ArrowMarker*>(&m)) e.what = '>', e.a = x->from, e.b = x->to;
    log.push_back(e);
  }
  void plotTrajectory(const tesseract::common::JointTrajectory& t, const tesseract::scene_graph::StateSolver&, std::string) override
  {
    Event e{ 't' };
    e.traj = t, log.push_back(e);
  }
  void clear(std::string) override { log.push_back({ 'c' }); }
  void waitForInput(std::string) override { log.push_back({ 'w' }); }
  std::string kinds() const
  {
    std::string s;
    for (auto& e : log) s += e.what;
    return s;
  }
};
// the poses to be drawn, in any order: an axis at each source and target and an arrow from one to the other
struct Pair { Isometry3d source, target; };
std::string drawn(const std::vector<Event>& log, const std::vector<Pair>& want)
{
  std::vector<bool> used(log.size());
  auto take = [&](auto match) {
    for (size_t i = 0; i < log.size(); ++i)
      if (!used[i] && match(log[i])) return (used[i] = true, true);
    return false;
  };
  for (size_t k = 0; k < want.size(); ++k)
  {
    auto &s = want[k].source, &t = want[k].target;
    if (!take([&](const Event& e) { return e.what == 'x' && e.pose.isApprox(s, 1e-9); })) return str("no axis at the source of term ", k);
    if (!take([&](const Event& e) { return e.what == 'x' && e.pose.isApprox(t, 1e-9); })) return str("no axis at the target of term ", k);
    if (!take([&](const Event& e) { return e.what == '>' && (e.a - s.translation()).norm() < 1e-9 && (e.b - t.translation()).norm() < 1e-9; })) return str("no arrow from source to target of term ", k);
  }
  for (size_t i = 0; i < log.size(); ++i)
    if (!used[i] && (log[i].what == 'x' || log[i].what == '>' || log[i].what == '?')) return str("marker ", i, " belongs to no term");
  return "";
}
std::string sameTraj(const std::vector<Event>& log, const std::vector<std::string>& names, const std::vector<VectorXd>& rows)
{
  const Event* t = nullptr;
  for (auto& e : log)
    if (e.what == 't')
    {
      if (t) return "two trajectories";
      t = &e;
    }
  if (!t) return "no trajectory";
  if (t->traj.states.size() != rows.size()) return str(t->traj.states.size(), " states");
  for (size_t i = 0; i < rows.size(); ++i)
  {
    auto& s = t->traj.states[i];
    if (s.joint_names != names) return str("state ", i, " has the names ", [&] { std::string n; for (auto& k : s.joint_names) n += k + " "; return n; }());
    if (s.position.size() != rows[i].size()) return str("state ", i, " has ", s.position.size(), " values for ", names.size(), " joints");
    if ((s.position - rows[i]).cwiseAbs().maxCoeff() > 1e-12) return str("state ", i, " is ", vec(s.position), " instead of ", vec(rows[i]));
  }
  return "";
}
// ---- legacy problems -----------------------------------------------------------------------------------------------------
struct Shown                                   // a pose term
{
  int step;
  std::string source, target;
  Isometry3d so, to;
  bool cost;
};
std::vector<Shown> shownTerms(const std::string& g, int n, int set)
{
  const std::string link = g == "turn" ? "part" : "tool";
  const Isometry3d so = pose(0.01, -0.02, 0.03, 0.4, Vector3d(1, 2, 0)), to = pose(0.5, 0.1, 0.3, -0.7, Vector3d(0, 1, 1));
  std::vector<Shown> v;
  if (set & 1) v.push_back({ 0, link, "world", Isometry3d::Identity(), to, true });
  if (set & 2) v.push_back({ n - 1, link, "table", so, to, false });
  if (set & 4) v.push_back({ n / 2, "table", link, to, so, true });
  return v;
}
ProblemConstructionInfo problemOf(const std::string& g, int n, bool time, const std::vector<Shown>& terms)
{
  auto p = start(g, n);
  p.basic_info.use_time = time;
  if (time) p.basic_info.dt_lower_lim = 0.5, p.basic_info.dt_upper_lim = 4;
  p.init_info.type = InitInfo::STATIONARY;
  const size_t dof = size_t(group(g)->numJoints());
  auto j = std::make_shared<JointPosTermInfo>();
  j->coeffs = DblVec(dof, 1), j->targets = DblVec(dof, 0), j->first_step = 0, j->last_step = n - 1, j->name = "near zero", j->term_type = TermType::TT_COST;
  p.cost_infos.push_back(j);
  if (time)
  {
    auto t = std::make_shared<TotalTimeTermInfo>();
    t->coeff = 1, t->limit = 0, t->name = "short", t->term_type = TermType::TT_COST | TermType::TT_USE_TIME;
    p.cost_infos.push_back(t);
  }
  int k = 0;
  for (auto& s : terms)
  {
    auto t = std::make_shared<CartPoseTermInfo>();
    t->timestep = s.step, t->source_frame = s.source, t->target_frame = s.target, t->source_frame_offset = s.so, t->target_frame_offset = s.to;
    t->pos_coeffs.setConstant(10), t->rot_coeffs.setConstant(5);
    t->name = str("pose", k++), t->term_type = s.cost ? TermType::TT_COST : TermType::TT_CNT;
    (s.cost ? p.cost_infos : p.cnt_infos).push_back(t);
  }
  return p;
}
std::vector<std::string> split(const std::string& s)
{
  std::vector<std::string> v;
  std::string cell;
  std::istringstream in(s);
  while (std::getline(in, cell, ',')) v.push_back(cell);
  return v;
}
// a row: the variables, then after each link's name its pose, then the rest
struct Row
{
  std::vector<double> vars, rest;
  std::map<std::string, std::vector<double>> poses;
  std::string wrong;
};
Row readRow(const std::string& line, const std::vector<std::string>& links)
{
  Row r;
  std::vector<std::pair<size_t, std::string>> at;
  for (auto& l : links)
  {
    const std::string key = l + ": ";
    size_t p = line.find(key);
    while (p != std::string::npos && p > 0 && (isalpha(line[p - 1]) || line[p - 1] == '_')) p = line.find(key, p + 1);
    if (p == std::string::npos) { r.wrong = "no pose of " + l; return r; }
    at.push_back({ p, l });
  }
  std::sort(at.begin(), at.end());
  auto numbers = [&](const std::string& s) {
    std::vector<double> v;
    for (auto& cell : split(s))
    {
      if (cell.find_first_not_of(" \t\r") == std::string::npos) continue;
      char* e;
      v.push_back(std::strtod(cell.c_str(), &e));
      while (*e == ' ') ++e;
      if (*e) r.wrong = "no number: " + cell;
    }
    return v;
  };
  r.vars = numbers(line.substr(0, at[0].first));
  for (size_t k = 0; k < at.size(); ++k)
  {
    const size_t from = at[k].first + at[k].second.size() + 2;
    auto v = numbers(line.substr(from, k + 1 < at.size() ? at[k + 1].first - from : std::string::npos));
    if (v.size() < 7 || (k + 1 < at.size() && v.size() != 7)) { r.wrong = "ill-formed pose of " + at[k].second; return r; }
    r.rest.assign(v.begin() + 7, v.end());
    v.resize(7);
    r.poses[at[k].second] = v;
  }
  return r;
}
bool close(double a, double b) { return std::fabs(a - b) <= 2e-5 * std::fabs(b) + 2e-6; }
struct TempFile
{
  char name[32] = "/tmp/p06-XXXXXX";
  TempFile() { const int f = mkstemp(name); if (f < 0) throw std::runtime_error("mkstemp"); ::close(f); }
  ~TempFile() { unlink(name); }
};
std::string judgeLog(const std::string& text, const JG& kin, bool time, int n, const TrajOptProb::Ptr& prob, const std::vector<sco::OptResults>& its)
{
  std::vector<std::string> lines;
  std::string l;
  std::istringstream in(text);
  while (std::getline(in, l))
    if (!l.empty()) lines.push_back(l);
  if (lines.size() != 1 + its.size() * size_t(n)) return str(lines.size(), " lines");
  // the header names the variables first and the terms last
  auto head = split(lines[0]);
  std::vector<std::string> front = kin->getJointNames(), back;
  for (auto& k : prob->getCosts()) back.push_back(k->name());
  for (auto& k : prob->getConstraints()) back.push_back(k->name());
  if (head.size() != front.size() + time + 7 + back.size()) return "columns: " + lines[0];
  if (!std::equal(front.begin(), front.end(), head.begin())) return "names of the joints: " + lines[0];
  if (!std::equal(back.begin(), back.end(), head.end() - long(back.size()))) return "names of the terms: " + lines[0];
  const auto links = kin->getLinkNames();
  const int cols = int(kin->numJoints()) + time;
  for (size_t k = 0; k < its.size(); ++k)
    for (int i = 0; i < n; ++i)
    {
      auto where = [&](auto... a) { return str("iterate ", k, ", step ", i, ": ", a...); };
      auto r = readRow(lines[1 + k * size_t(n) + size_t(i)], links);
      if (!r.wrong.empty()) return where(r.wrong);
      if (int(r.vars.size()) != cols) return where(r.vars.size(), " variables");
      VectorXd q(kin->numJoints());
      for (int j = 0; j < cols; ++j)
      {
        const double x = its[k].x[size_t(prob->GetVar(i, j).var_rep->index)];
        if (j < q.size()) q[j] = x;
        if (!close(r.vars[size_t(j)], x)) return where("variable ", j, " is ", r.vars[size_t(j)], " instead of ", x);
      }
      for (auto& p : kin->calcFwdKin(q))
      {
        auto& v = r.poses.at(p.first);
        const Eigen::Quaterniond o(p.second.rotation());
        const Vector3d t = p.second.translation();
        const double s = v[3] * o.w() + v[4] * o.x() + v[5] * o.y() + v[6] * o.z() < 0 ? -1 : 1;
        const double want[7] = { t.x(), t.y(), t.z(), s * o.w(), s * o.x(), s * o.y(), s * o.z() };
        for (int m = 0; m < 7; ++m)
          if (!close(v[size_t(m)], want[m])) return where("pose of ", p.first, " component ", m, " is ", v[size_t(m)], " instead of ", want[m]);
      }
      std::vector<double> rest = its[k].cost_vals;
      rest.insert(rest.end(), its[k].cnt_viols.begin(), its[k].cnt_viols.end());
      if (r.rest.size() != rest.size()) return where(r.rest.size(), " values of terms");
      for (size_t m = 0; m < rest.size(); ++m)
        if (!close(r.rest[m], rest[m])) return where("value ", m, " is ", r.rest[m], " instead of ", rest[m]);
    }
  return "";
}
void legacy(Ctx& c, const std::string& g, int n, bool time, int set)
{
  const auto kin = group(g);
  const int dof = int(kin->numJoints());
  const auto terms = shownTerms(g, n, set);
  Dfs d(c);
  d.run([&] {
    WireOn w;
    c.beat();
    auto prob = ConstructProblem(problemOf(g, n, time, terms));
    TempFile file;
    auto disp = std::make_shared<Display>();
    auto out = std::make_shared<std::ofstream>(file.name);
    auto log = WriteCallback(out, prob);
    auto draw = PlotCallback(disp);
    std::vector<sco::OptResults> its;
    const int depth = c.thorough ? 4 : 3;
    auto what = [&](const std::string& s) { return str(g, ", ", n, " steps", time ? " with time" : "", ", terms ", set, ", iterates ", d.pathText(), ": ", s); };
    for (int k = 0; k < depth; ++k)
    {
      const int pick = d.choose(3);
      sco::OptResults r;
      r.x.assign(prob->getVars().size(), 0);
      std::vector<VectorXd> q;
      for (int i = 0; i < n; ++i)
      {
        q.push_back(0.3 * cfg(kin, (pick + i) % 5) + VectorXd::Constant(dof, 0.01 * pick));
        for (int j = 0; j < dof; ++j) r.x[size_t(prob->GetVar(i, j).var_rep->index)] = q.back()[j];
        if (time) r.x[size_t(prob->GetVar(i, dof).var_rep->index)] = 1 + 0.25 * i + pick;
      }
      r.cost_vals = prob->getCosts().empty() ? DblVec() : DblVec(prob->getCosts().size());
      for (size_t m = 0; m < r.cost_vals.size(); ++m) r.cost_vals[m] = prob->getCosts()[m]->value(r.x);
      r.cnt_viols.resize(prob->getConstraints().size());
      for (size_t m = 0; m < r.cnt_viols.size(); ++m) r.cnt_viols[m] = prob->getConstraints()[m]->violation(r.x);
      const sco::OptResults before = r;
      log(prob.get(), r);
      disp->log.clear();
      draw(prob.get(), r);
      c.transitions(2);
      its.push_back(before);
      c.checkf(r.x == before.x && r.cost_vals == before.cost_vals && r.cnt_viols == before.cnt_viols && r.status == before.status, "changes-the-results", [&] { return what(""); });
      const std::string kinds = disp->kinds();
      c.checkf(!kinds.empty() && kinds.front() == 'c' && kinds.find('c', 1) == std::string::npos, "clear-first", [&] { return what(kinds); });
      c.checkf(std::count(kinds.begin(), kinds.end(), 'w') == 1 && kinds.back() == 'w', "wait-last", [&] { return what(kinds); });
      std::vector<Pair> want;
      for (auto& t : terms)
      {
        auto f = kin->calcFwdKin(q[size_t(t.step)]);
        want.push_back({ f.at(t.source) * t.so, f.at(t.target) * t.to });
      }
      const std::string e1 = drawn(disp->log, want), e2 = sameTraj(disp->log, kin->getJointNames(), q);
      c.checkf(e1.empty(), "drawn-poses", [&] { return what(e1); });
      c.checkf(e2.empty(), "drawn-trajectory", [&] { return what(e2); });
      if (!time)
      {
        // the one that does not need the problem's kind
        const tesseract::scene_graph::StateSolver solver;
        const auto names = kin->getJointNames();
        disp->log.clear();
        PlotProbCallback(disp, solver, names)(prob.get(), r);
        const std::string e3 = drawn(disp->log, want), e4 = sameTraj(disp->log, names, q);
        c.checkf(e3.empty(), "drawn-poses-of-any-problem", [&] { return what(e3); });
        c.checkf(e4.empty(), "drawn-trajectory-of-any-problem", [&] { return what(e4); });
      }
      // the file is readable at any time
      std::ifstream in(file.name);
      std::stringstream text;
      text << in.rdbuf();
      const std::string e = judgeLog(text.str(), kin, time, n, prob, its);
      c.checkf(e.empty(), "log", [&] { return what(e); });
      c.state(Hash().s(g).u(unsigned(n)).u(unsigned(set)).u(time).s(d.pathText()).h);
    }
    c.traces();
  });
}
// ---- the SQP library's call backs -----------------------------------------------------------------------------------------
void modern(Ctx& c, const std::string& g, int n, int order, const std::string& target)
{
  const auto kin = group(g);
  const std::string link = g == "turn" ? "part" : "tool";
  const int depth = c.thorough ? 4 : 3;
  Dfs d(c);
  d.run([&] {
    c.beat();
    std::vector<VectorXd> q;
    for (int i = 0; i < n; ++i) q.push_back(0.3 * cfg(kin, i));
    Traj t(kin, q);
    auto disp = std::make_shared<Display>();
    trajopt_sqp::JointStatePlottingCallback states(disp, std::make_unique<tesseract::scene_graph::StateSolver>());
    trajopt_sqp::CartesianErrorPlottingCallback errors(disp);
    trajopt_sqp::ClearPlotterCallback clear(disp);
    trajopt_sqp::WaitForInputCallback wait(disp);
    // the variables in order, backwards, or the last one on its own and then the others
    std::vector<int> idx;
    for (int i = 0; i < n; ++i) idx.push_back(order == 1 ? n - 1 - i : order == 2 ? (i + n - 1) % n : i);
    std::vector<std::shared_ptr<const Var>> list;
    for (int i : idx) list.push_back(t.v[size_t(i)]);
    if (order == 2)
      states.addVariableSet(list[0]), states.addVariableSet({ list.begin() + 1, list.end() });
    else
      states.addVariableSet(list);
    const Isometry3d so = pose(0.01, -0.02, 0.03, 0.4, Vector3d(1, 2, 0)), to = pose(0.5, 0.1, 0.3, -0.7, Vector3d(0, 1, 1));
    std::vector<std::shared_ptr<const CartPosConstraint>> cnts;
    for (int i : idx) cnts.push_back(std::make_shared<CartPosConstraint>(t.v[size_t(i)], kin, link, target, so, to));
    if (order == 2)
      errors.addConstraintSet(cnts[0]), errors.addConstraintSet({ cnts.begin() + 1, cnts.end() });
    else
      errors.addConstraintSet(cnts);
    trajopt_sqp::IfoptQPProblem qp(t.vars);
    const trajopt_sqp::SQPResults results;
    auto what = [&](const std::string& s) { return str(g, ", ", n, " steps, order ", order, ", target in ", target, ", ", d.pathText(), ": ", s); };
    for (int k = 0; k < depth; ++k)
    {
      const int move = d.choose(4), cb = d.choose(4);
      if (move > 0)                                    // 0: stays
      {
        for (int i = 0; i < n; ++i) q[size_t(i)] = 0.3 * cfg(kin, (move + i) % 5) + VectorXd::Constant(kin->numJoints(), 0.01 * move);
        VectorXd x(n * kin->numJoints());
        for (int i = 0; i < n; ++i) x.segment(i * kin->numJoints(), kin->numJoints()) = q[size_t(i)];
        t.vars->setVariables(x);
      }
      disp->log.clear();
      bool go = false;
      std::string e;
      const char* key = cb == 0 ? "sqp-trajectory" : cb == 1 ? "sqp-poses" : "sqp-display";
      if (cb == 0)
      {
        go = states.execute(qp, results);
        std::vector<VectorXd> want;
        for (int i : idx) want.push_back(q[size_t(i)]);
        e = sameTraj(disp->log, kin->getJointNames(), want);
        if (disp->log.size() != 1) e = disp->kinds();
      }
      else if (cb == 1)
      {
        go = errors.execute(qp, results);
        std::vector<Pair> want;
        for (int i : idx)
        {
          auto f = kin->calcFwdKin(q[size_t(i)]);
          want.push_back({ f.at(link) * so, f.at(target) * to });
        }
        e = drawn(disp->log, want);
      }
      else if (cb == 2)
        go = clear.execute(qp, results), e = disp->kinds() == "c" ? "" : disp->kinds();
      else
        go = wait.execute(qp, results), e = disp->kinds() == "w" ? "" : disp->kinds();
      c.transitions();
      c.checkf(go, "call-back-stops-the-optimisation", [&] { return what(""); });
      c.checkf(e.empty(), key, [&] { return what(e); });
      for (int i = 0; i < n; ++i) c.checkf(t.v[size_t(i)]->value() == q[size_t(i)], "call-back-moves-variables", [&] { return what(""); });
      c.state(Hash().s(g).u(unsigned(n)).u(unsigned(order)).s(target).s(d.pathText()).h);
    }
    c.traces();
  });
}
}  // namespace
void mc::explore(Ctx& c)
{
  for (std::string g : { "turn", "pair", "arm", "both", "slide" })
    for (int n = 1; n <= 4; ++n)
      for (bool time : { false, true })
        c.item([=] { return str("log ", g, ", ", n, " steps", time ? ", time" : ""); }, [=, &c] {
          for (int set = 0; set < 8; ++set) legacy(c, g, n, time, set);
        });
  for (std::string g : { "turn", "pair", "arm", "both" })
    for (int n = 1; n <= 3; ++n)
      for (int order = 0; order < 3; ++order) c.item([=] { return str("sqp call backs ", g, ", ", n, " steps, order ", order); }, [=, &c] {
        for (auto target : { "world", "table" }) modern(c, g, n, order, target);
      });
}
