// P05: a described problem, optimised end to end with an accurate QP solver at the back end.
#include <mc/mc.hpp>
#include <common/scene.hpp>
#include <common/qp_ipm.hpp>
using namespace mc;
using namespace rob;
using namespace trajopt;
const CheckInfo mc::info = { "P05", "model_checking",
  "convex problems: 2 groups x 2..4 (thorough 6) steps x 6 kinds of end x 4 middle terms x 5 speed limits x with and without accelerations x 4 starts against the exact optimum; not convex: 4 groups x 2..3 (4) steps x 25 pairs of "
  "configurations x 4 sets of components x cost and constraint x with and without time; time-optimal motions of 2 groups x 3 speeds x 3 starts; contacts: 2..4 (5) steps x 2 ways of checking x 25 pairs x 7 sets of points x 2 margins x free and "
  "fixed ends; every sequence of 3 optimisations out of 6 (8) problems or the last one again; solver failures of 5 lengths from every QP on in 8 problems",
  { "robot, environment and contact checker are scripted stand-ins behind tesseract's interfaces", "the QPs are solved by an interior point method whose result is certified by its residual" }, 60 };
namespace
{
constexpr double INF = INFINITY;
// ---- the QP solver -----------------------------------------------------------------------------------------------------
struct Solver
{
  int calls = 0, unsolved = 0;
  std::function<bool(int)> fails;              // the QP with this number is reported as failed
  double box = 0;                              // of the last QP
  Solver()
  {
    wire::solver = [this](wire::Problem& p) {
      const auto d = wire::decode(p);
      const int n = d.n();
      MatrixXd P = MatrixXd::Zero(n, n), A = MatrixXd::Zero(n + long(d.rows.size()), n);
      VectorXd q(n), l(A.rows()), u(A.rows());
      for (auto& k : d.q) P(k.first.first, k.first.second) += k.second, P(k.first.second, k.first.first) += k.second;
      for (int i = 0; i < n; ++i) A(i, i) = 1, q[i] = d.c[size_t(i)], l[i] = d.lb[size_t(i)], u[i] = d.ub[size_t(i)];
      box = 0;
      for (int i = 0; i < n; ++i)
        if (std::isfinite(l[i]) && std::isfinite(u[i])) box = std::max(box, (u[i] - l[i]) / 2);
      for (size_t r = 0; r < d.rows.size(); ++r)
      {
        for (auto& a : d.rows[r].a) A(n + long(r), a.first) += a.second;
        l[n + long(r)] = d.rows[r].lo, u[n + long(r)] = d.rows[r].hi;
      }
      const bool fail = fails && fails(calls);
      ++calls;
      IpmResult s;
      const double scale = std::max(1.0, q.cwiseAbs().maxCoeff());
      if (!fail) s = solveIpm(P / scale, q / scale, A, l, u);
      if (getenv("P05_DEBUG")) fprintf(stderr, "QP %d: n %d rows %zu box %g residual %g\n", calls, n, d.rows.size(), box, s.residual);
      const bool ok = !fail && s.residual < 1e-7;
      unsolved += !ok && !fail;
      *p.code = ok ? 2 : 4;
      for (int i = 0; i < n; ++i) p.primal[i] = ok ? s.x[i] : 777;
    };
  }
};
// ---- convex problems ---------------------------------------------------------------------------------------------------
const std::vector<std::vector<double>> kStencil = { { 1 }, { -1, 1 }, { 1, -2, 1 } };
struct Piece
{
  int order;                                   // position, velocity, acceleration
  bool cost;
  double w;
  DblVec t, lo, up;                            // per joint
  int first, last;
  bool eq(int dof) const { for (int j = 0; j < dof; ++j) if (lo[size_t(j)] != 0 || up[size_t(j)] != 0) return false; return true; }
  TermInfo::Ptr term(int dof) const
  {
    auto make = [&](auto t) -> TermInfo::Ptr {
      auto cut = [&](DblVec v) { v.resize(size_t(dof)); return v; };
      t->coeffs = DblVec(size_t(dof), w), t->targets = cut(this->t), t->upper_tols = cut(up), t->lower_tols = cut(lo), t->first_step = first, t->last_step = last;
      t->term_type = cost ? TermType::TT_COST : TermType::TT_CNT, t->name = str(order, cost, first, last);
      return t;
    };
    return order == 0 ? make(std::make_shared<JointPosTermInfo>()) : order == 1 ? make(std::make_shared<JointVelTermInfo>()) : make(std::make_shared<JointAccTermInfo>());
  }
  // residuals of joint j: position (.., step) minus target
  template <class Use>
  void residuals(int n, int dof, Use use) const
  {
    for (int j = 0; j < dof; ++j)
      for (int i = first; i + order <= std::min(last, n - 1); ++i)
      {
        VectorXd a = VectorXd::Zero(n * dof);
        for (int k = 0; k <= order; ++k) a[(i + k) * dof + j] = kStencil[size_t(order)][size_t(k)];
        use(a, t[size_t(j)], lo[size_t(j)], up[size_t(j)]);
      }
  }
};
struct Reference
{
  int n, dof;
  std::vector<Piece> pieces;
  std::vector<int> fixed;
  TrajArray init;
  double cost(const VectorXd& x) const
  {
    double s = 0;
    for (auto& p : pieces)
      if (p.cost)
        p.residuals(n, dof, [&](const VectorXd& a, double t, double lo, double up) {
          const double e = a.dot(x) - t;
          s += p.w * (p.eq(dof) ? e * e : std::max(0.0, e - up) + std::max(0.0, lo - e));
        });
    return s;
  }
  double violation(const VectorXd& x) const   // the largest distance from an allowed range
  {
    double s = 0;
    for (auto& p : pieces)
      if (!p.cost) p.residuals(n, dof, [&](const VectorXd& a, double t, double lo, double up) { s = std::max({ s, a.dot(x) - t - up, lo + t - a.dot(x) }); });
    return s;
  }
  // the optimum; soft: the constraints as distances to be made least instead of the costs
  IpmResult solve(bool soft) const
  {
    const int N = n * dof;
    struct Line { VectorXd a; double lo, hi; double slack; };   // lo <= a x (+- slack) <= hi, slack's weight (0: hard)
    std::vector<Line> lines;
    MatrixXd Q = MatrixXd::Zero(N, N);
    VectorXd c = VectorXd::Zero(N);
    const MatrixXd lim = group(dof == 1 ? "turn" : "pair")->getLimits().joint_limits;
    for (int i = 0; i < N; ++i)
    {
      const bool f = std::find(fixed.begin(), fixed.end(), i / dof) != fixed.end();
      const double v = init(i / dof, i % dof);
      lines.push_back({ VectorXd::Unit(N, i), f ? v : lim(i % dof, 0), f ? v : lim(i % dof, 1), 0 });
    }
    for (auto& p : pieces)
      p.residuals(n, dof, [&](const VectorXd& a, double t, double lo, double up) {
        if (p.cost && soft) return;
        if (!p.cost)
          lines.push_back({ a, t + lo, t + up, soft ? 1.0 : 0.0 });
        else if (p.eq(dof))
          Q += 2 * p.w * a * a.transpose(), c -= 2 * p.w * t * a;
        else
          lines.push_back({ a, t + lo, t + up, p.w });
      });
    int ns = 0;
    for (auto& l : lines) ns += l.slack > 0 ? 2 : 0;
    MatrixXd P = MatrixXd::Zero(N + ns, N + ns), A = MatrixXd::Zero(long(lines.size()) + ns, N + ns);
    VectorXd q = VectorXd::Zero(N + ns), lo(A.rows()), hi(A.rows());
    P.topLeftCorner(N, N) = Q, q.head(N) = c;
    int s = N;
    long r = 0;
    for (auto& l : lines)
    {
      A.row(r).head(N) = l.a.transpose(), lo[r] = l.lo, hi[r] = l.hi;
      if (l.slack > 0) A(r, s) = 1, A(r, s + 1) = -1, q[s] = q[s + 1] = l.slack, s += 2;
      ++r;
    }
    for (int i = 0; i < ns; ++i, ++r) A(r, N + i) = 1, lo[r] = 0, hi[r] = INF;
    auto z = solveIpm(P, q, A, lo, hi);
    if (z.x.size()) z.x = VectorXd(z.x.head(N));
    return z;
  }
};
VectorXd flat(const TrajArray& t)
{
  VectorXd x(t.size());
  for (Eigen::Index i = 0; i < t.rows(); ++i) x.segment(i * t.cols(), t.cols()) = t.row(i).transpose();
  return x;
}
DblVec rows(const TrajArray& t) { const VectorXd x = flat(t); return DblVec(x.data(), x.data() + x.size()); }
const char* kStatus[] = { "converged", "iteration limit", "penalty limit", "time limit", "failed", "invalid" };
// what any result has to satisfy
void judgeAny(Ctx& c, TrajOptProb& p, const TrajOptResult& r, const std::vector<int>& fixed, const std::function<std::string()>& what)
{
  const TrajArray init = p.GetInitTraj();
  const DblVec x = rows(r.traj);
  const auto dof = p.GetKin()->numJoints();
  c.checkf(r.traj.rows() == init.rows() && r.traj.cols() == init.cols(), "shape", what);
  if (r.traj.rows() != init.rows() || r.traj.cols() != init.cols()) return;
  for (int i : fixed) c.checkf((r.traj.row(i) - init.row(i)).head(dof).cwiseAbs().maxCoeff() < 1e-6, "fixed-step-moved", [&] { return str(what(), ": step ", i); });
  const auto lb = p.getLowerBounds(), ub = p.getUpperBounds();
  for (size_t i = 0; i < x.size(); ++i) c.checkf(x[i] >= lb[i] - 1e-6 && x[i] <= ub[i] + 1e-6, "limits", [&] { return str(what(), ": variable ", i, " is ", x[i]); });
  c.checkf(r.cost_vals.size() == p.getCosts().size() && r.cost_names.size() == r.cost_vals.size() && r.cnt_viols.size() == p.getConstraints().size() && r.cnt_names.size() == r.cnt_viols.size(), "report", what);
  if (r.cost_vals.size() != p.getCosts().size() || r.cnt_viols.size() != p.getConstraints().size()) return;
  for (size_t i = 0; i < r.cost_vals.size(); ++i)
    c.checkf(near(r.cost_vals[i], p.getCosts()[i]->value(x), 1e-7) && r.cost_names[i] == p.getCosts()[i]->name(), "report", [&] { return str(what(), ": cost ", i, " ", r.cost_vals[i], ", is ", p.getCosts()[i]->value(x)); });
  double worst = 0;
  for (size_t i = 0; i < r.cnt_viols.size(); ++i)
  {
    worst = std::max(worst, r.cnt_viols[i]);
    c.checkf(near(r.cnt_viols[i], p.getConstraints()[i]->violation(x), 1e-7) && r.cnt_names[i] == p.getConstraints()[i]->name(), "report", [&] { return str(what(), ": violation ", i, " ", r.cnt_viols[i], ", is ", p.getConstraints()[i]->violation(x)); });
  }
  if (p.getConstraints().empty())
  {
    double before = 0;
    const DblVec x0 = rows(init);
    for (auto& k : p.getCosts()) before += k->value(x0);
    c.checkf(total(r.cost_vals) <= before + 1e-9 * (1 + before), "worse-than-start", what);
  }
  if (r.status == sco::OPT_CONVERGED) c.checkf(worst < 1e-4, "converged-with-violation", [&] { return str(what(), ": ", worst); });
  if (r.status == sco::OPT_PENALTY_ITERATION_LIMIT) c.checkf(worst >= 1e-4, "unsatisfied-without-violation", what);
  c.outcome(Hash().u(r.status).d(std::round(total(x) * 1e4)).h);
}
const char* kEnd[] = { "end fixed", "end free", "end required", "end required out of reach", "end in a band", "end required far away" };
const char* kMid[] = { "", ", middle attracted", ", middle in a soft band", ", all attracted in a soft band" };
const char* kLim[] = { "", ", loose speed limit", ", tight speed limit", ", impossible speed limit", ", one-sided speed limit" };
void convex(Ctx& c, const std::string& g, int n, int end, int mid, int lim, bool acc, int start)
{
  const int dof = int(group(g)->numJoints());
  auto what = [&] { return str(g, ", ", n, " steps, ", kEnd[end], kMid[mid], kLim[lim], acc ? ", accelerations" : "", ", start ", start); };
  c.state(Hash().s(what()).h);
  Reference R{ n, dof, {}, { 0 }, {} };
  auto pci = rob::start(g, n);
  pci.basic_info.fixed_timesteps = { 0 };
  if (end == 0) pci.basic_info.fixed_timesteps.push_back(n - 1), R.fixed.push_back(n - 1);
  const DblVec goal = end == 3 ? DblVec{ 9, 0.5 } : end == 5 ? DblVec{ 1.4, 1.9 } : DblVec{ 0.2, 0.7 };
  const DblVec zero{ 0, 0 };
  pci.init_info.type = start == 0 ? InitInfo::JOINT_INTERPOLATED : start == 1 ? InitInfo::STATIONARY : InitInfo::GIVEN_TRAJ;
  if (start == 0)
  {
    pci.init_info.data.resize(1, dof);
    for (int j = 0; j < dof; ++j) pci.init_info.data(0, j) = DblVec{ 0.2, 0.7 }[size_t(j)];
  }
  else if (start > 1)
  {
    pci.init_info.data.resize(n, dof);
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < dof; ++j) pci.init_info.data(i, j) = start == 2 ? (i % 2 ? 1.4 : -1.9) : -0.4 * i + 0.2 * j;
  }
  R.pieces.push_back({ 1, true, 1, zero, zero, zero, 0, n - 1 });
  if (acc && n > 2) R.pieces.push_back({ 2, true, 3, zero, zero, zero, 0, n - 1 });
  if (mid == 1) R.pieces.push_back({ 0, true, 5, { 1, -0.5 }, zero, zero, n / 2, n / 2 });
  if (mid == 2) R.pieces.push_back({ 0, true, 2, { 1, -0.5 }, { -0.1, -0.2 }, { 0.1, 0 }, n / 2, n / 2 });
  if (mid == 3) R.pieces.push_back({ 0, true, 0.3, { -0.5, 0.5 }, { -0.3, 0 }, { 0.1, 0.2 }, 0, n - 1 });
  if (end == 2 || end == 3 || end == 5) R.pieces.push_back({ 0, false, 1, goal, zero, zero, n - 1, n - 1 });
  if (end == 4) R.pieces.push_back({ 0, false, 2, goal, { -0.1, 0 }, { 0, 0.2 }, n - 1, n - 1 });
  const double v = lim == 1 ? 5 : lim == 2 ? 0.9 : 0.05;
  if (lim == 4)
    R.pieces.push_back({ 1, false, 1, zero, { -0.3, -2 }, { 2, 0.4 }, 0, n - 1 });
  else if (lim)
    R.pieces.push_back({ 1, false, 1, zero, { -v, -v }, { v, v }, 0, n - 1 });
  for (auto& p : R.pieces) (p.cost ? pci.cost_infos : pci.cnt_infos).push_back(p.term(dof));
  auto prob = ConstructProblem(pci);
  R.init = prob->GetInitTraj();
  const IpmResult soft = R.solve(true), hard = R.solve(false);
  if (!(soft.residual < 1e-7)) throw std::runtime_error("reference not solved: " + what());
  const double least = R.violation(soft.x);
  Solver s;
  auto r = OptimizeProblem(prob, nullptr);
  c.transitions(size_t(s.calls)), c.traces();
  judgeAny(c, *prob, *r, R.fixed, what);
  if (s.unsolved) c.count("QPs not solved by the interior point method", s.unsolved);
  const bool feasible = hard.residual < 1e-7 && least < 1e-6;
  if (least > 1e-6 && least < 1e-2) return;   // neither clearly feasible nor clearly not
  const VectorXd x = flat(r->traj);
  c.count(str(feasible ? "feasible, " : "infeasible, ", kStatus[r->status]));
  c.checkf(r->status == (feasible ? sco::OPT_CONVERGED : sco::OPT_PENALTY_ITERATION_LIMIT), "status", [&] { return str(what(), feasible ? ": feasible, " : ": infeasible, ", kStatus[r->status], " at ", vec(rows(r->traj))); });
  if (!feasible || r->status != sco::OPT_CONVERGED) return;
  c.checkf(R.violation(x) < 1.01e-4, "infeasible-result", [&] { return str(what(), ": ", R.violation(x)); });
  const double D = (x - hard.x).cwiseAbs().maxCoeff(), k = std::max(1.0, D / s.box), best = R.cost(hard.x), bound = (best + 1e-4 * k) / (1 - 0.001 * k) + 1e-6;
  c.checkf(k < 100 && R.cost(x) <= bound, "not-optimal", [&] { return str(what(), ": ", vec(rows(r->traj)), " costs ", R.cost(x), ", the optimum costs ", best, ", box ", s.box, ", distance ", D); });
}
// ---- problems that are not convex --------------------------------------------------------------------------------------
template <class T>
std::shared_ptr<T> as(std::shared_ptr<T> t, const char* name, bool cost, bool time = false)
{
  t->name = name, t->term_type = (cost ? TermType::TT_COST : TermType::TT_CNT) | (time ? TermType::TT_USE_TIME : TermType::TT_INVALID);
  return t;
}
TermInfo::Ptr velocities(int dof, bool cost, double v, bool time)
{
  auto t = std::make_shared<JointVelTermInfo>();
  t->coeffs = DblVec(size_t(dof), 1), t->targets = DblVec(size_t(dof), 0), t->upper_tols = DblVec(size_t(dof), v), t->lower_tols = DblVec(size_t(dof), -v);
  return as<TermInfo>(t, v ? "speed limit" : "speed", cost, time);
}
struct Case
{
  std::string name;
  std::function<ProblemConstructionInfo()> make;
  std::vector<int> fixed;
  std::function<std::string(const TrajArray&)> wrong;   // what a converged result violates
  unsigned mask = 0;                                     // contacts of the scene
  bool mustConverge = true;
};
void show(Ctx& c, const Case& k)
{
  Scene scene(k.mask ? "arm" : "arm", k.mask);
  auto what = [&] { return k.name; };
  c.beat(), c.state(Hash().s(k.name).h);
  auto pci = k.make();
  auto prob = ConstructProblem(pci);
  Solver s;
  auto r = OptimizeProblem(prob, nullptr);
  c.transitions(size_t(s.calls)), c.traces();
  if (s.unsolved) c.count("QPs not solved by the interior point method", s.unsolved);
  c.count(kStatus[r->status]);
  judgeAny(c, *prob, *r, k.fixed, what);
  if (k.mustConverge) c.checkf(r->status == sco::OPT_CONVERGED, "not-converged", [&] { return str(k.name, ": ", kStatus[r->status], " at ", vec(rows(r->traj))); });
  if (r->status == sco::OPT_CONVERGED)
  {
    const std::string w = k.wrong(r->traj);
    c.checkf(w.empty(), "constraint-not-met", [&] { return str(k.name, ": ", w, " at ", vec(rows(r->traj))); });
  }
}
// reach the pose of configuration `to` from configuration `from`
Case reach(const std::string& g, int n, int from, int to, unsigned comps, bool asCost, bool time)
{
  Case k;
  k.name = str("reach ", g, ", ", n, " steps, from ", from, " to ", to, ", components ", comps, asCost ? ", as cost" : "", time ? ", time" : "");
  auto grp = group(g);
  const int dof = int(grp->numJoints());
  const VectorXd q0 = 0.4 * cfg(grp, from), q1 = 0.4 * cfg(grp, to);
  const std::string link = g == "turn" ? "part" : "tool";
  const Isometry3d goal = grp->calcFwdKin(q1).at(link);
  k.make = [=] {
    auto p = problem(g, n, time);
    p.basic_info.fixed_timesteps = { 0 };
    if (time) p.basic_info.dt_lower_lim = 0.5, p.basic_info.dt_upper_lim = 4;
    p.init_info.type = InitInfo::GIVEN_TRAJ;
    p.init_info.data = q0.transpose().replicate(n, 1);
    p.cost_infos.push_back(velocities(dof, true, 0, false));
    auto t = std::make_shared<CartPoseTermInfo>();
    t->timestep = n - 1, t->source_frame = link, t->target_frame = "world", t->target_frame_offset = goal;
    for (int i = 0; i < 3; ++i) t->pos_coeffs[i] = comps >> i & 1 ? 10 : 0, t->rot_coeffs[i] = comps >> (3 + i) & 1 ? 5 : 0;
    (asCost ? p.cost_infos : p.cnt_infos).push_back(as<TermInfo>(t, "pose", asCost));
    return p;
  };
  k.fixed = { 0 };
  k.wrong = [=](const TrajArray& t) -> std::string {
    const VectorXd e = poseError(goal, grp->calcFwdKin(VectorXd(t.row(n - 1).head(dof).transpose())).at(link));
    for (int i = 0; i < 6; ++i)
      if (comps >> i & 1 && std::fabs(e[i]) > 2.1e-5 && !asCost) return str("component ", i, " is off by ", e[i]);
    return "";
  };
  k.mustConverge = comps == 7 || comps == 63;
  return k;
}
// as fast as the limits allow
Case hurry(const std::string& g, int n, double v, int shape)
{
  Case k;
  k.name = str("hurry ", g, ", ", n, " steps, speed ", v, ", start ", shape);
  auto grp = group(g);
  const int dof = int(grp->numJoints());
  VectorXd a(dof), b(dof);
  for (int j = 0; j < dof; ++j) a[j] = -0.3 + 0.1 * j, b[j] = 0.6 - 0.4 * j;
  k.make = [=] {
    auto p = problem(g, n, true);
    p.basic_info.fixed_timesteps = {};
    p.basic_info.dt_lower_lim = 0.2, p.basic_info.dt_upper_lim = 20;
    p.init_info.type = InitInfo::GIVEN_TRAJ, p.init_info.dt = shape == 2 ? 4 : 1;
    p.init_info.data.resize(n, dof);
    for (int i = 0; i < n; ++i) p.init_info.data.row(i) = (shape == 1 ? (i == 0 ? a : b) : VectorXd(a + (b - a) * i / (n - 1))).transpose();
    p.cnt_infos.push_back(velocities(dof, false, v, true));
    for (int e : { 0, 1 })
    {
      auto t = std::make_shared<JointPosTermInfo>();
      t->coeffs = DblVec(size_t(dof), 1), t->targets = DblVec(size_t(dof)), t->first_step = t->last_step = e ? n - 1 : 0;
      for (int j = 0; j < dof; ++j) t->targets[size_t(j)] = (e ? b : a)[j];
      p.cnt_infos.push_back(as<TermInfo>(t, e ? "goal" : "start", false));
    }
    return p;
  };
  k.wrong = [=](const TrajArray& t) -> std::string {
    double sum = 0;
    for (int i = 1; i < n; ++i)
    {
      sum += 1 / t(i, dof);
      for (int j = 0; j < dof; ++j)
        if (std::fabs(t(i, j) - t(i - 1, j)) * t(i, dof) > v + 2e-4) return str("joint ", j, " is too fast in step ", i);
    }
    for (int j = 0; j < dof; ++j)
      if (std::fabs(t(0, j) - a[j]) > 2e-4 || std::fabs(t(n - 1, j) - b[j]) > 2e-4) return "wrong end";
    const double least = (b - a).cwiseAbs().maxCoeff() / v;
    return sum < std::max(least, (n - 1) / 20.0) - 0.02 ? str("impossibly fast: ", sum) : sum > 1.3 * std::max(least, (n - 1) / 20.0) + 0.1 ? str("slow: ", sum, " instead of ", least) : "";
  };
  k.mustConverge = shape != 2;
  return k;
}
// keep clear of the scene's points; the ends may move or not
double clearance(const Src& s, const TrajArray& t, const JG& g, int i, bool swept, double& u)
{
  auto p = [&](int r) {
    auto f = g->calcFwdKin(VectorXd(t.row(r).transpose()));
    return Vector3d(f.at(s.b) * s.pb - f.at(s.a) * s.pa);
  };
  const Vector3d r0 = p(i), r1 = p(swept ? i + 1 : i), dr = r1 - r0;
  u = dr.norm() > 1e-12 ? std::min(1.0, std::max(0.0, -r0.dot(dr) / dr.squaredNorm())) : 0;
  return (r0 + u * dr).norm() - s.r;
}
Case avoid(int n, int ev, unsigned mask, int from, int to, double margin, bool free)
{
  Case k;
  k.name = str("avoid ", mask, " in ", n, " steps, check ", ev, ", from ", from, " to ", to, ", margin ", margin, free ? ", ends free" : "");
  k.mask = mask;
  auto g = arm();
  const VectorXd a = 0.5 * cfg(g, from), b = 0.5 * cfg(g, to);
  const bool swept = ev == int(tc::CollisionEvaluatorType::CONTINUOUS);
  k.make = [=] {
    auto p = problem("arm", n, false);
    p.init_info.type = InitInfo::GIVEN_TRAJ;
    p.init_info.data.resize(n, 4);
    for (int i = 0; i < n; ++i) p.init_info.data.row(i) = (a + (b - a) * i / (n - 1)).transpose();
    p.cost_infos.push_back(velocities(4, true, 0, false));
    auto t = std::make_shared<CollisionTermInfo>();
    t->first_step = 0, t->last_step = n - 1;
    if (!free)
    {
      p.basic_info.fixed_timesteps = { 0, n - 1 };
      t->fixed_steps = { 0, n - 1 };
    }
    t->config = trajopt_common::TrajOptCollisionConfig(margin, 10, tc::ContactRequest(), tc::CollisionEvaluatorType(ev), 100);
    t->config.collision_margin_buffer = 0.05;
    p.cnt_infos.push_back(as<TermInfo>(t, "clear", false));
    return p;
  };
  if (!free) k.fixed = { 0, n - 1 };
  k.wrong = [=](const TrajArray& t) -> std::string {
    for (size_t s = 0; s < kSrc.size(); ++s)
      if (mask >> s & 1 && (g->isActiveLinkName(kSrc[s].a) || g->isActiveLinkName(kSrc[s].b)))
        for (int i = 0; i + swept < n; ++i)
        {
          if (!free && !swept && (i == 0 || i == n - 1)) continue;
          double u;
          const double d = clearance(kSrc[s], t, g, i, swept, u);
          if (!free && swept && (i == 0 && u < 1e-9 || i == n - 2 && u > 1 - 1e-9)) continue;   // at an end that cannot move
          if (d < margin - 2e-5) return str("contact ", s, " of step ", i, " is ", d, " apart");
        }
    return "";
  };
  k.mustConverge = false;
  return k;
}
// ---- histories and failures ------------------------------------------------------------------------------------------
ProblemConstructionInfo plain(int n, bool required)
{
  auto p = problem("pair", n, false);
  p.basic_info.fixed_timesteps = { 0 };
  p.init_info.type = InitInfo::GIVEN_TRAJ;
  p.init_info.data.resize(n, 2);
  for (int i = 0; i < n; ++i) p.init_info.data.row(i) << -0.3 * i, 0.2 * i;
  p.cost_infos.push_back(velocities(2, true, 0, false));
  auto t = std::make_shared<JointPosTermInfo>();
  t->coeffs = { 3, 3 }, t->targets = { 0.6, -0.9 }, t->first_step = t->last_step = n - 1;
  (required ? p.cnt_infos : p.cost_infos).push_back(as<TermInfo>(t, "goal", !required));
  return p;
}
std::vector<std::function<ProblemConstructionInfo()>> cases(bool all)
{
  std::vector<std::function<ProblemConstructionInfo()>> v = { [] { return plain(3, true); }, reach("arm", 2, 1, 2, 63, false, false).make, avoid(3, 1, 3, 1, 3, 0.1, true).make, avoid(3, 3, 3, 1, 3, 0.1, true).make, reach("both", 2, 2, 1, 7, false, true).make, hurry("pair", 3, 0.5, 0).make };
  if (all) v.push_back([] { return plain(2, false); }), v.push_back(reach("arm", 2, 3, 2, 63, false, false).make);
  return v;
}
void histories(Ctx& c, int first)
{
  const auto all = cases(c.thorough);
  std::vector<std::shared_ptr<TrajOptResult>> seen(all.size());
  const int depth = 3;
  Dfs d(c);
  d.run([&] {
    c.beat();
    Scene scene("arm", 3);
    TrajOptProb::Ptr prob;
    int which = -1;
    for (int k = 0; k < depth; ++k)
    {
      // another problem, or the last one once more (the same object, or started from where it ended)
      const int w = k == 0 ? first : d.choose(int(all.size()) + 1);
      if (w < int(all.size())) which = w, prob = ConstructProblem(all[size_t(w)]());
      Solver s;
      auto r = OptimizeProblem(prob, nullptr);
      c.transitions(size_t(s.calls)), c.state(Hash().u(unsigned(first)).s(d.pathText()).h);
      judgeAny(c, *prob, *r, {}, [&] { return str("case ", which, " after ", first, ", ", d.pathText()); });
      auto& o = seen[size_t(which)];
      if (!o) o = r;
      const bool same = o->status == r->status && o->traj.rows() == r->traj.rows() && (o->traj - r->traj).cwiseAbs().maxCoeff() < 1e-7;
      c.checkf(same, "depends-on-history", [&] { return str("case ", which, " after ", first, ", ", d.pathText(), " gives ", vec(rows(r->traj)), ", before it gave ", vec(rows(o->traj))); });
    }
    c.traces();
  });
}
void failures(Ctx& c, int which)
{
  const auto all = cases(true);
  Scene scene("arm", 3);
  int count = 0;
  {
    Solver s;
    OptimizeProblem(ConstructProblem(all[size_t(which)]()), nullptr);
    count = s.calls;
  }
  for (int from = 0; from < count; ++from)
    for (int burst : { 1, 2, 3, 4, 1000000 })
    {
      c.beat();
      auto prob = ConstructProblem(all[size_t(which)]());
      Solver s;
      s.fails = [=](int k) { return k >= from && k < from + burst; };
      auto r = OptimizeProblem(prob, nullptr);
      auto what = [&] { return str("case ", which, ", ", burst, " failures of the solver from QP ", from, " on"); };
      c.transitions(size_t(s.calls)), c.traces(), c.state(Hash().s(what()).h);
      judgeAny(c, *prob, *r, {}, what);
      c.count(str("solver failures, ", kStatus[r->status]));
      c.checkf((r->status == sco::OPT_FAILED) == (burst > 3), "failure-status", [&] { return str(what(), ": ", kStatus[r->status]); });
      if (from == 0 && burst > 3) c.checkf((r->traj - prob->GetInitTraj()).cwiseAbs().maxCoeff() < 1e-12, "failure-result", what);
    }
}
}  // namespace
void mc::explore(Ctx& c)
{
  for (std::string g : { "turn", "pair" })
    for (int n = 2; n <= (c.thorough ? 6 : 4); ++n)
      for (int end = 0; end < 6; ++end)
        c.item([=] { return str(g, ", ", n, " steps, ", kEnd[end]); }, [=, &c] {
          WireOn w;
          for (int mid = 0; mid < 4; ++mid)
            for (int lim = 0; lim < 5; ++lim)
              for (bool acc : { false, true })
                for (int start = 0; start < 4; ++start)
                {
                  c.beat();
                  if (acc && n < 3) continue;
                  convex(c, g, n, end, mid, lim, acc, start);
                }
        });
  for (std::string g : { "turn", "pair", "arm", "both" })
    for (int n = 2; n <= (c.thorough ? 4 : 3); ++n)
      for (int from = 0; from < 5; ++from)
        c.item([=] { return str("reach ", g, ", ", n, " steps, from ", from); }, [=, &c] {
          for (int to = 0; to < 5; ++to)
            for (unsigned comps : { 7u, 63u, 56u, 13u })
              for (bool time : { false, true })
                for (bool cost : { false, true }) show(c, reach(g, n, from, to, comps, cost, time));
        });
  for (std::string g : { "turn", "pair" })
    for (int n = 2; n <= (c.thorough ? 6 : 4); ++n)
      c.item([=] { return str("hurry ", g, ", ", n, " steps"); }, [=, &c] {
        for (double v : { 0.25, 0.5, 2.0 })
          for (int shape = 0; shape < 3; ++shape) show(c, hurry(g, n, v, shape));
      });
  for (int n = 2; n <= (c.thorough ? 5 : 4); ++n)
    for (int ev : { 1, 3 })
      for (int from = 0; from < 5; ++from)
        c.item([=] { return str("avoid, ", n, " steps, check ", ev, ", from ", from); }, [=, &c] {
          for (int to = 0; to < 5; ++to)
            for (unsigned mask : { 1u, 2u, 4u, 8u, 16u, 3u, 31u })
              for (double margin : { 0.02, 0.1 })
                for (bool free : { true, false })
                  if (free || n > 2) show(c, avoid(n, ev, mask, from, to, margin, free));
        });
  for (int k = 0; k < int(cases(c.thorough).size()); ++k) c.item([=] { return str("histories from case ", k); }, [=, &c] { histories(c, k); });
  for (int k = 0; k < int(cases(true).size()); ++k) c.item([=] { return str("failures in case ", k); }, [=, &c] { failures(c, k); });
}
