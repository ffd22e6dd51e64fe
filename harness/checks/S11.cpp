// S11: the legacy trust-region optimiser against a small independent account of its documented rules. Costs,
// constraints and the solver model are scripted: each answer of the model, and the exact values at the point it returns,
// are choices of the exploration.
#include <mc/mc.hpp>
#include <common/aux_min.hpp>
#include <trajopt_common/logging.hpp>
#include <trajopt_sco/expr_op_overloads.hpp>
#include <trajopt_sco/expr_ops.hpp>
#include <trajopt_sco/modeling.hpp>
#include <trajopt_sco/optimizers.hpp>
#include <chrono>
#include <fcntl.h>
#include <map>
#include <mutex>
#include <unistd.h>
using namespace mc;
using namespace sco;

static int64_t g_clock = 1000000000;   // nanoseconds
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration(++g_clock)); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(++g_clock)); }
}}}

const CheckInfo mc::info = { "S11", "model_checking",
  "every sequence of up to 5 (thorough 6) answers of the QP model out of {failed or infeasible, no predicted improvement, predicted deterioration, and predicted improvement with an exact improvement that is full, "
  "exactly at the ratio threshold, just below it, zero or negative, through the costs or through the constraints (one or both satisfied)} over 14 parameter sets (thresholds, trust box, iteration, penalty, "
  "failure and time limits, individual or uniform penalties, start points in and outside the bounds, no costs or no constraints, logging to a missing directory, one and two threads, a second run without "
  "initialisation); later answers predict no improvement",
  { "the solver model, costs and constraints are scripted; the wall clock advances one second per QP" } };

namespace
{
struct Cfg
{
  std::string name;
  int depth = 5, ncost = 2, ncnt = 2;
  double thr = 0.25, minbox = 0.125, minappr = 1.0 / 1024, frac = std::numeric_limits<double>::lowest();
  int maxit = 50, maxpen = 3, maxfail = 3;
  double shrink = 0.25, expand = 2, tol = 1.0 / 64, ratio = 10, maxtime = 1e9, coeff = 2, box = 1;
  bool individual = true;
  int threads = 0;          // 0: the single-threaded class
  double x0 = 0;            // first coordinate of the start point (bounds are [-2, 3])
  std::string logdir;       // empty: no log
  bool again = false;       // optimize() once more without initialisation
};

struct Exact
{
  std::vector<double> cost;                 // per cost
  std::vector<std::vector<double>> rows;    // per constraint, row values
};
struct Expect        // what the QP has to be
{
  DblVec x;
  double box;
  std::vector<double> w;
};
struct Script;
static Script* g = nullptr;

struct RecModel : Model
{
  mutable std::recursive_mutex m;
  VarVector vars;
  CntVector cnts;
  std::vector<std::pair<AffExpr, ConstraintType>> rows;
  std::vector<double> lb, ub, val;
  QuadExpr objective;
  bool pending = false;
  Var addVar(const std::string& name) override { return addVar(name, -INFINITY, INFINITY); }
  Var addVar(const std::string& name, double l, double u) override
  {
    const std::scoped_lock lock(m);
    vars.emplace_back(std::make_shared<VarRep>(vars.size(), name, this));
    lb.push_back(l), ub.push_back(u), val.push_back(0);
    return vars.back();
  }
  Cnt addEqCnt(const AffExpr& e, const std::string&) override { return addRow(e, EQ); }
  Cnt addIneqCnt(const AffExpr& e, const std::string&) override { return addRow(e, INEQ); }
  Cnt addIneqCnt(const QuadExpr&, const std::string&) override { throw std::runtime_error("not supported"); }
  Cnt addRow(const AffExpr& e, ConstraintType t)
  {
    const std::scoped_lock lock(m);
    cnts.emplace_back(std::make_shared<CntRep>(cnts.size(), this));
    rows.push_back({ e, t });
    return cnts.back();
  }
  void removeVars(const VarVector& v) override { const std::scoped_lock lock(m); for (const auto& x : v) x.var_rep->removed = true; }
  void removeCnts(const CntVector& v) override { const std::scoped_lock lock(m); for (const auto& x : v) x.cnt_rep->removed = true; }
  void update() override
  {
    const std::scoped_lock lock(m);
    size_t k = 0;
    for (size_t i = 0; i < vars.size(); ++i)
      if (!vars[i].var_rep->removed)
      {
        vars[k] = vars[i], lb[k] = lb[i], ub[k] = ub[i], val[k] = val[i];
        vars[k].var_rep->index = k, ++k;
      }
    vars.resize(k), lb.resize(k), ub.resize(k), val.resize(k);
    k = 0;
    for (size_t i = 0; i < cnts.size(); ++i)
      if (!cnts[i].cnt_rep->removed)
        cnts[k] = cnts[i], rows[k] = rows[i], cnts[k].cnt_rep->index = k, ++k;
    cnts.resize(k), rows.resize(k);
  }
  void setVarBounds(const VarVector& v, const DblVec& l, const DblVec& u) override
  {
    for (size_t i = 0; i < v.size(); ++i)
      lb[v[i].var_rep->index] = l[i], ub[v[i].var_rep->index] = u[i];
  }
  DblVec getVarValues(const VarVector& v) const override
  {
    DblVec out;
    for (const auto& x : v)
      out.push_back(val[x.var_rep->index]);
    return out;
  }
  CvxOptStatus optimize() override;
  void setObjective(const AffExpr& e) override { objective = QuadExpr(); objective.affexpr = e; }
  void setObjective(const QuadExpr& e) override { objective = e; }
  void writeToFile(const std::string&) const override {}
  VarVector getVars() const override { return vars; }
};

struct ModelCnt : ConvexConstraints
{
  Model* model;
  VarVector own;
  ModelCnt(Model* mo) : ConvexConstraints(mo), model(mo) {}
  ~ModelCnt() override { model->removeVars(own); }
};

struct Script
{
  Ctx& c;
  mc::Dfs& d;
  const Cfg& cfg;
  int used = 0, first = -1;
  std::string log;
  bool bad = false;
  RecModel* model = nullptr;
  std::map<std::pair<double, double>, Exact> table;
  std::mutex mu;
  // what the convex models of the current iteration were built at and which variables stand for them
  std::map<int, Var> costVar;
  std::map<int, std::vector<Var>> rowVar;
  std::map<int, DblVec> builtAt;
  // account of the rules
  DblVec x;
  Exact cur;
  std::vector<double> w;
  double box = 1;
  int nqp = 0, nfun = 0, iter = 0, pens = 0, fails = 0, time = 0;
  bool finished = false, iterStart = true;
  OptStatus want = INVALID;
  int expectCallbacks = 0, callbacks = 0;
  Script(Ctx& c_, mc::Dfs& d_, const Cfg& f) : c(c_), d(d_), cfg(f) {}

  void fail(const char* key, const std::string& what)
  {
    if (!bad)
      c.checkf(false, key, [&] { return str(cfg.name, " answers:", log, ": ", what); });
    bad = true;
  }
  static double viol(const std::vector<double>& rows, bool eq)
  {
    double s = 0;
    for (double r : rows)
      s += eq ? std::fabs(r) : std::max(r, 0.0);
    return s;
  }
  DblVec viols(const Exact& e) const
  {
    DblVec v;
    for (size_t i = 0; i < e.rows.size(); ++i)
      v.push_back(viol(e.rows[i], i == 0));
    return v;
  }
  double merit(const Exact& e) const
  {
    double s = 0;
    for (double k : e.cost) s += k;
    DblVec v = viols(e);
    for (size_t i = 0; i < v.size(); ++i) s += w[i] * v[i];
    return s;
  }
  bool satisfied(const Exact& e) const
  {
    for (double v : viols(e))
      if (!(v < cfg.tol))
        return false;
    return true;
  }
  Exact at(const DblVec& p)
  {
    const std::scoped_lock lock(mu);
    auto it = table.find({ p.at(0), p.at(1) });
    if (it == table.end())
    {
      fail("unknown-point", str("exact values requested at ", vec(p)));
      Exact e = cur;
      return e;
    }
    return it->second;
  }
  void start(const DblVec& p, bool again)
  {
    x = { std::min(std::max(p[0], -2 + 1e-3), 3 - 1e-3), p[1] };
    Exact e;
    for (int i = 0; i < cfg.ncost; ++i) e.cost.push_back(i == 0 ? 16 : 8);
    if (cfg.ncnt > 0) e.rows.push_back({ 1, -1 });
    if (cfg.ncnt > 1) e.rows.push_back({ 0.5, -3 });
    if (again)
      e.cost = cur.cost, e.rows = cur.rows;
    else
      box = cfg.box;
    if (!again || table.find({ x[0], x[1] }) == table.end())
      table[{ x[0], x[1] }] = e;
    cur = table[{ x[0], x[1] }];
    w.assign(size_t(cfg.ncnt), cfg.coeff);
    nqp = nfun = iter = pens = fails = time = 0;
    evaluated = finished = false;
    want = INVALID;
    g_clock = 1000000000;
    if (cfg.maxpen <= 0)
      finish(OPT_PENALTY_ITERATION_LIMIT);
    else
      newIteration();
  }
  bool evaluated = false;
  void finish(OptStatus s) { finished = true, want = s; ++expectCallbacks; }
  // head of the loop
  void newIteration()
  {
    for (;;)
    {
      ++iter;
      if (double(time) >= cfg.maxtime)
      {
        finish(evaluated && satisfied(cur) ? OPT_CONVERGED : OPT_TIME_LIMIT);
        if (cfg.ncnt == 0)
          want = OPT_STATUS_EITHER;
        return;
      }
      ++expectCallbacks;
      if (!evaluated)
        evaluated = true, ++nfun;
      fails = 0;
      if (box >= cfg.minbox)
        return;   // a QP is due
      phaseEnd();
      if (finished)
        return;
    }
  }
  static constexpr OptStatus OPT_STATUS_EITHER = static_cast<OptStatus>(77);
  void phaseEnd()
  {
    if (satisfied(cur))
      return finish(OPT_CONVERGED);
    DblVec v = viols(cur);
    for (size_t i = 0; i < v.size(); ++i)
      if (!cfg.individual || v[i] > cfg.tol)
        w[i] *= cfg.ratio;
    box = std::max(box, cfg.minbox / cfg.shrink * 1.5);
    iter = 0;
    if (++pens >= cfg.maxpen)
      finish(OPT_PENALTY_ITERATION_LIMIT);
  }
  // after the answer (and perhaps an accepted step) the trust box may have become too small, or the iterations used up
  void endIteration()
  {
    if (box < cfg.minbox)
    {
      phaseEnd();
      if (!finished)
        newIteration();
    }
    else if (iter >= cfg.maxit)
      finish(satisfied(cur) ? OPT_CONVERGED : OPT_SCO_ITERATION_LIMIT);
    else
      newIteration();
  }
  CvxOptStatus answer();
  void verifyQp();
};

struct ScriptCost : Cost
{
  int i;
  Script* s;
  ScriptCost(int i_, Script* s_) : Cost(str("cost", i_)), i(i_), s(s_) {}
  double value(const DblVec& x) override { return s->at(x).cost.at(size_t(i)); }
  ConvexObjective::Ptr convex(const DblVec& x, Model* model) override
  {
    auto o = std::make_shared<ConvexObjective>(model);
    Var v = model->addVar(str("m", i), -INFINITY, INFINITY);
    o->vars_.push_back(v);
    o->addAffExpr(AffExpr(v));
    const std::scoped_lock lock(s->mu);
    s->costVar[i] = v;
    s->builtAt[i] = x;
    return o;
  }
  VarVector getVars() override { return {}; }
};
struct ScriptCnt : Constraint
{
  int i;
  Script* s;
  ScriptCnt(int i_, Script* s_) : Constraint(str("cnt", i_)), i(i_), s(s_) {}
  ConstraintType type() override { return i == 0 ? EQ : INEQ; }
  DblVec value(const DblVec& x) override { return s->at(x).rows.at(size_t(i)); }
  ConvexConstraints::Ptr convex(const DblVec& x, Model* model) override
  {
    auto o = std::make_shared<ModelCnt>(model);
    std::vector<Var> vs;
    for (int r = 0; r < 2; ++r)
    {
      vs.push_back(model->addVar(str("r", i, r), -INFINITY, INFINITY));
      o->own.push_back(vs.back());
      if (i == 0)
        o->addEqCnt(AffExpr(vs.back()));
      else
        o->addIneqCnt(AffExpr(vs.back()));
    }
    const std::scoped_lock lock(s->mu);
    s->rowVar[i] = vs;
    s->builtAt[100 + i] = x;
    return o;
  }
  VarVector getVars() override { return {}; }
};

// The QP on the model: built at the current point, boxed around it, and with the right weights
void Script::verifyQp()
{
  if (bad)
    return;
  for (auto& [i, p] : builtAt)
    if (p != x)
      return fail("model-at-wrong-point", str("QP ", nqp, " model ", i, " built at ", vec(p), ", the current point is ", vec(x)));
  const double L[] = { -2, -INFINITY }, U[] = { 3, INFINITY };
  for (size_t k = 0; k < 2; ++k)
  {
    double xi = std::min(std::max(x[k], L[k]), U[k]), lo = std::max(xi - box, L[k]), hi = std::min(xi + box, U[k]);
    if (!near(model->lb[k], lo, 1e-9) || !near(model->ub[k], hi, 1e-9))
      return fail("trust-region", str("QP ", nqp, " variable ", k, " in [", model->lb[k], ", ", model->ub[k], "], expected [", lo, ", ", hi, "]"));
  }
  // what minimising this model means for given values of the model costs and rows
  static std::map<std::string, std::vector<double>> known;
  std::string key;
  auto dumpAff = [&](const AffExpr& e) {
    key += str(" ", e.constant);
    for (size_t k = 0; k < e.coeffs.size(); ++k)
      key += str("+", e.coeffs[k], "v", e.vars[k].var_rep->index);
  };
  for (size_t i = 0; i < costVar.size(); ++i) key += str(" c", costVar[int(i)].var_rep->index);
  for (auto& [i, vs] : rowVar) for (auto& v : vs) key += str(" r", v.var_rep->index);
  for (size_t k = 2; k < model->vars.size(); ++k) key += str(" [", model->lb[k], ",", model->ub[k], "]");
  for (auto& [e, t] : model->rows) key += str(" t", int(t)), dumpAff(e);
  key += " o", dumpAff(model->objective.affexpr), key += str(" q", model->objective.coeffs.size());
  std::vector<double> want = { 0 };
  for (int i = 0; i < cfg.ncost; ++i) want.push_back(1);
  for (int i = 0; i < cfg.ncnt; ++i)
    for (int r = 0; r < 2; ++r)
      want.push_back(w[size_t(i)]), want.push_back(i == 0 ? w[size_t(i)] : 0);
  want.push_back(0);
  for (int i = 0; i < cfg.ncnt; ++i) want.back() += 3 * w[size_t(i)];
  auto& got = known[key];
  if (got.empty())
  {
    wire::Decoded dd;
    dd.lb = model->lb, dd.ub = model->ub;
    dd.c.assign(model->vars.size(), 0);
    for (size_t k = 0; k < model->objective.affexpr.coeffs.size(); ++k)
      dd.c[model->objective.affexpr.vars[k].var_rep->index] += model->objective.affexpr.coeffs[k];
    for (size_t k = 0; k < model->objective.coeffs.size(); ++k)
    {
      size_t a = model->objective.vars1[k].var_rep->index, b = model->objective.vars2[k].var_rep->index;
      dd.q[{ int(std::min(a, b)), int(std::max(a, b)) }] += model->objective.coeffs[k];
    }
    for (auto& [e, t] : model->rows)
    {
      wire::Row r;
      for (size_t k = 0; k < e.coeffs.size(); ++k) r.a[int(e.vars[k].var_rep->index)] += e.coeffs[k];
      r.hi = -e.constant, r.lo = t == EQ ? -e.constant : -INFINITY;
      dd.rows.push_back(r);
    }
    std::vector<int> user = { 0, 1 };
    std::vector<double> ux = { x[0], x[1] };
    for (int i = 0; i < cfg.ncost; ++i) user.push_back(int(costVar[i].var_rep->index)), ux.push_back(0);
    for (int i = 0; i < cfg.ncnt; ++i)
      for (int r = 0; r < 2; ++r) user.push_back(int(rowVar[i][size_t(r)].var_rep->index)), ux.push_back(0);
    auto value = [&](std::vector<double> p) {
      std::vector<double> full;
      return wire::least(dd, user, p, full);
    };
    try
    {
      got.push_back(value(ux) + model->objective.affexpr.constant);
      for (size_t k = 2; k < ux.size(); ++k)
      {
        auto p = ux;
        p[k] = 1;
        got.push_back(value(p) - value(ux));
        if (k >= 2 + size_t(cfg.ncost))
          p[k] = -1, got.push_back(value(p) - value(ux));
      }
      auto p = ux;
      for (size_t k = 2 + size_t(cfg.ncost); k < ux.size(); ++k) p[k] = 1 + double((k - 2 - size_t(cfg.ncost)) % 2);
      got.push_back(value(p) - value(ux));
    }
    catch (const std::runtime_error& e)
    {
      return fail("objective", e.what());
    }
  }
  for (size_t k = 0; k < want.size(); ++k)
    if (got.size() != want.size() || !near(got[k], want[k], 1e-7))
      return fail("objective", str("QP ", nqp, " values per unit cost and row ", vec(got), ", expected ", vec(want)));
}

CvxOptStatus Script::answer()
{
  if (bad)   // wind the run down quickly
    return CVX_FAILED;
  if (finished)
  {
    fail("goes-on", str("QP after the run should have ended with ", toString(want)));
    return CVX_FAILED;
  }
  c.transitions();
  verifyQp();
  ++nqp, ++time;
  g_clock += 1000000000;
  int kind = 1;
  if (used < cfg.depth)
    kind = used == 0 && first >= 0 ? first : d.choose(11), ++used;
  log += str(" ", kind);
  if (kind == 0)
  {
    ++fails;
    if (fails < cfg.maxfail)
    {
      box *= cfg.shrink;
      if (box < cfg.minbox)
        endIteration();
    }
    else if (fails == cfg.maxfail)
      box = cfg.minbox;
    else
      finish(OPT_FAILED);
    return (nqp + used) % 2 ? CVX_FAILED : CVX_INFEASIBLE;
  }
  // predicted and exact values at the answer
  Exact pred = cur, ex = cur;
  auto addCost = [&](Exact& e, double delta) {
    if (cfg.ncost)
      e.cost[size_t(nqp) % e.cost.size()] += delta;
    else
      e.rows[0][0] += (e.rows[0][0] < 0 ? -1 : 1) * delta / w[0];
  };
  bool hasRows = cfg.ncnt > 0;
  switch (kind)
  {
    case 1: break;                                                  // nothing to gain
    case 2: addCost(pred, 1), addCost(ex, -1); break;               // the model gets worse
    case 3: addCost(pred, -4), addCost(ex, -4); break;
    case 4: addCost(pred, -4), addCost(ex, -1); break;              // exactly at the threshold
    case 5: addCost(pred, -4), addCost(ex, -0.9375); break;
    case 6: addCost(pred, -4); break;
    case 7: addCost(pred, -4), addCost(ex, 1); break;
    case 8:                                                         // the first constraint comes within its tolerance
      if (hasRows)
        for (auto* e : { &pred, &ex }) e->rows[0] = { cfg.tol / 4, -cfg.tol / 4 };
      else
        addCost(pred, -2), addCost(ex, -3);
      break;
    case 9:                                                         // all constraints come within their tolerance, costs rise a little
      for (auto* e : { &pred, &ex })
      {
        if (e->rows.size() > 0) e->rows[0] = { 0, 0 };
        if (e->rows.size() > 1) e->rows[1] = { -1, cfg.tol / 2 };
      }
      if (!hasRows) addCost(pred, -8), addCost(ex, -2);
      else if (cfg.ncost) addCost(ex, 0.25);
      break;
    default:                                                        // less violation predicted, more of it found
      if (hasRows)
      {
        pred.rows[0] = { pred.rows[0][0] / 2, pred.rows[0][1] / 2 };
        ex.rows.back()[0] += 2;
      }
      else
        addCost(pred, -1e-4), addCost(ex, -1e-4);
  }
  DblVec nx(2);
  for (int n = 2;; ++n)
  {
    for (size_t k = 0; k < 2; ++k)
      nx[k] = n == 2 ? model->ub[k] : model->lb[k] + (model->ub[k] - model->lb[k]) * (n + int(k)) / (n + 3.0);
    if (!std::isfinite(nx[0]) || !std::isfinite(nx[1]))
      nx = { x[0] + n * 1e-3, x[1] + n };
    if (!table.count({ nx[0], nx[1] }))
      break;
  }
  table[{ nx[0], nx[1] }] = ex;
  for (auto& v : model->val) v = 0;
  model->val[0] = nx[0], model->val[1] = nx[1];
  for (int i = 0; i < cfg.ncost; ++i) model->val[costVar[i].var_rep->index] = pred.cost[size_t(i)];
  for (int i = 0; i < cfg.ncnt; ++i)
    for (size_t r = 0; r < 2; ++r) model->val[rowVar[i][r].var_rep->index] = pred.rows[size_t(i)][r];
  ++nfun;
  double m0 = merit(cur), approx = m0 - merit(pred), exact = m0 - merit(ex);
  if (approx < cfg.minappr || approx / m0 < cfg.frac)
  {
    phaseEnd();
    if (!finished)
      newIteration();
  }
  else if (exact < 0 || exact / approx < cfg.thr)
  {
    box *= cfg.shrink;
    if (box < cfg.minbox)
      endIteration();
  }
  else
  {
    x = nx, cur = ex;
    box *= cfg.expand;
    endIteration();
  }
  c.state(Hash().s(cfg.name).d(m0).d(box).u(uint64_t(pens)).u(uint64_t(iter)).u(uint64_t(fails)).h);
  return CVX_SOLVED;
}
CvxOptStatus RecModel::optimize() { return g->answer(); }

void runAll(Ctx& c, const Cfg& cfg, int first)
{
  mc::Dfs d(c);
  d.run([&] {
    Script s(c, d, cfg);
    s.first = first;
    g = &s;
    {
      auto prob = std::make_shared<OptProb>(ModelType::BPMPD);
      s.model = static_cast<RecModel*>(prob->getModel().get());
      prob->createVariables({ "a", "b" }, { -2, -INFINITY }, { 3, INFINITY });
      for (int i = 0; i < cfg.ncost; ++i) prob->addCost(std::make_shared<ScriptCost>(i, &s));
      for (int i = 0; i < cfg.ncnt; ++i) prob->addConstraint(std::make_shared<ScriptCnt>(i, &s));
      BasicTrustRegionSQP::Ptr opt;
      if (cfg.threads == 0) opt = std::make_shared<BasicTrustRegionSQP>(prob);
      else opt = std::make_shared<BasicTrustRegionSQPMultiThreaded>(prob);
      BasicTrustRegionSQPParameters p;
      p.improve_ratio_threshold = cfg.thr, p.min_trust_box_size = cfg.minbox, p.min_approx_improve = cfg.minappr, p.min_approx_improve_frac = cfg.frac;
      p.max_iter = cfg.maxit, p.trust_shrink_ratio = cfg.shrink, p.trust_expand_ratio = cfg.expand, p.cnt_tolerance = cfg.tol;
      p.max_merit_coeff_increases = cfg.maxpen, p.max_qp_solver_failures = cfg.maxfail, p.merit_coeff_increase_ratio = cfg.ratio;
      p.max_time = cfg.maxtime, p.initial_merit_error_coeff = cfg.coeff, p.inflate_constraints_individually = cfg.individual;
      p.trust_box_size = cfg.box, p.num_threads = cfg.threads;
      p.log_results = !cfg.logdir.empty(), p.log_dir = cfg.logdir;
      opt->setParameters(p);
      opt->addCallback([&](OptProb* pr, OptResults& r) {
        if (s.bad) return;
        ++s.callbacks;
        if (pr != prob.get()) s.fail("callback", "the callback got another problem");
        if (s.callbacks > s.expectCallbacks) return s.fail("callback", "unexpected iteration");
        if (!r.cost_vals.empty() || !r.cnt_viols.empty())
        {
          Exact e = s.at(r.x);
          if (r.cost_vals != e.cost || r.cnt_viols != s.viols(e))
            s.fail("values-of-another-point", str("at ", vec(r.x), " costs ", vec(r.cost_vals), " violations ", vec(r.cnt_viols), ", expected ", vec(e.cost), vec(s.viols(e))));
        }
        if (r.x != s.x) s.fail("current-point", str("reported ", vec(r.x), ", expected ", vec(s.x)));
      });
      DblVec x0 = { cfg.x0, 0.5 };
      for (int run = 0; run < 1 + cfg.again; ++run)
      {
        s.expectCallbacks = s.callbacks = 0;
        s.evaluated = false;
        if (run == 0)
          opt->initialize(x0), s.start(x0, false);
        else
          s.start(opt->results().x, true);
        OptStatus st = opt->optimize();
        OptResults& r = opt->results();
        if (s.bad) break;
        if (st != r.status) s.fail("status", str("returned ", toString(st), " but reports ", toString(r.status)));
        if (!s.finished) s.fail("stops-early", str("ended with ", toString(st), " although the run should go on"));
        else if (s.want == Script::OPT_STATUS_EITHER ? (st != OPT_CONVERGED && st != OPT_TIME_LIMIT) : st != s.want)
          s.fail("status", str("ended with ", toString(st), ", expected ", toString(s.want)));
        if (r.x != s.x) s.fail("current-point", str("final point ", vec(r.x), ", expected ", vec(s.x)));
        if (s.evaluated || !r.cost_vals.empty() || !r.cnt_viols.empty())
        {
          if (r.cost_vals != s.cur.cost || r.cnt_viols != s.viols(s.cur))
            s.fail("values-of-another-point", str("final costs ", vec(r.cost_vals), " violations ", vec(r.cnt_viols), ", expected ", vec(s.cur.cost), vec(s.viols(s.cur))));
          double total = 0;
          for (double k : s.cur.cost) total += k;
          if (!near(r.total_cost, total, 1e-12)) s.fail("total-cost", str(r.total_cost, " for ", total));
        }
        if (st == OPT_CONVERGED && !s.satisfied(s.cur)) s.fail("converged-but-violated", vec(s.viols(s.cur)));
        if (r.n_qp_solves != s.nqp) s.fail("counters", str("reports ", r.n_qp_solves, " QPs of ", s.nqp));
        if (r.n_func_evals != s.nfun) s.fail("counters", str("reports ", r.n_func_evals, " evaluations of ", s.nfun));
        if (s.callbacks != s.expectCallbacks) s.fail("callback", str(s.callbacks, " callbacks, expected ", s.expectCallbacks));
        c.outcome(Hash().u(uint64_t(st)).u(uint64_t(s.nqp)).d(r.total_cost).h);
        s.model->update();
        if (s.model->vars.size() != 2 || !s.model->cnts.empty())
          s.fail("left-over", str(s.model->vars.size(), " variables and ", s.model->cnts.size(), " constraints remain in the model"));
        c.traces();
      }
    }
    g = nullptr;
  });
}
}  // namespace
namespace sco
{
Model::Ptr createBPMPDModel() { return std::make_shared<RecModel>(); }
}

void mc::explore(Ctx& c)
{
  trajopt_common::gLogLevel = trajopt_common::LevelFatal;
  int depth = c.thorough ? 6 : 5;
  std::vector<Cfg> cfgs;
  auto add = [&](const char* name, auto&& f) {
    Cfg k;
    k.name = name, k.depth = depth;
    f(k);
    cfgs.push_back(k);
  };
  add("default", [](Cfg&) {});
  add("uniform penalties", [](Cfg& k) { k.depth -= 1; k.individual = false; });
  add("two iterations", [](Cfg& k) { k.maxit = 2; });
  add("one penalty", [](Cfg& k) { k.depth -= 1; k.maxpen = 1; });
  add("no penalty round", [](Cfg& k) { k.maxpen = 0; k.depth = 1; });
  add("one failure", [](Cfg& k) { k.depth -= 1; k.maxfail = 1; });
  add("small start box", [](Cfg& k) { k.depth -= 1; k.box = 0.3; k.shrink = 0.5; });
  add("time limit", [](Cfg& k) { k.maxtime = 3; });
  add("time limit at once", [](Cfg& k) { k.maxtime = 0; k.depth = 1; });
  add("fraction", [](Cfg& k) { k.frac = 0.125; k.depth -= 1; });
  add("start outside", [](Cfg& k) { k.x0 = 5; k.depth -= 1; });
  add("start on the bound", [](Cfg& k) { k.x0 = -2; k.depth -= 1; });
  add("no constraints", [](Cfg& k) { k.depth -= 1; k.ncnt = 0; });
  add("no costs", [](Cfg& k) { k.ncost = 0; k.depth -= 1; });
  add("no costs, one constraint, time limit at once", [](Cfg& k) { k.ncost = 0; k.ncnt = 1; k.maxtime = 0; k.depth = 1; });
  add("missing log directory", [](Cfg& k) { k.logdir = "/nonexistent/log"; k.depth = 2; });
  add("log", [](Cfg& k) { k.logdir = "."; k.depth = 2; });
  add("one thread", [](Cfg& k) { k.threads = 1; k.depth -= 1; });
  add("two threads", [](Cfg& k) { k.threads = 2; k.depth = 3; });
  add("run again", [](Cfg& k) { k.again = true; k.depth -= 1; k.maxit = 3; });
  for (const auto& k : cfgs)
    for (int first = k.depth >= 3 ? 0 : -1; first < (k.depth >= 3 ? 11 : 0); ++first)
      c.item([=] { return str(k.name, ", first answer ", first); }, [&c, k, first] { runAll(c, k, first); });
}
