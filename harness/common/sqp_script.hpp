// Scripted QPProblem / QPSolver pair around the real TrustRegionSQPSolver. Every QP answer, callback answer, structure
// change and update refusal is a choice of the exploration; a small independent simulation of the documented algorithm
// says, after every answer, what has to be observed next. Used by Q01 (progress / best point), Q02 (termination and
// status) and Q03 (box, penalties and QP data): each reports only its own kind of divergence and gives up an execution
// whose divergence belongs to one of the others.
#pragma once
#include <mc/mc.hpp>
#include <chrono>
#include <cstdio>
#include <fcntl.h>
#include <unistd.h>
#include <console_bridge/console.h>
#include <trajopt_sqp/qp_problem.h>
#include <trajopt_sqp/qp_solver.h>
#include <trajopt_sqp/sqp_callback.h>
#include <trajopt_sqp/trust_region_sqp_solver.h>
#include <trajopt_sqp/types.h>

static int64_t g_clock_ns = 1000000000;
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(g_clock_ns)); }
}}}

namespace sqps
{
using namespace mc;
using namespace trajopt_sqp;
using trajopt_ifopt::Jacobian;
using Eigen::VectorXd;

enum class Area { Progress, Status, Rules };
struct Abandon {};

struct Cfg
{
  std::string name;
  int ncnt = 2;
  double thr = 0.25, minbox = 0.125, minappr = 1.0 / 1024, frac = std::numeric_limits<double>::lowest();
  int maxit = 50;
  double shrink = 0.25, expand = 2, tol = 1.0 / 64;
  double maxpen = 2;
  int maxfail = 2;
  double ratio = 4, maxtime = 1e300, coeff0 = 8, box0 = 1;
  bool indiv = true;
  bool structure = false;   // dimension changes and refused in-place updates
  bool second = false;      // solve a second problem with the same solver object
  bool verbose = false;     // prints the iteration tables
  int stop_cb = 1;          // which callback answers stop
  int depth = 4;
  std::vector<int> alphabet;
};

// ---- QP answers ------------------------------------------------------------------------------------------------
// quality: improvements of the exact and the convexified merit relative to the best merit
struct Quality { const char* name; double exact, approx; bool fail, stop; };
static const Quality QUAL[] = {
  { "small-approx,exact-better", 1, 1.0 / 4096, false, false },  // 0: converged (used beyond the depth bound)
  { "good", 0.75, 1, false, false },
  { "ratio-at-threshold", 0.25, 1, false, false },
  { "ratio-below-threshold", 0.125, 1, false, false },
  { "exact-worse", -1, 1, false, false },
  { "approx-worse", 1, -1, false, false },
  { "approx-at-minimum", 1.0 / 1024, 1.0 / 1024, false, false },
  { "exact-equal", 0, 1, false, false },
  { "exact-much-better", 16, 1, false, false },
  { "qp-failure", 0, 0, true, false },
  { "callback-stop", 0.75, 1, false, true },
  { "approx-zero", 0.5, 0, false, false },
  { "stop-with-worse", -1, 1, false, true },
  { "small-approx,exact-worse", -0.5, 1.0 / 4096, false, false },
};
enum { CONV = 0, GOOD, ATTHR, BELOW, WORSE, APXWORSE, APXMIN, EQUAL, MUCH, FAIL, STOP, APXZERO, STOPWORSE, CONVWORSE };
static const double VIOL[4][2] = { { 0.5, 0.25 }, { 0, 0.5 }, { 0.25, 1.0 / 64 }, { 0, 0 } };  // 1/64 is exactly the tolerance

struct Out { int q, v; };

struct Point { double c[2], v[2], ac[2], av[2]; };

struct Expect
{
  bool end = false;
  SQPStatus status = SQPStatus::kRunning;
  double box = 0, w[2] = { 0, 0 };
  int best = 0;          // index of the best point
  int nconv = 0;         // convexifications started
  int conv_at = 0;       // point of the last convexification
  int overall = 0;
  double merit = 0;      // of best under w
  std::vector<Point> pts;
  int pen = 0;
  double M(int i, int n) const
  {
    double m = pts[size_t(i)].c[0] + pts[size_t(i)].c[1];
    for (int k = 0; k < n; ++k)
      m += pts[size_t(i)].v[k] * w[k];
    return m;
  }
};

inline Point makePoint(const Cfg& g, const Expect& e, int id, const Out& o)
{
  const Quality& q = QUAL[o.q];
  Point p{};
  double M = e.M(e.best, g.ncnt), s = M - q.exact, a = M - q.approx;
  for (int k = 0; k < g.ncnt; ++k)
  {
    p.v[k] = VIOL[o.v][k];
    p.av[k] = p.v[k] * 0.5 + 0.125;
    s -= p.v[k] * e.w[k];
    a -= p.av[k] * e.w[k];
  }
  p.c[0] = id * 0.5;
  p.c[1] = s - p.c[0];
  p.ac[0] = id * 0.25 + 1;
  p.ac[1] = a - p.ac[0];
  return p;
}

// The documented algorithm, replayed over the answers given so far (point k+1 is the answer to QP k).
inline Expect simulate(const Cfg& g, const std::vector<Out>& outs, int start_viol)
{
  Expect e;
  Point p0{};
  p0.c[0] = 4;
  p0.c[1] = 8;
  for (int k = 0; k < g.ncnt; ++k)
    p0.v[k] = VIOL[start_viol][k];
  e.pts.push_back(p0);
  e.w[0] = e.w[1] = g.coeff0;
  e.box = g.box0;
  size_t k = 0;
  int clock = 0;
  auto finish = [&](SQPStatus s) { e.end = true; e.status = s; e.merit = e.M(e.best, g.ncnt); return e; };
  for (int p = 0; p < g.maxpen; ++p)
  {
    e.pen = p;
    SQPStatus st = SQPStatus::kRunning;
    for (int ci = 1; ci < 100; ++ci)
    {
      if (double(clock) > g.maxtime) { st = SQPStatus::kTimeLimit; break; }
      if (e.overall >= g.maxit) { st = SQPStatus::kIterationLimit; break; }
      ++e.nconv;
      e.conv_at = e.best;
      int fails = 0;
      bool conv = false;
      while (e.box >= g.minbox)
      {
        if (k == outs.size()) { e.merit = e.M(e.best, g.ncnt); return e; }
        Out o = outs[k];
        const Quality& q = QUAL[o.q];
        ++e.overall;
        ++clock;
        e.pts.push_back(makePoint(g, e, int(k) + 1, o));
        ++k;
        if (q.fail)
        {
          ++fails;
          if (fails < g.maxfail) { e.box *= g.shrink; continue; }
          if (fails == g.maxfail) { e.box = g.minbox; continue; }
          return finish(SQPStatus::kQPSolveFailed);
        }
        if (q.stop)
          return finish(SQPStatus::kStoppedByCallback);
        double M = e.M(e.best, g.ncnt);
        if (q.approx < g.minappr || q.approx / std::max(std::fabs(M), 1e-12) < g.frac) { conv = true; break; }
        if (q.exact < 0 || q.exact / q.approx < g.thr) { e.box *= g.shrink; continue; }
        e.best = int(k);
        e.box *= g.expand;
        break;
      }
      if (conv || e.box < g.minbox) break;
    }
    bool ok = true;
    for (int i = 0; i < g.ncnt; ++i)
      ok = ok && e.pts[size_t(e.best)].v[i] < g.tol;
    if (ok) return finish(SQPStatus::kConverged);
    if (st != SQPStatus::kRunning) return finish(st);
    for (int i = 0; i < g.ncnt; ++i)
      if (!g.indiv || e.pts[size_t(e.best)].v[i] > g.tol)
        e.w[i] *= g.ratio;
    e.box = std::max(e.box, g.minbox / g.shrink * 1.5);
  }
  return finish(SQPStatus::kPenaltyIterationLimit);
}

// ---- scripted problem ------------------------------------------------------------------------------------------
struct World;
class Problem : public QPProblem
{
public:
  World& W;
  VectorXd x{ VectorXd::Zero(2) }, box{ VectorXd::Ones(2) }, coeff, g, lb, ub, xconv{ VectorXd::Zero(2) };
  Jacobian H, A;
  int version = 0, grow = 0;
  std::vector<std::string> cn, kn;
  explicit Problem(World& w);
  void addConstraintSet(std::shared_ptr<trajopt_ifopt::ConstraintSet>) override {}
  void addCostSet(std::shared_ptr<trajopt_ifopt::ConstraintSet>, CostPenaltyType) override {}
  void setup() override {}
  void setVariables(const double* v) override { x = Eigen::Map<const VectorXd>(v, 2); }
  VectorXd getVariableValues() const override { return x; }
  void convexify() override;
  void rebuild();
  const Point& pt(const VectorXd& v) const;
  double evaluateTotalConvexCost(const Eigen::Ref<const VectorXd>& v) const override { return evaluateConvexCosts(v).sum(); }
  VectorXd evaluateConvexCosts(const Eigen::Ref<const VectorXd>& v) const override
  {
    const Point& p = pt(v);
    return Eigen::Vector2d(p.ac[0], p.ac[1]);
  }
  double getTotalExactCost() const override { return getExactCosts().sum(); }
  VectorXd getExactCosts() const override
  {
    const Point& p = pt(x);
    return Eigen::Vector2d(p.c[0], p.c[1]);
  }
  VectorXd cut(const double* v) const;
  VectorXd evaluateConvexConstraintViolations(const Eigen::Ref<const VectorXd>& v) const override { return cut(pt(v).av); }
  VectorXd getExactConstraintViolations() const override { return cut(pt(x).v); }
  void scaleBoxSize(double& s) override { box *= s; rebuild(); }
  void setBoxSize(const Eigen::Ref<const VectorXd>& b) override { box = b; rebuild(); }
  void setConstraintMeritCoeff(const Eigen::Ref<const VectorXd>& m) override { coeff = m; rebuild(); }
  void print() const override {}
  Eigen::Index nslack() const;
  Eigen::Index getNumNLPVars() const override { return 2; }
  Eigen::Index getNumNLPConstraints() const override;
  Eigen::Index getNumNLPCosts() const override { return 2; }
  Eigen::Index getNumQPVars() const override { return 2 + nslack(); }
  Eigen::Index getNumQPConstraints() const override { return 2 + nslack(); }
  const std::vector<std::string>& getNLPConstraintNames() const override { return kn; }
  const std::vector<std::string>& getNLPCostNames() const override { return cn; }
  const VectorXd& getBoxSize() const override { return box; }
  const VectorXd& getConstraintMeritCoeff() const override { return coeff; }
  const Jacobian& getHessian() const override { return H; }
  const VectorXd& getGradient() const override { return g; }
  const Jacobian& getConstraintMatrix() const override { return A; }
  const VectorXd& getBoundsLower() const override { return lb; }
  const VectorXd& getBoundsUpper() const override { return ub; }
};

class Solver : public QPSolver
{
public:
  World& W;
  QPSolverStatus st = QPSolverStatus::kUninitialized;
  Eigen::Index nv = -1, nc = -1;
  bool hasH = false, hasA = false, hasg = false, hasb = false;
  Jacobian H, A;
  VectorXd g, lb, ub, sol;
  explicit Solver(World& w) : W(w) {}
  bool init(Eigen::Index v, Eigen::Index c) override
  {
    nv = v; nc = c;
    hasH = hasA = hasg = hasb = false;
    st = QPSolverStatus::kInitialized;
    return true;
  }
  bool clear() override
  {
    nv = nc = -1;
    hasH = hasA = hasg = hasb = false;
    st = QPSolverStatus::kUninitialized;
    return true;
  }
  bool refuse(int which, bool have);
  bool solve() override;
  VectorXd getSolution() override { return sol; }
  bool updateHessianMatrix(const Jacobian& h) override
  {
    if (refuse(1, hasH)) return false;
    H = h; hasH = true; return true;
  }
  bool updateGradient(const Eigen::Ref<const VectorXd>& v) override
  {
    if (refuse(2, hasg)) return false;
    g = v; hasg = true; return true;
  }
  bool updateLowerBound(const Eigen::Ref<const VectorXd>& v) override { lb = v; return true; }
  bool updateUpperBound(const Eigen::Ref<const VectorXd>& v) override { ub = v; return true; }
  bool updateBounds(const Eigen::Ref<const VectorXd>& l, const Eigen::Ref<const VectorXd>& u) override
  {
    if (refuse(4, hasb)) return false;
    lb = l; ub = u; hasb = true; return true;
  }
  bool updateLinearConstraintsMatrix(const Jacobian& a) override
  {
    if (refuse(3, hasA)) return false;
    A = a; hasA = true; return true;
  }
  bool setWarmStart(const QPProblem&) override { return true; }
  QPSolverStatus getSolverStatus() const override { return st; }
};

struct World
{
  const Cfg& g;
  Ctx& c;
  Dfs& d;
  Area mine;
  std::vector<Out> outs;
  std::vector<Point> pts;     // what the problem answers
  std::vector<int> log;       // what happened, for messages
  int start_viol = 0;
  TrustRegionSQPSolver* sqp = nullptr;
  Problem* prob = nullptr;
  bool in_convexify_refusal = false;
  int refuse_which = 0;       // refuse one in-place update of this kind at the current convexification
  int cb_seen = 0;
  int depth = 0;
  int first = -1;             // fixed first answer (the exploration is split by it)
  World(const Cfg& g_, Ctx& c_, Dfs& d_, Area m) : g(g_), c(c_), d(d_), mine(m) {}

  [[noreturn]] void bad(Area a, const char* key, const std::string& msg)
  {
    if (a != mine)
      throw Abandon{};
    c.fail(key, "configuration " + g.name + ", history:" + history() + "\n  " + msg);
  }
  std::string history() const
  {
    std::string t;
    for (int k : log)
      t += k == 2000 ? " || second solve:" : k >= 1002 ? str(" [convexify,refuse-update-", k - 1001, "]")
           : k == 1001 ? " [convexify,new-dimensions]" : k == 1000 ? " [convexify]"
           : QUAL[k / 8].fail ? str(" ", QUAL[k / 8].name) : str(" ", QUAL[k / 8].name, "/v", k % 8);
    return t;
  }

  // results structure and problem agree with the expected best point
  void checkBest(const Expect& e, const char* where)
  {
    const SQPResults& r = sqp->getResults();
    const Point& b = e.pts[size_t(e.best)];
#define WANT(ok, m) do { if (!(ok)) bad(Area::Progress, "best-point", str(where, ": ", m, " (best point is ", e.best, ")")); } while (0)
    WANT(r.best_var_vals.size() >= 2 && r.best_var_vals[0] == e.best && r.best_var_vals[1] == 0.5 * e.best, "reported best variable values are " + vec(r.best_var_vals));
    WANT(r.best_costs.size() == 2 && r.best_costs[0] == b.c[0] && r.best_costs[1] == b.c[1], "reported best costs belong to another point");
    WANT(r.best_constraint_violations.size() == g.ncnt, "wrong number of best violations");
    for (int k = 0; k < g.ncnt; ++k)
      WANT(r.best_constraint_violations[k] == b.v[k], "reported best violations belong to another point");
    WANT(near(r.best_exact_merit, e.M(e.best, g.ncnt)), str("reported best merit ", r.best_exact_merit, " is not that of the best point at the current penalties, ", e.M(e.best, g.ncnt)));
    WANT(prob->x[0] == e.best && prob->x[1] == 0.5 * e.best, "the problem's variables hold another point: " + vec(prob->x));
#undef WANT
  }
};

inline Problem::Problem(World& w) : W(w)
{
  coeff = VectorXd::Ones(W.g.ncnt);
  cn = { "c0", "c1" };
  for (int i = 0; i < W.g.ncnt; ++i)
    kn.push_back("k" + std::to_string(i));
  rebuild();
}
inline VectorXd Problem::cut(const double* v) const
{
  VectorXd r(W.g.ncnt);
  for (int i = 0; i < W.g.ncnt; ++i)
    r[i] = v[i];
  return r;
}
inline Eigen::Index Problem::nslack() const { return version == 0 ? 0 : W.g.ncnt + grow; }
inline Eigen::Index Problem::getNumNLPConstraints() const { return W.g.ncnt; }
inline const Point& Problem::pt(const VectorXd& v) const
{
  double id = v[0];
  if (!(id >= 0 && id < double(W.pts.size()) && id == std::floor(id) && v[1] == 0.5 * id))
    W.bad(Area::Progress, "foreign-point", "evaluated at a point no QP answered: " + vec(v));
  return W.pts[size_t(id)];
}
// every piece of QP data carries what it was computed from
inline void Problem::rebuild()
{
  const Eigen::Index nv = getNumQPVars(), nc = getNumQPConstraints();
  H.resize(nv, nv);
  H.setZero();
  H.insert(0, 0) = 100 + version;
  H.insert(1, 1) = 1000 + xconv[0];
  A.resize(nc, nv);
  A.setZero();
  A.insert(0, 0) = 100 + version;
  A.insert(1, 1) = 1;
  g = VectorXd::Zero(nv);
  g[0] = version;
  for (Eigen::Index i = 2; i < nv; ++i)
    g[i] = i - 2 < coeff.size() ? coeff[i - 2] : 7;
  lb = VectorXd::Zero(nc);
  ub = VectorXd::Constant(nc, 1e30);
  for (int i = 0; i < 2; ++i)
  {
    lb[i] = xconv[i] - box[i];
    ub[i] = xconv[i] + box[i];
  }
  for (Eigen::Index i = 2; i < nc; ++i)
    lb[i] = version;
}
inline void Problem::convexify()
{
  ++version;
  xconv = x;
  if (W.g.structure)
  {
    int k = W.d.choose(W.depth < W.g.depth ? 6 : 1);   // 0 same, 1 other dimensions, 2..5 refuse one update
    W.refuse_which = 0;
    if (k == 1)
      grow = 1 - grow;
    else if (k >= 2)
      W.refuse_which = k - 1;
    W.log.push_back(1000 + k);
  }
  rebuild();
}
inline bool Solver::refuse(int which, bool have)
{
  if (st == QPSolverStatus::kUninitialized)
    W.bad(Area::Rules, "uninitialised", "QP data handed to a solver that is not initialised");
  if (W.refuse_which == which && have)   // only an in-place update can be refused
  {
    W.refuse_which = 0;
    return true;
  }
  return false;
}
inline bool Solver::solve()
{
  W.c.transitions();
  W.refuse_which = 0;
  Expect e = simulate(W.g, W.outs, W.start_viol);
  if (e.end)
    W.bad(Area::Status, "continues", str("another QP is solved although the run has to end with status ", int(e.status)));
  W.checkBest(e, "at a QP solve");
  const SQPResults& r = W.sqp->getResults();
  Problem& P = *W.prob;
#define WANT(ok, key, m) do { if (!(ok)) W.bad(Area::Rules, key, str("QP ", W.outs.size(), ": ", m)); } while (0)
  WANT(near(P.box[0], e.box) && near(P.box[1], e.box), "box", str("trust box is ", P.box[0], ", expected ", e.box));
  WANT(near(r.box_size[0], e.box) && near(r.box_size[1], e.box), "box", str("reported trust box is ", r.box_size[0], ", expected ", e.box));
  for (int i = 0; i < W.g.ncnt; ++i)
  {
    WANT(near(r.merit_error_coeffs[i], e.w[i]), "penalty", str("reported penalty ", i, " is ", r.merit_error_coeffs[i], ", expected ", e.w[i]));
    WANT(near(P.coeff[i], e.w[i]), "penalty", str("penalty ", i, " of the problem is ", P.coeff[i], ", expected ", e.w[i]));
  }
  WANT(P.version >= e.nconv, "convexify", str("solved without convexifying anew (", P.version, " of ", e.nconv, ")"));
  if (P.version > e.nconv)
    W.bad(Area::Status, "extra-round", "more convexification rounds than the rules allow");
  WANT(P.xconv[0] == e.conv_at, "convexify", str("convexified at point ", P.xconv[0], ", best was ", e.conv_at));
  WANT(hasH && hasA && hasg && hasb, "qp-data", "solve() without complete QP data");
  WANT(nv == P.getNumQPVars() && nc == P.getNumQPConstraints(), "qp-data", "solver initialised with other dimensions");
  WANT(H.rows() == P.H.rows() && Eigen::MatrixXd(H) == Eigen::MatrixXd(P.H), "qp-data", "stale Hessian");
  WANT(A.rows() == P.A.rows() && A.cols() == P.A.cols() && Eigen::MatrixXd(A) == Eigen::MatrixXd(P.A), "qp-data", "stale constraint matrix");
  WANT(g.size() == P.g.size() && g == P.g, "qp-data", "stale gradient (penalty weights)");
  WANT(lb.size() == P.lb.size() && lb == P.lb && ub == P.ub, "qp-data", "stale bounds (trust box)");
  WANT(r.penalty_iteration == e.pen && e.pen < W.g.maxpen, "rounds", "wrong penalty round");
#undef WANT
  Hash h;
  h.u(uint64_t(e.best)).d(e.box).d(e.w[0]).d(e.w[1]).u(uint64_t(e.pen)).u(uint64_t(e.nconv)).u(uint64_t(e.overall));
  h.s(W.g.name);
  W.c.state(h);

  Out o{ CONV, 3 };
  if (W.depth < W.g.depth)
  {
    if (W.first >= 0)
    {
      o.q = W.first;
      W.first = -1;
    }
    else
      o.q = W.g.alphabet[size_t(W.d.choose(int(W.g.alphabet.size())))];
    if (o.q == FAIL)
      o.v = 0;
    else if (o.q == GOOD || o.q == MUCH || o.q == APXMIN)
      o.v = W.d.choose(W.g.ncnt == 0 || W.g.depth > 20 ? 1 : 4);
    else if (o.q == CONV)
      o.v = 3;
    else
      o.v = 0;
  }
  ++W.depth;
  W.log.push_back(o.q * 8 + o.v);
  Point p = makePoint(W.g, e, int(W.outs.size()) + 1, o);
  W.pts.push_back(p);
  W.outs.push_back(o);
  g_clock_ns += 1000000000;
  W.cb_seen = 0;
  sol = VectorXd::Constant(nv, 0.5);
  sol[0] = double(W.outs.size());
  sol[1] = 0.5 * sol[0];
  if (QUAL[o.q].fail)
    sol.setConstant(std::numeric_limits<double>::quiet_NaN());
  return !QUAL[o.q].fail;
}

struct Callback : SQPCallback
{
  World& W;
  int idx;
  Callback(World& w, int i) : W(w), idx(i) {}
  bool execute(const QPProblem& q, const SQPResults& r) override
  {
    if (W.outs.empty())
      W.bad(Area::Progress, "callback", "callback before any QP");
    Out o = W.outs.back();
    std::vector<Out> before(W.outs.begin(), W.outs.end() - 1);
    Expect e = simulate(W.g, before, W.start_viol);
    if (QUAL[o.q].fail)
      W.bad(Area::Progress, "callback", "callback after a failed QP");
    if (&q != W.prob || &r != &W.sqp->getResults())
      W.bad(Area::Progress, "callback", "callback with another problem or result");
    W.checkBest(e, "at a callback");
    const Point& p = W.pts.back();
    const double id = double(W.outs.size());
#define WANT(ok, m) do { if (!(ok)) W.bad(Area::Progress, "new-point", std::string("at a callback: ") + m); } while (0)
    double nm = p.c[0] + p.c[1], am = p.ac[0] + p.ac[1];
    for (int k = 0; k < W.g.ncnt; ++k) { nm += p.v[k] * e.w[k]; am += p.av[k] * e.w[k]; }
    WANT(r.new_var_vals.size() >= 2 && r.new_var_vals[0] == id, "reported new point is not the QP solution");
    WANT(r.new_costs.size() == 2 && r.new_costs[0] == p.c[0] && r.new_costs[1] == p.c[1], "reported new costs are not those of the QP solution");
    for (int k = 0; k < W.g.ncnt; ++k)
      WANT(r.new_constraint_violations[k] == p.v[k] && r.new_approx_constraint_violations[k] == p.av[k], "reported new violations are not those of the QP solution");
    WANT(r.new_approx_costs[0] == p.ac[0] && r.new_approx_costs[1] == p.ac[1], "reported convexified costs are not those of the QP solution");
    WANT(near(r.new_exact_merit, nm) && near(r.new_approx_merit, am), "reported merits of the QP solution are wrong");
    WANT(near(r.exact_merit_improve, e.M(e.best, W.g.ncnt) - nm) && near(r.approx_merit_improve, e.M(e.best, W.g.ncnt) - am), "reported improvements are wrong");
#undef WANT
    if (r.overall_iteration != int(W.outs.size()))
      W.bad(Area::Rules, "rounds", str("reported ", r.overall_iteration, " QP solves, there were ", W.outs.size()));
    ++W.cb_seen;
    return !(QUAL[o.q].stop && idx == W.g.stop_cb);
  }
};

inline void oneSolve(World& w, TrustRegionSQPSolver& sqp)
{
  auto prob = std::make_shared<Problem>(w);
  w.prob = prob.get();
  Expect e0 = simulate(w.g, {}, w.start_viol);
  w.pts = e0.pts;
  w.outs.clear();
  sqp.solve(prob);
  Expect e = simulate(w.g, w.outs, w.start_viol);
  if (!e.end)
    w.bad(Area::Status, "premature", str("the run ends with status ", int(sqp.getStatus()), " although the rules require another QP"));
  if (sqp.getStatus() != e.status)
    w.bad(Area::Status, "status", str("status is ", int(sqp.getStatus()), ", expected ", int(e.status)));
  // truthfulness, stated directly
  const SQPResults& r = sqp.getResults();
  if (sqp.getStatus() == SQPStatus::kConverged)
    for (int k = 0; k < w.g.ncnt; ++k)
      if (!(r.best_constraint_violations[k] < w.g.tol))
        w.bad(Area::Status, "false-convergence", "converged with a violated constraint");
  if (prob->version > e.nconv)
    w.bad(Area::Status, "extra-round", str(prob->version, " convexifications, ", e.nconv, " allowed"));
  w.checkBest(e, "at the end");
  w.c.outcome(Hash().u(uint64_t(e.status)).u(uint64_t(e.best)).d(e.box).d(e.w[0]).d(e.w[1]).u(uint64_t(e.overall)));
  w.c.count(str("ended_with_status_", int(e.status)));
}

inline void exploreCfg(Ctx& c, const Cfg& g, Area mine, int start_viol, int first)
{
  Dfs d(c);
  d.run([&] {
    World w(g, c, d, mine);
    w.start_viol = start_viol;
    w.first = first;
    g_clock_ns = 1000000000;
    auto solver = std::make_shared<Solver>(w);
    TrustRegionSQPSolver sqp(solver);
    w.sqp = &sqp;
    auto& p = sqp.params;
    p.improve_ratio_threshold = g.thr;
    p.min_trust_box_size = g.minbox;
    p.min_approx_improve = g.minappr;
    p.min_approx_improve_frac = g.frac;
    p.max_iterations = g.maxit;
    p.trust_shrink_ratio = g.shrink;
    p.trust_expand_ratio = g.expand;
    p.cnt_tolerance = g.tol;
    p.max_merit_coeff_increases = g.maxpen;
    p.max_qp_solver_failures = g.maxfail;
    p.merit_coeff_increase_ratio = g.ratio;
    p.max_time = g.maxtime;
    p.initial_merit_error_coeff = g.coeff0;
    p.inflate_constraints_individually = g.indiv;
    p.initial_trust_box_size = g.box0;
    sqp.verbose = g.verbose;
    sqp.registerCallback(std::make_shared<Callback>(w, 0));
    sqp.registerCallback(std::make_shared<Callback>(w, 1));
    try
    {
      oneSolve(w, sqp);
      if (g.second)
      {
        w.log.push_back(2000);
        w.depth = 0;
        oneSolve(w, sqp);
      }
    }
    catch (const Abandon&)
    {
      c.count("executions_given_up_for_another_property");
    }
    c.traces();
    if (d.executions % 64 == 1)
      c.note(w.history() + str(" -> status ", int(sqp.getStatus())));
  });
}

inline std::vector<Cfg> configs(bool thorough)
{
  std::vector<Cfg> v;
  const std::vector<int> full = { CONV, GOOD, ATTHR, BELOW, WORSE, APXWORSE, APXMIN, EQUAL, MUCH, FAIL, STOP, APXZERO, STOPWORSE, CONVWORSE };
  const std::vector<int> small = { CONV, GOOD, BELOW, WORSE, FAIL, STOP };
  const std::vector<int> tiny = { CONV, GOOD, BELOW, FAIL };
  auto add = [&](const char* n, const std::vector<int>& a, int depth, const std::function<void(Cfg&)>& f) {
    Cfg g;
    g.name = n;
    g.alphabet = a;
    g.depth = depth + (thorough ? 1 : 0);
    f(g);
    v.push_back(g);
  };
  add("default", full, 3, [](Cfg&) {});
  add("default-deep", small, 4, [](Cfg&) {});
  add("all-penalties-together", small, 4, [](Cfg& g) { g.indiv = false; });
  add("no-constraints", full, 3, [](Cfg& g) { g.ncnt = 0; });
  add("one-constraint", small, 4, [](Cfg& g) { g.ncnt = 1; g.maxpen = 3; });
  add("threshold-0", full, 3, [](Cfg& g) { g.thr = 0; });
  add("negative-minimum-improvement", { CONV, GOOD, ATTHR, BELOW, WORSE, APXWORSE, EQUAL, MUCH, FAIL, STOP, CONVWORSE }, 3, [](Cfg& g) { g.minappr = -4; });
  add("no-qp-failure-allowed", small, 4, [](Cfg& g) { g.maxfail = 0; });
  add("one-qp-failure", small, 4, [](Cfg& g) { g.maxfail = 1; });
  add("three-qp-failures-large-box", small, 4, [](Cfg& g) { g.maxfail = 3; g.box0 = 4; g.shrink = 0.5; g.minbox = 1.0 / 64; });
  add("four-qp-failures-small-box", tiny, 5, [](Cfg& g) { g.maxfail = 4; g.box0 = 0.25; g.shrink = 0.5; });
  add("iteration-limit-1", small, 4, [](Cfg& g) { g.maxit = 1; });
  add("iteration-limit-2", small, 4, [](Cfg& g) { g.maxit = 2; g.maxpen = 3; });
  add("iteration-limit-0", small, 2, [](Cfg& g) { g.maxit = 0; });
  add("time-limit-1.5", small, 4, [](Cfg& g) { g.maxtime = 1.5; g.maxpen = 3; });
  add("time-limit-0.5", small, 4, [](Cfg& g) { g.maxtime = 0.5; });
  add("time-limit-2-exact", tiny, 5, [](Cfg& g) { g.maxtime = 2; });
  add("one-penalty-round", small, 4, [](Cfg& g) { g.maxpen = 1; });
  add("no-penalty-round", tiny, 2, [](Cfg& g) { g.maxpen = 0; });
  add("three-penalty-rounds", tiny, 5, [](Cfg& g) { g.maxpen = 3; });
  add("fractional-improvement-limit", full, 3, [](Cfg& g) { g.frac = 0.06; });
  add("box-below-minimum", small, 3, [](Cfg& g) { g.box0 = 1.0 / 16; });
  add("box-at-minimum", small, 4, [](Cfg& g) { g.box0 = 0.125; });
  add("no-expansion", tiny, 5, [](Cfg& g) { g.expand = 1; g.shrink = 0.5; });
  add("structure", { CONV, GOOD, BELOW, FAIL }, 2, [](Cfg& g) { g.structure = true; });
  add("structure-penalties", { CONV, GOOD }, 2, [](Cfg& g) { g.structure = true; g.maxpen = 3; });
  add("second-solve", tiny, 2, [](Cfg& g) { g.second = true; });
  add("second-solve-structure", { CONV, GOOD }, 1, [](Cfg& g) { g.second = true; g.structure = true; });
  add("first-callback-stops", { CONV, GOOD, STOP, STOPWORSE }, 4, [](Cfg& g) { g.stop_cb = 0; });
  add("verbose", small, 2, [](Cfg& g) { g.verbose = true; });
  add("verbose-no-constraints", small, 2, [](Cfg& g) { g.verbose = true; g.ncnt = 0; });
  add("hundred-accepted-steps", { GOOD }, 230, [](Cfg& g) { g.maxit = 1000; g.expand = 1; });
  add("many-rejected-steps", { BELOW }, 40, [](Cfg& g) { g.shrink = 0.5; g.minbox = 1.0 / 1048576; });
  return v;
}

inline void exploreAll(Ctx& c, Area mine)
{
  console_bridge::setLogLevel(console_bridge::CONSOLE_BRIDGE_LOG_NONE);
  static auto cfgs = configs(c.thorough);
  // split by the first answer so that the work spreads over the shards
  for (const auto& g : cfgs)
  {
    if (g.verbose && mine != Area::Status)
      continue;
    for (int sv = 0; sv < (g.ncnt == 0 ? 1 : 4); ++sv)
      for (int first : g.alphabet)
      {
        c.item([&] { return str("configuration ", g.name, ", start violations ", VIOL[sv][0], ",", VIOL[sv][1], ", first answer ", QUAL[first].name); },
               [&] {
                 fflush(stdout);
                 const int keep = dup(1);
                 if (g.verbose)
                 {
                   int null = open("/dev/null", O_WRONLY);
                   dup2(null, 1);
                   close(null);
                 }
                 struct Restore { int fd; ~Restore() { fflush(stdout); dup2(fd, 1); close(fd); } } restore{ keep };
                 exploreCfg(c, g, mine, sv, first);
               });
      }
  }
}
}  // namespace sqps
