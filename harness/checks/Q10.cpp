// Q10: the problem OSQP is asked to solve is the QP last handed over, its answer is reported as it is, and it starts from
// the present variables with the slacks they need.
#include <common/qp_terms.hpp>
#include <OsqpEigen/OsqpEigen.h>
#include <trajopt_sqp/osqp_eigen_solver.h>
#include <iostream>
#include <sstream>
using namespace qpt;
using trajopt_sqp::OSQPEigenSolver;
using trajopt_sqp::QPSolverStatus;
const CheckInfo mc::info = { "Q10", "model_checking",
  "every sequence of up to 4 (thorough: 5) operations out of {hand over one of 3 problems anew (matrix, vector and size differ); replace the Hessian, gradient, matrix or bounds by one of 2 others of "
  "the same size, accepted or refused by the library; replace one side of the bounds; solve with one of 6 answers or a refused set-up; clear} after each of 3 first problems, quiet and verbose, with and "
  "without warm start; and the starting point for every ordered tuple of up to two terms of the catalogue, every expansion point and both QP problem classes",
  { "the library is a stand-in with OsqpEigen's rules (it references gradient and bounds until it is set up, refuses incomplete data and double initialisation)",
    "a refused replacement is followed by handing the problem over anew or clearing, as the SQP solver does" } };

namespace
{
struct Data
{
  int n, m;
  MatrixXd H, A;
  VectorXd g, l, u;
};
Jacobian sparse(const MatrixXd& m) { return m.sparseView(); }
const Data& data(int size, int variant)
{
  static std::map<std::pair<int, int>, Data> all;
  auto [it, fresh] = all.try_emplace({ size, variant });
  Data& d = it->second;
  if (!fresh)
    return d;
  d.n = size == 0 ? 2 : size == 1 ? 3 : 2;
  d.m = size == 0 ? 3 : size == 1 ? 2 : 4;
  d.H.setZero(d.n, d.n), d.A.setZero(d.m, d.n);
  d.g.resize(d.n), d.l.resize(d.m), d.u.resize(d.m);
  for (int i = 0; i < d.n; ++i)
  {
    d.H(i, i) = 1 + i + 2 * variant;
    d.g[i] = variant == 1 && i == 0 ? 9e-8 : 0.5 * (i + 1) - variant;  // the first is dropped, which is allowed
  }
  if (variant)  // another pattern
    d.H(0, 1) = d.H(1, 0) = 0.25 * variant;
  for (int i = 0; i < d.m; ++i)
  {
    for (int j = 0; j < d.n; ++j)
      if ((i + j + variant) % 3)
        d.A(i, j) = 1 + i - 2 * j + 0.5 * variant;
    d.l[i] = i == 0 ? -INF : -1.0 - i - variant;
    d.u[i] = i == d.m - 1 ? INF : 1.0 + i * variant;
  }
  return d;
}
struct Silence
{
  std::ostringstream s;
  std::streambuf* was = std::cout.rdbuf(s.rdbuf());
  ~Silence() { std::cout.rdbuf(was); }
};
struct Seen
{
  int asked = 0;
  OsqpEigen::Problem p;
  bool warm = false;
  VectorXd wx, wy;
  OsqpEigen::Answer answer;
  std::string refuse;
} seen;
void connect(Ctx& c, const std::string& path)
{
  auto& lib = OsqpEigen::library();
  lib.solve = [](const OsqpEigen::Problem& p, const VectorXd* wx, const VectorXd* wy, const OSQPSettings&) {
    ++seen.asked;
    seen.p = p;
    seen.warm = wx != nullptr;
    if (wx)
      seen.wx = *wx, seen.wy = *wy;
    OsqpEigen::Answer a = seen.answer;
    a.x = VectorXd::LinSpaced(p.n, 0.5 + seen.asked, 1.5);
    a.y = VectorXd::Constant(p.m, 0.25);
    return a;
  };
  lib.refuse = [](const char* call) {
    if (seen.refuse != call)
      return false;
    seen.refuse.clear();
    return true;
  };
  lib.misuse = [&c, path](const std::string& w) { c.fail("library-misuse", path + ": " + w); };
}
struct Op
{
  enum K { Anew, H, G, A, B, L, U, Solve, Clear } k;
  int arg = 0;
  const char* refuse = nullptr;
  std::string text() const
  {
    static const char* names[] = { "hand over problem ", "Hessian ", "gradient ", "matrix ", "bounds ", "lower bounds ", "upper bounds ", "solve, answer ", "clear" };
    return names[k] + (k == Clear ? std::string() : std::to_string(arg)) + (refuse ? str(" (", refuse, " refused)") : "");
  }
};
const std::vector<std::pair<OsqpEigen::ErrorExitFlag, OsqpEigen::Status>> answers = {
  { OsqpEigen::ErrorExitFlag::NoError, OsqpEigen::Status::Solved },
  { OsqpEigen::ErrorExitFlag::NoError, OsqpEigen::Status::SolvedInaccurate },
  { OsqpEigen::ErrorExitFlag::NoError, OsqpEigen::Status::PrimalInfeasible },
  { OsqpEigen::ErrorExitFlag::NoError, OsqpEigen::Status::DualInfeasible },
  { OsqpEigen::ErrorExitFlag::NoError, OsqpEigen::Status::MaxIterReached },
  { OsqpEigen::ErrorExitFlag::NonCvxError, OsqpEigen::Status::Unsolved },
};
bool same(const MatrixXd& a, const MatrixXd& b, double tol = 0)
{
  return a.rows() == b.rows() && a.cols() == b.cols() && (a.size() == 0 || (a - b).cwiseAbs().maxCoeff() <= tol);
}
bool sameBound(const VectorXd& a, const VectorXd& b)
{
  if (a.size() != b.size())
    return false;
  for (int i = 0; i < a.size(); ++i)
    if (!(a[i] == b[i] || (std::fabs(a[i]) >= OSQP_INFTY && std::fabs(b[i]) >= OSQP_INFTY && (a[i] > 0) == (b[i] > 0))))
      return false;
  return true;
}
void histories(Ctx& c, int first, bool verbose, bool warm, int depth, int op1)
{
  std::vector<Op> ops;
  for (int k = 0; k < 3; ++k)
    ops.push_back({ Op::Anew, k });
  for (int v = 1; v < 3; ++v)
    for (auto k : { Op::H, Op::G, Op::A, Op::B })
      ops.push_back({ k, v });
  ops.push_back({ Op::L, 2 });
  ops.push_back({ Op::U, 1 });
  for (size_t a = 0; a < answers.size(); ++a)
    ops.push_back({ Op::Solve, int(a) });
  ops.push_back({ Op::Clear });
  ops.push_back({ Op::Solve, 0, "initSolver" });
  ops.push_back({ Op::H, 1, "updateHessianMatrix" });
  ops.push_back({ Op::G, 1, "updateGradient" });
  ops.push_back({ Op::A, 1, "updateLinearConstraintsMatrix" });
  ops.push_back({ Op::B, 1, "updateBounds" });

  Dfs d(c);
  d.run([&] {
    std::string path = str("problem ", first, verbose ? ", verbose" : "", warm ? "" : ", no warm start");
    seen = Seen();
    Silence silence;
    auto at = [&](const std::string& w) { return [&path, w] { return path + ": " + w; }; };
    const int live = OsqpEigen::library().live;
    {
      OSQPEigenSolver s;
      s.verbosity = verbose;
      if (!warm)
        s.solver_->settings()->setWarmStart(false);
      connect(c, path);
      // the reference
      bool ready = false, setUp = false, refused = false;
      Data cur;
      QPSolverStatus status = QPSolverStatus::kUninitialized;
      auto ok = [&](bool got, bool want, const char* what) {
        c.transitions();
        c.checkf(got == want, "result", [&] { return str(path, ": ", what, " returned ", got); });
      };
      auto handOver = [&](int size) {
        cur = data(size, 0);
        ok(s.clear(), true, "clear");
        c.checkf(s.getSolverStatus() == QPSolverStatus::kUninitialized, "status", at("the status after clear"));
        ok(s.init(cur.n, cur.m), true, "init");
        // what is handed over does not have to stay alive
        { Jacobian h = sparse(cur.H); ok(s.updateHessianMatrix(h), true, "the Hessian"); }
        { VectorXd g = cur.g; ok(s.updateGradient(g), true, "the gradient"); g.setConstant(7777); }
        { Jacobian a = sparse(cur.A); ok(s.updateLinearConstraintsMatrix(a), true, "the matrix"); }
        { VectorXd l = cur.l, u = cur.u; ok(s.updateBounds(l, u), true, "the bounds"); l.setConstant(7777), u.setConstant(7777); }
        ready = true, setUp = false, refused = false;
        status = QPSolverStatus::kInitialized;
      };
      handOver(first);
      for (int step = 0; step < depth; ++step)
      {
        std::vector<const Op*> can;
        for (const Op& o : ops)
        {
          if ((o.k != Op::Anew && o.k != Op::Clear) && (!ready || refused))
            continue;
          if (o.refuse && (o.k == Op::Solve ? setUp : !setUp))
            continue;
          if ((o.k == Op::L || o.k == Op::U) && !setUp)
            continue;
          can.push_back(&o);
        }
        if (step == 0 && op1 >= int(can.size()))
          return;
        const Op& o = *can[step == 0 ? size_t(op1) : size_t(d.choose(int(can.size())))];
        path += "; " + o.text();
        seen.refuse = o.refuse ? o.refuse : "";
        const int size = cur.n == 3 ? 1 : cur.m == 3 ? 0 : 2;
        const bool fine = !o.refuse;
        switch (o.k)
        {
          case Op::Anew: handOver(o.arg); break;
          case Op::Clear:
            ok(s.clear(), true, "clear");
            ready = setUp = refused = false;
            status = QPSolverStatus::kUninitialized;
            break;
          case Op::H: { Jacobian h = sparse(data(size, o.arg).H); ok(s.updateHessianMatrix(h), fine, "the Hessian"); if (fine) cur.H = data(size, o.arg).H; break; }
          case Op::G: { VectorXd g = data(size, o.arg).g; ok(s.updateGradient(g), fine, "the gradient"); g.setConstant(7777); if (fine) cur.g = data(size, o.arg).g; break; }
          case Op::A: { Jacobian a = sparse(data(size, o.arg).A); ok(s.updateLinearConstraintsMatrix(a), fine, "the matrix"); if (fine) cur.A = data(size, o.arg).A; break; }
          case Op::B: { VectorXd l = data(size, o.arg).l, u = data(size, o.arg).u; ok(s.updateBounds(l, u), fine, "the bounds"); l.setConstant(7777), u.setConstant(7777); if (fine) cur.l = data(size, o.arg).l, cur.u = data(size, o.arg).u; break; }
          case Op::L: { VectorXd l = data(size, o.arg).l; ok(s.updateLowerBound(l), true, "the lower bounds"); l.setConstant(7777); cur.l = data(size, o.arg).l; break; }
          case Op::U: { VectorXd u = data(size, o.arg).u; ok(s.updateUpperBound(u), true, "the upper bounds"); u.setConstant(7777); cur.u = data(size, o.arg).u; break; }
          case Op::Solve:
          {
            seen.answer.flag = answers[size_t(o.arg)].first;
            seen.answer.status = answers[size_t(o.arg)].second;
            const int asked = seen.asked;
            const bool firstTime = !setUp;
            const bool good = fine && o.arg < 2;
            ok(s.solve(), good, "solve");
            c.checkf(seen.asked == asked + (fine ? 1 : 0), "asked", at("the library is not asked once"));
            if (fine && seen.asked == asked + 1)
            {
              setUp = true;
              c.checkf(same(seen.p.P, 2 * cur.H, 1e-12), "hessian", at("the Hessian the library has is not twice the one handed over"));
              c.checkf(same(seen.p.q, cur.g, 1.01e-7), "gradient", at("the gradient the library has is not the one handed over"));
              c.checkf(same(seen.p.A, cur.A), "matrix", at("the constraint matrix the library has is not the one handed over"));
              c.checkf(sameBound(seen.p.l, cur.l) && sameBound(seen.p.u, cur.u), "bounds", at("the bounds the library has are not those handed over"));
              if (firstTime)
                c.checkf(!seen.warm || (warm && seen.wx.isZero() && seen.wy.isZero()), "start", at("the first solve does not start from the default point"));
              if (good)
                c.checkf(same(s.getSolution(), VectorXd::LinSpaced(cur.n, 0.5 + seen.asked, 1.5)), "solution", at("the solution is not that of the library"));
            }
            status = good ? QPSolverStatus::kInitialized : QPSolverStatus::kFailed;
            break;
          }
        }
        refused = refused || (o.refuse && o.k != Op::Solve);
        c.checkf(s.getSolverStatus() == status, "status", [&] { return str(path, ": the status is ", int(s.getSolverStatus()), " instead of ", int(status)); });
        c.outcome(Hash().u(uint64_t(status)).u(setUp).u(uint64_t(seen.asked)).h);
        c.state(Hash().u(uint64_t(size)).d(ready ? cur.H.sum() : 0).d(ready ? cur.g.sum() : 0).d(ready ? cur.A.sum() : 0).u(setUp).u(uint64_t(status)).h);
      }
    }
    c.checkf(OsqpEigen::library().live == live, "leak", at("a library object is not released"));
    c.traces();
  });
}
// the point the library starts from
void start(Ctx& c, const std::vector<TermSpec>& terms, bool generic, const std::vector<V2>& points)
{
  for (const V2& x : points)
    for (int later = 0; later < 2; ++later)
    {
      auto where = [&](const std::string& w) { return [&, w] { return str(generic ? "generic" : "trajectory", " problem, terms {", show(terms), "}, point ", show(x), later ? ", point reached by a second convexification" : "", ": ", w); }; };
      auto vars = makeVars(later ? V2(0.1, -0.2) : x, { -3, 3 }, { -3, 3 });
      std::unique_ptr<trajopt_sqp::QPProblem> p;
      if (generic)
        p = std::make_unique<trajopt_sqp::IfoptQPProblem>(vars);
      else
        p = std::make_unique<trajopt_sqp::TrajOptQPProblem>(vars);
      for (auto& t : terms)
        addTerm(*p, t);
      p->setup();
      p->setBoxSize(VectorXd::Constant(2, 0.5));
      if (later)
      {
        p->convexify();
        p->setVariables(x.data());
      }
      p->convexify();
      QPView v(*p);
      seen = Seen();
      OSQPEigenSolver s;
      connect(c, "");
      s.init(v.nv, v.m + v.nv);
      s.updateHessianMatrix(p->getHessian());
      s.updateGradient(p->getGradient());
      s.updateLinearConstraintsMatrix(p->getConstraintMatrix());
      s.updateBounds(p->getBoundsLower(), p->getBoundsUpper());
      c.checkf(s.setWarmStart(*p), "start-result", where("the starting point is refused"));
      const bool solved = s.solve();
      c.transitions();
      c.traces();
      c.state(Hash().s(show(terms)).d(x[0]).d(x[1]).u(generic).h);
      c.checkf(solved && seen.asked == 1 && seen.warm && seen.wx.size() == v.nv, "start-none", where("the library gets no starting point"));
      if (!seen.warm || seen.wx.size() != v.nv)
        continue;
      c.checkf(same(seen.wx.head(2), x), "start-variables", where("the starting point has other variable values"));
      for (int i = 0; i < v.m; ++i)
      {
        const double base = v.A.row(i).head(2).dot(x), row = v.A.row(i).dot(seen.wx), need = dist(base, v.lb[i], v.ub[i]);
        double used = 0;
        for (int j = v.n; j < v.nv; ++j)
          if (v.A(i, j) != 0)
            used += std::fabs(v.A(i, j)) * seen.wx[j];
        c.outcome(Hash().u(need > 1e-9).u(base < v.lb[i]).h);
        const double tol = 1e-9 * (1 + std::fabs(base));
        c.checkf(dist(row, v.lb[i], v.ub[i]) <= tol, "start-infeasible", where(str("row ", i, " is ", base, " without and ", row, " with the slacks of the starting point, its range is [", v.lb[i], ",", v.ub[i], "]")));
        c.checkf(std::fabs(used - need) <= tol, "start-slack", where(str("row ", i, " needs slack ", need, ", the starting point has ", used)));
      }
      for (int j = v.n; j < v.nv; ++j)
        c.checkf(seen.wx[j] >= 0, "start-slack", where(str("slack variable ", j, " starts negative")));
    }
}
}  // namespace
void mc::explore(Ctx& c)
{
  quiet();
  for (int first = 0; first < 3; ++first)
    for (int verbose = 0; verbose < 2; ++verbose)
      for (int warm = 0; warm < 2; ++warm)
      {
        for (int op1 = 0; op1 < 26; ++op1)
          c.item([=] { return str("histories from problem ", first, verbose ? ", verbose" : "", warm ? "" : ", no warm start", ", first operation ", op1); },
                 [&, first, verbose, warm, op1] { histories(c, first, verbose, warm, (c.thorough ? 5 : 4) - (verbose || !warm ? 1 : 0), op1); });
      }
  const auto few = grid({ -2, 0.3, 1.5 }, { -1, 0.7 });
  const auto many = grid({ -2, -0.5, 0.3, 0.5, 1.5 }, { -1, -0.25, 0.5, 0.7 });
  for (int generic = 0; generic < 2; ++generic)
  {
    std::vector<int> from;
    for (int i : generic ? std::vector<int>{ 0, 1, 2, 3, 6, 7, 8, 9, 11, 12, 13 } : allTerms())
      from.push_back(i);
    tuples(2, from, [&](const std::vector<TermSpec>& t) {
      c.item([=] { return str("starting point, ", generic ? "generic" : "trajectory", " problem, terms {", show(t), "}"); },
             [&, t] { start(c, t, generic, c.thorough || t.size() < 2 ? many : few); });
    });
  }
}
