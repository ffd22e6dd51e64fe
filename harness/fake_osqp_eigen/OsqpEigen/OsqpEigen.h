// Stand-in for the part of OsqpEigen (with OSQP 1.0) that the repository uses. It keeps OsqpEigen's rules: matrices are
// copied by the data object, which refuses a second one until the first is cleared; vectors are *referenced* until
// initSolver() and have to stay alive; initSolver() refuses incomplete data or a second initialisation; the updates of an
// initialised solver check sizes and keep the data in step. What is "solved" is given to the hook of the check.
#pragma once
#include <Eigen/Core>
#include <Eigen/SparseCore>
#include <functional>
#include <memory>
#include <osqp.h>
#include <string>
#include <vector>

namespace OsqpEigen
{
enum class Status
{
  Solved = OSQP_SOLVED,
  SolvedInaccurate = OSQP_SOLVED_INACCURATE,
  PrimalInfeasible = OSQP_PRIMAL_INFEASIBLE,
  PrimalInfeasibleInaccurate = OSQP_PRIMAL_INFEASIBLE_INACCURATE,
  DualInfeasible = OSQP_DUAL_INFEASIBLE,
  DualInfeasibleInaccurate = OSQP_DUAL_INFEASIBLE_INACCURATE,
  MaxIterReached = OSQP_MAX_ITER_REACHED,
  TimeLimitReached = OSQP_TIME_LIMIT_REACHED,
  NonCvx = OSQP_NON_CVX,
  Sigint = OSQP_SIGINT,
  Unsolved = OSQP_UNSOLVED
};
enum class ErrorExitFlag
{
  NoError = 0,
  DataValidationError = OSQP_DATA_VALIDATION_ERROR,
  SettingsValidationError = OSQP_SETTINGS_VALIDATION_ERROR,
  LinsysSolverInitError = OSQP_LINSYS_SOLVER_INIT_ERROR,
  NonCvxError = OSQP_NONCVX_ERROR,
  MemAllocError = OSQP_MEM_ALLOC_ERROR,
  WorkspaceNotInitError = OSQP_WORKSPACE_NOT_INIT_ERROR,
};
// what the library is asked to solve, and what it answers
struct Problem
{
  int n = 0, m = 0;
  Eigen::MatrixXd P, A;  // P: full symmetric matrix made from the upper triangle handed over
  Eigen::VectorXd q, l, u;
};
struct Answer
{
  ErrorExitFlag flag = ErrorExitFlag::NoError;
  Status status = Status::Solved;
  Eigen::VectorXd x, y;
};
struct Library
{
  std::function<Answer(const Problem&, const Eigen::VectorXd* warm_x, const Eigen::VectorXd* warm_y, const OSQPSettings&)> solve;
  std::function<bool(const char* call)> refuse;  // whether the library refuses this call
  std::function<void(const std::string&)> misuse = [](const std::string&) {};
  int live = 0;
};
inline Library& library()
{
  static Library l;
  return l;
}
inline bool refused(const char* call) { return library().refuse && library().refuse(call); }

class Settings
{
public:
  Settings() { resetDefaultSettings(); }
  OSQPSettings* getSettings() const { return const_cast<OSQPSettings*>(&s_); }
  void resetDefaultSettings()
  {
    s_ = OSQPSettings();
    s_.max_iter = 4000, s_.rho = 0.1, s_.warm_starting = 1, s_.eps_abs = s_.eps_rel = 1e-3, s_.verbose = 1, s_.adaptive_rho = 1, s_.check_dualgap = 1;
  }
  void setVerbosity(bool v) { s_.verbose = v; }
  void setWarmStart(bool v) { s_.warm_starting = v; }
  void setPolish(bool v) { s_.polishing = v; }
  void setAdaptiveRho(bool v) { s_.adaptive_rho = v; }
  void setMaxIteration(int v) { s_.max_iter = v; }
  void setAbsoluteTolerance(double v) { s_.eps_abs = v; }
  void setRelativeTolerance(double v) { s_.eps_rel = v; }
  void setCheckDualGap(bool v) { s_.check_dualgap = v; }

private:
  OSQPSettings s_;
};

class Data
{
public:
  struct Raw
  {
    OSQPInt n = 0, m = 0;
    OSQPCscMatrix *P = nullptr, *A = nullptr;
    OSQPFloat *q = nullptr, *l = nullptr, *u = nullptr;
  };
  const Raw* getData() const { return &raw_; }
  void setNumberOfVariables(int n) { n_ = n, nset_ = true; }
  void setNumberOfConstraints(int m) { m_ = m, mset_ = true; }
  void clearHessianMatrix() { Pset_ = false, P.resize(0, 0); }
  void clearLinearConstraintsMatrix() { Aset_ = false, A.resize(0, 0); }
  template <class D>
  bool setHessianMatrix(const Eigen::SparseCompressedBase<D>& h)
  {
    if (Pset_ || !nset_ || h.rows() != n_ || h.cols() != n_ || refused("setHessianMatrix"))
      return false;
    takeP(h.derived());
    return Pset_ = true;
  }
  template <class D>
  bool setLinearConstraintsMatrix(const Eigen::SparseCompressedBase<D>& a)
  {
    if (Aset_ || !nset_ || !mset_ || a.rows() != m_ || a.cols() != n_ || refused("setLinearConstraintsMatrix"))
      return false;
    A = Eigen::MatrixXd(a.derived());
    return Aset_ = true;
  }
  bool setGradient(Eigen::Ref<Eigen::VectorXd> g)
  {
    if (!nset_ || g.size() != n_ || refused("setGradient"))
      return false;
    q_ = g.data();
    return true;
  }
  bool setBounds(Eigen::Ref<Eigen::VectorXd> l, Eigen::Ref<Eigen::VectorXd> u)
  {
    if (!mset_ || l.size() != m_ || u.size() != m_ || refused("setBounds"))
      return false;
    l_ = l.data(), u_ = u.data();
    return true;
  }
  bool isSet() const { return nset_ && mset_ && Pset_ && q_ && (m_ == 0 || (Aset_ && l_ && u_)); }
  template <class D>
  void takeP(const D& h)
  {
    P = Eigen::MatrixXd::Zero(n_, n_);
    const Eigen::MatrixXd full(h);
    for (int i = 0; i < n_; ++i)
      for (int j = i; j < n_; ++j)
        P(i, j) = P(j, i) = full(i, j);
  }
  int n_ = 0, m_ = 0;
  bool nset_ = false, mset_ = false, Pset_ = false, Aset_ = false;
  double *q_ = nullptr, *l_ = nullptr, *u_ = nullptr;
  Eigen::MatrixXd P, A;

private:
  Raw raw_;
};

class Solver
{
public:
  Solver() : settings_(new Settings), data_(new Data) { ++library().live; }
  ~Solver() { --library().live; }
  Solver(const Solver&) = delete;
  const std::unique_ptr<Settings>& settings() const { return settings_; }
  const std::unique_ptr<Data>& data() const { return data_; }
  bool isInitialized() const { return init_; }
  bool initSolver()
  {
    if (init_ || !data_->isSet() || refused("initSolver"))
      return false;
    const Data& d = *data_;
    p_ = { d.n_, d.m_, d.P, d.m_ ? d.A : Eigen::MatrixXd(0, d.n_), vecOf(d.q_, d.n_), vecOf(d.l_, d.m_), vecOf(d.u_, d.m_) };
    if (!ordered(p_.l, p_.u))
      return false;
    x_.setZero(d.n_), y_.setZero(d.m_), warm_ = false;
    cert_.setZero(d.n_ + d.m_);
    solution_ = { x_.data(), y_.data(), cert_.data(), cert_.data() };
    raw_ = { settings_->getSettings(), &solution_, &info_, nullptr };
    taken_ = *settings_->getSettings();
    status_ = Status::Unsolved;
    return init_ = true;
  }
  void clearSolver() { init_ = false; }
  ErrorExitFlag solveProblem()
  {
    if (!init_)
      return ErrorExitFlag::WorkspaceNotInitError;
    Answer a = library().solve(p_, warm_ ? &wx_ : nullptr, warm_ ? &wy_ : nullptr, taken_);
    warm_ = true;  // the library goes on from where it ended
    if (a.x.size() == p_.n)
      x_ = a.x;
    if (a.y.size() == p_.m)
      y_ = a.y;
    wx_ = x_, wy_ = y_;
    solution_ = { x_.data(), y_.data(), cert_.data(), cert_.data() };
    if (a.flag == ErrorExitFlag::NoError)
      status_ = a.status;
    return a.flag;
  }
  Status getStatus() const { return status_; }
  const Eigen::VectorXd& getSolution() const
  {
    if (!init_)
      library().misuse("the solution of a solver that is not set up");
    return x_;
  }
  OSQPSolver* solver() const { return const_cast<OSQPSolver*>(&raw_); }
  template <class D>
  bool updateHessianMatrix(const Eigen::SparseCompressedBase<D>& h)
  {
    if (!init_ || h.rows() != p_.n || h.cols() != p_.n || refused("updateHessianMatrix"))
      return false;
    data_->takeP(h.derived());
    p_.P = data_->P;
    return again();
  }
  template <class D>
  bool updateLinearConstraintsMatrix(const Eigen::SparseCompressedBase<D>& a)
  {
    if (!init_ || a.rows() != p_.m || a.cols() != p_.n || refused("updateLinearConstraintsMatrix"))
      return false;
    p_.A = data_->A = Eigen::MatrixXd(a.derived());
    return again();
  }
  bool updateGradient(const Eigen::Ref<const Eigen::VectorXd>& g)
  {
    if (!init_ || g.size() != p_.n || refused("updateGradient"))
      return false;
    p_.q = g;
    return true;
  }
  bool updateBounds(const Eigen::Ref<const Eigen::VectorXd>& l, const Eigen::Ref<const Eigen::VectorXd>& u)
  {
    if (!init_ || l.size() != p_.m || u.size() != p_.m || !ordered(l, u) || refused("updateBounds"))
      return false;
    p_.l = l, p_.u = u;
    return true;
  }
  bool updateLowerBound(const Eigen::Ref<const Eigen::VectorXd>& l)
  {
    if (!init_ || l.size() != p_.m || !ordered(l, p_.u) || refused("updateLowerBound"))
      return false;
    p_.l = l;
    return true;
  }
  bool updateUpperBound(const Eigen::Ref<const Eigen::VectorXd>& u)
  {
    if (!init_ || u.size() != p_.m || !ordered(p_.l, u) || refused("updateUpperBound"))
      return false;
    p_.u = u;
    return true;
  }
  bool setWarmStart(const Eigen::VectorXd& x, const Eigen::VectorXd& y)
  {
    if (!init_ || x.size() != p_.n || y.size() != p_.m || refused("setWarmStart"))
      return false;
    wx_ = x, wy_ = y, warm_ = true;
    return true;
  }

private:
  static Eigen::VectorXd vecOf(const double* p, int n) { return n ? Eigen::VectorXd(Eigen::Map<const Eigen::VectorXd>(p, n)) : Eigen::VectorXd(0); }
  static bool ordered(const Eigen::VectorXd& l, const Eigen::VectorXd& u) { return !(l.array() > u.array()).any(); }
  // A new sparsity pattern makes OsqpEigen set the solver up again from its data, reading the referenced vectors.
  bool again()
  {
    volatile double sum = 0;
    for (int k = 0; k < data_->n_; ++k)
      sum = sum + data_->q_[k];
    for (int k = 0; k < data_->m_; ++k)
      sum = sum + data_->l_[k] + data_->u_[k];
    return true;
  }
  std::unique_ptr<Settings> settings_;
  std::unique_ptr<Data> data_;
  Problem p_;
  Eigen::VectorXd x_, y_, wx_, wy_, cert_;
  OSQPSettings taken_;
  OSQPSolution solution_{};
  OSQPInfo info_{};
  OSQPSolver raw_{};
  bool init_ = false, warm_ = false;
  Status status_ = Status::Unsolved;
};
}  // namespace OsqpEigen
