// Stand-in for the part of qpOASES 3.2 that the repository uses, with its rules: a problem references its matrices, the
// number of working set recalculations is an in/out argument (limit in, number performed out), a hot start needs a
// successful initialisation, a failed initialisation or hot start leaves the problem unusable for another one without reset.
#pragma once
#include <functional>
#include <string>
#include <vector>
namespace qpOASES
{
typedef double real_t;
typedef int int_t;
typedef unsigned int uint_t;
typedef int sparse_int_t;
const real_t INFTY = 1.0e20;
enum BooleanType { BT_FALSE, BT_TRUE };
enum PrintLevel { PL_DEBUG_ITER = -2, PL_TABULAR, PL_NONE, PL_LOW, PL_MEDIUM, PL_HIGH };
enum returnValue
{
  TERMINAL_LIST_ELEMENT = -1,
  SUCCESSFUL_RETURN = 0,
  RET_DIV_BY_ZERO,
  RET_INVALID_ARGUMENTS,
  RET_MAX_NWSR_REACHED,
  RET_INIT_FAILED,
  RET_INIT_FAILED_INFEASIBILITY,
  RET_INIT_FAILED_UNBOUNDEDNESS,
  RET_HOTSTART_FAILED,
  RET_HOTSTART_FAILED_AS_QP_NOT_INITIALISED,
  RET_HOTSTART_STOPPED_INFEASIBILITY,
  RET_HOTSTART_STOPPED_UNBOUNDEDNESS,
  RET_QP_NOT_SOLVED,
  RET_QP_SOLUTION_STARTED
};
struct Options
{
  PrintLevel printLevel = PL_MEDIUM;
  BooleanType enableRegularisation = BT_FALSE;
  void setToMPC() {}
  void setToReliable() {}
  void setToDefault() {}
  returnValue ensureConsistency() { return SUCCESSFUL_RETURN; }
};
class SparseMatrix
{
public:
  SparseMatrix() = default;
  SparseMatrix(int_t nr, int_t nc, sparse_int_t* r, sparse_int_t* c, real_t* v) : nRows(nr), nCols(nc), ir(r), jc(c), val(v) {}
  int_t nRows = 0, nCols = 0;
  sparse_int_t *ir = nullptr, *jc = nullptr;
  real_t* val = nullptr;
};
class SymSparseMat : public SparseMatrix
{
public:
  SymSparseMat() = default;
  SymSparseMat(int_t nr, int_t nc, sparse_int_t* r, sparse_int_t* c, real_t* v) : SparseMatrix(nr, nc, r, c, v) {}
  sparse_int_t* createDiagInfo()
  {
    diag = true;
    return nullptr;
  }
  bool diag = false;
};
class SQProblem;
// what the check plugs in
struct Library
{
  enum Call { Init, Hotstart };
  // solve the problem with at most nWSR changes; returns the number needed and how it ends
  std::function<returnValue(Call, const SymSparseMat&, const real_t* g, const SparseMatrix& A, const real_t* lb, const real_t* ub, const real_t* lbA, const real_t* ubA, int& nWSR, std::vector<double>& x)> solve;
  std::function<void(const std::string&)> misuse;
  int live = 0;
};
inline Library& library()
{
  static Library l;
  return l;
}
class SQProblem
{
public:
  SQProblem(int_t nV, int_t nC) : nv(nV), nc(nC) { ++library().live; }
  ~SQProblem() { --library().live; }
  SQProblem(const SQProblem&) = delete;
  BooleanType isInitialised() const { return init_ ? BT_TRUE : BT_FALSE; }
  int_t getNV() const { return nv; }
  int_t getNC() const { return nc; }
  returnValue setOptions(const Options& o) { return options = o, SUCCESSFUL_RETURN; }
  returnValue init(SymSparseMat* H, const real_t* g, SparseMatrix* A, const real_t* lb, const real_t* ub, const real_t* lbA, const real_t* ubA, int_t& nWSR, real_t* = nullptr)
  {
    if (init_)
      library().misuse("a problem is initialised twice");
    init_ = true;  // the auxiliary problem is set up whatever comes
    return run(Library::Init, H, g, A, lb, ub, lbA, ubA, nWSR);
  }
  returnValue hotstart(SymSparseMat* H, const real_t* g, SparseMatrix* A, const real_t* lb, const real_t* ub, const real_t* lbA, const real_t* ubA, int_t& nWSR, real_t* = nullptr)
  {
    if (!init_)
      return RET_HOTSTART_FAILED_AS_QP_NOT_INITIALISED;
    return run(Library::Hotstart, H, g, A, lb, ub, lbA, ubA, nWSR);
  }
  returnValue getPrimalSolution(real_t* x) const
  {
    if (!solved_)
      return RET_QP_NOT_SOLVED;
    for (int i = 0; i < nv; ++i)
      x[i] = x_[size_t(i)];
    return SUCCESSFUL_RETURN;
  }

private:
  returnValue run(Library::Call c, SymSparseMat* H, const real_t* g, SparseMatrix* A, const real_t* lb, const real_t* ub, const real_t* lbA, const real_t* ubA, int_t& nWSR)
  {
    solved_ = false;
    if (H->nRows != nv || H->nCols != nv || A->nRows != nc || A->nCols != nv || !H->diag)
    {
      library().misuse("the matrices do not have the sizes of the problem or lack the diagonal information");
      return RET_INVALID_ARGUMENTS;
    }
    returnValue r = library().solve(c, *H, g, *A, lb, ub, lbA, ubA, nWSR, x_);
    solved_ = r == SUCCESSFUL_RETURN;
    return r;
  }
  int_t nv, nc;
  Options options;
  bool init_ = false, solved_ = false;
  std::vector<double> x_;
};
}  // namespace qpOASES
