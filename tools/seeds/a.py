SQPHDR = r'''
#include <trajopt_sqp/qp_problem.h>
#include <trajopt_sqp/qp_solver.h>
#include <trajopt_sqp/sqp_callback.h>
#include <trajopt_sqp/trust_region_sqp_solver.h>
#include <trajopt_sqp/types.h>
#include <console_bridge/console.h>
#include <cstdio>
#include <cmath>
#include <vector>
using namespace trajopt_sqp; using trajopt_ifopt::Jacobian; using Eigen::VectorXd;
// one variable, one cost, nc constraints; the k-th QP answer is entry k of the script
struct Ans { double cost, viol[2], acost, aviol[2]; bool fail; };
struct Problem : QPProblem {
  std::vector<Ans> s; int nc = 1; double x = 0; VectorXd box, w; mutable VectorXd lo, hi; std::vector<std::string> cn, kn{ "cost" }; Jacobian H{ 1, 1 }, A{ 1, 1 }; VectorXd g;
  void init() { for (int i = 0; i < nc; ++i) cn.push_back("c"); w = VectorXd::Ones(nc); g = VectorXd::Zero(1); box = VectorXd::Ones(1); }
  const Ans& at(double v) const { return s[size_t(std::lround(v))]; }
  void addVariableSet(std::shared_ptr<trajopt_ifopt::Variables>) {}
  void addConstraintSet(std::shared_ptr<trajopt_ifopt::ConstraintSet>) override {}
  void addCostSet(std::shared_ptr<trajopt_ifopt::ConstraintSet>, CostPenaltyType) override {}
  void setup() override {}
  void setVariables(const double* p) override { x = *p; }
  VectorXd getVariableValues() const override { return VectorXd::Constant(1, x); }
  void convexify() override {}
  double evaluateTotalConvexCost(const Eigen::Ref<const VectorXd>& v) const override { return at(v[0]).acost; }
  VectorXd evaluateConvexCosts(const Eigen::Ref<const VectorXd>& v) const override { return VectorXd::Constant(1, at(v[0]).acost); }
  double getTotalExactCost() const override { return at(x).cost; }
  VectorXd getExactCosts() const override { return VectorXd::Constant(1, at(x).cost); }
  VectorXd evaluateConvexConstraintViolations(const Eigen::Ref<const VectorXd>& v) const override { return Eigen::Map<const VectorXd>(at(v[0]).aviol, nc); }
  VectorXd getExactConstraintViolations() const override { return Eigen::Map<const VectorXd>(at(x).viol, nc); }
  void scaleBoxSize(double& k) override { box *= k; }
  void setBoxSize(const Eigen::Ref<const VectorXd>& b) override { box = b; }
  void setConstraintMeritCoeff(const Eigen::Ref<const VectorXd>& m) override { w = m; }
  void print() const override {}
  Eigen::Index getNumNLPVars() const override { return 1; }
  Eigen::Index getNumNLPConstraints() const override { return nc; }
  Eigen::Index getNumNLPCosts() const override { return 1; }
  Eigen::Index getNumQPVars() const override { return 1; }
  Eigen::Index getNumQPConstraints() const override { return 1; }
  const std::vector<std::string>& getNLPConstraintNames() const override { return cn; }
  const std::vector<std::string>& getNLPCostNames() const override { return kn; }
  const VectorXd& getBoxSize() const override { return box; }
  const VectorXd& getConstraintMeritCoeff() const override { return w; }
  const Jacobian& getHessian() const override { return H; }
  const VectorXd& getGradient() const override { return g; }
  const Jacobian& getConstraintMatrix() const override { return A; }
  const VectorXd& getBoundsLower() const override { return lo = -box; }
  const VectorXd& getBoundsUpper() const override { return hi = box; }
};
struct Solver : QPSolver {
  Problem* p; int k = 0; VectorXd lo, hi; bool inited = false; std::vector<double> boxes;   // upper bound of each QP solved
  bool init(Eigen::Index, Eigen::Index) override { return inited = true; }
  bool clear() override { return true; }
  bool solve() override { ++k; boxes.push_back(hi[0]); return size_t(k) < p->s.size() && !p->s[size_t(k)].fail; }
  VectorXd getSolution() override { return VectorXd::Constant(1, k); }
  bool updateHessianMatrix(const Jacobian&) override { return true; }
  bool updateGradient(const Eigen::Ref<const VectorXd>&) override { return true; }
  bool updateLowerBound(const Eigen::Ref<const VectorXd>& b) override { lo = b; return true; }
  bool updateUpperBound(const Eigen::Ref<const VectorXd>& b) override { hi = b; return true; }
  bool updateBounds(const Eigen::Ref<const VectorXd>& a, const Eigen::Ref<const VectorXd>& b) override { lo = a; hi = b; return true; }
  bool updateLinearConstraintsMatrix(const Jacobian&) override { return true; }
  bool setWarmStart(const QPProblem&) override { return true; }
  QPSolverStatus getSolverStatus() const override { return inited ? QPSolverStatus::kInitialized : QPSolverStatus::kUninitialized; }
};
#define CHECK(c) do { if (!(c)) { printf("wrong: %s\n", #c); return 1; } } while (0)
'''
SQPSRC = ['trajopt_optimizers/trajopt_sqp/src/types.cpp', 'trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp']
SQPLIB = ['-ltrajopt_sqp', '-ltrajopt_ifopt', '-ltrajopt_common', '-lconsole_bridge']
S = 'trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp'
MAIN = r'''
int main() {
  console_bridge::setLogLevel(console_bridge::CONSOLE_BRIDGE_LOG_NONE);
  auto p = std::make_shared<Problem>(); auto q = std::make_shared<Solver>(); q->p = p.get();
'''
def sqp(id, prop, needs, breaks, edits, body):
    return dict(id=id, property=prop, needs=needs, breaks=breaks, edits=[(S,)+e for e in edits], demo=SQPHDR+MAIN+body+'\n  return 0;\n}\n', srcs=SQPSRC, libs=SQPLIB, stubs=True)
SEEDS = [
 sqp('q03-min-box-not-sent', 'Q03', 'as many QP solver failures in one trust-region pass as are allowed, then one more QP',
     'after the last permitted QP failure the box is set to the minimum but the QP solver keeps the bounds of the larger box', [(
'''        qp_problem->setBoxSize(Eigen::VectorXd::Constant(qp_problem->getNumNLPVars(), params.min_trust_box_size));
        qp_solver->updateBounds(qp_problem->getBoundsLower(), qp_problem->getBoundsUpper());
''','''        qp_problem->setBoxSize(Eigen::VectorXd::Constant(qp_problem->getNumNLPVars(), params.min_trust_box_size));
''')], r'''
  p->s = { { 5, {0,0}, 5, {0,0}, false }, { 0,{0,0},0,{0,0}, true }, { 0,{0,0},0,{0,0}, true }, { 0,{0,0},0,{0,0}, true }, { 5, {0,0}, 5, {0,0}, false } };
  p->nc = 1; p->init();
  TrustRegionSQPSolver s(q); s.params.max_qp_solver_failures = 3;
  s.solve(p);
  CHECK(q->boxes.size() == 4);
  CHECK(q->boxes[3] == s.params.min_trust_box_size);'''),
 sqp('q02-violations-of-rejected-point', 'Q02', 'the last step before convergence is tested was rejected and only the rejected point satisfies the constraints',
     'convergence is judged by the violations of the most recent candidate instead of the best point', [(
'''  if (results_.best_constraint_violations.maxCoeff() < params.cnt_tolerance)''',
'''  const Eigen::VectorXd& violations = results_.overall_iteration > 1 ? results_.new_constraint_violations : results_.best_constraint_violations;
  if (violations.maxCoeff() < params.cnt_tolerance)''')], r'''
  // accepted once, then candidates that are feasible but too expensive until the box is tiny
  p->s = { { 5, {1,0}, 5, {1,0}, false }, { 4, {1,0}, 3, {1,0}, false } };
  for (int i = 0; i < 40; ++i) p->s.push_back({ 1000, {0,0}, 1, {0.5,0}, false });
  p->nc = 1; p->init();
  TrustRegionSQPSolver s(q); s.params.max_merit_coeff_increases = 1; s.params.initial_merit_error_coeff = 10;
  s.solve(p);
  CHECK(s.getResults().best_constraint_violations[0] == 1);
  CHECK(s.getStatus() != SQPStatus::kConverged);'''),
 sqp('q01-stale-merit-after-penalty', 'Q01', 'a penalty increase followed by a candidate that trades violation for cost',
     'the merit of the best point is not recomputed with the raised penalties, so a step that worsens the merit is accepted', [(
'''  // Recalculate the best exact merit because merit coeffs may have changed
  results_.best_exact_merit =
      results_.best_costs.sum() + results_.best_constraint_violations.dot(results_.merit_error_coeffs);
''','''  // Recalculate the best exact merit because merit coeffs may have changed
  results_.best_exact_merit =
      results_.best_costs.sum() + results_.best_constraint_violations.dot(initial_merit_error_coeffs_);
'''),('''  setBoxSize(params.initial_trust_box_size);
  constraintMeritCoeffChanged();
''','''  setBoxSize(params.initial_trust_box_size);
  initial_merit_error_coeffs_ = results_.merit_error_coeffs;
  constraintMeritCoeffChanged();
''')], r'''
  // round one: converged at (cost 5, violation 1), merit 15. round two (weight 100, merit 105): candidate with merit 60 is progress
  p->s = { { 5, {1,0}, 5, {1,0}, false }, { 5, {1,0}, 5, {1,0}, false }, { 10, {0.5,0}, 5, {0.5,0}, false }, { 10, {0.5,0}, 10, {0.5,0}, false } };
  p->nc = 1; p->init();
  TrustRegionSQPSolver s(q); s.params.max_merit_coeff_increases = 2; s.params.initial_merit_error_coeff = 10;
  s.solve(p);
  CHECK(s.getResults().best_var_vals[0] == 2);'''),
]
SEEDS[2]['edits'].append(('trajopt_optimizers/trajopt_sqp/include/trajopt_sqp/trust_region_sqp_solver.h','''  SQPResults results_;''','''  SQPResults results_;
  Eigen::VectorXd initial_merit_error_coeffs_;'''))
SEEDS += [
 dict(id='c01-remapped-key-keeps-old-slot', property='C01', needs='a key stored again with another object, followed by enough misses to evict the object it had before',
   breaks='the slot a key moved away from stays in the recency list under the key, and its later eviction forgets the new object',
   edits=[('trajopt_common/include/trajopt_common/cache.h','''    if (existing != key_to_slot_.end() && existing->second != slot)
      evictSlot(existing->second);
''','''    if (existing != key_to_slot_.end() && existing->second != slot)
      existing->second = slot;
''')], demo=r'''
#include <trajopt_common/cache.h>
#include <cstdio>
int main() {
  trajopt_common::Cache<int, int> c(4);
  auto a = c.getOrAcquire(1).first; auto b = c.getOrAcquire(1).first;
  c.put(1, a); c.put(1, b);
  for (int k = 2; k < 5; ++k) { c.get(1); auto p = c.getOrAcquire(k).first; c.put(k, p); }
  if (c.get(1) != b) { printf("key 1 lost its object\n"); return 1; }
  return 0;
}
'''),
 dict(id='q06-same-count-not-updated', property='Q06', needs='row-changing terms whose total number of rows stays the same while rows move from one term to another (or their weights change)',
   breaks='the bookkeeping of row-changing terms is refreshed only if the total number of rows changed',
   edits=[('trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp','''(!has_dyn_component || (n_dyn_components_prev == 0 && n_dyn_components == 0))''','''(!has_dyn_component || n_dyn_components_prev == n_dyn_components)''')],
   stubs=True, libs=SQPLIB, srcs=['trajopt_ifopt/src/variable_sets/nodes_variables.cpp','trajopt_ifopt/src/core/composite.cpp','trajopt_common/src/collision_utils.cpp','trajopt_optimizers/trajopt_sqp/src/types.cpp'], demo=r'''
#include <trajopt_sqp/trajopt_qp_problem.h>
#include <trajopt_sqp/types.h>
#include <trajopt_ifopt/core/constraint_set.h>
#include <trajopt_ifopt/variable_sets/nodes_variables.h>
#include <trajopt_ifopt/variable_sets/node.h>
#include <trajopt_ifopt/variable_sets/var.h>
#include <cstdio>
using namespace trajopt_ifopt;
// one or two rows x >= 1, depending on the sign of x
struct T : ConstraintSet {
  std::shared_ptr<const Var> v; int sign;
  T(std::shared_ptr<const Var> q, int s, std::string n) : ConstraintSet(n, true), v(q), sign(s) {}
  int n() const { return v->value()[0] * sign > 0 ? 2 : 1; }
  int update() override { rows_ = n(); non_zeros_ = rows_; return rows_; }
  Eigen::VectorXd getValues() const override { return Eigen::VectorXd::Constant(rows_, v->value()[0]); }
  Eigen::VectorXd getCoefficients() const override { return Eigen::VectorXd::Ones(rows_); }
  std::vector<Bounds> getBounds() const override { return std::vector<Bounds>(size_t(rows_), Bounds(5, 1e30)); }
  Jacobian getJacobian() const override { Jacobian j(rows_, variables_->getRows()); for (int i = 0; i < rows_; ++i) { j.startVec(i); j.insertBack(i, v->getIndex()) = 1; } j.finalize(); return j; }
};
struct P { std::shared_ptr<trajopt_sqp::TrajOptQPProblem> q; };
static std::shared_ptr<trajopt_sqp::TrajOptQPProblem> build() {
  std::vector<std::unique_ptr<Node>> nodes; nodes.push_back(std::make_unique<Node>("n"));
  auto v = nodes[0]->addVar("x", std::vector<std::string>{ "x" }, Eigen::VectorXd::Constant(1, 1.0), { NoBound });
  auto vars = std::make_shared<NodesVariables>("v", std::move(nodes));
  auto q = std::make_shared<trajopt_sqp::TrajOptQPProblem>(vars);
  q->addConstraintSet(std::make_shared<T>(v, 1, "a")); q->addConstraintSet(std::make_shared<T>(v, -1, "b")); q->setup();
  q->setBoxSize(Eigen::VectorXd::Constant(1, 10));
  return q;
}
int main() {
  double p = 1, m = -1; auto a = build();
  a->setVariables(&p); a->convexify(); a->setVariables(&m); a->convexify();
  Eigen::VectorXd got = a->evaluateConvexConstraintViolations(a->getVariableValues().head(1)), want = a->getExactConstraintViolations();
  printf("%g %g, expected %g %g\n", got[0], got[1], want[0], want[1]);
  return (got - want).cwiseAbs().maxCoeff() < 1e-9 ? 0 : 1;
}
'''),
]
