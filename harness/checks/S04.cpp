// S04: the problem the OSQP library is asked to solve is the model as edited.
#include <mc/mc.hpp>
#include <osqp.h>
#include <trajopt_sco/osqp_interface.hpp>
#include <trajopt_sco/expr_op_overloads.hpp>
#include <trajopt_sco/expr_ops.hpp>
#include <cstring>
#include <iostream>
#include <map>
#include <set>
using namespace mc;
using namespace sco;
const CheckInfo mc::info = { "S04", "model_checking",
  "every sequence of up to 3 (thorough 4) operations out of {add a variable; remove a variable; add a constraint of 5 shapes; remove, replace or move a constraint; change bounds; set an objective of 6 shapes; flush; solve} "
  "from three models, one of them with seven variables, each solved before and after; and every sequence of 2 solves out of 19 library behaviours (answers, refused or half-done set-up and updates) with 8 edits "
  "between them, from one of the models (thorough: all, and complete) followed by a third out of 9 after 3 edits; with and without workspace reuse and warm start",
  { "the library is a stand-in with OSQP's interface: a failed set-up for invalid data leaves the caller's pointer alone, other failures leave an object that can only be cleaned up", "expressions never refer to a variable that was removed" } };
namespace
{
const double INF = INFINITY;
// ------------------------------------------------------------------ the stand-in library
struct Csc
{
  OSQPInt m = 0, n = 0;
  std::vector<OSQPInt> p, i;
  std::vector<double> x;
};
struct Lib
{
  enum Fault { None, SetupData, SetupSettings, SetupLinsys, SetupNoMemory, Vec, Mat, Warm, SolveError };
  Ctx* c = nullptr;
  std::string* log = nullptr;
  Fault fault = None;
  OSQPInt status = OSQP_SOLVED;
  int solved = 0, failed = 0, live = 0, setups = 0, updates = 0;
  std::function<void(const Csc& P, const std::vector<double>& q, const Csc& A, const std::vector<double>& l, const std::vector<double>& u, OSQPSolver&)> onSolve;
  std::set<const void*> handles;
} lib;
[[noreturn]] void misuse(const std::string& what) { lib.c->fail("library-misuse", *lib.log + ": " + what); }
}  // namespace
struct OSQPWorkspace_
{
  bool usable;
  Csc P, A;
  std::vector<double> q, l, u;
};
namespace
{
OSQPWorkspace_& work(OSQPSolver* s, const char* fn)
{
  if (!s || !lib.handles.count(s)) misuse(str(fn, " with no set-up solver"));
  if (!s->work->usable) misuse(str(fn, " with a solver whose set-up failed"));
  return *s->work;
}
bool copy(const OSQPCscMatrix* m, Csc& r)
{
  r.m = m->m, r.n = m->n;
  if (m->m < 0 || m->n < 1) return false;
  r.p.assign(m->p, m->p + m->n + 1);
  if (r.p[0] != 0) return false;
  for (OSQPInt k = 0; k < m->n; ++k)
    if (r.p[size_t(k)] > r.p[size_t(k) + 1]) return false;
  r.i.assign(m->i, m->i + r.p.back());
  r.x.assign(m->x, m->x + r.p.back());
  for (OSQPInt k = 0; k < m->n; ++k)
    for (OSQPInt e = r.p[size_t(k)]; e < r.p[size_t(k) + 1]; ++e)
      if (r.i[size_t(e)] < 0 || r.i[size_t(e)] >= m->m || (e > r.p[size_t(k)] && r.i[size_t(e)] <= r.i[size_t(e) - 1])) return false;
  return true;
}
bool ordered(const double* l, const double* u, OSQPInt m)
{
  for (OSQPInt k = 0; k < m; ++k)
    if (!(l[k] <= u[k])) return false;
  return true;
}
}  // namespace
extern "C" {
void osqp_set_default_settings(OSQPSettings* s)
{
  memset(s, 0, sizeof *s);
  s->max_iter = 4000, s->rho = 0.1, s->warm_starting = 1, s->eps_abs = s->eps_rel = 1e-3;
}
OSQPCscMatrix* OSQPCscMatrix_new(OSQPInt m, OSQPInt n, OSQPInt nzmax, OSQPFloat* x, OSQPInt* i, OSQPInt* p)
{
  auto* r = static_cast<OSQPCscMatrix*>(malloc(sizeof(OSQPCscMatrix)));
  *r = { m, n, p, i, x, nzmax, -1, 0 };
  return r;
}
OSQPInt osqp_setup(OSQPSolver** sp, const OSQPCscMatrix* P, const OSQPFloat* q, const OSQPCscMatrix* A, const OSQPFloat* l, const OSQPFloat* u, OSQPInt m, OSQPInt n, const OSQPSettings* settings)
{
  ++lib.setups;
  Csc p, a;
  if (lib.fault == Lib::SetupData) return ++lib.failed, OSQP_DATA_VALIDATION_ERROR;
  if (lib.fault == Lib::SetupSettings) return ++lib.failed, OSQP_SETTINGS_VALIDATION_ERROR;
  if (!copy(P, p) || !copy(A, a) || p.m != n || p.n != n || a.m != m || a.n != n || !ordered(l, u, m)) return ++lib.failed, OSQP_DATA_VALIDATION_ERROR;
  for (OSQPInt k = 0; k < n; ++k)
    for (OSQPInt e = p.p[size_t(k)]; e < p.p[size_t(k) + 1]; ++e)
      if (p.i[size_t(e)] > k) return ++lib.failed, OSQP_DATA_VALIDATION_ERROR;
  if (lib.fault == Lib::SetupNoMemory) return ++lib.failed, OSQP_MEM_ALLOC_ERROR;
  auto* s = new OSQPSolver{ new OSQPSettings(*settings), new OSQPSolution(), new OSQPInfo(), new OSQPWorkspace_() };
  *s->work = { true, p, a, { q, q + n }, { l, l + m }, { u, u + m } };
  s->info->status_val = OSQP_UNSOLVED;
  s->solution->x = new double[size_t(n)]();
  s->solution->y = new double[size_t(m)]();
  lib.handles.insert(s);
  ++lib.live;
  *sp = s;
  if (lib.fault == Lib::SetupLinsys)
  {
    s->work->usable = false;
    return ++lib.failed, OSQP_LINSYS_SOLVER_INIT_ERROR;
  }
  return 0;
}
OSQPInt osqp_cleanup(OSQPSolver* s)
{
  if (!s) return 0;
  if (!lib.handles.erase(s)) misuse("a solver is cleaned up twice");
  delete[] s->solution->x;
  delete[] s->solution->y;
  delete s->settings;
  delete s->solution;
  delete s->info;
  delete s->work;
  delete s;
  --lib.live;
  return 0;
}
OSQPInt osqp_warm_start(OSQPSolver* s, const OSQPFloat* x, const OSQPFloat* y)
{
  auto& w = work(s, "osqp_warm_start");
  volatile double sum = 0;
  for (size_t k = 0; x && k < w.q.size(); ++k) sum = sum + x[k];
  for (size_t k = 0; y && k < w.l.size(); ++k) sum = sum + y[k];
  return lib.fault == Lib::Warm ? OSQP_WORKSPACE_NOT_INIT_ERROR : 0;
}
OSQPInt osqp_update_data_vec(OSQPSolver* s, const OSQPFloat* q, const OSQPFloat* l, const OSQPFloat* u)
{
  auto& w = work(s, "osqp_update_data_vec");
  ++lib.updates;
  if (lib.fault == Lib::Vec) return OSQP_DATA_VALIDATION_ERROR;
  size_t n = w.q.size(), m = w.l.size();
  std::vector<double> nl = l ? std::vector<double>(l, l + m) : w.l, nu = u ? std::vector<double>(u, u + m) : w.u;
  if (!ordered(nl.data(), nu.data(), OSQPInt(m))) return OSQP_DATA_VALIDATION_ERROR;
  w.l = nl, w.u = nu;
  if (q) w.q.assign(q, q + n);
  s->info->status_val = OSQP_UNSOLVED;
  return 0;
}
OSQPInt osqp_update_data_mat(OSQPSolver* s, const OSQPFloat* px, const OSQPInt* pi, OSQPInt pn, const OSQPFloat* ax, const OSQPInt* ai, OSQPInt an)
{
  auto& w = work(s, "osqp_update_data_mat");
  ++lib.updates;
  auto put = [](std::vector<double>& to, const double* x, const OSQPInt* idx, OSQPInt n) {
    if (!x) return true;
    if (idx ? n > OSQPInt(to.size()) : n != OSQPInt(to.size())) return false;
    for (OSQPInt k = 0; k < n; ++k) to[size_t(idx ? idx[k] : k)] = x[k];
    return true;
  };
  if (!put(w.P.x, px, pi, pn)) return OSQP_DATA_VALIDATION_ERROR;
  s->info->status_val = OSQP_UNSOLVED;
  if (lib.fault == Lib::Mat) return OSQP_LINSYS_SOLVER_INIT_ERROR;     // half done
  return put(w.A.x, ax, ai, an) ? 0 : OSQP_DATA_VALIDATION_ERROR;
}
OSQPInt osqp_solve(OSQPSolver* s)
{
  auto& w = work(s, "osqp_solve");
  ++lib.solved;
  lib.onSolve(w.P, w.q, w.A, w.l, w.u, *s);
  s->info->status_val = lib.status;
  return lib.fault == Lib::SolveError ? OSQP_WORKSPACE_NOT_INIT_ERROR : 0;
}
}
namespace
{
// ------------------------------------------------------------------ the model as edited
struct RVar { int id; Var v; double lb, ub; };
using Poly = std::map<std::pair<int, int>, double>;          // (-1,-1) constant, (-1,i) linear, (i<=j) quadratic
struct RCnt { Cnt c; ConstraintType t; Poly e; std::set<int> uses; };
void put(Poly& p, int i, int j, double k)
{
  auto key = std::make_pair(std::min(i, j), std::max(i, j));
  if ((p[key] += k) == 0) p.erase(key);
}
struct Row
{
  std::map<int, double> a;
  double lo, hi;
  bool operator<(const Row& o) const { return std::tie(a, lo, hi) < std::tie(o.a, o.lo, o.hi); }
};
struct World
{
  Ctx& c;
  std::shared_ptr<OSQPModelConfig> cfg = std::make_shared<OSQPModelConfig>();
  std::shared_ptr<OSQPModel> m;
  std::vector<RVar> vars;
  std::vector<RCnt> cnts;
  Poly obj;
  std::set<int> objUses;
  int next = 1, solves = 0;
  std::string log;
  World(Ctx& c, bool reuse, bool warm) : c(c)
  {
    lib = {};
    lib.c = &c, lib.log = &log;
    cfg->update_workspace = reuse;
    cfg->settings.warm_starting = warm;
    cfg->settings.max_iter = 77;
    cfg->settings.eps_abs = 0.125;
    m = std::make_shared<OSQPModel>(cfg);
  }
  void finish()
  {
    vars.clear(), cnts.clear();
    m.reset();
    c.checkf(lib.live == 0, "solver-leaked", [&] { return str(log, ": ", lib.live, " solvers are never cleaned up"); });
  }
  // a unique lower bound identifies a variable in the problem
  std::pair<double, double> bounds(int id, int kind) const
  {
    double lb = -(kind * 100 + id);
    return { lb, kind % 3 == 0 ? INF : kind % 3 == 1 ? double(kind + id) : lb };
  }
  RVar* at(int k) { return vars.empty() ? nullptr : k == 0 ? &vars.front() : &vars.back(); }
  void addVar(int kind)
  {
    int id = next++;
    auto [lb, ub] = bounds(id, kind);
    std::string name = str("v", id);
    Var v = static_cast<Model&>(*m).addVar(name, lb, ub);
    vars.push_back({ id, v, lb, ub });
    log += str(" +", name, "[", lb, ",", ub, "]");
  }
  void removeVar(size_t i)
  {
    RVar v = vars[i];
    log += str(" -v", v.id);
    for (size_t k = cnts.size(); k-- > 0;)
      if (cnts[k].uses.count(v.id)) removeCnt(k);
    vars.erase(vars.begin() + long(i));
    static_cast<Model&>(*m).removeVar(v.v);
    if (objUses.count(v.id)) setObj(0);
  }
  // shapes 0..3 over the first and last variables; 10 + i: variable i only; 100 + 10i + j: variables i and j
  AffExpr affine(int shape, Poly& p, std::set<int>& uses)
  {
    AffExpr e;
    RVar *a = at(0), *b = at(1);
    auto term = [&](RVar* v, double k) {
      e.vars.push_back(v->v), e.coeffs.push_back(k);
      put(p, -1, v->id, k);
      uses.insert(v->id);
    };
    double k0 = shape == 0 ? -3 : shape == 1 ? 0.5 : shape >= 10 ? -shape : 0;
    e.constant = k0;
    put(p, -1, -1, k0);
    if (!a) return e;
    if (shape == 0) term(a, 2);
    else if (shape == 1) term(b, -1), term(a, 4), term(b, 3);
    else if (shape == 2) term(a, 1), term(b, 0), term(a, -1);
    else if (shape == 3)
      for (size_t i = vars.size(); i-- > 0;) term(&vars[i], double(i) + 1);
    else if (shape >= 100) term(&vars[size_t(shape / 10 % 10) % vars.size()], 2), term(&vars[size_t(shape % 10) % vars.size()], 3);
    else if (shape >= 10) term(&vars[size_t(shape - 10) % vars.size()], 5);
    return e;
  }
  void addCnt(int shape, ConstraintType t)
  {
    RCnt r;
    r.t = t;
    AffExpr e = affine(shape, r.e, r.uses);
    r.c = t == EQ ? m->addEqCnt(e, "c") : m->addIneqCnt(e, "c");
    cnts.push_back(r);
    log += str(" +", t == EQ ? "eq" : "ineq", shape);
  }
  void removeCnt(size_t i)
  {
    static_cast<Model&>(*m).removeCnt(cnts[i].c);
    cnts.erase(cnts.begin() + long(i));
    log += str(" -c", i);
  }
  void setBounds(bool all, int kind)
  {
    VarVector v;
    DblVec l, u;
    for (auto& x : vars)
      if (all || &x == &vars.back())
      {
        std::tie(x.lb, x.ub) = bounds(x.id, kind);
        v.push_back(x.v), l.push_back(x.lb), u.push_back(x.ub);
      }
    m->setVarBounds(v, l, u);
    log += str(all ? " bounds" : " bound", kind);
  }
  void setObj(int shape)
  {
    obj.clear();
    objUses.clear();
    log += str(" obj", shape);
    if (shape == 0) return m->setObjective(AffExpr());
    if (shape == 1) return m->setObjective(QuadExpr(affine(1, obj, objUses)));
    QuadExpr q(affine(shape == 2 ? 3 : 0, obj, objUses));
    auto prod = [&](RVar& a, RVar& b, double k) {
      q.vars1.push_back(a.v), q.vars2.push_back(b.v), q.coeffs.push_back(k);
      put(obj, a.id, b.id, k);
      objUses.insert(a.id), objUses.insert(b.id);
    };
    if (shape == 2)
      for (auto& a : vars)
        for (auto& b : vars) prod(b, a, double(1 + a.id + 2 * b.id));
    else if (shape == 3 && at(0)) prod(*at(1), *at(0), 5), prod(*at(1), *at(1), 0), prod(*at(0), *at(0), 1.5);
    else if (shape == 4 && at(0)) prod(*at(0), *at(1), 2), prod(*at(1), *at(0), -2);
    else if (shape == 5 && at(0)) prod(*at(0), *at(0), 3), prod(vars[vars.size() / 2], vars[vars.size() / 2], 7);
    else if (shape == 6 && at(0)) prod(*at(0), *at(0), 2), prod(*at(1), *at(1), 4);
    m->setObjective(q);
  }
  void solve(Lib::Fault fault = Lib::None, OSQPInt status = OSQP_SOLVED)
  {
    ++solves;
    log += str(" solve", int(fault), "/", status);
    lib.fault = fault, lib.status = status;
    int before = lib.solved, failed = lib.failed;
    std::map<int, double> answer;
    lib.onSolve = [&](const Csc& P, const std::vector<double>& q, const Csc& A, const std::vector<double>& l, const std::vector<double>& u, OSQPSolver& s) {
      auto col = judge(P, q, A, l, u);
      c.checkf(s.settings->max_iter == 77 && s.settings->eps_abs == 0.125, "settings", [&] { return log; });
      for (size_t i = 0; i < col.size(); ++i) answer[col[i]] = s.solution->x[i] = 1000 * solves + double(i);
      for (size_t i = 0; i < l.size(); ++i) s.solution->y[i] = -double(i);
    };
    CvxOptStatus st = m->optimize();
    c.transitions();
    bool refused = lib.failed > failed;
    auto what = [&] { return str(log, ": reported as ", int(st)); };
    c.checkf(lib.solved == before + (refused || vars.empty() ? 0 : 1), "solver-calls", [&] { return str(log, ": the solver ran ", lib.solved - before, " times"); });
    bool ok = !refused && lib.solved > before && fault != Lib::SolveError;
    if (ok && (status == OSQP_SOLVED || status == OSQP_SOLVED_INACCURATE))
      c.checkf(st == CVX_SOLVED, "status", what);
    else if (ok && status >= OSQP_PRIMAL_INFEASIBLE && status <= OSQP_DUAL_INFEASIBLE_INACCURATE)
      c.checkf(st == CVX_INFEASIBLE, "status", what);
    else
      c.checkf(st == CVX_FAILED, "status", what);
    if (st == CVX_SOLVED)
    {
      VarVector all;
      for (auto& v : vars) all.push_back(v.v);
      DblVec vs = m->getVarValues(all);
      for (size_t i = 0; i < vars.size(); ++i)
        c.checkf(vs.size() == vars.size() && vs[i] == answer.at(vars[i].id), "attribution", [&] { return str(log, ": v", vars[i].id, " is ", vs[i], ", the solver said ", answer.at(vars[i].id)); });
    }
    handles();
    c.outcome(Hash().u(st).u(refused).u(fault).u(status).u(lib.setups > 1).u(lib.updates > 0).h);
  }
  void handles()
  {
    VarVector got = m->getVars();
    c.checkf(got.size() == vars.size(), "variables", [&] { return str(log, ": ", got.size(), " variables instead of ", vars.size()); });
    for (size_t i = 0; i < got.size(); ++i)
    {
      bool ok = false;
      for (auto& v : vars) ok |= got[i].var_rep == v.v.var_rep;
      c.checkf(ok, "variables", [&] { return str(log, ": variable ", i); });
    }
  }
  std::vector<int> judge(const Csc& P, const std::vector<double>& q, const Csc& A, const std::vector<double>& l, const std::vector<double>& u)
  {
    auto inf = [](double x) { return x >= OSQP_INFTY ? INF : x <= -OSQP_INFTY ? -INF : x + 0.0; };
    c.checkf(size_t(P.n) == vars.size(), "columns", [&] { return str(log, ": ", P.n, " columns for ", vars.size(), " variables"); });
    std::vector<std::map<int, double>> raw(size_t(A.m));
    for (OSQPInt k = 0; k < A.n; ++k)
      for (OSQPInt e = A.p[size_t(k)]; e < A.p[size_t(k) + 1]; ++e)
        if (A.x[size_t(e)] != 0) raw[size_t(A.i[size_t(e)])][int(k)] += A.x[size_t(e)];
    // variables by their bounds
    std::vector<int> col(vars.size(), 0);
    for (size_t r = 0; r < raw.size(); ++r)
      if (raw[r].size() == 1 && raw[r].begin()->second == 1)
        for (auto& v : vars)
          if (v.lb == l[r]) col[size_t(raw[r].begin()->first)] = v.id;
    std::set<int> distinct(col.begin(), col.end());
    c.checkf(distinct.size() == vars.size() && !distinct.count(0), "bounds", [&] { return str(log, ": the bounds do not tell the variables"); });
    std::vector<Row> rows, want;
    for (size_t r = 0; r < raw.size(); ++r)
    {
      Row w{ {}, inf(l[r]), inf(u[r]) };
      for (auto& [k, x] : raw[r]) w.a[col[size_t(k)]] = x;
      rows.push_back(w);
    }
    for (auto& v : vars) want.push_back({ { { v.id, 1.0 } }, v.lb, v.ub });
    for (auto& k : cnts)
    {
      Row r;
      double k0 = k.e.count({ -1, -1 }) ? k.e[{ -1, -1 }] : 0;
      for (auto& [ij, x] : k.e)
        if (ij.second >= 0) r.a[ij.second] = x;
      r.lo = k.t == EQ ? 0 - k0 : -INF, r.hi = 0 - k0;
      want.push_back(r);
    }
    std::sort(rows.begin(), rows.end());
    std::sort(want.begin(), want.end());
    c.checkf(rows.size() == want.size(), "rows", [&] { return str(log, ": ", rows.size(), " rows, expected ", want.size()); });
    for (size_t i = 0; i < want.size(); ++i)
      c.checkf(!(rows[i] < want[i]) && !(want[i] < rows[i]), "constraints", [&] {
        std::string s = str(log, ": row (sorted) ", i, " is");
        for (auto& [k, x] : rows[i].a) s += str(" ", x, "*v", k);
        s += str(" in [", rows[i].lo, ",", rows[i].hi, "], expected");
        for (auto& [k, x] : want[i].a) s += str(" ", x, "*v", k);
        return s + str(" in [", want[i].lo, ",", want[i].hi, "]");
      });
    Poly got, w = obj;
    for (size_t i = 0; i < q.size(); ++i)
      if (q[i] != 0) put(got, -1, col[i], q[i]);
    for (OSQPInt k = 0; k < P.n; ++k)
      for (OSQPInt e = P.p[size_t(k)]; e < P.p[size_t(k) + 1]; ++e)
        if (P.x[size_t(e)] != 0) put(got, col[size_t(P.i[size_t(e)])], col[size_t(k)], P.i[size_t(e)] == k ? P.x[size_t(e)] / 2 : P.x[size_t(e)]);
    w.erase({ -1, -1 });
    c.checkf(got == w, "objective", [&] {
      std::string s = str(log, ": objective");
      for (auto* p : { &got, &w })
      {
        s += p == &got ? " sent:" : " expected:";
        for (auto& [ij, v] : *p) s += str(" ", v, "*v", ij.first, "*v", ij.second);
      }
      return s;
    });
    return col;
  }
  void key(Hash& h)
  {
    for (auto& v : vars) h.u(v.id).d(v.lb).d(v.ub);
    for (auto& q : cnts)
      for (auto& [ij, k] : q.e) h.u(q.t).u(ij.first + 1).u(ij.second + 1).d(k);
    for (auto& [ij, k] : obj) h.u(ij.first + 1).u(ij.second + 1).d(k);
    h.u(lib.setups).u(lib.updates);
  }
};
void start(World& w, int s)
{
  int n = s == 0 ? 1 : s == 1 ? 3 : 7;
  for (int i = 0; i < n; ++i) w.addVar(i % 2);
  if (s == 1) w.addCnt(3, EQ), w.addCnt(10, INEQ), w.setObj(5);
  if (s == 2)
  {
    for (int i = 0; i < 4; ++i) w.addCnt(100 + 10 * i + i + 1, i % 2 ? EQ : INEQ);
    w.addCnt(16, INEQ), w.setObj(5);
  }
}
// one edit; returns the number of edits at this point when k < 0
int edit(World& w, int k)
{
  int nv = int(w.vars.size()), nc = int(w.cnts.size());
  std::vector<std::function<void()>> ops;
  ops.push_back([&] { w.solve(); });
  ops.push_back([&] { w.addVar(0); });
  ops.push_back([&] { w.addVar(2); });
  for (int shape : { 0, 1, 2, 3, 10 + nv / 2 }) ops.push_back([&w, shape] { w.addCnt(shape, EQ); });
  for (int shape : { 3, 10 + nv - 1 }) ops.push_back([&w, shape] { w.addCnt(shape, INEQ); });
  for (int o = 0; o <= 6; ++o) ops.push_back([&w, o] { w.setObj(o); });
  ops.push_back([&] { w.m->update(), w.handles(), w.log += " flush"; });
  if (nv) ops.push_back([&] { w.setBounds(true, 4); }), ops.push_back([&] { w.setBounds(false, 5); }), ops.push_back([&] { w.setBounds(false, 3); });
  if (nv > 1) ops.push_back([&] { w.removeVar(0); }), ops.push_back([&] { w.removeVar(w.vars.size() - 1); });
  if (nc) ops.push_back([&] { w.removeCnt(0); }), ops.push_back([&] { w.removeCnt(w.cnts.size() - 1); });
  // the same number of terms in another place
  if (nc) ops.push_back([&, nv] { w.removeCnt(w.cnts.size() - 1), w.addCnt(10 + std::max(0, nv - 2), INEQ); });
  if (nc > 1) ops.push_back([&] { auto t = w.cnts[1].t; w.removeCnt(1), w.addCnt(125, t); });
  if (nc > 1) ops.push_back([&] { auto t = w.cnts[0].t; w.removeCnt(0), w.addCnt(100, t); });
  if (k >= 0 && k < int(ops.size())) ops[size_t(k)](), w.c.transitions();
  return int(ops.size());
}
struct Solve { Lib::Fault f; OSQPInt s; };
const Solve solvesOf[] = { { Lib::None, OSQP_SOLVED }, { Lib::None, OSQP_SOLVED_INACCURATE }, { Lib::None, OSQP_PRIMAL_INFEASIBLE }, { Lib::None, OSQP_PRIMAL_INFEASIBLE_INACCURATE }, { Lib::None, OSQP_DUAL_INFEASIBLE },
  { Lib::None, OSQP_DUAL_INFEASIBLE_INACCURATE }, { Lib::None, OSQP_MAX_ITER_REACHED }, { Lib::None, OSQP_TIME_LIMIT_REACHED }, { Lib::None, OSQP_NON_CVX }, { Lib::None, OSQP_UNSOLVED },
  { Lib::SetupData, OSQP_SOLVED }, { Lib::SetupSettings, OSQP_SOLVED }, { Lib::SetupLinsys, OSQP_SOLVED }, { Lib::SetupNoMemory, OSQP_SOLVED }, { Lib::Vec, OSQP_SOLVED }, { Lib::Mat, OSQP_SOLVED }, { Lib::Warm, OSQP_SOLVED },
  { Lib::SolveError, OSQP_SOLVED }, { Lib::SolveError, OSQP_PRIMAL_INFEASIBLE } };
void small(World& w, int k)
{
  switch (k)
  {
    case 0: return;
    case 1: return w.setBounds(true, 4);
    case 2: return w.setObj(2);
    case 3: return w.setObj(6);
    case 4: return w.addCnt(3, INEQ);
    case 5: if (!w.cnts.empty()) { w.removeCnt(w.cnts.size() - 1), w.addCnt(11, INEQ); } return;
    case 6: return w.addVar(1);
    case 7: if (w.vars.size() > 1) w.removeVar(0); return;
  }
}
}  // namespace
void mc::explore(Ctx& c)
{
  auto done = [&c](World& w) {
    Hash h;
    w.key(h);
    c.state(h);
    w.finish();
    c.traces();
  };
  for (int mode = 0; mode < 4; ++mode)
    for (int s = 0; s < 3; ++s)
      for (int first = 0; first < 27; ++first)
        c.item([=] { return str("reuse ", mode & 1, " warm ", mode >> 1, ", start ", s, ", first operation #", first); }, [=, &c] {
          std::cout.setstate(std::ios::failbit);
          mc::Dfs d(c);
          d.run([&] {
            World w(c, mode & 1, mode >> 1);
            start(w, s);
            w.solve();
            if (edit(w, first) <= first) return w.finish();
            for (int i = 1; i < (c.thorough ? 4 : 3); ++i) edit(w, d.choose(edit(w, -1)));
            w.solve();
            w.solve();
            done(w);
          });
        });
  for (int mode = 0; mode < 4; ++mode)
    for (int s = 0; s < 3; ++s)
      for (size_t first = 0; first < std::size(solvesOf); ++first)
        c.item([=] { return str("reuse ", mode & 1, " warm ", mode >> 1, ", start ", s, ", first answer #", first); }, [=, &c] {
          std::cout.setstate(std::ios::failbit);
          mc::Dfs d(c);
          d.run([&] {
            World w(c, mode & 1, mode >> 1);
            start(w, s);
            w.solve(solvesOf[first].f, solvesOf[first].s);
            for (int i = 1; i < (c.thorough || s == 1 ? 3 : 2); ++i)
            {
              static const int few[] = { 0, 1, 5 };
              bool all = i == 1 || c.thorough;
              small(w, all ? d.choose(8) : few[d.choose(3)]);
              auto& x = solvesOf[all ? d.choose(int(std::size(solvesOf))) : 2 * d.choose(int(std::size(solvesOf)) / 2)];
              w.solve(x.f, x.s);
            }
            w.solve();
            done(w);
          });
        });
}
