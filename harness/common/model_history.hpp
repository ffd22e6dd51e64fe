// Editing histories of a solver model (sco::Model) with an independent record of what the model says, and the comparison
// of that record with the problem a stand-in solver library was asked to solve. Used by S13 and S14.
#pragma once
#include <mc/mc.hpp>
#include <trajopt_sco/expr_op_overloads.hpp>
#include <trajopt_sco/expr_ops.hpp>
#include <trajopt_sco/solver_interface.hpp>
#include <functional>
#include <map>
#include <set>

namespace mh
{
using namespace mc;
using namespace sco;
constexpr double INF = std::numeric_limits<double>::infinity();
using Poly = std::map<std::pair<int, int>, double>;  // (-1,-1) constant, (-1,i) linear, (i<=j) quadratic
inline void put(Poly& p, int i, int j, double k)
{
  auto key = std::make_pair(std::min(i, j), std::max(i, j));
  if ((p[key] += k) == 0)
    p.erase(key);
}
struct Row
{
  std::map<int, double> a;
  double lo, hi;
  bool operator<(const Row& o) const { return std::tie(a, lo, hi) < std::tie(o.a, o.lo, o.hi); }
};
// what the library was asked to solve, in terms of its columns; the answer is filled in by the history
struct Sent
{
  std::vector<double> lb, ub;
  std::vector<Row> rows;
  Poly obj;
  bool constant = false;  // whether the library is told the constant of the objective
};
struct RVar { int id; Var v; double lb, ub; };
struct RCnt { Cnt c; ConstraintType t; Poly e; std::set<int> uses; };

struct World
{
  Ctx& c;
  std::shared_ptr<Model> m;
  bool flush;  // flush after additions and removals, as the interface asks for
  std::vector<RVar> vars;
  std::vector<RCnt> cnts;
  Poly obj;
  std::set<int> objUses;
  int next = 1, solves = 0, asked = 0;
  std::string log;
  std::map<int, double> answer;

  World(Ctx& c, std::shared_ptr<Model> m, bool flush) : c(c), m(std::move(m)), flush(flush) {}
  void changed()
  {
    if (flush)
      m->update();
  }
  // a unique lower bound identifies a variable in the problem
  std::pair<double, double> bounds(int id, int kind) const
  {
    double lb = -(kind * 100 + id);
    return { lb, kind % 3 == 0 ? INF : kind % 3 == 1 ? double(kind + id) : lb };
  }
  RVar* at(int k) { return vars.empty() ? nullptr : k == 0 ? &vars.front() : &vars.back(); }
  void addVar(int kind)
  {
    int id = next++;
    auto [lb, ub] = bounds(id, kind);
    std::string name = str("v", id);
    log += str(" +", name, "[", lb, ",", ub, "]");
    Var v = m->addVar(name, lb, ub);
    vars.push_back({ id, v, lb, ub });
    changed();
  }
  void removeVar(size_t i)
  {
    RVar v = vars[i];
    log += str(" -v", v.id);
    for (size_t k = cnts.size(); k-- > 0;)
      if (cnts[k].uses.count(v.id))
        removeCnt(k);
    vars.erase(vars.begin() + long(i));
    m->removeVar(v.v);
    changed();
    if (objUses.count(v.id))
      setObj(0);
  }
  // two variables at once
  void removeEnds()
  {
    if (vars.size() < 2)
      return;
    log += " -ends";
    for (size_t k = cnts.size(); k-- > 0;)
      if (cnts[k].uses.count(vars.front().id) || cnts[k].uses.count(vars.back().id))
        removeCnt(k);
    VarVector both{ vars.back().v, vars.front().v };
    bool used = objUses.count(vars.front().id) || objUses.count(vars.back().id);
    vars.erase(vars.begin());
    vars.pop_back();
    m->removeVars(both);
    changed();
    if (used)
      setObj(0);
  }
  // shapes 0..3 over the first and last variables; 10 + i: variable i only; 100 + 10i + j: variables i and j
  AffExpr affine(int shape, Poly& p, std::set<int>& uses)
  {
    AffExpr e;
    RVar *a = at(0), *b = at(1);
    auto term = [&](RVar* v, double k) {
      e.vars.push_back(v->v), e.coeffs.push_back(k);
      put(p, -1, v->id, k);
      uses.insert(v->id);
    };
    double k0 = shape == 0 ? -3 : shape == 1 ? 0.5 : shape >= 10 ? -shape : 0;
    e.constant = k0;
    put(p, -1, -1, k0);
    if (!a)
      return e;
    if (shape == 0) term(a, 2);
    else if (shape == 1) term(b, -1), term(a, 4), term(b, 3);
    else if (shape == 2) term(a, 1), term(b, 0), term(a, -1);
    else if (shape == 3)
      for (size_t i = vars.size(); i-- > 0;) term(&vars[i], double(i) + 1);
    else if (shape >= 100) term(&vars[size_t(shape / 10 % 10) % vars.size()], 2), term(&vars[size_t(shape % 10) % vars.size()], 3);
    else if (shape >= 10) term(&vars[size_t(shape - 10) % vars.size()], 5);
    return e;
  }
  void addCnt(int shape, ConstraintType t)
  {
    RCnt r;
    r.t = t;
    log += str(" +", t == EQ ? "eq" : "ineq", shape);
    AffExpr e = affine(shape, r.e, r.uses);
    r.c = t == EQ ? m->addEqCnt(e, "c") : m->addIneqCnt(e, "c");
    cnts.push_back(r);
    changed();
  }
  void removeCnt(size_t i)
  {
    log += str(" -c", i);
    m->removeCnt(cnts[i].c);
    cnts.erase(cnts.begin() + long(i));
    changed();
  }
  void setBounds(bool all, int kind)
  {
    log += str(all ? " bounds" : " bound", kind);
    VarVector v;
    DblVec l, u;
    for (size_t k = vars.size(); k-- > 0;)  // not in their order
      if (all || k + 1 == vars.size())
      {
        RVar& x = vars[k];
        std::tie(x.lb, x.ub) = bounds(x.id, kind);
        v.push_back(x.v), l.push_back(x.lb), u.push_back(x.ub);
      }
    m->setVarBounds(v, l, u);
  }
  void setObj(int shape)
  {
    obj.clear();
    objUses.clear();
    log += str(" obj", shape);
    if (shape == 0) return m->setObjective(AffExpr());
    if (shape == 1) return m->setObjective(affine(1, obj, objUses));
    QuadExpr q(affine(shape == 2 ? 3 : 0, obj, objUses));
    auto prod = [&](RVar& a, RVar& b, double k) {
      q.vars1.push_back(a.v), q.vars2.push_back(b.v), q.coeffs.push_back(k);
      put(obj, a.id, b.id, k);
      objUses.insert(a.id), objUses.insert(b.id);
    };
    if (shape == 2)
      for (auto& a : vars)
        for (auto& b : vars) prod(b, a, double(1 + a.id + 2 * b.id));
    else if (shape == 3 && at(0)) prod(*at(1), *at(0), 5), prod(*at(1), *at(1), 0), prod(*at(0), *at(0), 1.5);
    else if (shape == 4 && at(0)) prod(*at(0), *at(1), 2), prod(*at(1), *at(0), -2);
    else if (shape == 5 && at(0)) prod(*at(0), *at(0), 3), prod(vars[vars.size() / 2], vars[vars.size() / 2], 7);
    else if (shape == 6 && at(0)) prod(*at(0), *at(0), 2), prod(*at(1), *at(1), 4);
    m->setObjective(q);
  }
  // called by the library stand-in: judges the problem and gives the answer, one value per column
  std::vector<double> judge(const Sent& s)
  {
    ++asked;
    const size_t n = s.lb.size();
    c.checkf(n == vars.size(), "columns", [&] { return str(log, ": ", n, " columns for ", vars.size(), " variables"); });
    std::vector<int> col(n, 0);
    for (size_t k = 0; k < n; ++k)
      for (auto& v : vars)
        if (v.lb == s.lb[k])
        {
          col[k] = v.id;
          c.checkf(s.ub[k] == v.ub, "bounds", [&] { return str(log, ": upper bound of v", v.id, " is ", s.ub[k], " instead of ", v.ub); });
        }
    std::set<int> distinct(col.begin(), col.end());
    c.checkf(distinct.size() == vars.size() && !distinct.count(0), "bounds", [&] { return str(log, ": the bounds do not tell the variables"); });
    std::vector<Row> rows, want;
    for (auto& r : s.rows)
    {
      Row w{ {}, r.lo + 0.0, r.hi + 0.0 };
      for (auto& [k, x] : r.a)
        if (x != 0)
          w.a[col[size_t(k)]] = x;
      rows.push_back(w);
    }
    for (auto& k : cnts)
    {
      Row r;
      double k0 = k.e.count({ -1, -1 }) ? k.e[{ -1, -1 }] : 0;
      for (auto& [ij, x] : k.e)
        if (ij.second >= 0)
          r.a[ij.second] = x;
      r.lo = k.t == EQ ? 0 - k0 : -INF, r.hi = 0 - k0;
      want.push_back(r);
    }
    std::sort(rows.begin(), rows.end());
    std::sort(want.begin(), want.end());
    c.checkf(rows.size() == want.size(), "rows", [&] { return str(log, ": ", rows.size(), " rows, expected ", want.size()); });
    for (size_t i = 0; i < want.size(); ++i)
      c.checkf(!(rows[i] < want[i]) && !(want[i] < rows[i]), "constraints", [&] {
        std::string t = str(log, ": row (sorted) ", i, " is");
        for (auto& [k, x] : rows[i].a) t += str(" ", x, "*v", k);
        t += str(" in [", rows[i].lo, ",", rows[i].hi, "], expected");
        for (auto& [k, x] : want[i].a) t += str(" ", x, "*v", k);
        return t + str(" in [", want[i].lo, ",", want[i].hi, "]");
      });
    Poly got, w = obj;
    for (auto& [ij, x] : s.obj)
      if (x != 0)
        put(got, ij.first < 0 ? -1 : col[size_t(ij.first)], ij.second < 0 ? -1 : col[size_t(ij.second)], x);
    if (!s.constant)
      w.erase({ -1, -1 });
    c.checkf(got == w, "objective", [&] {
      std::string t = str(log, ": objective");
      for (auto* p : { &got, &w })
      {
        t += p == &got ? " sent:" : " expected:";
        for (auto& [ij, v] : *p) t += str(" ", v, "*v", ij.first, "*v", ij.second);
      }
      return t;
    });
    answer.clear();
    std::vector<double> x(n);
    for (size_t k = 0; k < n; ++k)
      answer[col[k]] = x[k] = 1000 * (solves + 1) + double(k);
    return x;
  }
  // a solve that ends as told
  void solve(const std::string& how, CvxOptStatus want)
  {
    log += " solve" + how;
    CvxOptStatus st = m->optimize();
    ++solves;
    c.transitions();
    c.checkf(st == want, "status", [&] { return str(log, ": reported as ", int(st), " instead of ", int(want)); });
    if (st == CVX_SOLVED)
    {
      VarVector all;
      for (auto& v : vars) all.push_back(v.v);
      DblVec vs = m->getVarValues(all);
      for (size_t i = 0; i < vars.size(); ++i)
      {
        c.checkf(vs.size() == vars.size() && vs[i] == answer[vars[i].id], "attribution", [&] { return str(log, ": v", vars[i].id, " is ", vs[i], ", the solver said ", answer[vars[i].id]); });
        c.checkf(m->getVarValue(vars[i].v) == vs[i], "attribution", [&] { return str(log, ": v", vars[i].id, " alone differs"); });
      }
    }
    handles();
    c.outcome(Hash().u(st).u(vars.size()).u(cnts.size()).h);
  }
  void handles()
  {
    VarVector got = m->getVars();
    c.checkf(got.size() == vars.size(), "variables", [&] { return str(log, ": ", got.size(), " variables instead of ", vars.size()); });
    for (size_t i = 0; i < got.size(); ++i)
    {
      bool ok = false;
      for (auto& v : vars) ok |= got[i].var_rep == v.v.var_rep;
      c.checkf(ok, "variables", [&] { return str(log, ": variable ", i); });
    }
  }
  void key(Hash& h)
  {
    for (auto& v : vars) h.u(v.id).d(v.lb).d(v.ub);
    for (auto& q : cnts)
      for (auto& [ij, k] : q.e) h.u(q.t).u(ij.first + 1).u(ij.second + 1).d(k);
    for (auto& [ij, k] : obj) h.u(ij.first + 1).u(ij.second + 1).d(k);
  }
};
inline void start(World& w, int s)
{
  int n = s == 0 ? 1 : s == 1 ? 3 : 7;
  for (int i = 0; i < n; ++i) w.addVar(i % 2);
  if (s == 1) w.addCnt(3, EQ), w.addCnt(10, INEQ), w.setObj(5);
  if (s == 2)
  {
    for (int i = 0; i < 4; ++i) w.addCnt(100 + 10 * i + i + 1, i % 2 ? EQ : INEQ);
    w.addCnt(16, INEQ), w.setObj(5);
  }
}
// the edits possible at this point; the first is a solve
inline std::vector<std::function<void()>> edits(World& w, std::function<void()> solve)
{
  int nv = int(w.vars.size()), nc = int(w.cnts.size());
  std::vector<std::function<void()>> ops;
  ops.push_back(solve);
  ops.push_back([&] { w.addVar(0); });
  ops.push_back([&] { w.addVar(2); });
  for (int shape : { 0, 1, 2, 3, 10 + nv / 2 }) ops.push_back([&w, shape] { w.addCnt(shape, EQ); });
  for (int shape : { 3, 10 + nv - 1 }) ops.push_back([&w, shape] { w.addCnt(shape, INEQ); });
  for (int o = 0; o <= 6; ++o) ops.push_back([&w, o] { w.setObj(o); });
  ops.push_back([&] { w.log += " flush"; w.m->update(), w.handles(); });
  if (nv) ops.push_back([&] { w.setBounds(true, 4); }), ops.push_back([&] { w.setBounds(false, 5); }), ops.push_back([&] { w.setBounds(false, 3); });
  if (nv > 1) ops.push_back([&] { w.removeVar(0); }), ops.push_back([&] { w.removeVar(w.vars.size() - 1); });
  if (nv > 2) ops.push_back([&] { w.removeEnds(); });
  if (nc) ops.push_back([&] { w.removeCnt(0); }), ops.push_back([&] { w.removeCnt(w.cnts.size() - 1); });
  if (nc) ops.push_back([&, nv] { w.removeCnt(w.cnts.size() - 1), w.addCnt(10 + std::max(0, nv - 2), INEQ); });
  if (nc > 1) ops.push_back([&] { auto t = w.cnts[1].t; w.removeCnt(1), w.addCnt(125, t); });
  return ops;
}
}  // namespace mh
