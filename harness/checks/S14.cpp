// S14: the problem Gurobi is asked to solve is the model as edited, and its ending is reported as it is.
#include <common/model_history.hpp>
extern "C" {
#include <gurobi_c.h>
}
#include <trajopt_sco/gurobi_interface.hpp>
#include <cstring>
using namespace mh;
const CheckInfo mc::info = { "S14", "model_checking",
  "every sequence of up to 3 (thorough 4) operations out of {add a variable; remove one or two; add a linear constraint of 5 shapes or a quadratic one; remove or replace a constraint; change bounds; set an "
  "objective of 7 shapes; flush; solve} from three models, each solved before and twice after; every pair (thorough triple) of solves over all 13 endings with 6 edits between them; and the same edits "
  "spread over two models",
  { "the library is a stand-in with Gurobi's C interface: additions, removals and attribute changes wait for an update or a solve; an index that is out of range or named twice in a row is refused; an answer "
    "is only there while the model is unchanged", "the driver flushes after adding or removing, as the interface asks for", "expressions never refer to a variable that was removed" } };
namespace
{
struct Lib
{
  std::function<std::vector<double>(_GRBmodel*, const Sent&, const std::vector<Poly>&)> solve;
  std::function<void(const std::string&)> misuse;
  int status = GRB_OPTIMAL, live = 0, solved = 0;
} lib;
}  // namespace
struct _GRBenv { int dummy; } theEnv;
struct _GRBmodel
{
  struct Q { Poly p; };
  Sent now;
  std::vector<double> lin;
  double con = 0;
  Poly quad;
  std::vector<Poly> qrows;
  std::vector<std::function<void()>> pending;
  std::vector<double> x;
  int status = GRB_LOADED;
  // sizes after the pending additions, which is what an index may reach in a row to be added: only what is there counts
  int n() const { return int(now.lb.size()); }
  void flush()
  {
    if (pending.empty())
      return;
    auto todo = std::move(pending);
    pending.clear();
    // additions and changes refer to the indices from before the removals
    for (auto& f : todo) f();
    std::set<int> dv, dc;
    std::swap(dv, delv), std::swap(dc, delc);
    for (auto it = dc.rbegin(); it != dc.rend(); ++it) now.rows.erase(now.rows.begin() + *it);
    if (!dv.empty())
    {
      std::vector<int> to(size_t(n()), -1);
      int k = 0;
      for (int i = 0; i < n(); ++i)
        if (!dv.count(i))
          to[size_t(i)] = k++;
      auto map = [&](Poly& p) {
        Poly q;
        for (auto& [ij, v] : p)
          if ((ij.first < 0 || to[size_t(ij.first)] >= 0) && (ij.second < 0 || to[size_t(ij.second)] >= 0))
            put(q, ij.first < 0 ? -1 : to[size_t(ij.first)], ij.second < 0 ? -1 : to[size_t(ij.second)], v);
        p = q;
      };
      map(quad);
      for (auto& q : qrows) map(q);
      for (auto& r : now.rows)
      {
        std::map<int, double> a;
        for (auto& [i, v] : r.a)
          if (to[size_t(i)] >= 0)
            a[to[size_t(i)]] = v;
        r.a = a;
      }
      for (auto it = dv.rbegin(); it != dv.rend(); ++it)
        now.lb.erase(now.lb.begin() + *it), now.ub.erase(now.ub.begin() + *it), lin.erase(lin.begin() + *it);
    }
    x.clear();
    status = GRB_LOADED;
  }
  std::set<int> delv, delc;
};
namespace
{
double inf(double v) { return v >= 1e20 ? INF : v <= -1e20 ? -INF : v; }
int bad(const std::string& s)
{
  lib.misuse(s);
  return 10006;
}
int inds(_GRBmodel* m, int n, const int* ind, bool unique, const char* who)
{
  std::set<int> seen;
  for (int k = 0; k < n; ++k)
  {
    if (ind[k] < 0 || ind[k] >= m->n())
      return bad(str(who, ": variable ", ind[k], " of ", m->n()));
    if (!seen.insert(ind[k]).second && unique)
      return bad(str(who, ": variable ", ind[k], " twice"));
  }
  return 0;
}
std::vector<double>* attr(_GRBmodel* m, const char* a)
{
  return !strcmp(a, "LB") ? &m->now.lb : !strcmp(a, "UB") ? &m->now.ub : !strcmp(a, "Obj") ? &m->lin : nullptr;
}
}  // namespace
extern "C" {
int GRBloadenv(GRBenv** e, const char*) { *e = &theEnv; return 0; }
int GRBsetintparam(GRBenv* e, const char*, int) { return e == &theEnv ? 0 : 10002; }
int GRBnewmodel(GRBenv* e, GRBmodel** m, const char*, int n, double* obj, double* lb, double* ub, char*, char**)
{
  if (e != &theEnv)
    return 10002;
  *m = new _GRBmodel;
  for (int i = 0; i < n; ++i)
    (*m)->now.lb.push_back(lb ? lb[i] : 0), (*m)->now.ub.push_back(ub ? inf(ub[i]) : INF), (*m)->lin.push_back(obj ? obj[i] : 0);
  ++lib.live;
  return 0;
}
int GRBfreemodel(GRBmodel* m)
{
  --lib.live;
  delete m;
  return 0;
}
int GRBaddvar(GRBmodel* m, int nnz, int*, double*, double obj, double lb, double ub, char type, const char*)
{
  if (nnz || type != GRB_CONTINUOUS)
    return bad("addvar: not a plain continuous variable");
  m->pending.push_back([=] { m->now.lb.push_back(inf(lb)), m->now.ub.push_back(inf(ub)), m->lin.push_back(obj); });
  return 0;
}
int GRBaddconstr(GRBmodel* m, int n, int* ind, double* val, char sense, double rhs, const char*)
{
  if (int e = inds(m, n, ind, true, "addconstr"))
    return e;
  Row r{ {}, sense == '<' ? -INF : rhs, sense == '>' ? INF : rhs };
  for (int k = 0; k < n; ++k) r.a[ind[k]] = val[k];
  m->pending.push_back([=] { m->now.rows.push_back(r); });
  return 0;
}
int GRBaddqconstr(GRBmodel* m, int nl, int* li, double* lv, int nq, int* q1, int* q2, double* qv, char sense, double rhs, const char*)
{
  if (inds(m, nl, li, false, "addqconstr") || inds(m, nq, q1, false, "addqconstr") || inds(m, nq, q2, false, "addqconstr"))
    return 10006;
  if (sense == '=')
    return bad("addqconstr: an equation");
  const double s = sense == '>' ? -1 : 1;
  Poly p;
  put(p, -1, -1, -s * rhs);
  for (int k = 0; k < nl; ++k) put(p, -1, li[k], s * lv[k]);
  for (int k = 0; k < nq; ++k) put(p, q1[k], q2[k], s * qv[k]);
  m->pending.push_back([=] { m->qrows.push_back(p); });
  return 0;
}
int GRBdelvars(GRBmodel* m, int n, int* ind)
{
  if (int e = inds(m, n, ind, false, "delvars"))
    return e;
  std::vector<int> v(ind, ind + n);
  m->pending.push_back([=] { m->delv.insert(v.begin(), v.end()); });
  return 0;
}
int GRBdelconstrs(GRBmodel* m, int n, int* ind)
{
  std::vector<int> v(ind, ind + n);
  for (int i : v)
    if (i < 0 || i >= int(m->now.rows.size()))
      return bad(str("delconstrs: ", i, " of ", m->now.rows.size()));
  m->pending.push_back([=] { m->delc.insert(v.begin(), v.end()); });
  return 0;
}
int GRBsetdblattrlist(GRBmodel* m, const char* a, int n, int* ind, double* val)
{
  if (int e = inds(m, n, ind, false, a))
    return e;
  if (!attr(m, a))
    return bad(str("setting attribute ", a));
  std::vector<int> i(ind, ind + n);
  std::vector<double> v(val, val + n);
  std::string name = a;
  m->pending.push_back([=] {
    for (size_t k = 0; k < i.size(); ++k) (*attr(m, name.c_str()))[size_t(i[k])] = inf(v[k]);
  });
  return 0;
}
int GRBgetdblattrlist(GRBmodel* m, const char* a, int n, int* ind, double* val)
{
  if (int e = inds(m, n, ind, false, a))
    return e;
  auto* from = !strcmp(a, "X") ? &m->x : attr(m, a);
  if (!from || int(from->size()) != m->n())
    return 10005;
  for (int k = 0; k < n; ++k) val[k] = (*from)[size_t(ind[k])];
  return 0;
}
int GRBsetdblattrarray(GRBmodel* m, const char* a, int first, int n, double* val)
{
  std::vector<int> i;
  for (int k = 0; k < n; ++k) i.push_back(first + k);
  return GRBsetdblattrlist(m, a, n, i.data(), val);
}
int GRBgetdblattrarray(GRBmodel* m, const char* a, int first, int n, double* val)
{
  std::vector<int> i;
  for (int k = 0; k < n; ++k) i.push_back(first + k);
  return GRBgetdblattrlist(m, a, n, i.data(), val);
}
int GRBsetdblattrelement(GRBmodel* m, const char* a, int i, double v) { return GRBsetdblattrlist(m, a, 1, &i, &v); }
int GRBgetdblattrelement(GRBmodel* m, const char* a, int i, double* v) { return GRBgetdblattrlist(m, a, 1, &i, v); }
int GRBsetdblattr(GRBmodel* m, const char* a, double v)
{
  if (strcmp(a, "ObjCon"))
    return bad(str("setting attribute ", a));
  m->pending.push_back([=] { m->con = v; });
  return 0;
}
int GRBgetdblattr(GRBmodel* m, const char* a, double* v)
{
  if (strcmp(a, "ObjVal") || m->x.empty())
    return 10005;
  *v = 0;
  return 0;
}
int GRBgetintattr(GRBmodel* m, const char* a, int* v)
{
  *v = !strcmp(a, "Status") ? m->status : !strcmp(a, "NumVars") ? m->n() : !strcmp(a, "NumConstrs") ? int(m->now.rows.size()) : -1;
  return *v < 0 ? 10004 : 0;
}
int GRBdelq(GRBmodel* m)
{
  m->pending.push_back([=] { m->quad.clear(); });
  return 0;
}
int GRBaddqpterms(GRBmodel* m, int n, int* i, int* j, double* val)
{
  if (inds(m, n, i, false, "addqpterms") || inds(m, n, j, false, "addqpterms"))
    return 10006;
  Poly p;
  for (int k = 0; k < n; ++k) put(p, i[k], j[k], val[k]);
  m->pending.push_back([=] {
    for (auto& [ij, v] : p) put(m->quad, ij.first, ij.second, v);
  });
  return 0;
}
int GRBupdatemodel(GRBmodel* m)
{
  m->flush();
  return 0;
}
int GRBoptimize(GRBmodel* m)
{
  m->flush();
  ++lib.solved;
  Sent s = m->now;
  s.obj = m->quad;
  for (int i = 0; i < m->n(); ++i)
    if (m->lin[size_t(i)] != 0)
      put(s.obj, -1, i, m->lin[size_t(i)]);
  if (m->con != 0)
    put(s.obj, -1, -1, m->con);
  s.constant = true;
  auto x = lib.solve(m, s, m->qrows);
  m->status = lib.status;
  m->x.clear();
  if (lib.status == GRB_OPTIMAL || lib.status == GRB_SUBOPTIMAL)
    m->x = x;
  return 0;
}
int GRBcomputeIIS(GRBmodel* m) { return m->status == GRB_INFEASIBLE ? 0 : bad("computeIIS of a feasible model"); }
int GRBfeasrelax(GRBmodel*, int, int, double*, double*, double*, double*) { return bad("feasrelax"); }
int GRBwrite(GRBmodel*, const char*) { return 0; }
const char* GRBgeterrormsg(GRBenv*) { return "(see above)"; }
}
namespace
{
struct G : World
{
  std::vector<Poly> quads;  // over variable ids
  std::vector<std::set<int>> quadUses;
  G(Ctx& c) : World(c, std::make_shared<GurobiModel>(), true) {}
  _GRBmodel* handle() { return static_cast<GurobiModel*>(m.get())->m_model; }
  void addQuad()
  {
    if (vars.empty())
      return;
    log += " +quad";
    Poly p;
    std::set<int> uses;
    QuadExpr q(affine(1, p, uses));
    for (auto& v : vars)
    {
      q.vars1.push_back(v.v), q.vars2.push_back(vars[0].v), q.coeffs.push_back(double(v.id));
      put(p, v.id, vars[0].id, double(v.id));
      uses.insert(v.id);
    }
    m->addIneqCnt(q, "q");
    quads.push_back(p);
    changed();
  }
  // the quadratic constraints lose the terms of a removed variable, as they cannot be removed themselves
  std::vector<double> asked_(const Sent& s, const std::vector<Poly>& rows)
  {
    auto x = judge(s);
    std::set<int> there;
    for (auto& v : vars) there.insert(v.id);
    std::vector<Poly> got, want;
    for (auto& q : rows)
    {
      Poly p;
      for (auto& [ij, v] : q)
      {
        auto id = [&](int k) {
          if (k < 0)
            return -1;
          for (auto& r : vars)
            if (r.lb == s.lb[size_t(k)])
              return r.id;
          return 0;
        };
        put(p, id(ij.first), id(ij.second), v);
      }
      got.push_back(p);
    }
    for (auto& q : quads)
    {
      Poly p;
      for (auto& [ij, v] : q)
        if ((ij.first < 0 || there.count(ij.first)) && (ij.second < 0 || there.count(ij.second)))
          put(p, ij.first, ij.second, v);
      want.push_back(p);
    }
    c.checkf(got == want, "quadratic-constraints", [&] {
      std::string t = str(log, ": quadratic constraints");
      for (auto* l : { &got, &want })
      {
        t += l == &got ? " sent:" : " expected:";
        for (auto& p : *l)
        {
          t += " (";
          for (auto& [ij, v] : p) t += str(" ", v, "*v", ij.first, "*v", ij.second);
          t += " )";
        }
      }
      return t;
    });
    return x;
  }
  void solve(int status = GRB_OPTIMAL)
  {
    lib.misuse = [this](const std::string& s) { c.fail("library-misuse", log + ": " + s); };
    lib.solve = [this](_GRBmodel* which, const Sent& s, const std::vector<Poly>& q) {
      c.checkf(which == handle(), "other-model", [&] { return log + ": another model is solved"; });
      return asked_(s, q);
    };
    lib.status = status;
    const int before = lib.solved;
    World::solve(status == GRB_OPTIMAL ? "" : str("(ends with ", status, ")"), status == GRB_OPTIMAL ? CVX_SOLVED : status == GRB_INFEASIBLE ? CVX_INFEASIBLE : CVX_FAILED);
    c.checkf(lib.solved == before + 1, "solver-calls", [&] { return str(log, ": ", lib.solved - before, " solves"); });
  }
  void finish()
  {
    Hash h;
    key(h);
    for (auto& q : quads)
      for (auto& [ij, k] : q) h.u(ij.first + 1).u(ij.second + 1).d(k);
    c.state(h);
    vars.clear(), cnts.clear();
    m.reset();
    c.traces();
  }
};
void small(G& w, int k)
{
  switch (k)
  {
    case 0: return;
    case 1: return w.setBounds(true, 4);
    case 2: return w.setObj(2);
    case 3: return w.addCnt(3, INEQ);
    case 4: if (!w.cnts.empty()) { w.removeCnt(w.cnts.size() - 1), w.addCnt(11, INEQ); } return;
    case 5: if (w.vars.size() > 1) w.removeVar(0); return;
    case 6: return w.addQuad();
    case 7: return w.removeEnds();
    case 8: return w.addVar(2);
  }
}
void misuse(G& w)
{
  lib.misuse = [&w](const std::string& s) { w.c.fail("library-misuse", w.log + ": " + s); };
}
void released(Ctx& c, const std::string& log)
{
  c.checkf(lib.live == 0, "solver-leaked", [&] { return str(log, ": ", lib.live, " models are never released"); });
}
}  // namespace
void mc::explore(Ctx& c)
{
  for (int s = 0; s < 3; ++s)
    for (int first = 0; first < 29; ++first)
      c.item([=] { return str("start ", s, ", first operation #", first); }, [=, &c] {
        Dfs d(c);
        d.run([&] {
          lib.live = 0;
          G w(c);
          misuse(w);
          start(w, s);
          w.solve();
          auto edit = [&](int k) {
            auto ops = edits(w, [&] { w.solve(); });
            ops.insert(ops.begin() + 1, [&] { w.addQuad(); });
            if (k >= int(ops.size()))
              return false;
            ops[k < 0 ? size_t(d.choose(int(ops.size()))) : size_t(k)]();
            c.transitions();
            return true;
          };
          if (edit(first))
          {
            for (int i = 1; i < (c.thorough ? 4 : 3); ++i)
              edit(-1);
            w.solve();
            w.solve();
          }
          std::string log = w.log;
          w.finish();
          released(c, log);
        });
      });
  for (int s = 0; s < 3; ++s)
    for (int first = 1; first <= 13; ++first)
      c.item([=] { return str("start ", s, ", first ending ", first); }, [=, &c] {
        Dfs d(c);
        d.run([&] {
          lib.live = 0;
          G w(c);
          misuse(w);
          start(w, s);
          w.solve(first);
          for (int i = 1; i < (c.thorough ? 3 : 2); ++i)
          {
            small(w, d.choose(9));
            w.solve(1 + d.choose(13));
          }
          std::string log = w.log;
          w.finish();
          released(c, log);
        });
      });
  for (int s = 0; s < 3; ++s)
    for (int t = 0; t < 3; ++t)
      c.item([=] { return str("two models, starts ", s, " and ", t); }, [=, &c] {
        Dfs d(c);
        d.run([&] {
          lib.live = 0;
          std::string log;
          {
            G a(c), b(c);
            misuse(a);
            start(a, s), start(b, t);
            for (int i = 0; i < (c.thorough ? 4 : 3); ++i)
            {
              G& w = d.choose(2) ? b : a;
              misuse(w);
              const int k = d.choose(10);
              k == 9 ? w.solve() : small(w, k);
            }
            a.solve(), b.solve(), a.solve();
            log = a.log + " | " + b.log;
            a.finish();
            b.solve();
            b.finish();
          }
          released(c, log);
        });
      });
}
