// S03: the problem the bundled solver is asked to solve is the model as edited.
#include <mc/mc.hpp>
#include <common/wire.hpp>
#include <trajopt_sco/bpmpd_interface.hpp>
#include <trajopt_sco/expr_op_overloads.hpp>
#include <trajopt_sco/expr_ops.hpp>
#include <map>
#include <set>
using namespace mc;
using namespace sco;
extern "C" bool wire_on;
const CheckInfo mc::info = { "S03", "model_checking",
  "every sequence of up to 4 (thorough 5) operations out of {add a variable free, bounded or fixed; remove any variable; add an equality or inequality of 5 shapes over the first and last variables (repeated, cancelling, zero and constant "
  "terms); remove any constraint; change one or all bounds; set an affine or quadratic objective of 5 shapes; flush pending edits; solve} from an empty and from two populated models, then a solve; "
  "every solver answer code",
  { "the solver routine is a stand-in, everything up to its argument list is real (model, serialisation, solver program's main loop)", "expressions never refer to a variable that was removed" } };

static const double INF = INFINITY;
struct RVar { int id; Var v; double lb, ub; };
using Poly = std::map<std::pair<int, int>, double>;          // (-1,-1) constant, (-1,i) linear, (i<=j) quadratic
struct RCnt { Cnt c; ConstraintType t; Poly e; std::set<int> uses; };
static void put(Poly& p, int i, int j, double k)
{
  auto key = std::make_pair(std::min(i, j), std::max(i, j));
  if ((p[key] += k) == 0)
    p.erase(key);
}
struct Row
{
  std::map<int, double> a;
  double lo, hi;
  bool operator<(const Row& o) const { return std::tie(a, lo, hi) < std::tie(o.a, o.lo, o.hi); }
};
struct World
{
  Ctx& c;
  std::shared_ptr<BPMPDModel> m = std::make_shared<BPMPDModel>();
  std::vector<RVar> vars;
  std::vector<RCnt> cnts;
  Poly obj;
  std::set<int> objUses;
  int next = 1, solves = 0;
  std::string log;
  World(Ctx& c) : c(c) {}

  // unique lower bound identifies a variable in the transmitted problem
  std::pair<double, double> bounds(int id, int kind) const
  {
    double lb = -(kind * 100 + id);
    return { lb, kind % 3 == 0 ? INF : kind % 3 == 1 ? double(kind + id) : lb };
  }
  RVar* at(int k) { return vars.empty() ? nullptr : k == 0 ? &vars.front() : &vars.back(); }
  void addVar(int kind)
  {
    int id = next++;
    auto [lb, ub] = bounds(id, kind);
    std::string name = str("v", id);
    Var v = static_cast<Model&>(*m).addVar(name, lb, ub);
    vars.push_back({ id, v, lb, ub });
    log += str(" +", name, "[", lb, ",", ub, "]");
  }
  void removeVar(size_t i)
  {
    RVar v = vars[i];
    log += str(" -v", v.id);
    // expressions that use it go first
    for (size_t k = cnts.size(); k-- > 0;)
      if (cnts[k].uses.count(v.id))
        removeCnt(k);
    vars.erase(vars.begin() + long(i));
    static_cast<Model&>(*m).removeVar(v.v);
    if (objUses.count(v.id))
      setObj(0);
  }
  // shape of an affine expression over the first (a) and last (b) variable
  AffExpr affine(int shape, Poly& p, std::set<int>& uses)
  {
    AffExpr e;
    RVar *a = at(0), *b = at(1);
    auto term = [&](RVar* v, double k) {
      e.vars.push_back(v->v), e.coeffs.push_back(k);
      put(p, -1, v->id, k);
      uses.insert(v->id);
    };
    double k0 = shape == 0 ? -3 : shape == 1 ? 0.5 : 0;
    e.constant = k0;
    put(p, -1, -1, k0);
    if (a == nullptr)
      return e;
    if (shape == 0)
      term(a, 2);
    else if (shape == 1)
      term(b, -1), term(a, 4), term(b, 3);
    else if (shape == 2)
      term(a, 1), term(b, 0), term(a, -1);
    else if (shape == 3)
      for (size_t i = vars.size(); i-- > 0;)
        term(&vars[i], double(i) + 1);
    return e;
  }
  void addCnt(int shape, ConstraintType t)
  {
    RCnt r;
    r.t = t;
    AffExpr e = affine(shape, r.e, r.uses);
    std::string name = str("c", cnts.size());
    r.c = t == EQ ? m->addEqCnt(e, name) : m->addIneqCnt(e, name);
    cnts.push_back(r);
    log += str(" +", t == EQ ? "eq" : "ineq", shape);
  }
  void removeCnt(size_t i)
  {
    static_cast<Model&>(*m).removeCnt(cnts[i].c);
    cnts.erase(cnts.begin() + long(i));
    log += str(" -c", i);
  }
  void setBounds(bool all, int kind)
  {
    VarVector v;
    DblVec l, u;
    for (auto& x : vars)
      if (all || &x == &vars.back())
      {
        std::tie(x.lb, x.ub) = bounds(x.id, kind);
        v.push_back(x.v), l.push_back(x.lb), u.push_back(x.ub);
      }
    if (all)
      m->setVarBounds(v, l, u);
    else
      static_cast<Model&>(*m).setVarBounds(v[0], l[0], u[0]);
    log += str(all ? " bounds" : " bound", kind);
  }
  void setObj(int shape)
  {
    obj.clear();
    objUses.clear();
    log += str(" obj", shape);
    if (shape == 0)
      return m->setObjective(AffExpr());
    if (shape == 1)
    {
      QuadExpr q(affine(1, obj, objUses));
      return m->setObjective(q);
    }
    QuadExpr q(affine(shape == 2 ? 3 : 0, obj, objUses));
    auto prod = [&](RVar& a, RVar& b, double k) {
      q.vars1.push_back(a.v), q.vars2.push_back(b.v), q.coeffs.push_back(k);
      put(obj, a.id, b.id, k);
      objUses.insert(a.id), objUses.insert(b.id);
    };
    if (shape == 2)
      for (size_t i = 0; i < vars.size(); ++i)
        for (size_t j = 0; j < vars.size(); ++j)
          prod(vars[j], vars[i], double(1 + i + 2 * j));     // both orientations, summed
    else if (shape == 3 && at(0))
      prod(*at(1), *at(0), 5), prod(*at(1), *at(1), 0), prod(*at(0), *at(0), 1.5);
    else if (at(0))
      prod(*at(0), *at(1), 2), prod(*at(1), *at(0), -2);
    m->setObjective(q);
  }
  void solve(int code)
  {
    ++solves;
    bool called = false, met = true;
    std::map<int, double> answer;
    wire::reset();
    wire::solver = [&](wire::Problem& p) {
      called = true;
      judge(p);
      for (int i = 0; i < p.n + p.m; ++i)
        p.primal[i] = p.dual[i] = 1e6 + solves * 1000 + i, p.status[i] = i % 2;
      // inside the bounds, and telling the variables apart
      for (int i = 0; i < p.n; ++i)
        answer[idOf(p.lb[i])] = p.primal[i] = p.lb[i] + std::min(1.0, p.ub[i] - p.lb[i]) * (solves % 7) / 8;
      for (auto& q : cnts)
      {
        double v = 0;
        for (auto& [ij, k] : q.e)
          v += ij.second >= 0 ? k * answer.at(ij.second) : k;
        met &= v <= 0 && (q.t == INEQ || v == 0);
      }
      *p.code = code;
      *p.opt = 7;
    };
    CvxOptStatus st;
    try { st = m->optimize(); }
    catch (const wire::Hang&) { c.fail("no-answer", log); }
    c.transitions();
    c.checkf(called && wire::drained(), "exchange", [&] { return str(log, ": ", called ? "bytes left over" : "the solver was not called"); });
    // an answer that does not meet the constraints may be refused
    c.checkf(code == 2 && !met ? st != CVX_INFEASIBLE : (st == CVX_SOLVED) == (code == 2), "status", [&] { return str(log, ": solver code ", code, " reported as ", int(st)); });
    c.checkf(code != 4 || st == CVX_INFEASIBLE, "status", [&] { return str(log, ": infeasible reported as ", int(st)); });
    VarVector all;
    for (auto& v : vars)
    {
      all.push_back(v.v);
      double got = static_cast<Model&>(*m).getVarValue(v.v);
      c.checkf(got == answer.at(v.id), "attribution", [&] { return str(log, ": v", v.id, " is ", got, ", the solver said ", answer.at(v.id)); });
    }
    DblVec vs = m->getVarValues(all);
    for (size_t i = 0; i < vars.size(); ++i)
      c.checkf(vs.size() == vars.size() && vs[i] == answer.at(vars[i].id), "attribution", [&] { return str(log, ": list of values"); });
    handles();
    log += " solve";
  }
  void handles()
  {
    VarVector got = m->getVars();
    c.checkf(got.size() == vars.size(), "variables", [&] { return str(log, ": ", got.size(), " variables instead of ", vars.size()); });
    std::set<const VarRep*> seen;
    for (size_t i = 0; i < got.size(); ++i)
    {
      bool ok = false;
      for (auto& v : vars)
        ok |= got[i].var_rep == v.v.var_rep && got[i].var_rep->name == str("v", v.id);
      c.checkf(ok && seen.insert(got[i].var_rep.get()).second, "variables", [&] { return str(log, ": variable ", i); });
    }
  }
  int idOf(double lb)
  {
    for (auto& v : vars)
      if (v.lb == lb)
        return v.id;
    c.fail("variables", str(log, ": a column with lower bound ", lb));
  }
  void judge(wire::Problem& p)
  {
    auto what = [&] { return log; };
    c.checkf(p.n == int(vars.size()), "columns", [&] { return str(log, ": ", p.n, " columns for ", vars.size(), " variables"); });
    c.checkf(p.m == int(cnts.size()), "rows", [&] { return str(log, ": ", p.m, " rows for ", cnts.size(), " constraints"); });
    std::vector<int> col;
    std::set<int> distinct;
    for (int i = 0; i < p.n; ++i)
    {
      col.push_back(idOf(p.lb[i]));
      distinct.insert(col.back());
      for (auto& v : vars)
        if (v.id == col.back())
          c.checkf(p.ub[i] == v.ub || (v.ub == INF && p.ub[i] >= p.big), "bounds", [&] { return str(log, ": v", v.id, " has upper bound ", p.ub[i], " instead of ", v.ub); });
    }
    c.checkf(distinct.size() == vars.size(), "columns", what);
    // constraint matrix
    std::vector<Row> rows(static_cast<size_t>(p.m));
    int pos = 0;
    for (int i = 0; i < p.n; ++i)
    {
      std::set<int> once;
      for (int k = 0; k < p.acolcnt[i]; ++k, ++pos)
      {
        c.checkf(pos < p.nz, "matrix-size", what);
        int r = p.acolidx[pos] - 1;
        c.checkf(r >= 0 && r < p.m, "matrix-index", [&] { return str(log, ": row ", r + 1); });
        c.checkf(once.insert(r).second, "matrix-duplicate", [&] { return str(log, ": row ", r + 1, " twice in a column"); });
        if (p.acolnzs[pos] != 0)
          rows[size_t(r)].a[col[size_t(i)]] = p.acolnzs[pos];
      }
    }
    c.checkf(pos == p.nz, "matrix-size", [&] { return str(log, ": ", p.nz, " non-zeros, columns hold ", pos); });
    for (int r = 0; r < p.m; ++r)
    {
      double l = p.lb[p.n + r], u = p.ub[p.n + r];
      rows[size_t(r)].lo = l <= -p.big ? -INF : p.rhs[r] + l;
      rows[size_t(r)].hi = u >= p.big ? INF : p.rhs[r] + u;
    }
    std::vector<Row> want;
    for (auto& q : cnts)
    {
      Row r;
      double k = q.e.count({ -1, -1 }) ? q.e[{ -1, -1 }] : 0;
      for (auto& [ij, v] : q.e)
        if (ij.second >= 0)
          r.a[ij.second] = v;
      r.lo = q.t == EQ ? -k : -INF;
      r.hi = -k;
      want.push_back(r);
    }
    auto norm = [](Row& r) { r.lo += 0.0, r.hi += 0.0; if (r.lo == 0) r.lo = 0; if (r.hi == 0) r.hi = 0; };
    for (auto* l : { &rows, &want })
    {
      for (auto& r : *l)
        norm(r);
      std::sort(l->begin(), l->end());
    }
    for (size_t i = 0; i < want.size(); ++i)
      c.checkf(!(rows[i] < want[i]) && !(want[i] < rows[i]), "constraints", [&] { return str(log, ": constraint differs (sorted #", i, "): range [", rows[i].lo, ",", rows[i].hi, "], expected [", want[i].lo, ",", want[i].hi, "], ", rows[i].a.size(), " / ", want[i].a.size(), " terms"); });
    // objective
    Poly got;
    for (int i = 0; i < p.n; ++i)
      if (p.obj[i] != 0)
        put(got, -1, col[size_t(i)], p.obj[i]);
    pos = 0;
    c.checkf(p.qn >= 0 && p.qn <= p.n, "quadratic-size", what);
    for (int i = 0; i < p.n; ++i)
    {
      std::set<int> once;
      for (int k = 0; k < p.qcolcnt[i]; ++k, ++pos)
      {
        c.checkf(pos < p.qnz, "quadratic-size", what);
        int r = p.qcolidx[pos] - 1;
        c.checkf(r >= i && r < p.n, "quadratic-index", [&] { return str(log, ": row ", r + 1, " of column ", i + 1, " of the lower triangle"); });
        c.checkf(once.insert(r).second, "quadratic-duplicate", what);
        put(got, col[size_t(r)], col[size_t(i)], r == i ? p.qcolnzs[pos] / 2 : p.qcolnzs[pos]);
      }
    }
    c.checkf(pos == p.qnz, "quadratic-size", what);
    Poly w = obj;
    w.erase({ -1, -1 });
    c.checkf(got == w, "objective", [&] {
      std::string s = str(log, ": objective");
      for (auto* q : { &got, &w })
      {
        s += q == &got ? " sent:" : " expected:";
        for (auto& [ij, v] : *q)
          s += str(" ", v, "*v", ij.first, "*v", ij.second);
      }
      return s;
    });
  }
  void key(Hash& h)
  {
    for (auto& v : vars)
      h.u(v.id).d(v.lb).d(v.ub);
    for (auto& q : cnts)
      for (auto& [ij, k] : q.e)
        h.u(q.t).u(ij.first + 1).u(ij.second + 1).d(k);
    for (auto& [ij, k] : obj)
      h.u(ij.first + 1).u(ij.second + 1).d(k);
  }
};
static void run(Ctx& c, World& w, int depth, const std::function<int(int)>& choose)
{
  for (int i = 0; i < depth; ++i)
  {
    int nv = int(w.vars.size()), nc = int(w.cnts.size());
    // operations: 3 add variable, 5+3 add constraint, 5 objective, 1 flush, 1 solve, then those that need something
    int fixed = 3 + 8 + 5 + 2, n = fixed + (nv ? 4 : 0) + std::min(nv, 3) + std::min(nc, 3);
    int k = choose(n);
    if (k < 0)
      return;
    if (k < 3)
      w.addVar(k);
    else if (k < 8)
      w.addCnt(k - 3, EQ);
    else if (k < 11)
      w.addCnt((k - 8) == 2 ? 3 : k - 8, INEQ);
    else if (k < 16)
      w.setObj(k - 11);
    else if (k == 16)
    {
      w.m->update();
      w.handles();
      w.log += " flush";
    }
    else if (k == 17)
      w.solve(2);
    else if (k -= fixed; nv && k < 4)
      w.setBounds(k & 1, 3 + k / 2 + (k & 1));
    else if (k -= nv ? 4 : 0; k < std::min(nv, 3))
      w.removeVar(size_t(k == 2 ? nv - 1 : k));
    else
    {
      k -= std::min(nv, 3);
      w.removeCnt(size_t(k == 2 ? nc - 1 : k));
    }
    c.transitions();
  }
}
void mc::explore(Ctx& c)
{
  auto start = [](World& w, int s) {
    if (s == 0)
      return;
    w.addVar(0), w.addVar(1), w.addVar(1);
    if (s == 2)
      w.addVar(2), w.addCnt(3, EQ), w.addCnt(1, INEQ), w.addCnt(0, INEQ), w.setObj(2);
    w.m->update();
  };
  for (int code : { 2, 1, 3, 4, 0, -1, 5 })
    c.item([=] { return str("solver code ", code); }, [=, &c] {
      wire_on = true;
      World w(c);
      start(w, 2);
      w.solve(code);
      w.solve(2);
      wire_on = false;
    });
  for (int s = 0; s < 3; ++s)
    for (int first = 0; first < 30; ++first)
      c.item([=] { return str("start ", s, ", first operation #", first); }, [=, &c] {
        wire_on = true;
        mc::Dfs d(c);
        d.run([&] {
          World w(c);
          start(w, s);
          bool head = true;
          run(c, w, c.thorough ? 5 : 4, [&](int n) {
            if (head)
            {
              head = false;
              return first < n ? first : -1;
            }
            return d.choose(n);
          });
          w.solve(2);
          c.traces();
          Hash h;
          w.key(h);
          c.state(h);
          c.outcome(h);
        });
        wire_on = false;
      });
}
