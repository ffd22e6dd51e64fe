// S13: the problem qpOASES is asked to solve is the model as edited, and a failed hot start is made up for.
#include <common/model_history.hpp>
#include <trajopt_sco/qpoases_interface.hpp>
#include <iostream>
using namespace mh;
namespace qp = qpOASES;
const CheckInfo mc::info = { "S13", "model_checking",
  "every sequence of up to 3 (thorough 4) operations out of {add a variable; remove one or two; add a constraint of 5 shapes; remove or replace a constraint; change bounds; set an objective of 7 shapes; flush; "
  "solve} from three models, each solved before and twice after; and every sequence of 3 (thorough 4) solves out of 14 library behaviours (endings of the hot start and of the initialisation, each using up "
  "few, many or all of the working set changes allowed) with 6 edits between them",
  { "the library is a stand-in with qpOASES' interface: the number of working set changes is a limit on entry and the number performed on return", "expressions never refer to a variable that was removed" } };
namespace
{
struct Behaviour
{
  const char* name;
  qp::returnValue hot;
  int hotUsed;  // changes the failed hot start performed; -1: all
  qp::returnValue cold;
  CvxOptStatus want;  // if the hot start fails or there is none
};
const Behaviour behaviours[] = {
  { "", qp::SUCCESSFUL_RETURN, 3, qp::SUCCESSFUL_RETURN, CVX_SOLVED },
  { "(hot start infeasible at once)", qp::RET_HOTSTART_STOPPED_INFEASIBILITY, 0, qp::SUCCESSFUL_RETURN, CVX_SOLVED },
  { "(hot start infeasible)", qp::RET_HOTSTART_STOPPED_INFEASIBILITY, 7, qp::SUCCESSFUL_RETURN, CVX_SOLVED },
  { "(hot start unbounded)", qp::RET_HOTSTART_STOPPED_UNBOUNDEDNESS, 1, qp::SUCCESSFUL_RETURN, CVX_SOLVED },
  { "(hot start failed)", qp::RET_HOTSTART_FAILED, 250, qp::SUCCESSFUL_RETURN, CVX_SOLVED },
  { "(hot start out of changes)", qp::RET_MAX_NWSR_REACHED, -1, qp::SUCCESSFUL_RETURN, CVX_SOLVED },
  { "(infeasible)", qp::RET_HOTSTART_STOPPED_INFEASIBILITY, 2, qp::RET_INIT_FAILED_INFEASIBILITY, CVX_INFEASIBLE },
  { "(infeasible at once)", qp::RET_HOTSTART_STOPPED_INFEASIBILITY, 0, qp::RET_INIT_FAILED_INFEASIBILITY, CVX_INFEASIBLE },
  { "(unbounded)", qp::RET_HOTSTART_STOPPED_UNBOUNDEDNESS, 2, qp::RET_INIT_FAILED_UNBOUNDEDNESS, CVX_FAILED },
  { "(fails)", qp::RET_HOTSTART_FAILED, 2, qp::RET_INIT_FAILED, CVX_FAILED },
  { "(out of changes)", qp::RET_MAX_NWSR_REACHED, -1, qp::RET_MAX_NWSR_REACHED, CVX_FAILED },
  { "(cold start infeasible, hot fine)", qp::SUCCESSFUL_RETURN, 3, qp::RET_INIT_FAILED_INFEASIBILITY, CVX_INFEASIBLE },
};
struct Q : World
{
  const Behaviour* now = nullptr;
  bool hotFine = false;
  int cold = 0, hot = 0;
  Q(Ctx& c) : World(c, std::make_shared<qpOASESModel>(), false)
  {
    qp::library().misuse = [this, &c](const std::string& s) { c.fail("library-misuse", log + ": " + s); };
    qp::library().solve = [this](qp::Library::Call call, const qp::SymSparseMat& H, const double* g, const qp::SparseMatrix& A, const double* lb, const double* ub, const double* lbA, const double* ubA, int& nWSR, std::vector<double>& x) {
      Sent s;
      const int n = H.nCols;
      auto inf = [](double v) { return v >= qp::INFTY ? INF : v <= -qp::INFTY ? -INF : v; };
      for (int k = 0; k < n; ++k)
        s.lb.push_back(inf(lb[k])), s.ub.push_back(inf(ub[k]));
      auto bad = [this](const char* w) { this->c.fail("library-misuse", log + ": " + w); };
      auto each = [&](const qp::SparseMatrix& m, auto f) {
        if (m.jc[0] != 0)
          bad("a column does not start at 0");
        for (int k = 0; k < m.nCols; ++k)
          for (int e = m.jc[k]; e < m.jc[k + 1]; ++e)
          {
            if (m.ir[e] < 0 || m.ir[e] >= m.nRows || (e > m.jc[k] && m.ir[e] <= m.ir[e - 1]))
              bad("rows of a column are not in order or out of range");
            f(m.ir[e], k, m.val[e]);
          }
      };
      s.rows.resize(size_t(A.nRows));
      each(A, [&](int i, int k, double v) { s.rows[size_t(i)].a[k] += v; });
      for (int i = 0; i < A.nRows; ++i)
        s.rows[size_t(i)].lo = inf(lbA[i]), s.rows[size_t(i)].hi = inf(ubA[i]);
      std::map<std::pair<int, int>, double> h;
      each(H, [&](int i, int k, double v) { h[{ i, k }] += v; });
      for (auto& [ik, v] : h)
      {
        auto o = h.find({ ik.second, ik.first });
        if ((o == h.end() ? 0 : o->second) != v)
          bad("the Hessian is not symmetric");
        put(s.obj, ik.first, ik.second, v / 2);
      }
      for (int k = 0; k < n; ++k)
        if (g[k] != 0)
          put(s.obj, -1, k, g[k]);
      x = judge(s);
      const bool isHot = call == qp::Library::Hotstart;
      ++(isHot ? hot : cold);
      const qp::returnValue r = isHot ? now->hot : now->cold;
      const int need = 40;  // changes a solve from scratch needs
      if (!isHot)
      {
        const int limit = nWSR;
        if (r == qp::RET_MAX_NWSR_REACHED)
          return r;
        if (limit < need)
          return qp::RET_MAX_NWSR_REACHED;
        nWSR = need;
        return r;
      }
      hotFine = r == qp::SUCCESSFUL_RETURN;
      nWSR = now->hotUsed < 0 ? nWSR : now->hotUsed;
      return r;
    };
  }
  void solve(int b = 0)
  {
    now = &behaviours[b];
    hotFine = false;
    hot = cold = 0;
    // how it has to end depends on whether the model could hot start, which the stand-in sees
    log += str(" solve", now->name);
    CvxOptStatus st = m->optimize();
    ++solves;
    c.transitions();
    const CvxOptStatus want = hotFine ? CVX_SOLVED : now->want;
    c.checkf(hot + cold > 0, "solver-calls", [&] { return log + ": the library is not asked"; });
    c.checkf(hotFine || cold == 1, "solver-calls", [&] { return str(log, ": ", cold, " initialisations after the hot start failed"); });
    c.checkf(st == want, "status", [&] { return str(log, ": reported as ", int(st), " instead of ", int(want)); });
    if (st == CVX_SOLVED)
    {
      VarVector all;
      for (auto& v : vars) all.push_back(v.v);
      DblVec vs = m->getVarValues(all);
      for (size_t i = 0; i < vars.size(); ++i)
        c.checkf(vs.size() == vars.size() && vs[i] == answer[vars[i].id] && m->getVarValue(vars[i].v) == vs[i], "attribution",
                 [&] { return str(log, ": v", vars[i].id, " is ", vs[i], ", the solver said ", answer[vars[i].id]); });
    }
    handles();
    c.checkf(qp::library().live == 1, "solver-leaked", [&] { return str(log, ": ", qp::library().live, " problems"); });
    c.outcome(Hash().u(st).u(hot).u(cold).u(uint64_t(b)).h);
  }
  void finish()
  {
    Hash h;
    key(h);
    c.state(h);
    vars.clear(), cnts.clear();
    m.reset();
    c.checkf(qp::library().live == 0, "solver-leaked", [&] { return log + ": a problem is never released"; });
    c.traces();
  }
};
void small(Q& w, int k)
{
  switch (k)
  {
    case 0: return;
    case 1: return w.setBounds(true, 4);
    case 2: return w.setObj(2);
    case 3: return w.addCnt(3, INEQ);
    case 4: if (!w.cnts.empty()) { w.removeCnt(w.cnts.size() - 1), w.addCnt(11, INEQ); } return;
    case 5: if (w.vars.size() > 1) w.removeVar(0); return;
  }
}
}  // namespace
void mc::explore(Ctx& c)
{
  for (int s = 0; s < 3; ++s)
    for (int first = 0; first < 28; ++first)
      c.item([=] { return str("start ", s, ", first operation #", first); }, [=, &c] {
        Dfs d(c);
        d.run([&] {
          Q w(c);
          start(w, s);
          w.solve();
          auto edit = [&](int k) {
            auto ops = edits(w, [&] { w.solve(); });
            if (k >= int(ops.size()))
              return false;
            ops[k < 0 ? size_t(d.choose(int(ops.size()))) : size_t(k)]();
            c.transitions();
            return true;
          };
          if (!edit(first))
            return w.finish();
          for (int i = 1; i < (c.thorough ? 4 : 3); ++i)
            edit(-1);
          w.solve();
          w.solve();
          w.finish();
        });
      });
  for (int s = 0; s < 3; ++s)
    for (int first = 0; first < int(std::size(behaviours)); ++first)
      c.item([=] { return str("start ", s, ", first answer ", behaviours[first].name); }, [=, &c] {
        Dfs d(c);
        d.run([&] {
          Q w(c);
          start(w, s);
          w.solve(first);
          for (int i = 1; i < (c.thorough ? 4 : 3); ++i)
          {
            small(w, d.choose(6));
            w.solve(d.choose(int(std::size(behaviours))));
          }
          w.finish();
        });
      });
}
