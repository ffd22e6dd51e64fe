// S08: convex terms are temporary guests of a model.
#include <mc/mc.hpp>
#include <common/aux_min.hpp>
#include <trajopt_sco/bpmpd_interface.hpp>
#include <trajopt_sco/expr_op_overloads.hpp>
#include <trajopt_sco/expr_ops.hpp>
#include <trajopt_sco/modeling.hpp>
#include <Eigen/Dense>
#include <algorithm>
#include <set>
using namespace mc;
using namespace sco;
extern "C" bool wire_on;
const CheckInfo mc::info = { "S08", "model_checking",
  "every sequence of up to 5 (thorough 6) operations on up to two term objects of 7 kinds (quick; thorough 12) and the model out of {create, enter the model, leave it, destroy, flush, solve, add a user "
  "variable, add or remove a user constraint}, then destruction of what is left in either order: the problem sent afterwards is the user's own; and every pair of 12 kinds of terms at 25 points: least objective over the "
  "auxiliary variables (exact, by vertex enumeration) is the sum of the defining values, constraint violations likewise",
  { "the bundled solver's routine is a stand-in, the model wrapper is real" } };

enum { AFF, QUAD, HINGE, HINGE2, ABS, HINGES, L1, L2, MAX, MIXED, EQC, BOTH, NKIND };
static const char* NAME[] = { "affine", "quadratic", "hinge", "hinge x0.5", "absolute x2", "hinges", "L1", "L2", "maximum", "mixed", "equality", "equality and inequality" };
struct Term
{
  int kind;
  std::shared_ptr<ConvexObjective> obj;
  std::shared_ptr<ConvexConstraints> cnt;
  int entered = 0;
  bool left = false;
};
struct World
{
  Ctx& c;
  std::shared_ptr<BPMPDModel> m = std::make_shared<BPMPDModel>();
  VarVector u;
  std::vector<std::pair<double, double>> ub;
  std::vector<std::pair<Cnt, wire::Row>> own;     // user constraints, row by user variable number
  std::vector<std::unique_ptr<Term>> t;
  std::string log;
  World(Ctx& c) : c(c), t(2)
  {
    addVar(), addVar();
    addCnt(0), addCnt(1);
    m->update();
    log.clear();
  }
  void addVar()
  {
    double lb = -1000 - double(u.size());
    u.push_back(static_cast<Model&>(*m).addVar(str("u", u.size()), lb, 1000));
    ub.push_back({ lb, 1000 });
    log += " +u";
  }
  void addCnt(int type)
  {
    AffExpr e = 2.0 * u[0] - u[1] + double(own.size());
    double k = double(own.size());
    own.emplace_back(type == 0 ? m->addEqCnt(e, "") : m->addIneqCnt(e, ""), wire::Row{ { { 0, 2.0 }, { 1, -1.0 } }, type == 0 ? -k : -INFINITY, -k });
    log += " +c";
  }
  AffExpr e(int i) const
  {
    switch (i)
    {
      case 0: return 2.0 * u[0] - u[1] + 1.0;
      case 1: return -u[0] + 0.5;
      case 2: return AffExpr(1.5);
      default: return (3.0 * u[1] - 2.0) + u[0] - u[0];
    }
  }
  static double ev(int i, double x, double y) { return i == 0 ? 2 * x - y + 1 : i == 1 ? -x + 0.5 : i == 2 ? 1.5 : 3 * y - 2; }
  void create(int s, int kind)
  {
    auto p = std::make_unique<Term>();
    p->kind = kind;
    if (kind >= EQC)
    {
      p->cnt = std::make_shared<ConvexConstraints>(m.get());
      p->cnt->addEqCnt(e(0));
      if (kind == BOTH)
        p->cnt->addIneqCnt(e(3)), p->cnt->addIneqCnt(e(1)), p->cnt->addEqCnt(e(2));
    }
    else
    {
      p->obj = std::make_shared<ConvexObjective>(m.get());
      ConvexObjective& o = *p->obj;
      switch (kind)
      {
        case AFF: o.addAffExpr(e(0)), o.addAffExpr(e(3)); break;
        case QUAD: o.addQuadExpr(exprSquare(e(0))), o.addQuadExpr(exprMult(e(1), e(1))); break;
        case HINGE: o.addHinge(e(0), 1); break;
        case HINGE2: o.addHinge(e(3), 0.5), o.addHinge(e(2), 3), o.addHinge(e(1), 0); break;
        case ABS: o.addAbs(e(1), 2), o.addAbs(e(2), 1); break;
        case HINGES: o.addHinges({ e(0), e(1), e(2), e(3) }); break;
        case L1: o.addL1Norm({ e(0), e(1), e(3) }); break;
        case L2: o.addL2Norm({ e(0), e(1), e(2) }); break;
        case MAX: o.addMax({ e(0), e(1), e(2), e(3) }); break;
        case MIXED: o.addAbs(e(0), 1), o.addMax({ e(1), e(3) }), o.addL2Norm({ e(1) }), o.addHinge(e(3), 2), o.addAffExpr(e(1)), o.addMax({ e(0) }); break;
        default: break;
      }
    }
    t[size_t(s)] = std::move(p);
    log += str(" ", char('A' + s), "=", NAME[kind]);
  }
  static double defining(int kind, double x, double y)
  {
    auto v = [&](int i) { return ev(i, x, y); };
    auto h = [&](int i) { return std::max(0.0, v(i)); };
    auto a = [&](int i) { return std::fabs(v(i)); };
    auto q = [&](int i) { return v(i) * v(i); };
    switch (kind)
    {
      case AFF: return v(0) + v(3);
      case QUAD: return q(0) + q(1);
      case HINGE: return h(0);
      case HINGE2: return 0.5 * h(3) + 3 * h(2);
      case ABS: return 2 * a(1) + a(2);
      case HINGES: return h(0) + h(1) + h(2) + h(3);
      case L1: return a(0) + a(1) + a(3);
      case L2: return q(0) + q(1) + q(2);
      case MAX: return std::max({ v(0), v(1), v(2), v(3) });
      case MIXED: return a(0) + std::max(v(1), v(3)) + q(1) + 2 * h(3) + v(1) + v(0);
      default: return 0;
    }
  }
  void enter(int s)
  {
    Term& x = *t[size_t(s)];
    ++x.entered;
    x.obj ? x.obj->addConstraintsToModel() : x.cnt->addConstraintsToModel();
    log += str(" enter ", char('A' + s));
  }
  void leave(int s)
  {
    Term& x = *t[size_t(s)];
    x.left = true;
    x.obj ? x.obj->removeFromModel() : x.cnt->removeFromModel();
    log += str(" leave ", char('A' + s));
  }
  void destroy(int s)
  {
    t[size_t(s)].reset();
    log += str(" destroy ", char('A' + s));
  }
  // solve with the objective of the terms in the model; returns the decoded problem and the model's variables
  wire::Decoded solve(std::vector<int>& user, double& constant)
  {
    QuadExpr q(3.0 * u[0] + u[1]);
    for (auto& x : t)
      if (x && x->obj && x->entered && !x->left)
        exprInc(q, x->obj->quad_);
    m->setObjective(q);
    constant = q.affexpr.constant;
    wire::Decoded d;
    bool called = false;
    wire::solver = [&](wire::Problem& p) {
      d = wire::decode(p);
      called = true;
      for (int i = 0; i < p.n; ++i)
        p.primal[i] = i;
      *p.code = 2;
    };
    m->optimize();
    c.transitions();
    c.checkf(called, "not-sent", [&] { return log; });
    user.clear();
    for (size_t k = 0; k < u.size(); ++k)
    {
      int at = -1;
      for (int i = 0; i < d.n(); ++i)
        if (d.lb[size_t(i)] == ub[k].first && d.ub[size_t(i)] == ub[k].second)
          at = i;
      c.checkf(at >= 0, "user-variable", [&] { return str(log, ": user variable ", k, " is gone or its bounds changed"); });
      user.push_back(at);
      c.checkf(static_cast<Model&>(*m).getVarValue(u[k]) == at, "user-handle", [&] { return str(log, ": user variable ", k); });
    }
    return d;
  }
  // what is sent when no term is left: exactly the user's model
  void pristine()
  {
    std::vector<int> user;
    double k0;
    auto d = solve(user, k0);
    c.checkf(d.n() == int(u.size()), "left-over-variable", [&] { return str(log, ": ", d.n(), " variables for ", u.size()); });
    c.checkf(d.rows.size() == own.size(), "left-over-constraint", [&] { return str(log, ": ", d.rows.size(), " constraints for ", own.size()); });
    c.checkf(d.q.empty() && d.c[size_t(user[0])] == 3 && d.c[size_t(user[1])] == 1, "left-over-objective", [&] { return log; });
    std::vector<bool> used(d.rows.size());
    for (auto& [h, w] : own)
    {
      bool ok = false;
      for (size_t r = 0; r < d.rows.size() && !ok; ++r)
      {
        std::map<int, double> a;
        for (auto& [k, v] : w.a)
          a[user[size_t(k)]] = v;
        if (!used[r] && d.rows[r].a == a && d.rows[r].lo == w.lo && d.rows[r].hi == w.hi)
          ok = used[r] = true;
      }
      c.checkf(ok, "user-constraint", [&] { return str(log, ": a constraint of the user changed"); });
    }
    c.checkf(m->getVars().size() == u.size(), "left-over-variable", [&] { return log; });
    c.outcome(Hash().u(u.size()).u(own.size()));
  }
  // least objective over the variables that are not the user's, at user point x
  double least(const wire::Decoded& d, const std::vector<int>& user, const std::vector<double>& ux, std::vector<double>& full)
  {
    try { return wire::least(d, user, ux, full); }
    catch (const std::runtime_error& e) { c.fail("auxiliary", str(log, ": ", e.what(), " at ", vec(Eigen::Map<const Eigen::VectorXd>(ux.data(), long(ux.size()))))); }
  }
  void meaning()
  {
    std::vector<int> user;
    double k0;
    auto d = solve(user, k0);
    for (double x : { -1.5, -0.25, 0.0, 0.5, 2.0 })
      for (double y : { -2.0, 0.0, 2.0 / 3, 1.0, 3.0 })
      {
        std::vector<double> ux(u.size(), 0.25), full;
        ux[0] = x, ux[1] = y;
        double got = least(d, user, ux, full) + k0, want = 3 * x + y;
        DblVec byIndex(full.begin(), full.end());
        for (auto& p : t)
          if (p && p->entered && !p->left)
          {
            double w = defining(p->kind, x, y);
            want += w;
            if (p->obj)
            {
              double v = p->obj->value(byIndex);
              c.checkf(near(v, w, 1e-8), "term-value", [&] { return str(log, ": value ", v, " of ", NAME[p->kind], " at ", x, ",", y, ", expected ", w); });
            }
            else
            {
              DblVec viol = p->cnt->violations(byIndex), wv = { std::fabs(ev(0, x, y)) };
              if (p->kind == BOTH)
                wv = { std::fabs(ev(0, x, y)), std::fabs(ev(2, x, y)), std::max(0.0, ev(3, x, y)), std::max(0.0, ev(1, x, y)) };
              auto sorted = [](DblVec a) { std::sort(a.begin(), a.end()); return a; };
              DblVec a = sorted(viol), b = sorted(wv);
              double total = 0;
              for (size_t i = 0; i < b.size(); ++i)
              {
                total += b[i];
                c.checkf(a.size() == b.size() && near(a[i], b[i], 1e-12), "violation", [&] { return str(log, ": violations at ", x, ",", y); });
              }
              c.checkf(near(p->cnt->violation(byIndex), total, 1e-12), "violation", [&] { return str(log, ": total violation at ", x, ",", y); });
              // the model enforces the constraint: some row is violated by exactly as much
              double worst = 0;
              for (auto& r : d.rows)
              {
                double s = 0;
                for (auto& [j, k] : r.a)
                  s += k * full[size_t(j)];
                worst = std::max({ worst, s - r.hi, r.lo - s });
              }
              c.checkf(worst >= *std::max_element(wv.begin(), wv.end()) - 1e-9, "constraint-not-in-model", [&] { return str(log, ": at ", x, ",", y); });
            }
          }
        c.checkf(near(got, want, 1e-8), "least-objective", [&] { return str(log, ": least objective ", got, " at ", x, ",", y, ", expected ", want); });
        c.traces();
      }
  }
};
void mc::explore(Ctx& c)
{
  for (int a = 0; a < NKIND; ++a)
    for (int b = -1; b < NKIND; ++b)
      c.item([=] { return str("meaning of ", NAME[a], " and ", b < 0 ? "nothing" : NAME[b]); }, [=, &c] {
        wire_on = true;
        for (int order = 0; order < 4; ++order)
        {
          World w(c);
          w.create(0, a);
          if (b >= 0)
            w.create(1, b);
          if (order & 1)
            w.addVar();               // user variables may come after the auxiliary ones
          w.enter(0);
          if (b >= 0)
            w.enter(1);
          w.meaning();
          w.destroy(order / 2);
          if (w.t[0] || w.t[1])
            w.meaning();
          w.destroy(1 - order / 2);
          w.pristine();
          c.state(Hash().u(a).u(b + 1).u(order));
        }
        wire_on = false;
      });
  std::vector<int> kinds = { HINGE2, ABS, MAX, MIXED, BOTH, L2, EQC };
  if (c.thorough)
    for (int k : { AFF, QUAD, HINGE, HINGES, L1 })
      kinds.push_back(k);
  for (int first = 0; first < int(kinds.size()); ++first)
    for (int second = 0; second < int(kinds.size()) + 8; ++second)
      c.item([=] { return str("lifetimes starting with ", NAME[kinds[size_t(first)]], ", second operation #", second); }, [=, &c] {
        wire_on = true;
        mc::Dfs d(c);
        d.run([&] {
          World w(c);
          w.create(0, kinds[size_t(first)]);
          std::vector<int> path;
          for (int step = 1; step < (c.thorough ? 6 : 5); ++step)
          {
            std::vector<std::function<void()>> ops;
            ops.push_back([&] { w.m->update(), w.log += " flush"; });
            ops.push_back([&] { w.meaning(); });
            ops.push_back([&] { w.addVar(); });
            ops.push_back([&] { w.addCnt(1); });
            if (!w.own.empty())
              ops.push_back([&] { static_cast<Model&>(*w.m).removeCnt(w.own[0].first), w.own.erase(w.own.begin()), w.log += " -c"; });
            for (int s = 0; s < 2; ++s)
              if (w.t[size_t(s)])
              {
                if (!w.t[size_t(s)]->left)
                {
                  if (w.t[size_t(s)]->entered == 0)
                    ops.push_back([&, s] { w.enter(s); });
                  ops.push_back([&, s] { w.leave(s); });
                }
                ops.push_back([&, s] { w.destroy(s); });
              }
              else
                for (int k : kinds)
                  ops.push_back([&, s, k] { w.create(s, k); });
            int k = step == 1 ? second : d.choose(int(ops.size()));
            if (k >= int(ops.size()))
              return;
            path.push_back(k);
            ops[size_t(k)]();
            c.transitions();
          }
          int last = w.t[0] && w.t[1] ? d.choose(2) : 0;
          w.destroy(last), w.destroy(1 - last);
          w.pristine();
          c.traces();
          Hash h;
          for (int k : path)
            h.u(k);
          c.state(h.u(first).u(last));
        });
        wire_on = false;
      });
}
