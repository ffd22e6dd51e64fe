// S06: answers of the bundled solver, through the real model wrapper and the real solver program, against exact solutions.
#include <mc/mc.hpp>
#include <common/qp_exact.hpp>
#include <trajopt_common/logging.hpp>
#include <trajopt_sco/bpmpd_interface.hpp>
#include <trajopt_sco/expr_op_overloads.hpp>
#include <trajopt_sco/expr_ops.hpp>
#include <memory>
using namespace mc;
using namespace sco;
const CheckInfo mc::info = { "S06", "exploration",
  "every QP in 1 to 3 (bounded) variables over the grids: per-variable bounds out of {[-1,1], [0,2], [1,1], [-3,0.5], [-100,100]}, objective matrices out of {none, one square, all squares, coupled, singular}, linear parts over "
  "{-1, 0, 2}, with 0, 1 or 2 (ordered) constraints of a list of equalities and inequalities including redundant, conflicting and constant ones (thorough: all pairs in 3 variables); each problem also after "
  "another one on the same model",
  { "tolerance 1e-5 relative to the size of the numbers", "the solver library itself is binary" } };

namespace
{
struct Row { std::vector<double> a; double b; bool eq; };
struct Case
{
  std::vector<std::pair<double, double>> bounds;
  Eigen::MatrixXd Q;
  std::vector<double> c;
  std::vector<Row> rows;
  std::string text() const
  {
    std::string s;
    for (auto [l, u] : bounds) s += str("[", l, ",", u, "] ");
    s += "Q=";
    for (int i = 0; i < Q.rows(); ++i) for (int j = 0; j < Q.cols(); ++j) s += str(Q(i, j), " ");
    s += "c=" + vec(c);
    for (auto& r : rows) s += str(" ", vec(r.a), r.eq ? " = " : " <= ", r.b);
    return s;
  }
};
struct Solved { CvxOptStatus st; DblVec x; };
Solved ask(const Case& k, bool reuse)
{
  size_t n = k.bounds.size();
  Model::Ptr m = std::make_shared<BPMPDModel>();
  VarVector v;
  for (size_t i = 0; i < n; ++i) v.push_back(m->addVar(str("v", i), k.bounds[i].first, k.bounds[i].second));
  m->update();
  if (reuse)   // another problem before
  {
    Cnt c0 = m->addEqCnt(exprSub(AffExpr(v[0]), k.bounds[0].first), "before");
    m->setObjective(QuadExpr(exprMult(AffExpr(v[n - 1]), 5)));
    m->update();
    m->optimize();
    m->removeCnt(c0);
    m->update();
  }
  QuadExpr q;
  for (size_t i = 0; i < n; ++i) exprInc(q, exprMult(AffExpr(v[i]), k.c[i]));
  for (size_t i = 0; i < n; ++i)
    for (size_t j = 0; j < n; ++j)
      if (k.Q(int(i), int(j)) != 0)
        q.coeffs.push_back(k.Q(int(i), int(j)) / 2), q.vars1.push_back(v[i]), q.vars2.push_back(v[j]);
  for (auto& r : k.rows)
  {
    AffExpr e(-r.b);
    for (size_t i = 0; i < n; ++i)
      if (r.a[i] != 0)
        exprInc(e, exprMult(AffExpr(v[i]), r.a[i]));
    if (r.eq) m->addEqCnt(e, "r"); else m->addIneqCnt(e, "r");
  }
  m->setObjective(q);
  m->update();
  Solved s;
  s.st = m->optimize();
  if (s.st == CVX_SOLVED) s.x = m->getVarValues(v);
  return s;
}
void judge(Ctx& c, const Case& k, bool reuse)
{
  c.transitions();
  int n = int(k.bounds.size());
  SmallQP e(n);
  e.Q = k.Q;
  for (int i = 0; i < n; ++i) e.c[i] = k.c[size_t(i)], e.range(Eigen::VectorXd::Unit(n, i), k.bounds[size_t(i)].first, k.bounds[size_t(i)].second);
  for (auto& r : k.rows)
  {
    Eigen::VectorXd a = Eigen::Map<const Eigen::VectorXd>(r.a.data(), n);
    if (a.isZero())
    {
      // 0 = b or 0 <= b
      if (r.eq ? r.b != 0 : r.b < 0)
        e.le.push_back({ Eigen::VectorXd::Unit(n, 0), -1e9 });
      continue;
    }
    if (r.eq) e.eq.push_back({ a, r.b }); else e.le.push_back({ a, r.b });
  }
  auto best = e.solve();
  auto s = ask(k, reuse);
  c.outcome(Hash().u(uint64_t(s.st)).u(best ? 1 : 0).h);
  c.count(s.st == CVX_SOLVED ? "solved" : s.st == CVX_INFEASIBLE ? "infeasible" : "failed");
  if (best) c.count("feasible");
  c.traces();
  if (s.st != CVX_SOLVED)
    return;
  c.checkf(best.has_value(), "infeasible-solved", [&] { return k.text() + " is reported solved at " + vec(s.x); });
  Eigen::VectorXd x = Eigen::Map<Eigen::VectorXd>(s.x.data(), n);
  double scale = 1 + x.norm();
  c.checkf(x.allFinite() && e.violation(x) < 1e-5 * scale, "infeasible-answer", [&] { return str(k.text(), " answer ", vec(s.x), " violates by ", e.violation(x)); });
  c.checkf(e.value(x) <= e.value(*best) + 1e-5 * (1 + std::fabs(e.value(*best))) * scale, "not-optimal", [&] {
    return str(k.text(), " answer ", vec(s.x), " value ", e.value(x), ", feasible with ", e.value(*best), " is ", vec(std::vector<double>(best->data(), best->data() + n)));
  });
}
std::vector<Eigen::MatrixXd> matrices(int n)
{
  std::vector<Eigen::MatrixXd> out;
  out.push_back(Eigen::MatrixXd::Zero(n, n));
  out.push_back(Eigen::MatrixXd::Zero(n, n));
  out.back()(n - 1, n - 1) = 2;
  out.push_back(Eigen::MatrixXd::Identity(n, n) * 2);
  if (n > 1)
  {
    Eigen::MatrixXd m = Eigen::MatrixXd::Identity(n, n) * 3;
    m(0, n - 1) = m(n - 1, 0) = -2;
    out.push_back(m);
    Eigen::VectorXd a = Eigen::VectorXd::Ones(n);
    a[0] = 2;
    out.push_back(a * a.transpose());
  }
  return out;
}
std::vector<Row> rowList(int n)
{
  std::vector<Row> l;
  auto vecn = [&](double a, double b, double z) { std::vector<double> v = { a }; if (n > 1) v.push_back(b); if (n > 2) v.push_back(z); return v; };
  l.push_back({ vecn(1, 1, 1), 1, false });
  l.push_back({ vecn(1, -1, 0), 0, true });
  l.push_back({ vecn(-1, 2, 1), -0.5, false });
  l.push_back({ vecn(2, 1, -1), 1, true });
  l.push_back({ vecn(1, 1, 1), 8, true });       // usually not to be met
  l.push_back({ vecn(-1, 0, 0), -5, false });    // usually not to be met
  l.push_back({ vecn(0, 0, 0), 1, false });      // always met
  l.push_back({ vecn(2, 2, 2), 2, false });      // the first one again
  l.push_back({ vecn(0, 0, -1), -0.25, false });
  return l;
}
}  // namespace

void mc::explore(Ctx& c)
{
  trajopt_common::gLogLevel = trajopt_common::LevelFatal;
  const std::vector<std::pair<double, double>> B = { { -1, 1 }, { 0, 2 }, { 1, 1 }, { -3, 0.5 }, { -100, 100 } };
  const std::vector<double> C = { -1, 0, 2 };
  for (int n = 1; n <= 3; ++n)
  {
    auto qs = matrices(n);
    auto rows = rowList(n);
    size_t nb = size_t(std::pow(double(B.size()), n)), nc = size_t(std::pow(3.0, n));
    for (size_t b = 0; b < nb; ++b)
    {
      if (n == 3 && !c.thorough && b % 5 != (b / 5 + 2 * (b / 25)) % 5)   // quick: the bounds of the first variable follow from the others'
        continue;
      for (size_t q = 0; q < qs.size(); ++q)
        c.item([=] { return str(n, " variables, bounds #", b, ", matrix #", q); }, [&c, n, b, q, qs, rows, B, C, nc] {
          Case k;
          for (size_t i = 0, r = b; i < size_t(n); ++i, r /= B.size()) k.bounds.push_back(B[r % B.size()]);
          k.Q = qs[q];
          for (size_t ci = 0; ci < nc; ++ci)
          {
            k.c.clear();
            for (size_t i = 0, r = ci; i < size_t(n); ++i, r /= 3) k.c.push_back(C[r % 3]);
            k.rows.clear();
            judge(c, k, false);
            for (size_t i = 0; i < rows.size(); ++i)
            {
              k.rows = { rows[i] };
              judge(c, k, ci % 2 == 0);
              if (n == 3 && !c.thorough && ci % 4 != q % 4)
                continue;
              for (size_t j = 0; j < rows.size(); ++j)
                if (i != j)
                {
                  k.rows = { rows[i], rows[j] };
                  judge(c, k, false);
                }
            }
          }
          c.state(Hash().u(uint64_t(n)).u(b).u(q).h);
        });
    }
  }
}
