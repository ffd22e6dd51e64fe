// S07: convex models of user functions.
#include <mc/mc.hpp>
#include <common/aux_min.hpp>
#include <trajopt_sco/bpmpd_interface.hpp>
#include <trajopt_sco/expr_ops.hpp>
#include <trajopt_sco/modeling.hpp>
#include <trajopt_sco/modeling_utils.hpp>
#include <trajopt_sco/num_diff.hpp>
using namespace mc;
using namespace sco;
extern "C" bool wire_on;
const CheckInfo mc::info = { "S07", "exploration",
  "11 error functions (linear, tiny, constant, product, trigonometric; 1 to 3 inputs, 1 to 3 outputs) x {numerical, analytic} derivatives x {squared, absolute, hinge} costs, equality and inequality constraints x "
  "all weightings over {none, 0, 0.5, 3} (constraints also -2) x every ordered selection of problem variables x a grid of expansion points; scalar functions with diagonal and full Hessian; values, directional "
  "behaviour in all coordinate and diagonal directions, convexity; linear functions compared at every pair of grid points",
  { "costs have non-negative weights", "behaviour near the expansion point is judged at distance 1e-4, with tolerance for finite differences and dropped coefficients below 1e-7" } };

struct Fn
{
  const char* name;
  int n, m;
  bool linear;
  std::function<Eigen::VectorXd(const Eigen::VectorXd&)> f;
  std::function<Eigen::MatrixXd(const Eigen::VectorXd&)> J;
};
using V = Eigen::VectorXd;
using M = Eigen::MatrixXd;
static V v(std::initializer_list<double> l) { return Eigen::Map<const V>(l.begin(), long(l.size())); }
static M mat(int r, int n, std::initializer_list<double> l) { return Eigen::Map<const Eigen::Matrix<double, -1, -1, Eigen::RowMajor>>(l.begin(), r, n); }
static const std::vector<Fn>& functions()
{
  static const std::vector<Fn> F = {
    { "2a-3b+0.5", 2, 1, true, [](const V& x) { return v({ 2 * x[0] - 3 * x[1] + 0.5 }); }, [](const V&) { return mat(1, 2, { 2, -3 }); } },
    { "a+b, 0.25-a", 2, 2, true, [](const V& x) { return v({ x[0] + x[1], 0.25 - x[0] }); }, [](const V&) { return mat(2, 2, { 1, 1, -1, 0 }); } },
    { "1.5, 1e-8a+b", 2, 2, true, [](const V& x) { return v({ 1.5, 1e-8 * x[0] + x[1] }); }, [](const V&) { return mat(2, 2, { 0, 0, 1e-8, 1 }); } },
    { "a", 1, 1, true, [](const V& x) { return v({ x[0] }); }, [](const V&) { return mat(1, 1, { 1 }); } },
    { "a, -2a, 3a-1", 1, 3, true, [](const V& x) { return v({ x[0], -2 * x[0], 3 * x[0] - 1 }); }, [](const V&) { return mat(3, 1, { 1, -2, 3 }); } },
    { "a+2b-c, c-0.3", 3, 2, true, [](const V& x) { return v({ x[0] + 2 * x[1] - x[2], x[2] - 0.3 }); }, [](const V&) { return mat(2, 3, { 1, 2, -1, 0, 0, 1 }); } },
    { "a^2-b", 2, 1, false, [](const V& x) { return v({ x[0] * x[0] - x[1] }); }, [](const V& x) { return mat(1, 2, { 2 * x[0], -1 }); } },
    { "ab, sin a-b", 2, 2, false, [](const V& x) { return v({ x[0] * x[1], std::sin(x[0]) - x[1] }); }, [](const V& x) { return mat(2, 2, { x[1], x[0], std::cos(x[0]), -1 }); } },
    { "abc, a-b^2, cos c", 3, 3, false, [](const V& x) { return v({ x[0] * x[1] * x[2], x[0] - x[1] * x[1], std::cos(x[2]) }); },
      [](const V& x) { return mat(3, 3, { x[1] * x[2], x[0] * x[2], x[0] * x[1], 1, -2 * x[1], 0, 0, 0, -std::sin(x[2]) }); } },
    { "exp a", 1, 1, false, [](const V& x) { return v({ std::exp(x[0]) - 1 }); }, [](const V& x) { return mat(1, 1, { std::exp(x[0]) }); } },
    { "a^3, a^2", 1, 2, false, [](const V& x) { return v({ x[0] * x[0] * x[0], x[0] * x[0] }); }, [](const V& x) { return mat(2, 1, { 3 * x[0] * x[0], 2 * x[0] }); } },
  };
  return F;
}
static const int NX = 4;       // problem variables
struct World
{
  Ctx& c;
  std::shared_ptr<BPMPDModel> m = std::make_shared<BPMPDModel>();
  VarVector x;
  World(Ctx& c) : c(c)
  {
    for (int i = 0; i < NX; ++i)
      x.push_back(static_cast<Model&>(*m).addVar("x", -1000 - i, 1000));
    m->update();
  }
  // the convex model's least objective as a function of the problem variables
  std::function<double(const DblVec&)> model(ConvexObjective& o)
  {
    o.addConstraintsToModel();
    m->setObjective(o.quad_);
    wire::Decoded d;
    wire::solver = [&](wire::Problem& p) { d = wire::decode(p), *p.code = 2; };
    m->optimize();
    std::vector<int> user;
    for (int k = 0; k < NX; ++k)
      for (int i = 0; i < d.n(); ++i)
        if (d.lb[size_t(i)] == -1000 - k)
          user.push_back(i);
    c.checkf(int(user.size()) == NX, "user-variables", [] { return std::string("problem variables"); });
    double k = o.quad_.affexpr.constant;
    return [=](const DblVec& at) {
      std::vector<double> full;
      return wire::least(d, user, at, full) + k;
    };
  }
};
// ordered selections of n of the problem variables
static std::vector<std::vector<int>> selections(int n)
{
  std::vector<std::vector<int>> r = { {} };
  for (int k = 0; k < n; ++k)
  {
    std::vector<std::vector<int>> s;
    for (auto& a : r)
      for (int i = 0; i < NX; ++i)
        if (std::find(a.begin(), a.end(), i) == a.end())
          s.push_back(a), s.back().push_back(i);
    r = s;
  }
  return r;
}
static DblVec full(const std::vector<int>& sel, const V& a)
{
  DblVec r = { 11, -13, 17, -19 };
  for (size_t i = 0; i < sel.size(); ++i)
    r[size_t(sel[i])] = a[long(i)];
  return r;
}
static std::vector<V> grid(int n, bool fine)
{
  std::vector<double> g = fine ? std::vector<double>{ -1.5, -0.25, 0, 0.3, 2 } : std::vector<double>{ -1, 0, 0.25, 2 };
  if (n == 3 && !fine)
    g = { -1, 0, 2 };
  std::vector<V> r = { V(0) };
  for (int k = 0; k < n; ++k)
  {
    std::vector<V> s;
    for (auto& a : r)
      for (double x : g)
      {
        V b(a.size() + 1);
        b << a, x;
        s.push_back(b);
      }
    r = s;
  }
  return r;
}
static std::vector<V> directions(int n)
{
  std::vector<V> r;
  for (int i = 0; i < n; ++i)
    r.push_back(V::Unit(n, i)), r.push_back(-V::Unit(n, i));
  r.push_back(V::Ones(n)), r.push_back(-V::Ones(n));
  V a(n);
  for (int i = 0; i < n; ++i)
    a[i] = i % 2 ? -1 : 0.5;
  r.push_back(a);
  return r;
}
static std::vector<V> weightings(int m, const std::vector<double>& w)
{
  std::vector<V> r = { V(0) }, s = { V(0) };
  for (int k = 0; k < m; ++k)
  {
    std::vector<V> t;
    for (auto& a : s)
      for (double x : w)
      {
        V b(a.size() + 1);
        b << a, x;
        t.push_back(b);
      }
    s = t;
  }
  r.insert(r.end(), s.begin(), s.end());
  return r;
}
static double penal(const V& e, const V& w, int pen)
{
  double s = 0;
  for (long i = 0; i < e.size(); ++i)
    s += (w.size() ? w[i] : 1) * (pen == SQUARED ? e[i] * e[i] : pen == ABS ? std::fabs(e[i]) : std::max(0.0, e[i]));
  return s;
}
static const double H = 1e-4;
static void judgeCost(Ctx& c, World& w, Cost& cost, const std::vector<int>& sel, const std::vector<V>& at, const std::function<double(const V&)>& exact, bool linear, double linTol,
                      const std::function<std::string()>& what)
{
  int n = int(sel.size());
  VarVector vs = cost.getVars();
  for (int i = 0; i < n; ++i)
    c.checkf(int(vs.size()) == n && vs[size_t(i)].var_rep == w.x[size_t(sel[size_t(i)])].var_rep, "variables", what);
  for (auto& a : at)
  {
    double e0 = exact(a), got = cost.value(full(sel, a));
    c.checkf(near(got, e0, 1e-12), "value", [&] { return str(what(), ": value at ", vec(a), " is ", got, ", expected ", e0); });
    auto o = cost.convex(full(sel, a), w.m.get());
    auto model = w.model(*o);
    double m0 = model(full(sel, a));
    c.checkf(near(m0, e0, 1e-6), "model-value", [&] { return str(what(), ": model at its expansion point ", vec(a), " is ", m0, ", exact ", e0); });
    for (auto& d : directions(n))
    {
      V b = a + H * d;
      double mb = model(full(sel, b)), eb = exact(b);
      c.checkf(std::fabs(mb - eb) <= 3e-6 * (1 + std::fabs(e0)), "slope",
               [&] { return str(what(), ": around ", vec(a), " in direction ", vec(d), " the model changes by ", mb - m0, ", the exact function by ", eb - e0); });
    }
    if (linear)
      for (auto& b : at)
      {
        double mb = model(full(sel, b)), eb = exact(b);
        c.checkf(near(mb, eb, linTol), "linear-everywhere", [&] { return str(what(), ": model around ", vec(a), " is ", mb, " at ", vec(b), ", exact ", eb); });
      }
    c.transitions(2);
    c.outcome(Hash().d(std::round(m0 * 1e6)));
  }
}
void mc::explore(Ctx& c)
{
  auto& F = functions();
  for (size_t k = 0; k < F.size(); ++k)
    for (int analytic = 0; analytic < 2; ++analytic)
      for (size_t s = 0; s < selections(F[k].n).size(); ++s)
        c.item([=] { return str(functions()[k].name, analytic ? ", analytic" : ", numerical", " derivatives, selection #", s); }, [=, &c] {
          wire_on = true;
          const Fn& f = functions()[k];
          auto sel = selections(f.n)[s];
          World w(c);
          VarVector vars;
          for (int i : sel)
            vars.push_back(w.x[size_t(i)]);
          auto fv = VectorOfVector::construct(f.f);
          auto fj = MatrixOfVector::construct(f.J);
          auto at = grid(f.n, c.thorough);
          bool main = s == 0 || s + 1 == selections(f.n).size() || c.thorough;
          auto what = [&](const char* kind, const V& wt) { return [=] { return str(kind, " of ", f.name, " with weights ", vec(wt), ", variables ", vec(Eigen::Map<const Eigen::VectorXi>(sel.data(), long(sel.size())).cast<double>())); }; };
          // extraction of values
          for (auto& a : at)
          {
            DblVec x = full(sel, a);
            c.checkf(getVec(x, vars) == a && Eigen::Map<const V>(getDblVec(x, vars).data(), a.size()) == a, "extraction", [&] { return str(f.name); });
          }
          for (auto& wt : weightings(f.m, main ? std::vector<double>{ 0, 0.5, 3 } : std::vector<double>{ 3 }))
            for (int pen : { int(SQUARED), int(ABS), int(HINGE) })
            {
              auto cost = analytic ? CostFromErrFunc(fv, fj, vars, wt, PenaltyType(pen), "c") : CostFromErrFunc(fv, vars, wt, PenaltyType(pen), "c");
              judgeCost(c, w, cost, sel, at, [&](const V& a) { return penal(f.f(a), wt, pen); }, f.linear, 1e-6, what(pen == SQUARED ? "square" : pen == ABS ? "absolute value" : "hinge", wt));
              c.state(Hash().u(k).u(analytic).u(s).raw(wt.data(), size_t(wt.size()) * 8).u(pen));
              c.traces(at.size());
            }
          for (auto& wt : weightings(f.m, main ? std::vector<double>{ 0, 0.5, -2 } : std::vector<double>{ -2 }))
            for (ConstraintType type : { EQ, INEQ })
            {
              auto cnt = analytic ? ConstraintFromErrFunc(fv, fj, vars, wt, type, "c") : ConstraintFromErrFunc(fv, vars, wt, type, "c");
              auto wh = what(type == EQ ? "equality" : "inequality", wt);
              auto violations = [&](const V& a, double& total) {
                V e = f.f(a);
                if (wt.size())
                  e.array() *= wt.array();
                total = 0;
                for (long i = 0; i < e.size(); ++i)
                  total += type == EQ ? std::fabs(e[i]) : std::max(0.0, e[i]);
                return e;
              };
              c.checkf(cnt.type() == type, "type", wh);
              for (auto& a : at)
              {
                double total;
                V e = violations(a, total);
                DblVec val = cnt.value(full(sel, a));
                for (long i = 0; i < e.size(); ++i)
                  c.checkf(val.size() == size_t(e.size()) && near(val[size_t(i)], e[i], 1e-12), "constraint-value", [&] { return str(wh(), " at ", vec(a)); });
                c.checkf(near(cnt.violation(full(sel, a)), total, 1e-12), "constraint-violation", [&] { return str(wh(), " at ", vec(a), " is ", cnt.violation(full(sel, a)), ", expected ", total); });
                auto o = cnt.convex(full(sel, a), w.m.get());
                c.checkf(type == EQ ? o->ineqs_.empty() : o->eqs_.empty(), "constraint-kind", wh);
                double got = o->violation(full(sel, a));
                c.checkf(near(got, total, 1e-6), "constraint-model-value", [&] { return str(wh(), ": model violation at ", vec(a), " is ", got, ", exact ", total); });
                for (auto& d : directions(f.n))
                {
                  double tb;
                  violations(a + H * d, tb);
                  double mb = o->violation(full(sel, a + H * d));
                  c.checkf(std::fabs(mb - tb) <= 3e-6 * (1 + total), "constraint-slope", [&] { return str(wh(), ": around ", vec(a), " in direction ", vec(d), " the model is violated by ", mb, ", the constraint by ", tb); });
                }
                if (f.linear)
                  for (auto& b : at)
                  {
                    double tb;
                    violations(b, tb);
                    double mb = o->violation(full(sel, b));
                    c.checkf(near(mb, tb, 1e-6), "constraint-linear-everywhere", [&] { return str(wh(), ": model around ", vec(a), " violated by ", mb, " at ", vec(b), ", exact ", tb); });
                  }
                c.transitions(3);
              }
            }
          // scalar functions: weighted sums of the outputs
          for (int full_h = 0; full_h < 2 && !analytic; ++full_h)
            for (int combo = 0; combo < 3; ++combo)
            {
              auto g = [&](const V& a) {
                V e = f.f(a);
                double r = 0.5;
                for (long i = 0; i < e.size(); ++i)
                  r += combo == 0 ? e[i] : combo == 1 ? e[i] * e[i] : (i % 2 ? 2.0 : -1.0) * e[i];
                return r;
              };
              CostFromFunc cost(ScalarOfVector::construct(g), vars, "c", full_h);
              judgeCost(c, w, cost, sel, at, g, f.linear && combo != 1, 1e-3, [&] { return str("scalar ", combo, full_h ? " with full Hessian" : "", " of ", f.name); });
              for (auto& a : at)
              {
                auto o = cost.convex(full(sel, a), w.m.get());
                M q = M::Zero(NX, NX);
                for (size_t i = 0; i < o->quad_.size(); ++i)
                {
                  long r = long(o->quad_.vars1[i].var_rep->index), t = long(o->quad_.vars2[i].var_rep->index);
                  q(r, t) += o->quad_.coeffs[i], q(t, r) += o->quad_.coeffs[i];
                }
                double least = Eigen::SelfAdjointEigenSolver<M>(q).eigenvalues().minCoeff();
                c.checkf(least >= -1e-7 * (1 + q.norm()), "not-convex", [&] { return str("scalar ", combo, " of ", f.name, " at ", vec(a), ": curvature ", least); });
              }
            }
          wire_on = false;
        });
}
