// T01: the legacy joint position, velocity, acceleration and jerk terms.
#include <mc/mc.hpp>
#include <common/aux_min.hpp>
#include <trajopt/trajectory_costs.hpp>
#include <trajopt_sco/bpmpd_interface.hpp>
using namespace mc;
using namespace sco;
using V = Eigen::VectorXd;
extern "C" bool wire_on;
const CheckInfo mc::info = { "T01", "exploration",
  "position, velocity, acceleration and jerk x {equality cost, inequality cost, equality constraint, inequality constraint} x 1 to 6 steps (thorough 7) x 1 to 2 joints (thorough 3) x every step range, also too short ones x "
  "5 sets of weights, targets and tolerances x 2 arrangements of the variables in the problem; trajectories: zero, every entry and (inequalities: up to 6 entries) pair of entries at several sizes of both signs, and polynomials in time",
  { "weights are not negative, the lower tolerance is not above the upper one (except where both are made to be exceeded everywhere, which shows each row by itself)" } };
namespace
{
enum Kind { EqCost, IneqCost, EqCnt, IneqCnt };
const char* kindName[] = { "equality cost", "inequality cost", "equality constraint", "inequality constraint" };
const char* orderName[] = { "position", "velocity", "acceleration", "jerk" };
struct Term
{
  std::shared_ptr<Cost> cost;
  std::shared_ptr<Constraint> cnt;
};
template <class EC, class IC, class EN, class IN>
Term makeOf(Kind k, const trajopt::VarArray& v, const V& w, const V& t, const V& up, const V& lo, int f, int l)
{
  switch (k)
  {
    case EqCost: return { std::make_shared<EC>(v, w, t, f, l), nullptr };
    case IneqCost: return { std::make_shared<IC>(v, w, t, up, lo, f, l), nullptr };
    case EqCnt: return { nullptr, std::make_shared<EN>(v, w, t, f, l) };
    default: return { nullptr, std::make_shared<IN>(v, w, t, up, lo, f, l) };
  }
}
Term make(int order, Kind k, const trajopt::VarArray& v, const V& w, const V& t, const V& up, const V& lo, int f, int l)
{
  using namespace trajopt;
  switch (order)
  {
    case 0: return makeOf<JointPosEqCost, JointPosIneqCost, JointPosEqConstraint, JointPosIneqConstraint>(k, v, w, t, up, lo, f, l);
    case 1: return makeOf<JointVelEqCost, JointVelIneqCost, JointVelEqConstraint, JointVelIneqConstraint>(k, v, w, t, up, lo, f, l);
    case 2: return makeOf<JointAccEqCost, JointAccIneqCost, JointAccEqConstraint, JointAccIneqConstraint>(k, v, w, t, up, lo, f, l);
    default: return makeOf<JointJerkEqCost, JointJerkIneqCost, JointJerkEqConstraint, JointJerkIneqConstraint>(k, v, w, t, up, lo, f, l);
  }
}
const std::vector<std::vector<double>> stencil = { { 1 }, { -1, 1 }, { 1, -2, 1 }, { -1, 3, -3, 1 } };
struct Setting
{
  std::vector<double> w, t, up, lo;
  V pick(const std::vector<double>& a, int dof) const { return Eigen::Map<const V>(a.data(), dof); }
};
const std::vector<Setting>& settings()
{
  static const std::vector<Setting> s = {
    { { 1, 1, 1 }, { 0, 0, 0 }, { 0, 0, 0 }, { 0, 0, 0 } },
    { { 2, 0.5, 4 }, { 0.25, -1, 0.5 }, { 0.5, 1.5, 0.25 }, { -0.25, -0.5, -2 } },
    { { 0, 3, 0.25 }, { -0.5, 0.125, 2 }, { 1, 0.25, 3 }, { 0.5, -0.75, 0.5 } },
    { { 0.5, 7, 1 }, { 1, 0.5, -0.5 }, { -0.25, 2, 0 }, { -1, 2, -0.5 } },
    { { 3, 0.5, 2 }, { 0.5, -0.25, 1 }, { -200, -300, -250 }, { 400, 350, 300 } },
  };
  return s;
}
struct World
{
  Ctx& c;
  std::shared_ptr<BPMPDModel> m = std::make_shared<BPMPDModel>();
  VarVector x;
  int steps, dof;
  trajopt::VarArray arr;
  std::vector<int> at;    // trajectory entry -> problem variable
  World(Ctx& c, int steps, int dof, bool mixed) : c(c), steps(steps), dof(dof)
  {
    int n = steps * dof + (mixed ? 3 : 0);
    for (int i = 0; i < n; ++i)
      x.push_back(static_cast<Model&>(*m).addVar("x", -1000 - i, 1000));
    m->update();
    arr.resize(steps, dof);
    for (int i = 0; i < steps; ++i)
      for (int j = 0; j < dof; ++j)
      {
        int k = mixed ? 2 + (dof - 1 - j) * steps + i : i * dof + j;
        at.push_back(k);
        arr(i, j) = x[size_t(k)];
      }
  }
  DblVec full(const std::vector<double>& traj) const
  {
    DblVec r(x.size(), 77);
    for (size_t k = 0; k < traj.size(); ++k) r[size_t(at[k])] = traj[k];
    return r;
  }
  std::function<double(const DblVec&)> model(ConvexObjective& o)
  {
    o.addConstraintsToModel();
    m->setObjective(o.quad_);
    auto d = std::make_shared<wire::Decoded>();
    wire::solver = [=](wire::Problem& p) { *d = wire::decode(p), *p.code = 2; };
    m->optimize();
    std::vector<int> user;
    for (int k = 0; k < int(x.size()); ++k)
      for (int i = 0; i < d->n(); ++i)
        if (d->lb[size_t(i)] == -1000 - k) user.push_back(i);
    c.checkf(user.size() == x.size(), "user-variables", [] { return std::string("problem variables"); });
    double k = o.quad_.affexpr.constant;
    return [=](const DblVec& at) {
      std::vector<double> full;
      return wire::least(*d, user, at, full) + k;
    };
  }
};
std::vector<double> positive(const std::vector<double>& v)
{
  std::vector<double> r;
  for (double x : v)
    if (x > 1e-9) r.push_back(x);
  std::sort(r.begin(), r.end());
  return r;
}
bool same(const std::vector<double>& a, const std::vector<double>& b, double tol)
{
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i)
    if (!near(a[i], b[i], tol)) return false;
  return true;
}
std::vector<std::vector<double>> trajectories(int steps, int dof, Kind k, bool all)
{
  size_t n = size_t(steps * dof);
  std::vector<double> z(n, 0);
  std::vector<std::vector<double>> r = { z };
  std::vector<double> mags = { 0.125, -0.125, 1, -1, 3, -3 };
  for (size_t i = 0; i < n; ++i)
    for (double a : mags)
    {
      auto t = z;
      t[i] = a;
      r.push_back(t);
      if (k == EqCost ? a != 1 : a == 3 || a == -3 || (n > 6 && !all)) continue;
      for (size_t j = i + 1; j < n; ++j)
        for (double b : mags)
        {
          if (k == EqCost ? b != 1 : b == 3 || b == -3) continue;
          auto u = t;
          u[j] = b;
          r.push_back(u);
        }
    }
  for (int p = 1; p <= 4; ++p)
    for (double a : { 0.5, -0.25 })
    {
      auto t = z;
      for (int i = 0; i < steps; ++i)
        for (int j = 0; j < dof; ++j) t[size_t(i * dof + j)] = a * (j + 1) * std::pow(i + 0.5 * j, p) - 0.3 * j;
      r.push_back(t);
    }
  return r;
}
}  // namespace
static void one(Ctx& c, int order, Kind kind, int steps, int dof, size_t set, bool mixed)
{
  World w(c, steps, dof, mixed);
  const Setting& s = settings()[set];
  V wt = s.pick(s.w, dof), tg = s.pick(s.t, dof), up = s.pick(s.up, dof), lo = s.pick(s.lo, dof);
  auto trajs = trajectories(steps, dof, kind, c.thorough);
  for (int f = 0; f < steps; ++f)
    for (int l = f; l < steps; ++l)
    {
      auto what = [&] { return str(orderName[order], " ", kindName[kind], " on ", steps, "x", dof, " steps ", f, "..", l, mixed ? " mixed" : "", ", weights ", vec(wt), " targets ", vec(tg), " tolerances ", vec(lo), "..", vec(up)); };
      Term term;
      bool threw = false;
      try { term = make(order, kind, w.arr, wt, tg, up, lo, f, l); }
      catch (const std::exception&) { threw = true; }
      c.transitions();
      c.checkf(threw == (l - f < order), threw ? "range-rejected" : "short-range-accepted", what);
      if (threw) continue;
      c.state(Hash().u(order).u(kind).u(steps).u(dof).u(set).u(mixed).u(f).u(l).h);
      auto diffs = [&](const std::vector<double>& t) {
        std::vector<double> r;
        for (int i = f; i + order <= l; ++i)
          for (int j = 0; j < dof; ++j)
          {
            double d = -tg[j];
            for (int k = 0; k <= order; ++k) d += stencil[size_t(order)][size_t(k)] * t[size_t((i + k) * dof + j)];
            r.push_back(d);
          }
        return r;
      };
      auto weight = [&](size_t cell) { return wt[long(cell) % dof]; };
      ConvexObjective::Ptr o;
      std::function<double(const DblVec&)> model;
      ConvexConstraints::Ptr cc;
      std::vector<double> anywhere(size_t(steps * dof), 0.7);
      if (term.cost)
      {
        o = term.cost->convex(w.full(anywhere), w.m.get());
        model = w.model(*o);
      }
      else
      {
        c.checkf(term.cnt->type() == (kind == EqCnt ? EQ : INEQ), "type", what);
        cc = term.cnt->convex(w.full(anywhere), w.m.get());
        c.checkf(kind == EqCnt ? cc->ineqs_.empty() : cc->eqs_.empty(), "constraint-kind", what);
      }
      for (auto& t : trajs)
      {
        auto d = diffs(t);
        DblVec x = w.full(t);
        std::vector<double> each;
        double sum = 0;
        for (size_t k = 0; k < d.size(); ++k)
        {
          double hi = d[k] - up[long(k) % dof], low = lo[long(k) % dof] - d[k];
          if (kind == EqCost) each.push_back(weight(k) * d[k] * d[k]);
          else if (kind == EqCnt) each.push_back(weight(k) * std::fabs(d[k]));
          else each.push_back(weight(k) * std::max(0.0, hi)), each.push_back(weight(k) * std::max(0.0, low));
        }
        for (double e : each) sum += e;
        auto at = [&](double got) { return str(what(), " at ", vec(t), " is ", got, ", expected ", sum); };
        if (term.cost)
        {
          double v = term.cost->value(x), m = model(x);
          c.checkf(near(v, sum, 1e-9), "value", [&] { return at(v); });
          c.checkf(near(m, sum, 1e-6), "model", [&] { return "convex model of " + at(m); });
        }
        else
        {
          c.checkf(same(positive(term.cnt->violations(x)), positive(each), 1e-9), "violations", [&] { return at(term.cnt->violation(x)); });
          c.checkf(same(positive(cc->violations(x)), positive(each), 1e-6), "model-violations", [&] { return "convex model of " + at(cc->violation(x)); });
          c.checkf(near(term.cnt->violation(x), sum, 1e-9) && near(cc->violation(x), sum, 1e-6), "total", [&] { return at(term.cnt->violation(x)); });
        }
        c.traces();
        c.transitions(2);
        c.outcome(Hash().u(order).u(kind).d(std::round(sum * 1e6)).h);
      }
    }
}
void mc::explore(Ctx& c)
{
  for (int order = 0; order < 4; ++order)
    for (int kind = 0; kind < 4; ++kind)
      for (int steps = 1; steps <= (c.thorough ? 7 : 6); ++steps)
        for (int dof = 1; dof <= (c.thorough ? 3 : 2); ++dof)
          for (size_t set = 0; set < settings().size(); ++set)
            c.item([=] { return str(orderName[order], " ", kindName[kind], ", ", steps, " steps, ", dof, " joints, setting ", set); }, [=, &c] {
              wire_on = true;
              for (int mixed = 0; mixed < 2; ++mixed) one(c, order, Kind(kind), steps, dof, set, mixed);
              wire_on = false;
            });
}
