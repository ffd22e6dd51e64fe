// I04: joint position, velocity, acceleration and jerk terms against finite differences written out independently.
#include <mc/mc.hpp>
#include <trajopt_ifopt/constraints/joint_acceleration_constraint.h>
#include <trajopt_ifopt/constraints/joint_jerk_constraint.h>
#include <trajopt_ifopt/constraints/joint_position_constraint.h>
#include <trajopt_ifopt/constraints/joint_velocity_constraint.h>
#include <trajopt_ifopt/utils/ifopt_utils.h>
#include <trajopt_ifopt/variable_sets/node.h>
#include <trajopt_ifopt/variable_sets/nodes_variables.h>
#include <trajopt_ifopt/variable_sets/var.h>
#include <console_bridge/console.h>
#include <limits>
using namespace mc;
using namespace trajopt_ifopt;
using Eigen::VectorXd;
const CheckInfo mc::info = { "I04", "exploration",
  "every layout (1-3 joints, optional extra variable before/after the joints in each node, up to 7 (thorough 9) waypoints), every contiguous selection of waypoints, every weighting (none, one "
  "shared, one per joint, invalid), every target pattern, each of the four differences: at zero, at every unit vector, at every two-valued trajectory (small sizes) and at two dense "
  "trajectories, visited one after the other on the same object; position bounds: every tuple of bound types, kept and split",
  { "waypoints are given in the order of their columns", "non-positive or wrong-sized weights are only required to be refused" } };
static const double INF = std::numeric_limits<double>::infinity();

struct Layout
{
  int dof, n;
  bool before, after;
};
struct Traj
{
  std::shared_ptr<NodesVariables> vars;
  std::vector<std::shared_ptr<const Var>> q;
  std::vector<std::vector<int>> col;   // independent layout: column of waypoint w, joint k
  int total = 0;
  explicit Traj(const Layout& l)
  {
    std::vector<std::unique_ptr<Node>> nodes;
    for (int i = 0; i < l.n; ++i)
    {
      nodes.push_back(std::make_unique<Node>("n" + std::to_string(i)));
      if (l.before)
      {
        nodes.back()->addVar("dt", 1.0);
        ++total;
      }
      std::vector<std::string> names;
      std::vector<int> cs;
      for (int k = 0; k < l.dof; ++k)
      {
        names.push_back("j" + std::to_string(k));
        cs.push_back(total++);
      }
      q.push_back(nodes.back()->addVar("q", names, VectorXd::Zero(l.dof), std::vector<Bounds>(size_t(l.dof), NoBound)));
      col.push_back(cs);
      if (l.after)
      {
        nodes.back()->addVar("z", 0.5);
        ++total;
      }
    }
    vars = std::make_shared<NodesVariables>("traj", std::move(nodes));
  }
};
enum Kind { POS, VEL, ACC, JERK };
static const char* kName[] = { "position", "velocity", "acceleration", "jerk" };
// row r of n waypoints: list of (waypoint, factor)
static std::vector<std::pair<int, double>> stencil(Kind k, int i, int n)
{
  switch (k)
  {
    case POS: return { { i, 1 } };
    case VEL: return { { i, -1 }, { i + 1, 1 } };
    case ACC: { int b = i <= n - 3 ? i : i - 2; return { { b, 1 }, { b + 1, -2 }, { b + 2, 1 } }; }
    default: { int b = i <= n - 4 ? i : i - 3; return { { b, -1 }, { b + 1, 3 }, { b + 2, -3 }, { b + 3, 1 } }; }
  }
}
struct Row { int dofk; std::vector<std::pair<int, double>> s; double w, lo, hi; };

static void compare(Ctx& c, ConstraintSet& cs, const Traj& t, int first, const std::vector<Row>& rows, const VectorXd& x)
{
  t.vars->setVariables(x);
  cs.update();
  c.transitions();
  VectorXd v = cs.getValues(), w = cs.getCoefficients();
  auto b = cs.getBounds();
  Jacobian J = cs.getJacobian();
  int R = int(rows.size());
  c.checkf(cs.getRows() == R && v.size() == R && w.size() == R && int(b.size()) == R, "sizes",
           [&] { return str("rows ", cs.getRows(), " values ", v.size(), " weights ", w.size(), " bounds ", b.size(), " expected ", R); });
  c.checkf(J.rows() == R && J.cols() == t.total, "jacobian-size", [&] { return str(J.rows(), "x", J.cols()); });
  Eigen::MatrixXd D(J);
  Hash h;
  for (int r = 0; r < R; ++r)
  {
    double e = 0;
    VectorXd g = VectorXd::Zero(t.total);
    for (auto& [wp, f] : rows[size_t(r)].s)
    {
      int cc = t.col[size_t(first + wp)][size_t(rows[size_t(r)].dofk)];
      e += f * x[cc];
      g[cc] += f;
    }
    c.checkf(std::fabs(v[r] - e) <= 1e-13 * (1 + x.cwiseAbs().maxCoeff()), "value", [&] { return str("row ", r, " is ", v[r], " expected ", e, " at ", vec(x)); });
    c.checkf(w[r] == rows[size_t(r)].w, "weight", [&] { return str("row ", r, " has weight ", w[r], " expected ", rows[size_t(r)].w); });
    c.checkf(b[size_t(r)].getLower() == rows[size_t(r)].lo && b[size_t(r)].getUpper() == rows[size_t(r)].hi, "bounds",
             [&] { return str("row ", r, " has bounds ", b[size_t(r)].getLower(), ",", b[size_t(r)].getUpper()); });
    c.checkf((D.row(r).transpose() - g).cwiseAbs().maxCoeff() < 1e-12, "jacobian",
             [&] { return str("row ", r, " is ", vec(VectorXd(D.row(r).transpose())), " expected ", vec(g)); });
    h.d(v[r]).d(w[r]);
  }
  c.outcome(h);
}
static void points(Ctx& c, int total, const std::function<void(const VectorXd&)>& f)
{
  f(VectorXd::Zero(total));
  for (int i = 0; i < total; ++i)
  {
    VectorXd x = VectorXd::Zero(total);
    x[i] = 1;
    f(x);
  }
  VectorXd a(total), b(total);
  for (int i = 0; i < total; ++i)
  {
    a[i] = 0.37 * i * i - 1.3 * i + 0.01;
    b[i] = ((i * 7919) % 31) * -1e3 + 1.0 / (i + 1);
  }
  f(a);
  f(b);
  if (total <= (c.thorough ? 12 : 8))
    for (int m = 0; m < (1 << total); ++m)
    {
      VectorXd x(total);
      for (int i = 0; i < total; ++i)
        x[i] = m >> i & 1 ? 0.75 : -2;
      f(x);
    }
}
static VectorXd weights(int mode, int dof)
{
  if (mode == 0)
    return VectorXd();
  if (mode == 1)
    return VectorXd::Constant(1, 2.5);
  VectorXd w(dof);
  for (int i = 0; i < dof; ++i)
    w[i] = mode == 2 ? 0.5 + 3 * i : 7.0 / (1 << i);
  return w;
}

void mc::explore(Ctx& c)
{
  console_bridge::setLogLevel(console_bridge::CONSOLE_BRIDGE_LOG_NONE);
  const int NMAX = c.thorough ? 9 : 7;
  for (int dof = 1; dof <= 3; ++dof)
    for (int ex = 0; ex < 4; ++ex)
      for (int n = 1; n <= NMAX; ++n)
        for (int first = 0; first < n; ++first)
          for (int len = 1; first + len <= n; ++len)
            for (int kind = POS; kind <= JERK; ++kind)
              for (int wm = 0; wm < 4; ++wm)
                for (int tp = 0; tp < 2; ++tp)
                {
                  if (kind == POS && len != 1)
                    continue;
                  int need = kind == POS ? 1 : kind == VEL ? 2 : kind == ACC ? 4 : 6;
                  // too short a selection must be refused; one representative per layout
                  if (len < need && (first || wm || tp))
                    continue;
                  c.item([=] { return str(kName[kind], " on waypoints ", first, "..", first + len - 1, " of ", n, ", ", dof, " joints, layout ", ex, ", weighting ", wm, ", targets ", tp); },
                         [&] {
                           Traj t({ dof, n, (ex & 1) != 0, (ex & 2) != 0 });
                           std::vector<std::shared_ptr<const Var>> sel(t.q.begin() + first, t.q.begin() + first + len);
                           VectorXd tgt(dof);
                           for (int k = 0; k < dof; ++k)
                             tgt[k] = tp ? 0.25 * (k + 1) : 0;
                           VectorXd w = weights(wm, dof);
                           std::shared_ptr<ConstraintSet> cs;
                           bool threw = false;
                           try
                           {
                             switch (kind)
                             {
                               case POS: cs = std::make_shared<JointPosConstraint>(tgt, sel[0], w, "p"); break;
                               case VEL: cs = std::make_shared<JointVelConstraint>(tgt, sel, w, "v"); break;
                               case ACC: cs = std::make_shared<JointAccelConstraint>(tgt, sel, w, "a"); break;
                               default: cs = std::make_shared<JointJerkConstraint>(tgt, sel, w, "j"); break;
                             }
                           }
                           catch (const std::exception&)
                           {
                             threw = true;
                           }
                           c.state(Hash().u(uint64_t(dof)).u(uint64_t(ex)).u(uint64_t(n)).u(uint64_t(first)).u(uint64_t(len)).u(uint64_t(kind)).u(uint64_t(wm)).u(uint64_t(tp)));
                           if (len < need)
                           {
                             c.checkf(threw, "short-range", [&] { return str(kName[kind], " accepted ", len, " waypoints"); });
                             return;
                           }
                           if (threw && kind == POS && wm == 0)
                             return;  // a target needs a weight: refused
                           c.checkf(!threw, "refused", [&] { return std::string("a valid term was refused"); });
                           cs->linkWithVariables(t.vars);
                           int steps = kind == POS ? 1 : kind == VEL ? len - 1 : len;
                           double w0 = 0;
                           if (wm == 0)
                           {
                             VectorXd cw = cs->getCoefficients();
                             c.checkf(cw.size() == steps * dof && cw.minCoeff() > 0 && cw.minCoeff() == cw.maxCoeff(), "default-weight", [&] { return vec(cw); });
                             w0 = cw[0];
                           }
                           std::vector<Row> rows;
                           for (int i = 0; i < steps; ++i)
                             for (int k = 0; k < dof; ++k)
                               rows.push_back({ k, stencil(Kind(kind), i, len), wm == 0 ? w0 : wm == 1 ? w[0] : w[k], tgt[k], tgt[k] });
                           points(c, t.total, [&](const VectorXd& x) { compare(c, *cs, t, first, rows, x); });
                           c.traces();
                         });
                }
  // refused weightings
  for (int kind = POS; kind <= JERK; ++kind)
    for (int dof = 1; dof <= 3; ++dof)
      for (int bad = 0; bad < 4; ++bad)
        c.item([=] { return str(kName[kind], " with invalid weighting ", bad, " for ", dof, " joints"); },
               [&] {
                 Traj t({ dof, 7, false, false });
                 VectorXd w = VectorXd::Ones(bad == 2 ? dof + 1 : bad == 3 ? dof + 2 : dof);
                 if (bad == 0)
                   w[dof - 1] = 0;
                 if (bad == 1)
                   w[0] = -1;
                 VectorXd z = VectorXd::Zero(dof);
                 bool threw = false;
                 try
                 {
                   switch (kind)
                   {
                     case POS: JointPosConstraint(z, t.q[0], w, "p"); break;
                     case VEL: JointVelConstraint(z, t.q, w, "v"); break;
                     case ACC: JointAccelConstraint(z, t.q, w, "a"); break;
                     default: JointJerkConstraint(z, t.q, w, "j"); break;
                   }
                 }
                 catch (const std::exception&)
                 {
                   threw = true;
                 }
                 c.transitions();
                 c.checkf(threw, "invalid-weight-accepted", [&] { return vec(w); });
               });
  // position bounds, kept and split
  const std::vector<std::pair<double, double>> B = { { -INF, INF }, { -1, INF }, { -INF, 0.5 }, { -1, 0.5 }, { 0.25, 0.25 }, { -0.5, 3 } };
  const std::vector<double> X = { -2, -1, -0.75, 0, 0.25, 0.5, 1, 4 };
  for (int dof = 1; dof <= 3; ++dof)
  {
    int nb = 1;
    for (int i = 0; i < dof; ++i)
      nb *= int(B.size());
    for (int bi = 0; bi < nb; ++bi)
      for (int wm = 0; wm < 4; ++wm)
        for (int wp = 0; wp < 3; ++wp)
          c.item([=] { return str("position bounds ", bi, " (base ", B.size(), "), ", dof, " joints, weighting ", wm, ", waypoint ", wp); },
                 [&] {
                   Traj t({ dof, 3, wp == 1, wp == 2 });
                   std::vector<Bounds> bs;
                   for (int i = 0, r = bi; i < dof; ++i, r /= int(B.size()))
                     bs.emplace_back(B[size_t(r) % B.size()].first, B[size_t(r) % B.size()].second);
                   VectorXd w = weights(wm, dof);
                   std::shared_ptr<ConstraintSet> cs[2];
                   for (int sp = 0; sp < 2; ++sp)
                   {
                     cs[sp] = std::make_shared<JointPosConstraint>(bs, t.q[size_t(wp)], w, "p",
                                                                   sp ? RangeBoundHandling::kSplitToTwoInequalities : RangeBoundHandling::kKeepAsIs);
                     cs[sp]->linkWithVariables(t.vars);
                   }
                   std::vector<Row> rows[2];
                   for (int k = 0; k < dof; ++k)
                   {
                     double wk = wm == 0 ? 1 : wm == 1 ? w[0] : w[k];
                     double lo = bs[size_t(k)].getLower(), hi = bs[size_t(k)].getUpper();
                     rows[0].push_back({ k, { { 0, 1 } }, wk, lo, hi });
                     if (std::isfinite(lo) && std::isfinite(hi) && lo != hi)
                     {
                       rows[1].push_back({ k, { { 0, 1 } }, wk, lo, INF });
                       rows[1].push_back({ k, { { 0, 1 } }, wk, -INF, hi });
                     }
                     else
                       rows[1].push_back({ k, { { 0, 1 } }, wk, lo, hi });
                   }
                   c.state(Hash().u(uint64_t(dof)).u(uint64_t(bi)).u(uint64_t(wm)).u(uint64_t(wp)).u(99));
                   int np = 1;
                   for (int i = 0; i < dof; ++i)
                     np *= int(X.size());
                   for (int pi = 0; pi < np; ++pi)
                   {
                     VectorXd x = VectorXd::Constant(t.total, -7);
                     bool in = true;
                     double viol = 0;
                     for (int k = 0, r = pi; k < dof; ++k, r /= int(X.size()))
                     {
                       double v = X[size_t(r) % X.size()];
                       x[t.col[size_t(wp)][size_t(k)]] = v;
                       double lo = bs[size_t(k)].getLower(), hi = bs[size_t(k)].getUpper();
                       in = in && v >= lo && v <= hi;
                       double wk = wm == 0 ? 1 : wm == 1 ? w[0] : w[k];
                       viol += wk * (v < lo ? lo - v : v > hi ? v - hi : 0);
                     }
                     for (int sp = 0; sp < 2; ++sp)
                     {
                       // the order of the two halves of a split row is not prescribed
                       auto want = rows[sp];
                       if (sp)
                       {
                         auto b = cs[1]->getBounds();
                         for (size_t r = 0; r + 1 < want.size() && b.size() == want.size(); ++r)
                           if (want[r].dofk == want[r + 1].dofk && b[r].getLower() == want[r + 1].lo)
                           {
                             std::swap(want[r], want[r + 1]);
                             ++r;
                           }
                       }
                       compare(c, *cs[sp], t, wp, want, x);
                       VectorXd e(cs[sp]->getRows());
                       calcBoundsViolations(e, cs[sp]->getValues(), cs[sp]->getBounds());
                       c.checkf((e.size() == 0 || e.maxCoeff() == 0) == in, "feasible-set", [&] { return str("split ", sp, " at ", vec(x)); });
                       c.checkf(near(e.dot(cs[sp]->getCoefficients()), viol, 1e-12), "weighted-violation", [&] { return str("split ", sp, " at ", vec(x)); });
                     }
                   }
                   c.traces();
                 });
  }
}
