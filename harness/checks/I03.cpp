// I03: interval semantics of bounds, on every limit pair, mutation route and value of the grid.
#include <mc/mc.hpp>
#include <trajopt_ifopt/core/bounds.h>
#include <trajopt_ifopt/utils/ifopt_utils.h>
#include <limits>
using namespace mc;
using namespace trajopt_ifopt;
const CheckInfo mc::info = { "I03", "model_checking",
  "every sequence of limit changes (set, set lower, set upper, shift up, shift down) to the depth bound over a grid of finite, huge "
  "and infinite limits; after every step classification, violation, error and projection of every grid value are compared with an "
  "independent interval model; vectors of bounds: every combination of three intervals and values",
  { "limits whose magnitude is at least 1e20 count as infinite (the documented convention); near-equal limits (difference below 1e-8) as equal" } };
static const double INF = std::numeric_limits<double>::infinity();

static BoundsType classify(double l, double u)
{
  auto fin = [](double v) { return !(std::isnan(v)) && v < 1e20 && v > -1e20; };
  if (fin(l) && fin(u))
    return std::fabs(u - l) < 1e-8 ? BoundsType::kEquality : BoundsType::kRangeBound;
  if (fin(l))
    return BoundsType::kLowerBound;
  if (fin(u))
    return BoundsType::kUpperBound;
  return BoundsType::kUnbounded;
}
static const std::vector<double> L = { -INF, -1e20, -1e3, -1, 0, 1e-9, 0.5, 2, 1e19, 1e20, INF };
static const std::vector<double> X = { -1e21, -1e4, -1.5, -1, -0.25, 0, 1e-9, 0.25, 0.5, 1.75, 2, 2.5, 1e5, 1e21 };

static void one(Ctx& c, const Bounds& b, double l, double u)
{
  c.checkf((b.getLower() == l) && (b.getUpper() == u), "limits", [&] { return str("limits are ", b.getLower(), ",", b.getUpper(), " expected ", l, ",", u); });
  c.checkf(b.getType() == classify(l, u), "classification", [&] { return str("[", l, ",", u, "] classified as ", int(b.getType())); });
  if (l > u)
    return;  // an empty interval has no distance
  for (double x : X)
  {
    Eigen::VectorXd in(1), e(1), v(1);
    in << x;
    e << 77;
    v << 77;
    std::vector<Bounds> bs{ b };
    calcBoundsErrors(e, in, bs);
    calcBoundsViolations(v, in, bs);
    double p = getClosestValidPoint(in, bs)[0];
    double np = x < l ? l : x > u ? u : x;
    c.transitions();
    c.checkf(p == np, "projection", [&] { return str("value ", x, " in [", l, ",", u, "] projected to ", p); });
    c.checkf(near(e[0], x - np, 1e-12), "error", [&] { return str("value ", x, " in [", l, ",", u, "] has error ", e[0]); });
    c.checkf(near(v[0], std::fabs(x - np), 1e-12) && v[0] >= 0 && ((v[0] == 0) == (x >= l && x <= u)), "violation",
             [&] { return str("value ", x, " in [", l, ",", u, "] has violation ", v[0]); });
    c.outcome(Hash().d(e[0]).d(v[0]).d(p).u(uint64_t(b.getType())));
  }
}

void mc::explore(Ctx& c)
{
  const std::vector<double> SH = { 0, 1, -0.5, 1e20 };
  // histories of limit changes
  for (double l0 : L)
    for (double u0 : L)
      c.item([=] { return str("start [", l0, ",", u0, "]"); },
             [&, l0, u0] {
               Dfs d(c);
               const int depth = c.thorough ? 3 : 2;
               d.run([&] {
                 Bounds b(l0, u0);
                 double l = l0, u = u0;
                 one(c, b, l, u);
                 std::string tr;
                 for (int s = 0; s < depth; ++s)
                 {
                   int op = d.choose(6);
                   if (op == 0)
                     break;
                   if (op == 1)
                   {
                     l = L[size_t(d.choose(int(L.size())))];
                     b.setLower(l);
                     tr += str(" lower=", l);
                   }
                   else if (op == 2)
                   {
                     u = L[size_t(d.choose(int(L.size())))];
                     b.setUpper(u);
                     tr += str(" upper=", u);
                   }
                   else if (op == 3)
                   {
                     l = L[size_t(d.choose(int(L.size())))];
                     u = L[size_t(d.choose(int(L.size())))];
                     b.set(l, u);
                     tr += str(" set=", l, ",", u);
                   }
                   else
                   {
                     double s2 = SH[size_t(d.choose(int(SH.size())))];
                     if (op == 4)
                     {
                       b += s2;
                       l += s2;
                       u += s2;
                     }
                     else
                     {
                       b -= s2;
                       l -= s2;
                       u -= s2;
                     }
                     tr += str(" shift ", op == 4 ? "+" : "-", s2);
                   }
                   if (c.state(Hash().d(l).d(u).u(uint64_t(op)).u(uint64_t(s))) || s == depth - 1)
                     one(c, b, l, u);
                 }
                 c.traces();
                 c.note(tr);
               });
             });
  // vectors: entries are treated independently and land at their own index
  const std::vector<std::pair<double, double>> I = { { -INF, INF }, { 0, INF }, { -INF, 1 }, { -1, 2 }, { 0.5, 0.5 }, { -1e20, 3 } };
  const std::vector<double> V = { -2, 0, 0.5, 1.5, 4 };
  for (size_t a = 0; a < I.size(); ++a)
    for (size_t b = 0; b < I.size(); ++b)
      c.item([=] { return str("vectors starting with intervals ", a, ",", b); },
             [&, a, b] {
               for (size_t d = 0; d < I.size(); ++d)
                 for (size_t m = 0; m < 125; ++m)
                 {
                   size_t ii[3] = { a, b, d };
                   Eigen::VectorXd x(3), lo(3), up(3), e(3), v(3);
                   Eigen::MatrixX2d lim(3, 2);
                   size_t q = m;
                   for (int k = 0; k < 3; ++k, q /= 5)
                   {
                     x[k] = V[q % 5];
                     lim(k, 0) = lo[k] = I[ii[k]].first;
                     lim(k, 1) = up[k] = I[ii[k]].second;
                   }
                   auto b1 = toBounds(lim), b2 = toBounds(lo, up);
                   c.check(b1.size() == 3 && b2.size() == 3, "toBounds", "wrong number of bounds");
                   for (size_t k = 0; k < 3; ++k)
                     c.check(b1[k].getLower() == lo[long(k)] && b1[k].getUpper() == up[long(k)] && b2[k].getLower() == lo[long(k)] &&
                                 b2[k].getUpper() == up[long(k)] && b1[k].getType() == classify(lo[long(k)], up[long(k)]),
                             "toBounds", "limits changed in conversion");
                   calcBoundsErrors(e, x, b1);
                   calcBoundsViolations(v, x, b1);
                   Eigen::VectorXd p = getClosestValidPoint(x, b1);
                   c.transitions();
                   c.traces();
                   c.state(Hash().u(555).u(a).u(b).u(d).u(m));
                   for (int k = 0; k < 3; ++k)
                   {
                     double np = x[k] < lo[k] ? lo[k] : x[k] > up[k] ? up[k] : x[k];
                     c.checkf(p[k] == np && near(e[k], x[k] - np) && near(v[k], std::fabs(x[k] - np)), "vector",
                              [&] { return str("x=", vec(x), " intervals ", a, b, d, " entry ", k, ": ", p[k], " ", e[k], " ", v[k]); });
                   }
                 }
             });
}
