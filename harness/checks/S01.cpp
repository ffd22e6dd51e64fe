// S01: symbolic affine and quadratic expressions.
#include <mc/mc.hpp>
#include <trajopt_sco/expr_op_overloads.hpp>
#include <trajopt_sco/expr_ops.hpp>
#include <trajopt_sco/expr_vec_ops.hpp>
#include <algorithm>
#include <map>
using namespace mc;
using namespace sco;
const CheckInfo mc::info = { "S01", "exploration",
  "every expression built from 10 atoms (empty, constant, variables, repeated and cancelling variables, tiny coefficients) by up to 2 (thorough 3, the last operand an atom) operations out of "
  "{+, -, * of affine expressions, square, + - * constant, negation, + - a variable on either side}, each as function, operator, in-place (copying and moving) and, for +, with itself; values "
  "(both accessors) at 12 points, which determine a quadratic in three variables, against plain arithmetic on the operands' values, plus clean-up and index simplification of each",
  { "values are compared up to rounding" } };

static const int NP = 12, NV = 3;
static std::vector<DblVec> P;
static std::vector<sco::Var> X;
using Vals = std::array<double, NP>;
template <class E> struct Known { E e; Vals v, m; std::string s; };   // m: magnitude of the terms summed so far (rounding scale)
using A = Known<AffExpr>;
using Q = Known<QuadExpr>;
template <class F> static Vals map1(const Vals& a, F f) { Vals r; for (int i = 0; i < NP; ++i) r[size_t(i)] = f(a[size_t(i)]); return r; }
template <class F> static Vals map2(const Vals& a, const Vals& b, F f) { Vals r; for (int i = 0; i < NP; ++i) r[size_t(i)] = f(a[size_t(i)], b[size_t(i)]); return r; }
static double add(double a, double b) { return a + b; }
static double sub(double a, double b) { return a - b; }
static double mul(double a, double b) { return a * b; }

template <class E>
static void judge(Ctx& c, const E& e, const Vals& v, const Vals& m, const char* key, const std::function<std::string()>& what)
{
  c.transitions();
  for (int i = 0; i < NP; ++i)
  {
    double got = e.value(P[size_t(i)]), raw = e.value(P[size_t(i)].data());
    double tol = 1e-12 * (1 + m[size_t(i)]);
    c.checkf(std::fabs(got - v[size_t(i)]) <= tol && std::fabs(raw - v[size_t(i)]) <= tol, key,
             [&] { return str(what(), " at ", vec(Eigen::Map<const Eigen::VectorXd>(P[size_t(i)].data(), NV)), " is ", got, " / ", raw, ", expected ", v[size_t(i)]); });
  }
}
template <class E>
static Known<E> known(Ctx& c, E e, const Vals& v, const Vals& m, const char* key, std::string s)
{
  judge(c, e, v, m, key, [&] { return s; });
  Vals mm = map2(m, v, [](double a, double b) { return std::max(a, std::fabs(b)); });
  return { std::move(e), v, mm, std::move(s) };
}
static Vals constant(double k) { Vals v; v.fill(k); return v; }
static Vals var(int i) { Vals v; for (int p = 0; p < NP; ++p) v[size_t(p)] = P[size_t(p)][size_t(i)]; return v; }

// every way of writing a + b, a - b for expressions of (possibly) different kinds; R is the result kind
template <class E, class F>
static void inplace(Ctx& c, const Known<E>& a, const Known<F>& b, const Vals& p, const Vals& m, const Vals& mi)
{
  auto n = [&](const char* o) { return [&a, &b, o] { return str("(", a.s, ") ", o, " (", b.s, ")"); }; };
  E e = a.e;
  exprInc(e, b.e);
  judge(c, e, p, m, "increment", n("+="));
  e = a.e;
  F t = b.e;
  exprInc(e, std::move(t));
  judge(c, e, p, m, "increment-moved", n("+= move"));
  e = a.e;
  exprDec(e, b.e);
  judge(c, e, mi, m, "decrement", n("-="));
  e = a.e;
  t = b.e;
  exprDec(e, std::move(t));
  judge(c, e, mi, m, "decrement-moved", n("-= move"));
  judge(c, b.e, b.v, b.m, "operand-changed", n("operand of"));
}
template <class E>
static void unary(Ctx& c, const Known<E>& a, std::vector<Known<E>>* out)
{
  auto keep = [&](Known<E> k) { if (out) out->push_back(std::move(k)); };
  for (double k : { -2.0, 0.0, 0.5, 3.0 })
  {
    Vals v = map1(a.v, [&](double x) { return k * x; }), m = map1(a.m, [&](double x) { return std::fabs(k) * x; });
    keep(known<E>(c, exprMult(a.e, k), v, m, "scale", str(k, "*(", a.s, ")")));
    judge(c, k * a.e, v, m, "scale-operator", [&] { return str(k, "*(", a.s, ")"); });
    judge(c, a.e * k, v, m, "scale-operator", [&] { return str("(", a.s, ")*", k); });
    E e = a.e;
    exprScale(e, k);
    judge(c, e, v, m, "scale-in-place", [&] { return str("(", a.s, ") *= ", k); });
    Vals p = map1(a.v, [&](double x) { return x + k; }), mm = map1(a.m, [&](double x) { return x + std::fabs(k); });
    Vals q = map1(a.v, [&](double x) { return x - k; });
    if (k == 3)
      keep(known<E>(c, exprAdd(a.e, k), p, mm, "add-constant", str("(", a.s, ")+", k)));
    judge(c, a.e + k, p, mm, "add-constant", [&] { return str("(", a.s, ")+", k); });
    judge(c, a.e - k, q, mm, "subtract-constant", [&] { return str("(", a.s, ")-", k); });
    judge(c, exprSub(a.e, k), q, mm, "subtract-constant", [&] { return str("(", a.s, ")-", k); });
    e = a.e;
    exprInc(e, k);
    judge(c, e, p, mm, "add-constant", [&] { return str("(", a.s, ") += ", k); });
    e = a.e;
    exprDec(e, k);
    judge(c, e, q, mm, "subtract-constant", [&] { return str("(", a.s, ") -= ", k); });
  }
  for (int i = 0; i < NV; ++i)
  {
    const sco::Var& x = X[size_t(i)];
    Vals xv = var(i), p = map2(a.v, xv, add), q = map2(a.v, xv, sub), r = map2(xv, a.v, sub), m = map2(a.m, map1(xv, [](double t) { return std::fabs(t); }), add);
    auto n = [&](const char* o) { return [&a, o, i] { return str("(", a.s, ")", o, "x", i); }; };
    judge(c, exprAdd(a.e, x), p, m, "add-variable", n("+"));
    judge(c, a.e + x, p, m, "add-variable", n("+"));
    judge(c, x + a.e, p, m, "add-variable", n("+"));
    judge(c, exprSub(a.e, x), q, m, "subtract-variable", n("-"));
    judge(c, a.e - x, q, m, "subtract-variable", n("-"));
    judge(c, x - a.e, r, m, "subtract-from-variable", n(" from "));
    E e = a.e;
    exprInc(e, x);
    judge(c, e, p, m, "add-variable", n("+="));
    e = a.e;
    exprDec(e, x);
    judge(c, e, q, m, "subtract-variable", n("-="));
  }
  judge(c, a.e, a.v, a.m, "operand-changed", [&] { return str("operand ", a.s); });
  E e = a.e;
  exprInc(e, e);
  judge(c, e, map1(a.v, [](double x) { return 2 * x; }), map1(a.m, [](double x) { return 2 * x; }), "add-itself", [&] { return str("(", a.s, ") += itself"); });
  e = a.e;
  exprDec(e, e);
  judge(c, e, constant(0), a.m, "subtract-itself", [&] { return str("(", a.s, ") -= itself"); });
}
// clean-up drops coefficients of magnitude up to 1e-7, nothing else; index simplification sums duplicates
static void tidy(Ctx& c, const A& a)
{
  AffExpr t = cleanupAff(a.e);
  for (int i = 0; i < NP; ++i)
  {
    double slack = 1e-12 * (1 + a.m[size_t(i)]);
    for (size_t k = 0; k < a.e.size(); ++k)
      slack += std::min(1e-7, std::fabs(a.e.coeffs[k])) * std::fabs(P[size_t(i)][a.e.vars[k].var_rep->index]);
    c.checkf(std::fabs(t.value(P[size_t(i)]) - a.v[size_t(i)]) <= slack, "cleanup", [&] { return str("clean-up of ", a.s, " is ", t.value(P[size_t(i)]), ", expected ", a.v[size_t(i)]); });
  }
  for (double k : t.coeffs)
    c.checkf(std::fabs(k) > 1e-7, "cleanup-kept", [&] { return str("clean-up of ", a.s, " keeps coefficient ", k); });
  IntVec inds, i2;
  SizeTVec si;
  vars2inds(a.e.vars, inds);
  vars2inds(a.e.vars, si);
  i2 = inds;
  DblVec vals = a.e.coeffs;
  std::map<int, double> want;
  for (size_t k = 0; k < inds.size(); ++k)
  {
    c.checkf(inds[k] == int(a.e.vars[k].var_rep->index) && si[k] == a.e.vars[k].var_rep->index, "indices", [&] { return a.s; });
    want[inds[k]] += vals[k];
  }
  simplify2(i2, vals);
  c.checkf(i2.size() == vals.size(), "simplify-sizes", [&] { return a.s; });
  std::map<int, double> got;
  for (size_t k = 0; k < i2.size(); ++k)
  {
    c.checkf(!got.count(i2[k]), "simplify-duplicate", [&] { return str(a.s, ": index ", i2[k], " twice"); });
    got[i2[k]] = vals[k];
  }
  for (int i = 0; i < NV; ++i)
    c.checkf(std::fabs((want.count(i) ? want[i] : 0) - (got.count(i) ? got[i] : 0)) < 1e-9, "simplify", [&] { return str(a.s, ": coefficient of x", i, " is ", got[i], ", expected ", want[i]); });
  c.transitions(2);
}
// all binary operations; results are appended where asked for
static void affaff(Ctx& c, const A& a, const A& b, std::vector<A>* oa, std::vector<Q>* oq)
{
  Vals p = map2(a.v, b.v, add), m = map2(a.v, b.v, sub), t = map2(a.v, b.v, mul), ms = map2(a.m, b.m, add), mt = map2(map1(a.m, [](double x) { return x + 1; }), map1(b.m, [](double x) { return x + 1; }), mul);
  A s = known<AffExpr>(c, exprAdd(a.e, b.e), p, ms, "add", str("(", a.s, ")+(", b.s, ")"));
  A d = known<AffExpr>(c, exprSub(a.e, b.e), m, ms, "subtract", str("(", a.s, ")-(", b.s, ")"));
  Q q = known<QuadExpr>(c, exprMult(a.e, b.e), t, mt, "multiply", str("(", a.s, ")*(", b.s, ")"));
  judge(c, a.e + b.e, p, ms, "add-operator", [&] { return s.s; });
  judge(c, a.e - b.e, m, ms, "subtract-operator", [&] { return d.s; });
  inplace(c, a, b, p, ms, m);
  if (oa)
    oa->push_back(std::move(s)), oa->push_back(std::move(d));
  if (oq)
    oq->push_back(std::move(q));
}
static void quadaff(Ctx& c, const Q& a, const A& b, std::vector<Q>* oq)
{
  Vals p = map2(a.v, b.v, add), m = map2(a.v, b.v, sub), r = map2(b.v, a.v, sub), ms = map2(a.m, b.m, add);
  Q s = known<QuadExpr>(c, exprAdd(a.e, b.e), p, ms, "quad-add-affine", str("(", a.s, ")+(", b.s, ")"));
  judge(c, a.e + b.e, p, ms, "quad-add-affine", [&] { return s.s; });
  judge(c, b.e + a.e, p, ms, "affine-add-quad", [&] { return s.s; });
  judge(c, exprSub(a.e, b.e), m, ms, "quad-subtract-affine", [&] { return str("(", a.s, ")-(", b.s, ")"); });
  judge(c, a.e - b.e, m, ms, "quad-subtract-affine", [&] { return str("(", a.s, ")-(", b.s, ")"); });
  judge(c, b.e - a.e, r, ms, "affine-subtract-quad", [&] { return str("(", b.s, ")-(", a.s, ")"); });
  inplace(c, a, b, p, ms, m);
  if (oq)
    oq->push_back(std::move(s));
}
static void quadquad(Ctx& c, const Q& a, const Q& b)
{
  Vals p = map2(a.v, b.v, add), m = map2(a.v, b.v, sub), ms = map2(a.m, b.m, add);
  judge(c, exprAdd(a.e, b.e), p, ms, "quad-add", [&] { return str("(", a.s, ")+(", b.s, ")"); });
  judge(c, a.e + b.e, p, ms, "quad-add", [&] { return str("(", a.s, ")+(", b.s, ")"); });
  judge(c, exprSub(a.e, b.e), m, ms, "quad-subtract", [&] { return str("(", a.s, ")-(", b.s, ")"); });
  judge(c, a.e - b.e, m, ms, "quad-subtract", [&] { return str("(", a.s, ")-(", b.s, ")"); });
  inplace(c, a, b, p, ms, m);
}
static Q square(Ctx& c, const A& a)
{
  return known<QuadExpr>(c, exprSquare(a.e), map1(a.v, [](double x) { return x * x; }), map1(a.m, [](double x) { return (x + 1) * (x + 1); }), "square", str("(", a.s, ")^2"));
}
void mc::explore(Ctx& c)
{
  for (int p = 0; p < NP; ++p)
  {
    DblVec x;
    for (int i = 0; i < NV; ++i)
      x.push_back(((p * (i + 2) + i * i + p * p * (i + 1)) % 7 - 3) * (i == 1 ? 0.5 : 1));
    P.push_back(x);
  }
  for (int i = 0; i < NV; ++i)
    X.push_back(sco::Var(std::make_shared<VarRep>(size_t(i), str("x", i), nullptr)));
  auto atoms = [](Ctx& c) {
    std::vector<A> a;
    auto put = [&](AffExpr e, Vals v, const char* s) { a.push_back(known<AffExpr>(c, std::move(e), v, map1(v, [](double x) { return std::fabs(x) + 6; }), "atom", s)); };
    put(AffExpr(), constant(0), "0");
    put(AffExpr(1.5), constant(1.5), "1.5");
    for (int i = 0; i < NV; ++i)
      put(AffExpr(X[size_t(i)]), var(i), i == 0 ? "x0" : i == 1 ? "x1" : "x2");
    put(-X[1], map1(var(1), [](double x) { return -x; }), "-x1");
    put(2 * X[0] + X[2] * 3.0 - 1, map2(var(0), var(2), [](double x, double y) { return 2 * x + 3 * y - 1; }), "2x0+3x2-1");
    put(X[0] - X[0], constant(0), "x0-x0");
    put(X[2] + (X[0] + X[2]), map2(var(0), var(2), [](double x, double y) { return x + 2 * y; }), "x2+x0+x2");
    put(varDot((Eigen::VectorXd(2) << 1e-7, -2).finished(), { X[0], X[1] }), map2(var(0), var(1), [](double x, double y) { return 1e-7 * x - 2 * y; }), "1e-7x0-2x1");
    return a;
  };
  // one operation
  struct L1 { std::vector<A> a; std::vector<Q> q; };
  auto level1 = [atoms](Ctx& c) {
    L1 l;
    auto at = atoms(c);
    for (auto& a : at)
    {
      l.a.push_back(a);
      l.q.push_back(square(c, a));
      unary(c, a, &l.a);
      for (auto& b : at)
        affaff(c, a, b, &l.a, &l.q);
    }
    for (int i = 0; i < NV; ++i)
    {
      l.q.push_back(known<QuadExpr>(c, exprSquare(X[size_t(i)]), map1(var(i), [](double x) { return x * x; }), constant(9), "square-variable", str("x", i, "^2")));
      l.q.push_back(known<QuadExpr>(c, QuadExpr(X[size_t(i)]), var(i), constant(9), "promote", str("quad x", i)));
    }
    l.q.push_back(known<QuadExpr>(c, QuadExpr(2.5), constant(2.5), constant(3), "promote", "quad 2.5"));
    return l;
  };
  Ctx& C = c;
  c.item([] { return std::string("one operation"); }, [&] {
    auto l = level1(C);
    for (auto& a : l.a)
    {
      tidy(C, a);
      C.state(Hash().s(a.s));
      C.outcome(Hash().raw(a.v.data(), sizeof(a.v)));
    }
  });
  // operations on results of operations
  size_t NA, NQ;
  {
    mc::Ctx probe;
    // sizes only; the atoms and the number of operations are fixed
    NA = 10 * (1 + 5 + 20);
    NQ = 10 * (1 + 10) + 2 * NV + 1;
  }
  for (size_t i = 0; i < NA; ++i)
    c.item([=] { return str("affine expression #", i, " of one operation with every other"); }, [&, i] {
      static L1 l = level1(C);
      C.checkf(l.a.size() == NA && l.q.size() == NQ, "count", [&] { return str(l.a.size(), " ", l.q.size()); });
      const A& a = l.a[i];
      std::vector<A> oa;
      std::vector<Q> oq;
      oq.push_back(square(C, a));
      unary(C, a, &oa);
      for (auto& b : l.a)
        affaff(C, a, b, &oa, C.thorough ? &oq : nullptr);
      C.state(Hash().u(i));
      C.traces(oa.size());
      for (auto& r : oa)
        tidy(C, r), C.outcome(Hash().raw(r.v.data(), sizeof(r.v)));
      if (C.thorough)
      {
        auto at = atoms(C);
        for (auto& r : oa)
        {
          square(C, r);
          unary<AffExpr>(C, r, nullptr);
          for (auto& b : at)
            affaff(C, r, b, nullptr, nullptr), affaff(C, b, r, nullptr, nullptr);
        }
        for (auto& r : oq)
          for (auto& b : at)
            quadaff(C, r, b, nullptr);
      }
    });
  for (size_t i = 0; i < NQ; ++i)
    c.item([=] { return str("quadratic expression #", i, " of one operation with every other"); }, [&, i] {
      static L1 l = level1(C);
      const Q& q = l.q[i];
      std::vector<Q> oq;
      unary(C, q, &oq);
      for (auto& b : l.a)
        quadaff(C, q, b, &oq);
      for (auto& b : l.q)
        quadquad(C, q, b);
      C.state(Hash().u(i).u(7));
      C.traces(oq.size());
      for (auto& r : oq)
        C.outcome(Hash().raw(r.v.data(), sizeof(r.v)));
      if (C.thorough)
        for (auto& r : oq)
          unary<QuadExpr>(C, r, nullptr);
    });
}
