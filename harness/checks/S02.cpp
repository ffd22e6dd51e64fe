// S02: expressions to solver matrices.
#include <mc/mc.hpp>
#include <trajopt_sco/expr_ops.hpp>
#include <trajopt_sco/solver_utils.hpp>
using namespace mc;
using namespace sco;
const CheckInfo mc::info = { "S02", "exploration",
  "affine expressions of up to 4 terms over 3 variables in every order and repetition (coefficients -2, 0, 0.5, cancelling), lists of up to 3 of them, quadratic expressions of up to 3 products in every "
  "orientation with every affine part, 3 or 4 solver variables, halved or not, forced diagonal or not, fresh and used output objects; every 3x3 and rectangular matrix over {0,1,-2}, compressed or not, "
  "to triplets and compressed columns (full, upper, lower; 32 and 64 bit indices) and back; indices out of range",
  { "decoded by summing entries, which ignores how duplicates are stored in triplets" } };

using SM = Eigen::SparseMatrix<double>;
static std::vector<Var> X;
static const std::vector<double> KS = { -2.0, 0.0, 0.5, 2.0 };
struct Term { int v; double k; };
struct Aff { std::vector<Term> t; double c0; };
static AffExpr expr(const Aff& a)
{
  AffExpr e(a.c0);
  for (auto& t : a.t)
    e.vars.push_back(X[size_t(t.v)]), e.coeffs.push_back(t.k);
  return e;
}
static std::string show(const Aff& a)
{
  std::string s = str(a.c0);
  for (auto& t : a.t)
    s += str(" + ", t.k, " x", t.v);
  return s;
}
static std::vector<double> dense(const Aff& a, int n)
{
  std::vector<double> d(size_t(n), 0.0);
  for (auto& t : a.t)
    d[size_t(t.v)] += t.k;
  return d;
}
static std::vector<Aff> affs(int len, int nv, const std::vector<double>& ks)
{
  std::vector<Aff> r;
  int alpha = nv * int(ks.size()), total = 1;
  for (int i = 0; i < len; ++i)
    total *= alpha;
  for (int w = 0; w < total; ++w)
  {
    Aff a{ {}, w % 2 ? 1.5 : 0.0 };
    for (int i = 0, u = w; i < len; ++i, u /= alpha)
      a.t.push_back({ u % alpha % nv, ks[size_t(u % alpha / nv)] });
    r.push_back(a);
  }
  return r;
}
static SM dirty(int r, int c)
{
  SM m(r, c);
  for (int i = 0; i < std::min(r, c); ++i)
    m.insert(i, i) = 77;
  return m;
}
static void checkMatrix(Ctx& c, const SM& m, const std::vector<std::vector<double>>& want, const char* key, const std::function<std::string()>& what)
{
  c.transitions();
  size_t rows = want.size(), cols = rows ? want[0].size() : size_t(m.cols());
  c.checkf(m.rows() == int(rows) && m.cols() == int(cols), key, [&] { return str(what(), ": size ", m.rows(), "x", m.cols(), " for ", rows, "x", cols); });
  std::vector<std::vector<double>> got(rows, std::vector<double>(cols, 0.0));
  for (int k = 0; k < m.outerSize(); ++k)
    for (SM::InnerIterator it(m, k); it; ++it)
      got[size_t(it.row())][size_t(it.col())] += it.value();
  for (size_t i = 0; i < rows; ++i)
    for (size_t j = 0; j < cols; ++j)
      c.checkf(near(got[i][j], want[i][j], 1e-14), key, [&] { return str(what(), ": entry ", i, ",", j, " is ", got[i][j], ", expected ", want[i][j]); });
}
static void single(Ctx& c, const Aff& a, int n)
{
  auto w = dense(a, n);
  for (int used = 0; used < 2; ++used)
  {
    Eigen::SparseVector<double> v;
    if (used)
    {
      v.resize(5);
      v.insert(1) = 9;
      v.insert(4) = 9;
    }
    exprToEigen(expr(a), v, n);
    c.transitions();
    c.checkf(v.size() == n, "vector-size", [&] { return show(a); });
    double sum = 0;
    for (int i = 0; i < n; ++i)
      c.checkf(near(v.coeff(i), w[size_t(i)], 1e-14), "vector-entry", [&] { return str(show(a), ": entry ", i, " is ", v.coeff(i), ", expected ", w[size_t(i)]); });
    int last = -1;
    for (Eigen::SparseVector<double>::InnerIterator it(v); it; ++it)
    {
      c.checkf(int(it.index()) > last, "vector-order", [&] { return str(show(a), ": stored indices are not strictly increasing"); });
      last = int(it.index());
      sum += it.value();
    }
    double ws = 0;
    for (double k : w)
      ws += k;
    c.checkf(near(sum, ws, 1e-14), "vector-sum", [&] { return show(a); });
  }
}
static void list(Ctx& c, const std::vector<Aff>& l, int n)
{
  std::vector<std::vector<double>> w;
  AffExprVector e;
  auto what = [&] {
    std::string s = "rows";
    for (auto& a : l)
      s += " [" + show(a) + "]";
    return s;
  };
  for (auto& a : l)
    e.push_back(expr(a)), w.push_back(dense(a, n));
  for (int used = 0; used < 2; ++used)
  {
    SM m = used ? dirty(4, 2) : SM();
    Eigen::VectorXd b = Eigen::VectorXd::Constant(used ? 7 : 0, 3.0);
    exprToEigen(e, m, b, n);
    checkMatrix(c, m, w, "rows", what);
    c.checkf(b.size() == int(l.size()), "constants", [&] { return str(what(), ": ", b.size(), " constants"); });
    for (size_t i = 0; i < l.size(); ++i)
      c.checkf(b[int(i)] == -l[i].c0, "constants", [&] { return str(what(), ": right-hand side ", i, " is ", b[int(i)]); });
  }
}
struct Prod { int i, j; double k; };
static void quad(Ctx& c, const std::vector<Prod>& ps, const Aff& a, int n)
{
  QuadExpr q(expr(a));
  std::vector<std::vector<double>> w(size_t(n), std::vector<double>(size_t(n), 0.0));
  for (auto& p : ps)
  {
    q.vars1.push_back(X[size_t(p.i)]), q.vars2.push_back(X[size_t(p.j)]), q.coeffs.push_back(p.k);
    w[size_t(p.i)][size_t(p.j)] += p.k / 2;
    w[size_t(p.j)][size_t(p.i)] += p.k / 2;
  }
  auto wv = dense(a, n);
  for (int f = 0; f < 8; ++f)
  {
    bool halved = f & 1, diag = f & 2, used = f & 4;
    auto what = [&] {
      std::string s = show(a);
      for (auto& p : ps)
        s += str(" + ", p.k, " x", p.i, " x", p.j);
      return str(s, halved ? " halved" : "", diag ? " with diagonal" : "");
    };
    SM m = used ? dirty(2, 5) : SM();
    Eigen::VectorXd v = Eigen::VectorXd::Constant(used ? 7 : 0, 3.0);
    exprToEigen(q, m, v, n, halved, diag);
    auto ww = w;
    if (halved)
      for (auto& r : ww)
        for (double& k : r)
          k *= 2;
    checkMatrix(c, m, ww, "quadratic", what);
    c.checkf(v.size() == n, "linear-size", what);
    for (int i = 0; i < n; ++i)
      c.checkf(near(v[i], wv[size_t(i)], 1e-14), "linear", [&] { return str(what(), ": linear entry ", i, " is ", v[i], ", expected ", wv[size_t(i)]); });
    if (diag)
      for (int i = 0; i < n; ++i)
      {
        int stored = 0;
        for (SM::InnerIterator it(m, i); it; ++it)
          stored += it.row() == i;
        c.checkf(stored == 1, "forced-diagonal", [&] { return str(what(), ": diagonal entry ", i, " stored ", stored, " times"); });
      }
  }
}
template <int UL, class T>
static void csc(Ctx& c, const SM& in, const std::vector<std::vector<double>>& w, const char* name)
{
  SM m = in;
  for (int used = 0; used < 2; ++used)
  {
    std::vector<T> ri(used ? 9 : 0, T(5)), cp(used ? 2 : 0, T(5));
    DblVec val(used ? 9 : 0, 5.0);
    eigenToCSC<UL>(m, ri, cp, val);
    c.transitions();
    auto what = [&] { return str(name, " ", sizeof(T) * 8, " bit of ", Eigen::MatrixXd(in).reshaped().transpose()); };
    c.checkf(cp.size() == size_t(in.cols()) + 1 && cp[0] == 0 && size_t(cp.back()) == val.size() && ri.size() == val.size(), "csc-shape", what);
    std::vector<std::vector<double>> got(w.size(), std::vector<double>(w[0].size(), 0.0));
    for (size_t j = 0; j + 1 < cp.size(); ++j)
    {
      c.checkf(cp[j] <= cp[j + 1], "csc-shape", what);
      for (T k = cp[j]; k < cp[j + 1]; ++k)
      {
        c.checkf(ri[size_t(k)] >= 0 && ri[size_t(k)] < T(w.size()), "csc-row", what);
        c.checkf(k == cp[j] || ri[size_t(k - 1)] < ri[size_t(k)], "csc-order", what);
        got[size_t(ri[size_t(k)])][j] += val[size_t(k)];
      }
    }
    for (size_t i = 0; i < w.size(); ++i)
      for (size_t j = 0; j < w[0].size(); ++j)
      {
        double e = (UL == Eigen::Upper && i > j) || (UL == Eigen::Lower && i < j) ? 0 : w[i][j];
        c.checkf(got[i][j] == e, "csc-entry", [&] { return str(what(), ": ", i, ",", j, " is ", got[i][j]); });
      }
  }
  checkMatrix(c, m, w, "csc-input", [&] { return std::string("matrix after conversion"); });
}
static void matrices(Ctx& c, int r, int n, int lo, int hi)
{
  const double V[3] = { 0, 1, -2 };
  for (int code = lo; code < hi; ++code)
    for (int form = 0; form < 2; ++form)
    {
      SM m(r, n);
      std::vector<std::vector<double>> w(size_t(r), std::vector<double>(size_t(n), 0.0));
      IntVec I, J;
      DblVec K;
      for (int i = 0, u = code; i < r * n; ++i, u /= 3)
      {
        double k = V[u % 3];
        int row = (i * 7 + 3) % (r * n) / n, col = (i * 7 + 3) % (r * n) % n;   // not in storage order (7 is coprime to the sizes used)
        w[size_t(row)][size_t(col)] = k;
        if (k != 0 || form)
          m.insert(row, col) = k;     // form 1: zeros stored explicitly
        if (k != 0)
          I.push_back(row), J.push_back(col), K.push_back(k / 2), I.push_back(row), J.push_back(col), K.push_back(k / 2);
      }
      if (code % 2)
        m.makeCompressed();
      csc<0, int>(c, m, w, "full");
      csc<0, long long>(c, m, w, "full");
      csc<Eigen::Upper, int>(c, m, w, "upper");
      csc<Eigen::Upper, long long>(c, m, w, "upper");
      csc<Eigen::Lower, int>(c, m, w, "lower");
      IntVec i2, j2;
      DblVec k2;
      eigenToTriplets(m, i2, j2, k2);
      c.checkf(i2.size() == j2.size() && j2.size() == k2.size() && i2.size() == size_t(m.nonZeros()), "triplets", [&] { return str("matrix #", code); });
      SM back(r, n), doubled(r, n);
      tripletsToEigen(i2, j2, k2, back);
      checkMatrix(c, back, w, "triplets-back", [&] { return str("matrix #", code, " of ", r, "x", n); });
      tripletsToEigen(I, J, K, doubled);
      checkMatrix(c, doubled, w, "triplets-sum", [&] { return str("matrix #", code, " of ", r, "x", n, " as halves"); });
      doubled = dirty(r, n);
      tripletsToEigen(I, J, K, doubled);
      checkMatrix(c, doubled, w, "triplets-sum", [&] { return str("matrix #", code, " of ", r, "x", n, " into a used matrix"); });
      c.outcome(Hash().raw(w[0].data(), sizeof(double) * size_t(n)).raw(w[size_t(r) - 1].data(), sizeof(double) * size_t(n)));
    }
}
void mc::explore(Ctx& c)
{
  for (int i = 0; i < 4; ++i)
    X.push_back(Var(std::make_shared<VarRep>(size_t(i), str("x", i), nullptr)));
  for (int n : { 3, 4 })
    for (int len = 0; len <= (c.thorough ? 5 : 4); ++len)
      c.item([=] { return str("affine expressions of ", len, " terms, ", n, " variables"); }, [=, &c] {
        for (auto& a : affs(len, 3, KS))
          single(c, a, n), list(c, { a }, n), c.state(Hash().s(show(a)));
        list(c, {}, n);
      });
  auto l2 = affs(2, 3, KS), l1 = affs(1, 3, KS);
  for (size_t i = 0; i < l2.size(); ++i)
    c.item([=] { return str("lists starting with ", show(l2[i])); }, [=, &c] {
      for (auto& b : l2)
      {
        list(c, { l2[i], b }, 3);
        for (auto& d : l1)
          list(c, { l2[i], d, b }, c.thorough ? 4 : 3);
        c.traces(1 + l1.size());
      }
    });
  std::vector<Prod> prods;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j)
      for (double k : { -1.0, 0.0, 2.0 })
        prods.push_back({ i, j, k });
  for (size_t i = 0; i < prods.size(); ++i)
    c.item([=] { return str("quadratics starting with product #", i); }, [=, &c] {
      auto two = affs(2, 3, { -2.0, 0.5 });
      for (auto& a : two)
        quad(c, { prods[i] }, a, 3);
      if (i == 0)
        for (auto& a : l2)
          quad(c, {}, a, 4);
      for (auto& q : prods)
      {
        for (auto& a : l1)
          quad(c, { prods[i], q }, a, 3 + int(c.thorough));
        for (auto& r : prods)
          for (size_t k = 0; k < (c.thorough ? l1.size() : 1); ++k)
            quad(c, { prods[i], q, r }, l1[(k + 5) % l1.size()], 3);
      }
      c.state(Hash().u(i).u(3));
    });
  for (int b = 0; b < 27; ++b)
    c.item([=] { return str("3x3 matrices ", b * 729, " to ", b * 729 + 728); }, [=, &c] { matrices(c, 3, 3, b * 729, b * 729 + 729); });
  c.item([] { return std::string("rectangular matrices"); }, [&c] {
    matrices(c, 2, 3, 0, 729), matrices(c, 3, 2, 0, 729), matrices(c, 1, 4, 0, 81), matrices(c, 4, 1, 0, 81), matrices(c, 1, 1, 0, 3);
  });
  c.item([] { return std::string("indices out of range"); }, [&c] {
    for (int n = 0; n <= 3; ++n)
      for (auto& a : affs(2, 4, { 1.0, 0.0 }))
      {
        bool out = a.t[0].v >= n || a.t[1].v >= n, must = (a.t[0].v >= n && a.t[0].k != 0) || (a.t[1].v >= n && a.t[1].k != 0);
        for (int kind = 0; kind < 3; ++kind)
        {
          bool threw = false;
          try
          {
            Eigen::SparseVector<double> v;
            SM m;
            Eigen::VectorXd b;
            if (kind == 0)
              exprToEigen(expr(a), v, n);
            else if (kind == 1)
              exprToEigen(AffExprVector{ AffExpr(1.0), expr(a) }, m, b, n);
            else
              exprToEigen(QuadExpr(expr(a)), m, b, n);
          }
          catch (const std::runtime_error&)
          {
            threw = true;
          }
          c.transitions();
          c.checkf(must ? threw : out || !threw, "range", [&] { return str(show(a), " with ", n, " variables: ", threw ? "refused" : "accepted"); });
        }
      }
  });
}
