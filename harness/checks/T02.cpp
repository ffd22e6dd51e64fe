// T02: trajectory variable arrays and named subsets of joint values.
#include <mc/mc.hpp>
#include <trajopt/utils.hpp>
#include <trajopt_sco/modeling.hpp>
#include <trajopt_sco/bpmpd_interface.hpp>
#include <set>
using namespace mc;
using V = Eigen::VectorXd;
extern "C" bool wire_on;
const CheckInfo mc::info = { "T02", "exploration",
  "every sequence of up to 2 (thorough 3) additions of 1 to 3 variable arrays with 0 to 4 rows and 0 to 3 columns to problems with 0 to 2 variables; "
  "every list of up to 4 (thorough 5) different names against every list of up to 4 (subset, with repetitions) of the same names and an unknown one", { "the names of a superset differ from each other" } };
namespace
{
using Names = std::vector<std::string>;
std::string list(const Names& n)
{
  std::string r;
  for (auto& s : n) r += s + ",";
  return r;
}
void lists(const Names& alphabet, size_t max, bool repeat, const std::function<void(const Names&)>& f, Names cur = {})
{
  f(cur);
  if (cur.size() == max) return;
  for (auto& a : alphabet)
  {
    if (!repeat && std::find(cur.begin(), cur.end(), a) != cur.end()) continue;
    cur.push_back(a);
    lists(alphabet, max, repeat, f, cur);
    cur.pop_back();
  }
}
struct Add
{
  int rows;
  std::vector<int> cols;
  std::string text() const
  {
    std::string s = str(rows, "x(");
    for (int k : cols) s += str(k, " ");
    return s + ")";
  }
};
std::vector<Add> adds()
{
  std::vector<Add> r;
  for (int rows = 0; rows <= 4; ++rows)
    for (int n = 1; n <= 3; ++n)
      for (int code = 0; code < (n == 1 ? 4 : n == 2 ? 16 : 64); ++code)
      {
        Add a{ rows, {} };
        for (int k = 0, x = code; k < n; ++k, x /= 4) a.cols.push_back(x % 4);
        r.push_back(a);
      }
  return r;
}
void arrays(Ctx& c, int before, const std::vector<Add>& seq)
{
  sco::OptProb prob(sco::ModelType(sco::ModelType::BPMPD));
  Names first;
  for (int i = 0; i < before; ++i) first.push_back(str("free", i));
  if (before) prob.createVariables(first);
  Names names = first;
  struct Placed { int rows, cols; std::vector<int> at; trajopt::VarArray arr; };
  std::vector<Placed> placed;
  auto what = [&] {
    std::string s = str(before, " variables");
    for (auto& a : seq) s += ", " + a.text();
    return s;
  };
  int call = 0;
  for (auto& a : seq)
  {
    Names prefix;
    for (size_t k = 0; k < a.cols.size(); ++k) prefix.push_back(str("p", call, char('a' + k)));
    std::vector<Placed> now;
    for (size_t k = 0; k < a.cols.size(); ++k) now.push_back({ a.rows, a.cols[k], std::vector<int>(size_t(a.rows * a.cols[k])), {} });
    for (int i = 0; i < a.rows; ++i)
      for (size_t k = 0; k < a.cols.size(); ++k)
        for (int j = 0; j < a.cols[k]; ++j)
        {
          now[k].at[size_t(i * a.cols[k] + j)] = int(names.size());
          names.push_back(str(prefix[k], "_", i, "_", j));
        }
    std::vector<trajopt::VarArray*> ptr;
    for (auto& p : now) ptr.push_back(&p.arr);
    if (a.cols.size() == 1 && call % 2 == 0)
      trajopt::AddVarArray(prob, a.rows, a.cols[0], prefix[0], now[0].arr);
    else
      trajopt::AddVarArrays(prob, a.rows, a.cols, prefix, ptr);
    c.transitions();
    for (auto& p : now) placed.push_back(p);
    ++call;
  }
  c.checkf(prob.getNumVars() == int(names.size()), "count", what);
  for (size_t k = 0; k < names.size(); ++k) c.checkf(prob.getVars()[k].var_rep->name == names[k], "name", [&] { return str(what(), ": ", k, " is ", prob.getVars()[k].var_rep->name, ", expected ", names[k]); });
  trajopt::DblVec x;
  for (size_t k = 0; k < names.size(); ++k) x.push_back(1.5 + 3.25 * double(k * k));
  for (auto& p : placed)
  {
    c.checkf(p.arr.rows() == p.rows && p.arr.cols() == p.cols, "shape", what);
    auto t = trajopt::getTraj(x, p.arr);
    c.checkf(t.rows() == p.rows && t.cols() == p.cols, "shape", what);
    trajopt::AffArray aff;
    aff.resize(p.rows, p.cols);
    for (int i = 0; i < p.rows; ++i)
      for (int j = 0; j < p.cols; ++j)
      {
        int k = p.at[size_t(i * p.cols + j)];
        c.checkf(p.arr(i, j).var_rep == prob.getVars()[size_t(k)].var_rep, "cell", [&] { return str(what(), ": cell ", i, ",", j, " is ", p.arr(i, j).var_rep->name, ", expected ", names[size_t(k)]); });
        c.checkf(t(i, j) == x[size_t(k)], "value", [&] { return str(what(), ": cell ", i, ",", j); });
        aff(i, j) = sco::AffExpr(p.arr(i, j));
        aff(i, j).coeffs[0] = 2;
        aff(i, j).constant = i - 10 * j;
      }
    auto u = trajopt::getTraj(x, aff);
    trajopt::DblVec flat = trajopt::trajToDblVec(t);
    c.checkf(u.rows() == p.rows && u.cols() == p.cols && flat.size() == p.at.size(), "shape", what);
    for (int i = 0; i < p.rows; ++i)
      for (int j = 0; j < p.cols; ++j)
      {
        double e = x[size_t(p.at[size_t(i * p.cols + j)])];
        c.checkf(u(i, j) == 2 * e + i - 10 * j, "expression", [&] { return str(what(), ": cell ", i, ",", j); });
        c.checkf(flat[size_t(i * p.cols + j)] == e, "flat", [&] { return str(what(), ": cell ", i, ",", j); });
      }
    c.transitions(3);
    c.outcome(Hash().u(uint64_t(p.rows)).u(uint64_t(p.cols)).u(p.at.empty() ? 0 : uint64_t(p.at.back())).h);
  }
  c.traces();
}
void subsets(Ctx& c, const Names& super, const Names& sub, bool known, bool distinct)
{
  auto what = [&] { return str("{", list(super), "} with {", list(sub), "}"); };
  V sv(long(super.size())), uv(long(sub.size()));
  for (long i = 0; i < sv.size(); ++i) sv[i] = 10 + i;
  for (long i = 0; i < uv.size(); ++i) uv[i] = -1 - i;
  // out of the larger set
  {
    V out = V::Constant(uv.size(), 99), keep = sv;
    bool ok = trajopt::getSubset(super, sv, sub, out);
    c.checkf(ok == known, known ? "extract-failed" : "extract-unknown", what);
    for (long i = 0; i < uv.size(); ++i)
    {
      double e = known ? sv[std::find(super.begin(), super.end(), sub[size_t(i)]) - super.begin()] : 99;
      c.checkf(out[i] == e, known ? "extract" : "extract-touched", [&] { return str(what(), " gives ", vec(out)); });
    }
    c.checkf(keep == sv, "superset-changed", what);
  }
  // into the larger set
  for (int alias = 0; alias < 2; ++alias)
  {
    V out = alias ? sv : V::Constant(sv.size(), 99);
    bool ok = alias ? trajopt::updateFromSubset(super, out, sub, uv, out) : trajopt::updateFromSubset(super, sv, sub, uv, out);
    c.checkf(ok == known, known ? "update-failed" : "update-unknown", what);
    for (long i = 0; known && i < sv.size(); ++i)
    {
      std::set<double> allowed;
      for (size_t k = 0; k < sub.size(); ++k)
        if (sub[k] == super[size_t(i)]) allowed.insert(uv[long(k)]);
      if (allowed.empty()) allowed = { sv[i] };
      c.checkf(allowed.count(out[i]), "update", [&] { return str(what(), alias ? " in place" : "", " gives ", vec(out)); });
    }
  }
  if (distinct)
    c.checkf(trajopt::isSuperset(sub, super) == (known && super.size() > sub.size()), "superset", what);
  c.transitions(4);
  c.traces();
  c.state(Hash().s(list(super)).s(list(sub)).h);
  c.outcome(Hash().u(known).u(distinct).u(super.size()).u(sub.size()).h);
}
}  // namespace
void mc::explore(Ctx& c)
{
  auto A = adds();
  for (int before = 0; before <= 2; ++before)
    for (size_t i = 0; i < A.size(); ++i)
      c.item([=] { return str(before, " variables, adding ", A[i].text()); }, [=, &c] {
        wire_on = true;
        arrays(c, before, { A[i] });
        c.state(Hash().u(before).u(i).h);
        if (before < 2)
          for (size_t j = 0; j < A.size(); ++j)
          {
            if (!c.thorough && (A[i].cols.size() == 3 || A[j].cols.size() == 3 || A[j].rows == 4)) continue;
            arrays(c, before, { A[i], A[j] });
            c.state(Hash().u(before).u(i).u(j).h);
            for (size_t k = 0; k < A.size(); ++k)
            {
              if (!c.thorough || before || A[i].cols.size() + A[j].cols.size() + A[k].cols.size() > 4 || A[i].rows > 2 || A[j].rows > 2 || A[k].rows > 2) continue;
              arrays(c, before, { A[i], A[j], A[k] });
            }
          }
        wire_on = false;
      });
  Names alphabet = { "joint_1", "joint_10", "b", "", "joint" };
  size_t max = c.thorough ? 5 : 4;
  Names with = alphabet;
  with.push_back("B");
  lists(alphabet, max, false, [&](const Names& super) {
    c.item([=] { return "names {" + list(super) + "}"; }, [=, &c] {
      std::cout.setstate(std::ios::failbit);   // the functions print what they do not find
      lists(with, 4, true, [&](const Names& sub) {
        bool known = true;
        for (auto& s : sub) known &= std::find(super.begin(), super.end(), s) != super.end();
        subsets(c, super, sub, known, std::set<std::string>(sub.begin(), sub.end()).size() == sub.size());
      });
    });
  });
}
