// P02: the joint-space and time terms of a problem description: which steps, which joints, which limits, which kind of penalty.
#include <mc/mc.hpp>
#include <common/problem.hpp>
using namespace mc;
using namespace rob;
using namespace trajopt;
const CheckInfo mc::info = { "P02", "exploration",
  "position, velocity, acceleration and jerk terms as cost and constraint, described and from JSON, in problems of 1..5 steps (thorough 6) of 1 and 2 joints, with and without a time column: every first step 0..n and last step -2..n, "
  "6 settings of limits and weights; every combination of parameter lengths (none, one, one per joint, one too many) of weights, targets, upper and lower limits; velocity terms in time; total time; unknown and missing parameters; "
  "each term judged by value, violations and convex model (exact, or to first order in every direction) over a set of trajectories",
  { "robot and environment are stand-ins behind tesseract's interfaces", "weights are not negative, lower limits are not above upper ones", "the first step is not negative and a velocity term has at least two steps (as the code asserts)" } };
namespace
{
const char* kType[] = { "joint_pos", "joint_vel", "joint_acc", "joint_jerk" };
const std::vector<std::vector<double>> stencil = { { 1 }, { -1, 1 }, { 1, -2, 1 }, { -1, 3, -3, 1 } };
struct Params { DblVec w, t, up, lo; };
template <class T>
TermInfo::Ptr termOf(const Params& p, int first, int last)
{
  auto t = std::make_shared<T>();
  t->coeffs = p.w, t->targets = p.t, t->upper_tols = p.up, t->lower_tols = p.lo, t->first_step = first, t->last_step = last;
  return t;
}
TermInfo::Ptr term(int order, const Params& p, int first, int last)
{
  return order == 0 ? termOf<JointPosTermInfo>(p, first, last) : order == 1 ? termOf<JointVelTermInfo>(p, first, last) : order == 2 ? termOf<JointAccTermInfo>(p, first, last) : termOf<JointJerkTermInfo>(p, first, last);
}
Json::Value termJson(int order, const Params& p, int first, int last)
{
  Json::Value v;
  v["type"] = kType[order];
  auto& q = v["params"];
  q["targets"] = json(p.t);
  if (!p.w.empty()) q["coeffs"] = json(p.w);
  if (!p.up.empty()) q["upper_tols"] = json(p.up);
  if (!p.lo.empty()) q["lower_tols"] = json(p.lo);
  if (first != 0) q["first_step"] = first;
  if (last > -1) q["last_step"] = last;
  return v;
}
// the steps a term covers; false: refused
bool steps(int order, int n, int& first, int& last)
{
  if (last <= -1) last = n - 1;
  first = std::min(first, n - 1 - order);
  last = std::min(last, n - 1);
  if (last == first) last = std::min(last + (order == 3 ? 4 : order), n - 1);
  if (last < first) std::swap(first, last);
  return first >= 0 && last - first >= order;
}
bool extend(DblVec& v, int dof, double def)
{
  if (v.empty()) v.assign(size_t(dof), def);
  if (v.size() == 1) v.assign(size_t(dof), v[0]);
  return int(v.size()) == dof;
}
VectorXd eigen(const DblVec& v) { return Eigen::Map<const VectorXd>(v.data(), long(v.size())); }
bool isZero(const DblVec& v)
{
  for (double d : v)
    if (std::fabs(d) > 1e-5) return false;
  return true;
}
// the wanted term of finite differences, without time
Want wanted(const std::string& name, bool cost, int order, const Params& p, int first, int last, int dof, int cols)
{
  const bool eq = isZero(p.up) && isZero(p.lo);
  Want w{ name, cost, eq ? Pen::SQUARED : Pen::HINGE, eq, nullptr, VectorXd() };
  std::vector<double> k;
  for (int i = first; i + order <= last; ++i)
    for (int j = 0; j < dof; ++j)
      for (int s = 0; s < (eq ? 1 : 2); ++s) k.push_back(p.w[size_t(j)]);
  w.w = eigen(k);
  w.err = [=](const DblVec& x) {
    std::vector<double> e;
    for (int i = first; i + order <= last; ++i)
      for (int j = 0; j < dof; ++j)
      {
        double d = -p.t[size_t(j)];
        for (int s = 0; s <= order; ++s) d += stencil[size_t(order)][size_t(s)] * x[size_t((i + s) * cols + j)];
        if (eq)
          e.push_back(d);
        else
          e.push_back(d - p.up[size_t(j)]), e.push_back(p.lo[size_t(j)] - d);
      }
    return eigen(e);
  };
  return w;
}
std::vector<DblVec> points(int n, int dof, bool time, int count)
{
  std::vector<DblVec> r;
  for (int k = 0; k < count; ++k)
  {
    DblVec x;
    for (int i = 0; i < n; ++i)
    {
      for (int j = 0; j < dof; ++j)
        x.push_back(k == 0 ? 0 : k == 1 ? 0.25 * i * i - 0.5 * j : k == 2 ? (i + j) % 2 ? 0.75 : -1.25 : k == 3 ? -0.125 * i * i * i + 0.25 * j + 0.1 : i == k % n ? 2 - j : 0.3);
      if (time) x.push_back(0.5 + 0.25 * ((i * 3 + k) % 5));
    }
    r.push_back(x);
  }
  return r;
}
void ranges(Ctx& c, int order, const std::string& g, int n, bool time)
{
  const int dof = int(group(g)->numJoints());
  auto cut = [&](DblVec v) { v.resize(size_t(dof)); return v; };
  const std::vector<Params> sets = {
    { { 1, 1 }, { 0, 0 }, { 0, 0 }, { 0, 0 } }, { { 2, 0.5 }, { 0.25, -1 }, { 0, 0 }, { 0, 0 } }, { { 3, 0 }, { 0.5, 0.125 }, { 0.5, 0.25 }, { 0, 0 } },
    { { 0.5, 7 }, { -0.25, 0.5 }, { 0, 0 }, { -0.5, -1 } }, { { 2, 1.5 }, { 0.1, 0 }, { 0.75, 2 }, { -0.25, 0.5 } }, { { 1, 2 }, { 0, 0.5 }, { 0, 0.5 }, { 0, 0 } } };
  for (int first = 0; first <= n; ++first)
    for (int last = -2; last <= n; ++last)
      for (bool cost : { true, false })
        for (size_t s = 0; s < sets.size(); ++s)
        {
          c.beat();
          Params p{ cut(sets[s].w), cut(sets[s].t), cut(sets[s].up), cut(sets[s].lo) };
          int f = first, l = last;
          const bool fine = steps(order, n, f, l);
          judgeDescription(c, g, n, time, cost, false, fine, [&] { return term(order, p, first, last); }, [&] { return termJson(order, p, first, last); },
                [&] { return std::vector<Want>{ wanted("the term", cost, order, p, f, l, dof, dof + time) }; }, 0, points(n, dof, time, c.thorough ? 6 : 3),
                [=] { return str(kType[order], cost ? " cost" : " constraint", ", ", g, ", ", n, " steps", time ? " with time" : "", ", steps ", first, "..", last, ", setting ", s); });
        }
}
void lengths(Ctx& c, int order, const std::string& g)
{
  const int dof = int(group(g)->numJoints()), n = 4 + (order == 3);
  auto list = [&](int len, double a) {
    DblVec v;
    for (int i = 0; i < (len == 3 ? dof + 1 : len == 2 ? dof : len); ++i) v.push_back(a + 0.25 * i);
    return v;
  };
  for (int m = 0; m < 256; ++m)
    for (bool cost : { true, false })
    {
      c.beat();
      Params p{ list(m & 3, 0.5), list(m >> 2 & 3, -0.25), list(m >> 4 & 3, 0.5), list(m >> 6 & 3, -1) }, e = p;
      bool fine = !p.t.empty();
      fine = extend(e.w, dof, 1) && fine;
      fine = extend(e.t, dof, 0) && fine;
      fine = extend(e.up, dof, 0) && fine;
      fine = extend(e.lo, dof, 0) && fine;
      judgeDescription(c, g, n, false, cost, false, fine, [&] { return term(order, p, 0, -1); }, [&] { return termJson(order, p, 0, -1); },
            [&] { return std::vector<Want>{ wanted("the term", cost, order, e, 0, n - 1, dof, dof) }; }, 0, points(n, dof, false, 3),
            [=] { return str(kType[order], cost ? " cost" : " constraint", ", ", g, ", lengths of weights, targets, upper, lower ", p.w.size(), ", ", p.t.size(), ", ", p.up.size(), ", ", p.lo.size()); });
    }
}
// velocities with the time between the steps
void velocity(Ctx& c, const std::string& g, int n)
{
  const int dof = int(group(g)->numJoints()), cols = dof + 1;
  auto cut = [&](DblVec v) { v.resize(size_t(dof)); return v; };
  const std::vector<Params> sets = { { { 1, 1 }, { 0, 0 }, { 0, 0 }, { 0, 0 } }, { { 2, 0.5 }, { 0.25, -1 }, { 0, 0 }, { 0, 0 } }, { { 3, 0.25 }, { 0.5, 0.125 }, { 0.5, 0.25 }, { 0, 0 } }, { { 2, 1.5 }, { 0.1, 0 }, { 0.75, 2 }, { -0.25, 0.5 } } };
  for (int first = 0; first <= n; ++first)
    for (int last = -2; last <= n; ++last)
      for (bool cost : { true, false })
        for (size_t s = 0; s < sets.size(); ++s)
          for (bool extra : { false, true })
          {
            c.beat();
            Params p{ cut(sets[s].w), cut(sets[s].t), cut(sets[s].up), cut(sets[s].lo) };
            int f = first, l = last;
            const bool fine = steps(1, n, f, l), eq = isZero(p.up) && isZero(p.lo);
            auto wants = [&] {
              std::vector<Want> ws;
              for (int j = 0; j < dof; ++j)
              {
                Want w{ str("the term_j", j), cost, eq ? Pen::SQUARED : Pen::HINGE, eq, nullptr, VectorXd::Constant(2 * (l - f), p.w[size_t(j)]) };
                w.err = [=](const DblVec& x) {
                  VectorXd e(2 * (l - f));
                  for (int i = f; i < l; ++i)
                  {
                    const double v = (x[size_t((i + 1) * cols + j)] - x[size_t(i * cols + j)]) * x[size_t((i + 1) * cols + dof)] - p.t[size_t(j)];
                    e[i - f] = v - p.up[size_t(j)], e[l - f + i - f] = p.lo[size_t(j)] - v;
                  }
                  return e;
                };
                ws.push_back(w);
              }
              return ws;
            };
            auto what = [=] { return str("joint_vel in time", cost ? " cost" : " constraint", ", ", g, ", ", n, " steps, steps ", first, "..", last, ", setting ", s, extra ? ", total time as well" : ""); };
            if (extra)
              judgeDescription(c, g, n, true, cost, true, fine, [&] { return term(1, p, first, last); }, [&] { return termJson(1, p, first, last); }, wants, 0, points(n, dof, true, 1), what);
            else
            {
              // the term alone makes the problem one with time
              auto pci = start(g, n);
              pci.basic_info.use_time = true;
              TermInfo::Ptr t = term(1, p, first, last);
              t->name = "the term", t->term_type = (cost ? TermType::TT_COST : TermType::TT_CNT) | TermType::TT_USE_TIME;
              (cost ? pci.cost_infos : pci.cnt_infos).push_back(t);
              auto js = startJson(g, n);
              Json::Value tj = termJson(1, p, first, last);
              tj["name"] = "the term", tj["use_time"] = true;
              js[cost ? "costs" : "constraints"].append(tj);
              for (bool fromJson : { false, true })
              {
                TrajOptProb::Ptr q;
                const bool refused = refuses([&] { q = fromJson ? ConstructProblem(js, env()) : ConstructProblem(pci); });
                c.checkf(refused == !fine, refused ? "refused" : "accepted", what);
                if (!refused && fine) judgeTerms(c, *q, wants(), 0, points(n, dof, true, fromJson ? 4 : 2), 1e-4, what);
              }
            }
          }
}
void totalTime(Ctx& c, const std::string& g, int n)
{
  const int dof = int(group(g)->numJoints()), cols = dof + 1;
  for (double coeff : { 1.0, 0.25, 6.0 })
    for (double limit : { 0.0, 0.5, 1.0, 3.0, -1.0 })
      for (bool cost : { true, false })
        for (bool dflt : { false, true })
        {
          const double k = dflt ? 1 : coeff, l = dflt ? 1 : limit;   // JSON without parameters
          auto make = [&](double kk, double ll, const char* name) {
            auto t = std::make_shared<TotalTimeTermInfo>();
            t->coeff = kk, t->limit = ll, t->name = name, t->term_type = (cost ? TermType::TT_COST : TermType::TT_CNT) | TermType::TT_USE_TIME;
            return t;
          };
          auto pci = start(g, n);
          pci.basic_info.use_time = true;
          (cost ? pci.cost_infos : pci.cnt_infos).push_back(make(k, l, "tt"));
          auto js = startJson(g, n);
          Json::Value t;
          t["type"] = "total_time", t["use_time"] = true, t["params"] = Json::objectValue, t["name"] = "tt";
          if (!dflt) t["params"]["coeff"] = coeff, t["params"]["limit"] = limit;
          js[cost ? "costs" : "constraints"].append(t);
          const bool eq = l == 0;
          Want w{ "tt", cost, eq ? Pen::SQUARED : Pen::HINGE, eq, nullptr, VectorXd::Constant(1, k) };
          w.err = [=](const DblVec& x) {
            double s = -l;
            for (int i = 1; i < n; ++i) s += 1 / x[size_t(i * cols + dof)];
            return VectorXd(VectorXd::Constant(1, s));
          };
          auto what = [&] { return str("total_time", cost ? " cost" : " constraint", ", ", g, ", ", n, " steps, weight ", k, ", limit ", l); };
          c.state(Hash().s(what()).h);
          for (auto p : { ConstructProblem(pci), ConstructProblem(js, env()) }) judgeTerms(c, *p, { w }, 0, points(n, dof, true, 5), 1e-4, what);
        }
}
void odds(Ctx& c)
{
  auto base = [](int order) { return termJson(order, { { 1 }, { 0.5 }, { 0.25 }, { -0.25 } }, 0, 3); };
  auto refusal = [&](const Json::Value& t, bool fine, const std::string& what) {
    for (const char* list : { "costs", "constraints" })
    {
      auto js = startJson("pair", 4);
      js[list].append(t);
      const bool refused = refuses([&] { ConstructProblem(js, env()); });
      c.transitions(), c.traces(), c.state(Hash().s(what).s(list).h);
      c.checkf(refused == !fine, refused ? "json-refused" : "json-accepted", [&] { return str(list, ": ", what); });
    }
  };
  for (int o = 0; o < 4; ++o)
  {
    refusal(base(o), true, kType[o]);
    for (auto key : { "foo", "Coeffs", "target", "upper", "" })
    {
      auto t = base(o);
      t["params"][key] = 1;
      refusal(t, false, str(kType[o], " with unknown parameter '", key, "'"));
    }
    for (auto key : { "coeffs", "targets", "upper_tols", "lower_tols", "first_step", "last_step" })
    {
      auto t = base(o);
      t["params"].removeMember(key);
      refusal(t, std::string(key) != "targets", str(kType[o], " without ", key));
      t["params"][key] = "x";
      refusal(t, false, str(kType[o], " with a word for ", key));
    }
    auto t = base(o);
    t.removeMember("params");
    refusal(t, false, str(kType[o], " without parameters"));
  }
  Json::Value t;
  t["type"] = "total_time", t["use_time"] = true;
  refusal(t, false, "total_time without parameters");
  t["params"] = Json::objectValue;
  refusal(t, true, "total_time");
  t["params"]["foo"] = 1;
  refusal(t, false, "total_time with an unknown parameter");
  // accelerations and jerks in time are not supported, positions do not depend on it
  for (int o : { 2, 3 })
  {
    t = base(o);
    t["use_time"] = true;
    refusal(t, false, str(kType[o], " in time"));
  }
  for (bool cost : { true, false })
  {
    const Params p{ { 1, 2 }, { 0.5, -0.5 }, { 0.25, 0.5 }, { -0.25, 0 } };
    judgeDescription(c, "pair", 4, true, cost, true, true, [&] { return term(0, p, 1, 2); }, [&] { return termJson(0, p, 1, 2); }, [&] { return std::vector<Want>{ wanted("the term", cost, 0, p, 1, 2, 2, 3) }; }, 0, points(4, 2, true, 5),
          [] { return std::string("joint_pos in time"); });
  }
  // neither cost nor constraint: nothing is added
  for (int o = 0; o < 4; ++o)
    for (bool cnts : { false, true })
    {
      auto p = start("pair", 5);
      auto t = term(o, { { 1 }, { 0 }, {}, {} }, 0, -1);
      t->term_type = TermType::TT_INVALID;
      (cnts ? p.cnt_infos : p.cost_infos).push_back(t);
      auto q = ConstructProblem(p);
      c.checkf(q->getNumCosts() == 0 && q->getNumConstraints() == 0, "kind-less", [&] { return str(kType[o], " of no kind"); });
    }
  for (bool flag : { false, true })
  {
    auto p = start("pair", 3);
    auto t = std::make_shared<TotalTimeTermInfo>();
    t->term_type = flag ? TermType::TT_USE_TIME : TermType::TT_INVALID;
    p.basic_info.use_time = flag;
    p.cost_infos.push_back(t);
    c.checkf(refuses([&] { ConstructProblem(p); }), "kind-less", [] { return std::string("total_time of no kind"); });
  }
}
}  // namespace
void mc::explore(Ctx& c)
{
  for (int order = 0; order < 4; ++order)
  {
    for (std::string g : { "turn", "pair" })
    {
      for (int n = 1; n <= (c.thorough ? 7 : 5); ++n)
        for (bool time : { false, true })
          if (order != 1 || n > 1)
            c.item([=] { return str(kType[order], ", ", g, ", ", n, " steps", time ? " with time" : ""); }, [=, &c] { WireOn w; ranges(c, order, g, n, time); });
      c.item([=] { return str("lengths of parameters, ", kType[order], ", ", g); }, [=, &c] { WireOn w; lengths(c, order, g); });
    }
  }
  for (std::string g : { "turn", "pair" })
    for (int n = 2; n <= (c.thorough ? 5 : 4); ++n)
    {
      c.item([=] { return str("velocity in time, ", g, ", ", n, " steps"); }, [=, &c] { WireOn w; velocity(c, g, n); });
      c.item([=] { return str("total time, ", g, ", ", n, " steps"); }, [=, &c] { WireOn w; totalTime(c, g, n); });
    }
  c.item([] { return std::string("odds and ends"); }, [&] { WireOn w; odds(c); });
}
