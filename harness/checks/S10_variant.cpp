// The solver interface of the repository compiled with one set of solvers (SET, a bit mask), in a namespace of its own.
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#include <array>
#include <cmath>
#include <cstdlib>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <boost/format.hpp>
#include <json/json.h>
#include <Eigen/Eigen>
#define sco CAT(sco_set, SET)
#if SET & 1
#define HAVE_GUROBI ON
#endif
#if SET & 2
#define HAVE_OSQP ON
#endif
#if SET & 4
#define HAVE_QPOASES ON
#endif
#if SET & 8
#define HAVE_BPMPD ON
#endif
#include SOURCE
#include "S10.hpp"
namespace sco
{
static std::string made;
static const ModelConfig* configured;
static Model::Ptr stub(const char* n) { made = n; return Model::Ptr(reinterpret_cast<Model*>(&made), [](Model*) {}); }
Model::Ptr createGurobiModel() { return stub("GUROBI"); }
Model::Ptr createOSQPModel(const ModelConfig::ConstPtr& config) { configured = config.get(); return stub("OSQP"); }
Model::Ptr createqpOASESModel() { return stub("QPOASES"); }
Model::Ptr createBPMPDModel() { return stub("BPMPD"); }
struct Access : SolverNames
{
  static int value(int i) { const ModelType::Value V[] = { ModelType::GUROBI, ModelType::OSQP, ModelType::QPOASES, ModelType::BPMPD, ModelType::AUTO_SOLVER }; return int(V[i]); }
  int index(const ModelType& t) const
  {
    int r = -1, n = 0;
    for (int i = 0; i < 5; ++i)
      if (t == static_cast<ModelType::Value>(value(i)))
        r = i, ++n;
    return n == 1 ? r : -2;
  }
  int parse(const std::string& s) override { return index(ModelType(s)); }
  int json(const std::string& s) override
  {
    ModelType t;
    t.fromJson(Json::Value(s));
    return index(t);
  }
  std::string text(int i) override
  {
    std::stringstream s;
    s << ModelType(static_cast<ModelType::Value>(value(i)));
    return s.str();
  }
  std::string textOfInt(int v) override
  {
    std::stringstream s;
    s << ModelType(v);
    return s.str();
  }
  bool sameAs(int i, int j) override
  {
    ModelType a(static_cast<ModelType::Value>(value(i))), b(static_cast<ModelType::Value>(value(j)));
    bool eq = a == b;
    return eq == !(a != b) && eq == (a == static_cast<ModelType::Value>(value(j))) && eq == (int(a) == int(b)) && eq == (ModelType(int(a)) == b) ? eq : !eq;
  }
  int initial() override { return index(ModelType()); }
  std::vector<int> available() override
  {
    std::vector<int> r;
    for (auto& t : availableSolvers())
      r.push_back(index(t));
    return r;
  }
  std::string create(int i, bool byName, const std::string& name) override
  {
    made.clear();
    Model::Ptr m = byName ? createModel(ModelType(name)) : i < 0 ? createModel() : createModel(ModelType(static_cast<ModelType::Value>(value(i))));
    return m == nullptr ? "null" : made;
  }
  bool passesConfig() override
  {
    struct C : ModelConfig { };
    auto cfg = std::make_shared<const C>();
    configured = nullptr;
    createModel(ModelType(ModelType::OSQP), cfg);
    return configured == cfg.get();
  }
};
}
SolverNames* CAT(names_, SET)() { static sco::Access a; return &a; }
