// Pieces shared by the checks of kinematic terms: groups of the tree robot, configurations, variables in trajectories.
#pragma once
#include <common/robot.hpp>
#include <trajopt_ifopt/variable_sets/node.h>
#include <trajopt_ifopt/variable_sets/nodes_variables.h>
#include <trajopt_ifopt/variable_sets/var.h>
namespace rob
{
using namespace trajopt_ifopt;
using JG = std::shared_ptr<const tesseract::kinematics::JointGroup>;
inline VectorXd cfg(const JG& g, int k)
{
  static const double grid[5][5] = { { 0, 0, 0, 0, 0 }, { 0.3, -0.4, 0.2, 0.5, -0.6 }, { -1.2, 0.9, -0.3, 1.4, 0.8 }, { 2.5, 1.6, 0.4, -2.2, 2.9 }, { -0.01, 1.5707963267948966, 0.1, 3.141592653589793, -3.0 } };
  static const std::vector<std::string> all{ "j1", "j2", "j3", "j4", "k1" };
  VectorXd q(g->numJoints());
  auto n = g->getJointNames();
  for (size_t i = 0; i < n.size(); ++i)
    q[Eigen::Index(i)] = grid[k][std::find(all.begin(), all.end(), n[i]) - all.begin()];
  return q;
}
inline JG arm() { static JG g = std::make_shared<Robot>(std::vector<std::string>{ "j1", "j2", "j3", "j4" }); return g; }
inline JG both() { static JG g = std::make_shared<Robot>(std::vector<std::string>{ "k1", "j2", "j1", "j4", "j3" }); return g; }
inline JG turn() { static JG g = std::make_shared<Robot>(std::vector<std::string>{ "k1" }, std::map<std::string, double>{ { "j1", -0.7 }, { "j2", 0.4 }, { "j3", 0.1 }, { "j4", 0.6 } }); return g; }
// three nodes, each holding the variable
struct Traj
{
  std::shared_ptr<NodesVariables> vars;
  std::vector<std::shared_ptr<const Var>> v;
  Traj(const JG& g, const std::vector<VectorXd>& q)
  {
    std::vector<std::unique_ptr<Node>> nodes;
    for (size_t i = 0; i < q.size(); ++i)
    {
      auto n = std::make_unique<Node>("n" + std::to_string(i));
      v.push_back(n->addVar("position", g->getJointNames(), q[i], std::vector<Bounds>(size_t(g->numJoints()), NoBound)));
      nodes.push_back(std::move(n));
    }
    vars = std::make_shared<NodesVariables>("traj", std::move(nodes));
  }
};
template <class F>
bool refuses(F f)
{
  try
  {
    f();
  }
  catch (const std::exception&)
  {
    return true;
  }
  return false;
}
}  // namespace rob
