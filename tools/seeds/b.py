SEEDS = [
 dict(id='c03-second-link-at-fixed-end', property='C03', needs='a fixed end, and a contact whose only moving part is its second link, between the two ends',
   breaks='contacts that only the second link of the pair contributes are dropped when the end is fixed, although they depend on the free start',
   edits=[('trajopt_common/src/collision_utils.cpp', '''              r.cc_type[0] != tesseract::collision::ContinuousCollisionType::CCType_Time1)
            return false;

          if (r.cc_type[1] != tesseract::collision::ContinuousCollisionType::CCType_None &&
              r.cc_type[1] != tesseract::collision::ContinuousCollisionType::CCType_Time1)
            return false;''', '''              r.cc_type[0] != tesseract::collision::ContinuousCollisionType::CCType_Time1)
            return false;

          if (r.cc_type[1] == tesseract::collision::ContinuousCollisionType::CCType_Time0)
            return false;''')], stubs=True, srcs=['trajopt_common/src/collision_utils.cpp'], demo=r'''
#include <trajopt_common/collision_utils.h>
#include <trajopt_common/collision_types.h>
#include <cstdio>
using CC = tesseract::collision::ContinuousCollisionType;
int main() {
  const CC T[] = { CC::CCType_None, CC::CCType_Time0, CC::CCType_Time1, CC::CCType_Between }; int bad = 0;
  for (int fixed = 0; fixed < 2; ++fixed) for (CC a : T) for (CC b : T) {
    if (a == CC::CCType_None && b == CC::CCType_None) continue;
    tesseract::collision::ContactResultVector v; tesseract::collision::ContactResult r; r.distance = -0.1; r.cc_type = { a, b }; v.push_back(r);
    trajopt_common::removeInvalidContactResults(v, 0.02, 0.01, fixed == 0, fixed == 1);
    CC only = fixed == 0 ? CC::CCType_Time0 : CC::CCType_Time1;   // contacts that depend on the fixed end only
    bool depends = (a != CC::CCType_None && a != only) || (b != CC::CCType_None && b != only);
    if (depends != (v.size() == 1)) { printf("fixed %d types %d %d: kept %zu\n", fixed, int(a), int(b), v.size()); bad = 1; }
  }
  return bad;
}
'''),
 dict(id='q08-stale-quadratic-row', property='Q08', needs='the same QuadExprs object filled twice, a row curved the first time and straight the second',
   breaks='a row without curvature keeps the quadratic part of the previous linearisation point',
   edits=[('trajopt_optimizers/trajopt_sqp/src/expressions.cpp', '''    if (H.nonZeros() == 0)
    {
      Q.resize(0, 0);
      continue;
    }''', '''    if (H.nonZeros() == 0)
      continue;''')], srcs=['trajopt_optimizers/trajopt_sqp/src/expressions.cpp'], demo=r'''
#include <trajopt_sqp/expressions.h>
#include <cstdio>
#include <cmath>
using trajopt_ifopt::Jacobian; using Eigen::VectorXd;
int main() {
  trajopt_sqp::QuadExprs q; Jacobian J(1, 2), H(2, 2), Z(2, 2); J.insert(0, 0) = 1; H.insert(0, 0) = 4; H.insert(1, 1) = 2;
  VectorXd x0(2), x(2), f(1), v(1); x0 << 1, -1; x << 3, 2; f << 5;
  q.create(f, J, { H }, x0); q.values(v, x);
  double a = v[0], wa = 5 + 2 + 0.5 * (4 * 4 + 2 * 9);
  q.create(f, J, { Z }, x0); q.values(v, x);
  printf("%g %g, expected %g %g\n", a, v[0], wa, 7.0);
  return std::fabs(a - wa) < 1e-9 && std::fabs(v[0] - 7) < 1e-9 ? 0 : 1;
}
'''),
 dict(id='i07-last-joint-not-hashed', property='I07', needs='two trajectories that differ in the last joint of the last step only',
   breaks='the key of the cached contacts leaves out the last value, so a collision constraint shows the contacts of other joint values',
   edits=[('trajopt_common/src/collision_utils.cpp', '''  for (Eigen::Index i = 0; i < dof_vals.rows(); ++i)
    boost::hash_combine(seed, dof_vals[i]);''', '''  for (Eigen::Index i = 0; i + 1 < dof_vals.rows(); ++i)
    boost::hash_combine(seed, dof_vals[i]);''')], stubs=True,
   srcs=['trajopt_common/src/collision_utils.cpp','trajopt_ifopt/src/variable_sets/nodes_variables.cpp','trajopt_ifopt/src/variable_sets/node.cpp','trajopt_ifopt/src/variable_sets/var.cpp'], libs=['-ltrajopt_ifopt','-ltrajopt_common','-lconsole_bridge'], demo=r'''
#include <trajopt_ifopt/variable_sets/nodes_variables.h>
#include <trajopt_ifopt/variable_sets/node.h>
#include <trajopt_ifopt/variable_sets/var.h>
#include <cstdio>
using namespace trajopt_ifopt;
int main() {
  std::vector<std::unique_ptr<Node>> nodes;
  for (int i = 0; i < 2; ++i) {
    nodes.push_back(std::make_unique<Node>("n" + std::to_string(i)));
    nodes.back()->addVar("q", std::vector<std::string>{ "a", "b" }, Eigen::Vector2d(1, 2), std::vector<Bounds>(2, NoBound));
  }
  NodesVariables v("v", std::move(nodes)); std::vector<std::size_t> seen; int bad = 0;
  for (int k = 0; k < 4; ++k) {
    Eigen::VectorXd x = v.getValues(), y = x; y[k] += 0.25;
    std::size_t h = v.getHash(); v.setVariables(y); std::size_t g = v.getHash(); v.setVariables(x);
    if (g == h) { printf("value %d does not show in the key\n", k); bad = 1; }
    if (v.getHash() != h) { printf("the key of the same values changes\n"); bad = 1; }
  }
  return bad;
}
'''),
 dict(id='t02-second-array-aliases-first', property='T02', needs='variable arrays added to a problem that has variables already',
   breaks='arrays added later refer to the variables added first',
   edits=[('trajopt/src/utils.cpp', 'int var_idx = prob.getNumVars();', 'int var_idx = 0;')], stubs=True, srcs=['trajopt/src/utils.cpp'], libs=['-ltrajopt_sco','-ltrajopt_common','-lconsole_bridge','-ljsoncpp'], demo=r'''
#include <trajopt/utils.hpp>
#include <trajopt_sco/modeling.hpp>
#include <trajopt_sco/solver_interface.hpp>
#include <cstdio>
using namespace trajopt;
int main() {
  sco::OptProb p; VarArray a, b, c;
  AddVarArray(p, 2, 2, "a", a); AddVarArrays(p, 2, { 1, 2 }, { "b", "c" }, { &b, &c });
  int bad = 0;
  auto look = [&](VarArray& v, const char* n, int r, int k) { for (int i = 0; i < r; ++i) for (int j = 0; j < k; ++j) {
    std::string want = std::string(n) + "_" + std::to_string(i) + "_" + std::to_string(j);
    if (v(i, j).var_rep->name != want) { printf("%s is %s\n", want.c_str(), v(i, j).var_rep->name.c_str()); bad = 1; } } };
  look(a, "a", 2, 2); look(b, "b", 2, 1); look(c, "c", 2, 2);
  return bad;
}
'''),
 dict(id='s01-cleanup-drops-negatives', property='S01', needs='an expression with a negative coefficient that is cleaned up',
   breaks='cleaning an affine expression drops its negative terms with the tiny ones',
   edits=[('trajopt_sco/src/expr_ops.cpp', 'if (fabs(a.coeffs[i]) > 1e-7)', 'if (a.coeffs[i] > 1e-7)')], srcs=['trajopt_sco/src/expr_ops.cpp','trajopt_sco/src/modeling.cpp'], libs=['-ltrajopt_sco','-ltrajopt_common','-lconsole_bridge','-ljsoncpp'], demo=r'''
#include <trajopt_sco/expr_ops.hpp>
#include <trajopt_sco/modeling.hpp>
#include <trajopt_sco/solver_interface.hpp>
#include <cstdio>
int main() {
  sco::OptProb p; auto v = p.createVariables({ "a", "b", "c" });
  sco::AffExpr e(2.0); double k[] = { -3, 1e-9, 4 }; for (int i = 0; i < 3; ++i) { e.coeffs.push_back(k[i]); e.vars.push_back(v[size_t(i)]); }
  auto f = sco::cleanupAff(e); sco::DblVec x{ 5, 7, -2 }; double d = f.value(x) - e.value(x);
  printf("changed by %g\n", d);
  return d < 1e-6 && d > -1e-6 ? 0 : 1;
}
'''),
 dict(id='s09-feasible-point-with-old-bounds', property='S09', needs='bounds tightened after the variables were created, then a closest feasible point through a QP',
   breaks='the closest feasible point ignores bounds set after the variables were created (or leaves the trust box of an earlier optimisation in place)',
   edits=[('trajopt_sco/src/modeling.cpp', '''  model_->setVarBounds(vars_, lower_bounds_, upper_bounds_);
  model_->setObjective(obj);''', '''  model_->setObjective(obj);''')], libs=['-ltrajopt_sco','-ltrajopt_common','-lconsole_bridge','-ljsoncpp'], demo=r'''
#include <trajopt_sco/modeling.hpp>
#include <trajopt_sco/solver_interface.hpp>
#include <cstdio>
#include <cmath>
int main() {
  sco::OptProb p; p.createVariables({ "a", "b" }, { -10, -10 }, { 10, 10 });
  p.setUpperBounds(sco::DblVec{ 1, 10 }); p.setLowerBounds(sco::DblVec{ -10, 2 });
  auto y = p.getClosestFeasiblePointQP({ 5, 0 });
  printf("%g %g, expected 1 2\n", y[0], y[1]);
  return std::fabs(y[0] - 1) < 1e-3 && std::fabs(y[1] - 2) < 1e-3 ? 0 : 1;
}
'''),
 dict(id='s03-upper-bound-left-behind', property='S03', needs='a variable removed from the model that is not the last one, with differing upper bounds',
   breaks='after variables are removed the remaining ones have the upper bounds of others',
   edits=[('trajopt_sco/src/bpmpd_interface.cpp', '''        m_ubs[inew] = m_ubs[iold];
''', '')], libs=['-ltrajopt_sco','-ltrajopt_common','-lconsole_bridge','-ljsoncpp'], demo=r'''
#include <trajopt_sco/bpmpd_interface.hpp>
#include <trajopt_sco/expr_ops.hpp>
#include <cstdio>
#include <cmath>
int main() {
  sco::BPMPDModel real; sco::Model& m = real; sco::VarVector v; double ub[] = { 1, 3, 2 };
  for (int i = 0; i < 3; ++i) v.push_back(m.addVar("v" + std::to_string(i), -10, ub[i]));
  m.update(); m.removeVars({ v[0] }); m.update();
  sco::QuadExpr o; for (int i = 1; i < 3; ++i) sco::exprInc(o, sco::exprSquare(sco::exprSub(sco::AffExpr(v[size_t(i)]), 9.0)));
  m.setObjective(o); if (m.optimize() != sco::CVX_SOLVED) return 2;
  auto y = m.getVarValues({ v[1], v[2] });
  printf("%g %g, expected 3 2\n", y[0], y[1]);
  return std::fabs(y[0] - 3) < 1e-3 && std::fabs(y[1] - 2) < 1e-3 ? 0 : 1;
}
'''),
 dict(id='p03-target-offset-rotation', property='P03', needs='a dynamic pose term read from JSON whose two frame offsets have different orientations',
   breaks='the orientation of the target offset is taken from the source offset',
   edits=[('trajopt/src/problem_description.cpp', '  target_frame_offset.linear() = target_q.matrix();', '  target_frame_offset.linear() = q.matrix();')] if 0 else
         [('trajopt/src/problem_description.cpp', '''  const Eigen::Quaterniond target_q(target_frame_offset_wxyz(0),
                                    target_frame_offset_wxyz(1),
                                    target_frame_offset_wxyz(2),
                                    target_frame_offset_wxyz(3));
  target_frame_offset.linear() = target_q.matrix();
  target_frame_offset.translation() = target_frame_offset_xyz;

  if (!pci.kin->hasLinkName(source_frame))
  {
    PRINT_AND_THROW(boost::format("invalid source frame: %s") % source_frame);
  }

  if (!pci.kin->hasLinkName(target_frame))
  {
    PRINT_AND_THROW(boost::format("invalid target frame: %s") % target_frame);
  }

  const bool source_active = pci.kin->isActiveLinkName(source_frame);
  const bool target_active = pci.kin->isActiveLinkName(target_frame);

  if (!(source_active && target_active))''', '''  const Eigen::Quaterniond target_q(target_frame_offset_wxyz(0),
                                    target_frame_offset_wxyz(1),
                                    target_frame_offset_wxyz(2),
                                    target_frame_offset_wxyz(3));
  target_frame_offset.linear() = q.matrix();
  target_frame_offset.translation() = target_frame_offset_xyz;

  if (!pci.kin->hasLinkName(source_frame))
  {
    PRINT_AND_THROW(boost::format("invalid source frame: %s") % source_frame);
  }

  if (!pci.kin->hasLinkName(target_frame))
  {
    PRINT_AND_THROW(boost::format("invalid target frame: %s") % target_frame);
  }

  const bool source_active = pci.kin->isActiveLinkName(source_frame);
  const bool target_active = pci.kin->isActiveLinkName(target_frame);

  if (!(source_active && target_active))''')], stubs=True,
   srcs=['trajopt/src/%s.cpp' % f for f in ('problem_description','plot_callback','typedefs','kinematic_terms','trajectory_costs','collision_terms','utils','json_marshal')] + ['trajopt_common/src/collision_types.cpp','trajopt_common/src/collision_utils.cpp'],
   libs=['-ltrajopt_sco','-ltrajopt_common','-lconsole_bridge','-ljsoncpp'], timeout=200, demo=r'''
#include <trajopt/problem_description.hpp>
#include <json/json.h>
#include <cstdio>
using namespace trajopt;
struct Robot : tesseract::kinematics::JointGroup {
  bool hasLinkName(const std::string&) const override { return true; }
  bool isActiveLinkName(const std::string&) const override { return true; }
};
int main() {
  ProblemConstructionInfo pci(nullptr); pci.kin = std::make_shared<Robot>(); pci.basic_info.n_steps = 3;
  Json::Value v; Json::Value& p = v["params"]; auto arr = [](std::vector<double> d) { Json::Value a(Json::arrayValue); for (double x : d) a.append(x); return a; };
  p["timestep"] = 1; p["source_frame"] = "a"; p["target_frame"] = "b"; p["source_frame_offset_wxyz"] = arr({ 0, 1, 0, 0 }); p["target_frame_offset_wxyz"] = arr({ 0, 0, 0, 1 });
  DynamicCartPoseTermInfo t; t.fromJson(pci, v);
  Eigen::Matrix3d s = Eigen::Quaterniond(0, 1, 0, 0).matrix(), g = Eigen::Quaterniond(0, 0, 0, 1).matrix();
  bool ok = t.source_frame_offset.linear().isApprox(s) && t.target_frame_offset.linear().isApprox(g);
  printf("%s\n", ok ? "ok" : "wrong offset"); return ok ? 0 : 1;
}
'''),
]
