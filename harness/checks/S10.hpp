#pragma once
#include <string>
#include <vector>
// solvers by position in the list GUROBI, OSQP, QPOASES, BPMPD, AUTO_SOLVER
struct SolverNames
{
  virtual int parse(const std::string& s) = 0;
  virtual int json(const std::string& s) = 0;
  virtual std::string text(int i) = 0;
  virtual std::string textOfInt(int v) = 0;
  virtual bool sameAs(int i, int j) = 0;
  virtual int initial() = 0;
  virtual std::vector<int> available() = 0;
  virtual std::string create(int i, bool byName, const std::string& name) = 0;
  virtual bool passesConfig() = 0;
};
