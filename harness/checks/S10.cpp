// S10: solver choice by name.
#include <mc/mc.hpp>
#include <cstdlib>
#include <optional>
#include <set>
#include "S10.hpp"
using namespace mc;
const CheckInfo mc::info = { "S10", "exploration",
  "the solver interface compiled with each of the 16 sets of solvers; every solver and 24 names (case variants, prefixes, blanks, empty) parsed, printed, read from JSON; every request "
  "(each solver, each name, automatic) under every environment setting (unset, each name, unknown, empty); values outside the enumeration",
  { "the solver back ends are stand-ins that record which one was asked for" } };
#define N(k) SolverNames* names_##k();
N(0) N(1) N(2) N(3) N(4) N(5) N(6) N(7) N(8) N(9) N(10) N(11) N(12) N(13) N(14) N(15)
static const char* NAME[] = { "GUROBI", "OSQP", "QPOASES", "BPMPD", "AUTO_SOLVER" };
template <class F> static bool throws(F f)
{
  try { f(); return false; }
  catch (const std::exception&) { return true; }
}
void mc::explore(Ctx& c)
{
  SolverNames* (*all[])() = { names_0, names_1, names_2, names_3, names_4, names_5, names_6, names_7, names_8, names_9, names_10, names_11, names_12, names_13, names_14, names_15 };
  const std::vector<std::string> bad = { "", " ", "osqp", "Osqp", "OSQ", "OSQP ", " OSQP", "OSQPX", "gurobi", "GUROB", "BPMPDD", "qpOASES", "qpoases", "AUTO", "auto_solver", "AUTO_SOLVER ", "0", "1", "UNKNOWN" };
  for (int set = 0; set < 16; ++set)
    c.item([=] { return str("solvers compiled in: ", set); }, [=, &c] {
      SolverNames& s = *all[set]();
      auto has = [=](int i) { return i >= 0 && i < 4 && ((set >> i) & 1); };
      unsetenv("TRAJOPT_CONVEX_SOLVER");
      for (int i = 0; i < 5; ++i)
      {
        c.transitions(3);
        c.checkf(s.text(i) == NAME[i], "text", [&] { return str(NAME[i], " prints as ", s.text(i)); });
        c.checkf(s.parse(NAME[i]) == i, "parse", [&] { int r = s.parse(NAME[i]); return str("\"", NAME[i], "\" denotes ", r < 0 ? "nothing" : NAME[r]); });
        c.checkf(s.json(NAME[i]) == i, "json", [&] { int r = s.json(NAME[i]); return str("\"", NAME[i], "\" in JSON denotes ", r < 0 ? "nothing" : NAME[r]); });
        c.checkf(s.parse(s.text(i)) == i, "round-trip", [&] { return NAME[i]; });
        for (int j = 0; j < 5; ++j)
          c.checkf(s.sameAs(i, j) == (i == j), "equality", [&] { return str(NAME[i], " and ", NAME[j]); });
      }
      c.checkf(s.initial() == 4, "default", [&] { return std::string("the default is not AUTO_SOLVER"); });
      for (auto& b : bad)
      {
        c.checkf(throws([&] { s.parse(b); }), "unknown-accepted", [&] { return str("\"", b, "\""); });
        c.checkf(throws([&] { s.json(b); }), "unknown-accepted", [&] { return str("\"", b, "\" in JSON"); });
      }
      for (int v : { 5, 6, 100, 255 })
        c.checkf(throws([&] { s.textOfInt(v); }), "text-of-invalid", [&] { return str(v, " prints as ", s.textOfInt(v)); });
      auto av = s.available();
      std::set<int> as(av.begin(), av.end());
      c.checkf(as.size() == av.size(), "available-twice", [&] { return str("set ", set); });
      for (int i = -2; i < 5; ++i)
        c.checkf(bool(as.count(i)) == has(i), "available", [&] { return str("set ", set, ": ", i < 0 ? "?" : NAME[i], as.count(i) ? " reported" : " not reported"); });
      if (has(1))
        c.checkf(s.passesConfig(), "configuration", [&] { return std::string("the configuration does not reach OSQP"); });
      std::vector<std::optional<std::string>> envs = { std::nullopt };
      for (auto* n : NAME)
        envs.push_back(n);
      for (auto& b : bad)
        envs.push_back(b);
      for (auto& e : envs)
      {
        if (e)
          setenv("TRAJOPT_CONVEX_SOLVER", e->c_str(), 1);
        else
          unsetenv("TRAJOPT_CONVEX_SOLVER");
        int named = -1;   // solver named by the environment; 4: automatic, -1: unknown name
        for (int i = 0; i < 5; ++i)
          if (!e ? i == 4 : *e == NAME[i])
            named = i;
        for (int req = -1; req < 5; ++req)
          for (int byName = 0; byName < (req < 0 ? 1 : 2); ++byName)
          {
            c.transitions();
            c.traces();
            int want = req >= 0 && req < 4 ? req : named;
            auto what = [&] { return str("set ", set, ", environment ", e ? *e : "unset", ", request ", req < 0 ? "default" : NAME[req], byName ? " by name" : ""); };
            std::string got;
            bool t = throws([&] { got = s.create(req, byName, req < 0 ? "" : NAME[req]); });
            c.state(Hash().u(set).s(e ? *e : "-").u(req + 1).u(byName));
            c.outcome(Hash().u(set).s(got));
            if (want == 4)
            {
              bool ok = set == 0 ? t : !t;
              if (ok && set)
              {
                ok = false;
                for (int i = 0; i < 4; ++i)
                  ok |= has(i) && got == NAME[i];
              }
              c.checkf(ok, "automatic", [&] { return str(what(), ": ", t ? "refused" : got); });
            }
            else if (want < 0 || !has(want))
              c.checkf(t, "unavailable-created", [&] { return str(what(), ": created ", got); });
            else
              c.checkf(!t && got == NAME[want], "wrong-solver", [&] { return str(what(), ": ", t ? "refused" : got); });
          }
      }
    });
}
