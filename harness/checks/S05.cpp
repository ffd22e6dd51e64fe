// S05: messages between the model and the solver program under every fragmentation, interruption and early close.
#include <mc/mc.hpp>
#include <common/wire.hpp>
#include <cerrno>
#include <unistd.h>
#include <trajopt_sco/bpmpd_interface.hpp>
#include <trajopt_sco/bpmpd_io.hpp>
#include <trajopt_sco/expr_op_overloads.hpp>
#include <trajopt_sco/expr_ops.hpp>
using namespace mc;
using namespace sco;
extern "C" bool wire_on;
const CheckInfo mc::info = { "S05", "fault_enumeration",
  "every combination of up to 2 (thorough 3) deviations {one byte, half, all but one byte, interrupted before any byte} over all read and write calls of a solve, both directions, real model wrapper and real solver "
  "program main loop, plus uniform fragmentation (every transfer at most k bytes, k = 1..17, each also interrupted first), for four models from empty to 9000 values; the same on problem and solution messages alone; "
  "end of file and errors (EPIPE, EIO, EBADF) at every read and write call and, for reads, after every prefix of the message",
  { "read and write transfer at least one byte unless interrupted, closed or failing" } };

struct Seen
{
  std::vector<int> i;
  std::vector<double> d;
  bool operator==(const Seen& o) const { return i == o.i && d.size() == o.d.size() && (d.empty() || std::memcmp(d.data(), o.d.data(), d.size() * sizeof(double)) == 0); }
};
static Seen capture(const wire::Problem& p)
{
  Seen s;
  for (int k : { p.m, p.n, p.nz, p.qn, p.qnz })
    s.i.push_back(k);
  s.i.insert(s.i.end(), p.acolcnt, p.acolcnt + p.n), s.i.insert(s.i.end(), p.acolidx, p.acolidx + p.nz);
  s.i.insert(s.i.end(), p.qcolcnt, p.qcolcnt + p.n), s.i.insert(s.i.end(), p.qcolidx, p.qcolidx + p.qnz);
  s.d.insert(s.d.end(), p.acolnzs, p.acolnzs + p.nz), s.d.insert(s.d.end(), p.qcolnzs, p.qcolnzs + p.qnz);
  s.d.insert(s.d.end(), p.rhs, p.rhs + p.m), s.d.insert(s.d.end(), p.obj, p.obj + p.n);
  s.d.insert(s.d.end(), p.lb, p.lb + p.n + p.m), s.d.insert(s.d.end(), p.ub, p.ub + p.n + p.m);
  return s;
}
// models: 0 empty, 1 one free variable, 2 three variables with constraints and quadratic objective, 3 large
static std::shared_ptr<BPMPDModel> model(int kind)
{
  auto m = std::make_shared<BPMPDModel>();
  int n = kind == 0 ? 0 : kind == 1 ? 1 : kind == 2 ? 3 : 9000;
  QuadExpr q(0.0);
  std::vector<Var> v;
  for (int i = 0; i < n; ++i)
  {
    v.push_back(static_cast<Model&>(*m).addVar("x", kind == 1 ? -INFINITY : -1.0 / (i + 1), i + 0.1));
    exprInc(q, AffExpr(v.back()) * (i + 1e-300));
    if (kind >= 2)
      exprInc(q, exprSquare(v.back()));
  }
  if (kind >= 2)
  {
    m->addEqCnt(v[0] + v[1] - 1, "");
    m->addIneqCnt(v[n - 1] - v[0] * 0.3, "");
  }
  m->setObjective(q);
  return m;
}
struct Run { bool called = false; Seen seen; CvxOptStatus st = CVX_FAILED; bool threw = false; std::vector<double> sent, got; size_t n = 0; };
static Run solve(Ctx& c, BPMPDModel& m, const std::function<std::string()>& what)
{
  Run r;
  wire::solver = [&](wire::Problem& p) {
    r.called = true;
    r.seen = capture(p);
    // meets the bounds and constraints
    for (int i = 0; i < p.n + p.m; ++i)
      p.primal[i] = i == 0 ? std::sqrt(2.0) / 20 : i == 1 ? 1 - p.primal[0] : -1 / std::sqrt(3.0) / (i + 1), p.dual[i] = -i, p.status[i] = i;
    r.sent.assign(p.primal, p.primal + p.n);
    *p.code = 2;
    *p.opt = 0.1;
  };
  size_t before = wire::calls;
  try
  {
    r.st = m.optimize();
    if (r.st == CVX_SOLVED)
      r.got = m.getVarValues(m.getVars());
  }
  catch (const wire::Hang&) { c.fail("hang", str(what(), ": waits for ever")); }
  catch (const std::exception&) { r.threw = true; }
  c.transitions(wire::calls - before);
  return r;
}
static void same(Ctx& c, const Run& r, const Run& ref, const std::function<std::string()>& what)
{
  c.checkf(!r.threw && r.called && r.st == CVX_SOLVED, "not-solved", [&] { return str(what(), ": ", r.threw ? "exception" : r.called ? "failure reported" : "the solver was not reached"); });
  c.checkf(r.seen == ref.seen, "problem-changed", [&] { return str(what(), ": the solver received another problem"); });
  c.checkf(r.got == r.sent, "solution-changed", [&] { return str(what(), ": the values differ from the solver's"); });
}
// the outcome of one transfer as chosen by number
static long deviation(int k, bool write, size_t n)
{
  switch (k)
  {
    case 0: return long(n);
    case 1: return -EINTR;
    case 2: return 1;
    case 3: return long((n + 1) / 2);
    default: return long(n > 1 ? n - 1 : n);
  }
}
static const char* MODEL[] = { "empty model", "one variable", "three variables", "9000 variables" };
static bool operator==(const bpmpd_io::bpmpd_output& a, const bpmpd_io::bpmpd_output& b)
{
  return a.primal == b.primal && a.dual == b.dual && a.status == b.status && a.code == b.code && a.opt == b.opt;
}
static bool operator==(const bpmpd_io::bpmpd_input& a, const bpmpd_io::bpmpd_input& b)
{
  return a.m == b.m && a.n == b.n && a.nz == b.nz && a.qn == b.qn && a.qnz == b.qnz && a.acolcnt == b.acolcnt && a.acolidx == b.acolidx && a.acolnzs == b.acolnzs && a.qcolcnt == b.qcolcnt &&
         a.qcolidx == b.qcolidx && a.qcolnzs == b.qcolnzs && a.rhs == b.rhs && a.obj == b.obj && a.lbound == b.lbound && a.ubound == b.ubound;
}
// a message alone over a pipe; returns false if reading it raised an error
template <class M>
static bool message(Ctx& c, M in, M& out, size_t cut)
{
  int fd[2];
  if (pipe(fd))
    c.fail("pipe", "no pipe");
  bpmpd_io::ser(fd[1], in, bpmpd_io::SER);
  wire::cut(cut);
  bool ok = true;
  try { bpmpd_io::ser(fd[0], out, bpmpd_io::DESER); }
  catch (const std::exception&) { ok = false; }
  c.transitions(2);
  return ok;
}
template <class M>
static void messages(Ctx& c, const std::vector<M>& all, const char* name)
{
  for (size_t i = 0; i < all.size(); ++i)
    for (size_t before = 0; before < all.size(); ++before)       // what the receiving object held before
      c.item([=] { return str(name, " #", i, " into used #", before); }, [=, &c] {
        wire_on = true;
        wire::childDead = false;
        wire::reset();
        auto what = [=] { return str(name, " #", i); };
        M out = all[before];
        wire::transfer = nullptr;
        size_t b0 = wire::bytes;
        c.check(message(c, all[i], out, size_t(-1)) && out == all[i] && wire::drained(), "message", what());
        size_t total = (wire::bytes - b0) / 2;
        c.count("message bytes", total);
        // every pair of deviations
        if (total < 4000)
        {
          mc::Dfs d(c, c.thorough ? 2 : before == 0 ? 2 : 1);
          d.run([&] {
            wire::reset();
            M o = all[before];
            wire::transfer = [&](wire::Side, bool w, size_t n) { return deviation(d.choose(n > 1 ? 5 : 2), w, n); };
            bool ok = message(c, all[i], o, size_t(-1));
            wire::transfer = nullptr;
            c.traces();
            c.checkf(ok && o == all[i] && wire::drained(), "message", [&] { return str(what(), " with transfers ", d.pathText()); });
            c.outcome(Hash().s(name).u(i).u(ok));
          });
        }
        // the peer closes after k bytes
        size_t step = total < 4000 ? 1 : 4099;
        for (size_t k = 0; k < total; k += step)
        {
          wire::reset();
          M o = all[before];
          c.checkf(!message(c, all[i], o, k), "truncated-accepted", [&] { return str(what(), " cut after ", k, " of ", total, " bytes was accepted"); });
          c.state(Hash().s(name).u(i).u(before).u(k));
          c.outcome(Hash().s(name).u(i).u(2));
        }
        wire::reset();
        wire_on = false;
      });
}
void mc::explore(Ctx& c)
{
  for (int kind = 0; kind < 4; ++kind)
  {
    auto reference = [kind](Ctx& c, std::shared_ptr<BPMPDModel>& m) {
      wire_on = true;
      wire::transfer = nullptr;
      m = model(kind);
      auto what = [kind] { return std::string(MODEL[kind]); };
      Run r = solve(c, *m, what);
      same(c, r, r, what);
      return r;
    };
    for (int k = 1; k <= 17; ++k)
      c.item([=] { return str(MODEL[kind], ", at most ", k, " bytes per transfer"); }, [=, &c] {
        std::shared_ptr<BPMPDModel> m;
        Run ref = reference(c, m);
        for (int intr = 0; intr < 3; ++intr)
        {
          bool toggle = false;
          wire::transfer = [&](wire::Side, bool, size_t n) -> long {
            if (intr && (toggle = !toggle))
              return -EINTR;
            return long(std::min(n, intr == 2 ? size_t(1) + wire::calls % size_t(k) : size_t(k)));
          };
          auto what = [&] { return str(MODEL[kind], " in pieces of ", k, intr ? " with interruptions" : ""); };
          Run r = solve(c, *m, what);
          wire::transfer = nullptr;
          same(c, r, ref, what);
          c.traces();
          c.state(Hash().u(kind).u(k).u(intr));
        }
        wire_on = false;
      });
    c.item([=] { return str(MODEL[kind], ", deviating transfers"); }, [=, &c] {
      std::shared_ptr<BPMPDModel> m;
      Run ref = reference(c, m);
      mc::Dfs d(c, kind == 3 ? 1 : c.thorough && kind < 2 ? 3 : 2);
      d.run([&] {
        wire::transfer = [&](wire::Side, bool w, size_t n) { return deviation(d.choose(n > 1 ? 5 : 2), w, n); };
        auto what = [&] { return str(MODEL[kind], " with transfers ", d.pathText()); };
        Run r = solve(c, *m, what);
        wire::transfer = nullptr;
        same(c, r, ref, what);
        c.traces();
        c.state(Hash().u(kind).s(d.pathText()));
      });
      wire_on = false;
    });
    // a failing transfer
    c.item([=] { return str(MODEL[kind], ", failing transfers"); }, [=, &c] {
      std::shared_ptr<BPMPDModel> m;
      size_t c0 = wire::calls;
      reference(c, m);
      size_t ncalls = wire::calls - c0;
      for (size_t at = 0; at < ncalls; ++at)
        for (int f = 0; f < 4; ++f)      // end of file / EPIPE, EIO, EBADF, and first a byte
        {
          size_t k = 0, base = 0;
          bool hit = false, inParent = false;
          wire::Side side = wire::PARENT;
          auto fault = [&](bool w) -> long { return f == 1 ? -EIO : f == 2 ? -EBADF : w ? -EPIPE : 0; };
          wire::transfer = [&](wire::Side s, bool w, size_t n) -> long {
            if (hit && s == side)
              return fault(w);
            if (k++ < at)
              return long(n);
            if (f == 3 && n > 1 && base++ == 0)
              return 1;
            hit = true;
            side = s;
            inParent = s == wire::PARENT;
            return fault(w);
          };
          auto what = [&] { return str(MODEL[kind], ", transfer ", at, " of ", ncalls, " fails (", f, ") in the ", inParent ? "model" : "solver program"); };
          Run r = solve(c, *m, what);
          wire::transfer = nullptr;
          if (!hit)
            continue;
          c.traces();
          c.checkf(r.threw || r.st != CVX_SOLVED, "failure-hidden", [&] { return str(what(), ": reported as solved"); });
          c.outcome(Hash().u(kind).u(f).u(r.threw).u(r.st).u(r.called));
          c.state(Hash().u(kind).u(f).u(at));
          // the next solve is right again, with a new solver program if the exchange broke down
          Run again;
          for (int t = 0; t < 2 && again.st != CVX_SOLVED; ++t)
            again = solve(c, *m, what);
          c.checkf(again.st == CVX_SOLVED && again.got == again.sent, "no-recovery", [&] { return str(what(), ": later solves do not work"); });
        }
      wire_on = false;
    });
  }
  using bpmpd_io::bpmpd_input;
  using bpmpd_io::bpmpd_output;
  std::vector<double> big;
  for (int i = 0; i < 9000; ++i)
    big.push_back(1.0 / (i + 1));
  messages<bpmpd_output>(c, { bpmpd_output(), bpmpd_output({ 1.5 }, {}, { 1 }, 2, -0.5), bpmpd_output({ 1, 2, 3 }, { -1, 1e-300, 1e300 }, { 0, 1, 0x7f6f7b7a }, 123, 1e30), bpmpd_output(big, big, { 7 }, 4, 1) },
                         "solution");
  messages<bpmpd_input>(c,
                        { bpmpd_input(), bpmpd_input(1, 1, 1, 1, 1, { 1 }, { 1 }, { 2.5 }, { 1 }, { 1 }, { -2 }, { 3 }, { 4 }, { -1e30, 0 }, { 1e30, 0 }),
                          bpmpd_input(0, 2, 0, 2, 0, { 0, 0 }, {}, {}, { 0, 0 }, {}, {}, {}, { 1, 2 }, { -1, -2 }, { 1, 2 }), bpmpd_input(111, 123, 122, 0, -1, {}, { 123, 111 }, big, {}, {}, {}, {}, big, {}, { 0.1 }) },
                        "problem");
}
