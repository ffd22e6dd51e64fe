// S12: the model wrapper with a real solver process that stops at every point of the exchange.
#include <mc/mc.hpp>
#include <trajopt_common/logging.hpp>
#include <trajopt_sco/bpmpd_interface.hpp>
#include <trajopt_sco/expr_op_overloads.hpp>
#include <trajopt_sco/expr_ops.hpp>
#include <cerrno>
#include <dirent.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace mc;
using namespace sco;
const CheckInfo mc::info = { "S12", "fault_enumeration",
  "real solver processes (the solver program around a stand-in routine): every byte of the request and of the response of the first or second solve at which the process exits, is killed or closes the connection, "
  "small model (thorough: three sizes, and pairs of failures in a row), larger messages than a pipe holds at every 4096 bytes and odd offsets; a process that ended before the next solve or before the end of the program; "
  "no process, no pipe, or only some descriptors available; afterwards a healthy process has to solve, no descriptor, zombie or process is left and the program ends normally",
  { "a solver process that stays alive with its connection open eventually answers" }, 25 };

extern "C" pid_t __real_fork();
static bool fork_fails = false;
extern "C" pid_t __wrap_fork()
{
  if (fork_fails)
  {
    errno = EAGAIN;
    return -1;
  }
  return __real_fork();
}

namespace
{
struct Problem
{
  Model::Ptr m;
  VarVector vars;
  DblVec want;
  Problem(int n, int rows)
  {
    m = std::make_shared<BPMPDModel>();
    for (int i = 0; i < n; ++i)
      vars.push_back(m->addVar("v", -i - 1, i + 2));
    m->update();
    AffExpr obj;
    double s = 0;
    for (int i = 0; i < n; ++i)
      exprInc(obj, exprMult(AffExpr(vars[size_t(i)]), 0.5 * i - 1));
    for (int r = 0; r < rows; ++r)
    {
      AffExpr e(vars[size_t(r % n)]);
      e.constant = -r - 4 - n;
      s += r + 4 + n;
      m->addIneqCnt(e, "r");
    }
    m->setObjective(QuadExpr(obj));
    m->update();
    for (int i = 0; i < n; ++i)
    {
      double t = (0.5 * i - 1) * 0.125 + s * 0.01 + 1000;
      want.push_back((-i - 1) + (2 * i + 3) * (t - std::floor(t)));
    }
  }
  // 1 solved with the right values, 0 not solved, -1 solved with wrong values
  int solve()
  {
    if (m->optimize() != CVX_SOLVED)
      return 0;
    DblVec got = m->getVarValues(vars);
    for (size_t i = 0; i < want.size(); ++i)
      if (!near(got[i], want[i], 1e-9))
        return -1;
    return 1;
  }
};
int openFds()
{
  int n = 0;
  DIR* d = opendir("/proc/self/fd");
  while (readdir(d))
    ++n;
  closedir(d);
  return n;
}
void plan(const std::string& p)
{
  if (p.empty())
    unsetenv("S12_PLAN");
  else
    setenv("S12_PLAN", p.c_str(), 1);
}
// waits until the solver process is a zombie
bool waitDead()
{
  for (int k = 0; k < 5000; ++k)
  {
    siginfo_t i{};
    if (waitid(P_ALL, 0, &i, WEXITED | WNOWAIT | WNOHANG) != 0 || i.si_pid != 0)
      return true;
    usleep(1000);
  }
  return false;
}
struct Result
{
  std::string key, text;
  int solved = 0;     // first interesting solve
};
// Runs f in a process of its own, which then ends normally; the text it returns is "key: message", or a number.
Result isolated(Ctx& c, const std::function<std::string()>& f)
{
  c.transitions();
  int msg[2], live[2];
  if (pipe(msg) != 0 || pipe(live) != 0)
    throw std::runtime_error("pipe");
  fcntl(msg[1], F_SETFD, FD_CLOEXEC), fcntl(msg[0], F_SETFD, FD_CLOEXEC), fcntl(live[0], F_SETFD, FD_CLOEXEC);
  pid_t p = __real_fork();
  if (p == 0)
  {
    setpgid(0, 0);
    close(msg[0]), close(live[0]);
    signal(SIGPIPE, SIG_DFL);
    std::string r;
    try
    {
      r = f();
    }
    catch (const std::exception& e)
    {
      r = str("exception: ", e.what());
    }
    ssize_t n = write(msg[1], r.data(), r.size());
    (void)n;
    exit(0);
  }
  close(msg[1]), close(live[1]);
  std::string r;
  auto drain = [&](int fd, int ms, std::string* out) {
    char b[512];
    for (;;)
    {
      pollfd pf{ fd, POLLIN, 0 };
      int k = poll(&pf, 1, ms);
      if (k <= 0)
        return false;
      ssize_t n = read(fd, b, sizeof b);
      if (n <= 0)
        return true;
      if (out)
        out->append(b, size_t(n));
    }
  };
  Result res;
  bool ended = drain(msg[0], 8000, &r);
  int st = 0;
  if (!ended)
  {
    kill(-p, SIGKILL), kill(p, SIGKILL);
    waitpid(p, &st, 0);
    res.key = "hang", res.text = "the caller did not come back within 8 s" + r;
  }
  else
  {
    waitpid(p, &st, 0);
    bool gone = drain(live[0], 6000, nullptr);
    if (!gone)
      kill(-p, SIGKILL);
    size_t colon = r.find(": ");
    if (colon != std::string::npos)
      res.key = r.substr(0, colon), res.text = r.substr(colon + 2);
    else if (WIFSIGNALED(st))
      res.key = "crash", res.text = str("ended by signal ", WTERMSIG(st));
    else if (WEXITSTATUS(st) != 0)
      res.key = "crash", res.text = str("exit code ", WEXITSTATUS(st));
    else if (!gone)
      res.key = "process-left", res.text = "a solver process outlives the program";
    else
      res.solved = atoi(r.c_str());
  }
  close(msg[0]), close(live[0]);
  return res;
}
void judge(Ctx& c, const Result& r, const std::string& what)
{
  c.traces();
  c.checkf(r.key.empty(), r.key.c_str(), [&] { return what + ": " + r.text; });
}
// state of the process after healthy solves: one live child, no zombie, no descriptor more than with one connection
std::string cleanUp(int fds0)
{
  if (openFds() != fds0 + 2)
    return str("descriptors: ", openFds() - fds0, " descriptors in use for one connection");
  siginfo_t i{};
  if (waitid(P_ALL, 0, &i, WEXITED | WNOWAIT | WNOHANG) == 0 && i.si_pid != 0)
    return "zombie: an ended solver process was not collected";
  sigset_t s;
  sigemptyset(&s);
  pthread_sigmask(SIG_SETMASK, nullptr, &s);
  for (int k = 1; k < 32; ++k)
    if (sigismember(&s, k) == 1)
      return str("signal-mask: signal ", k, " stays blocked");
  struct sigaction a{};
  sigaction(SIGPIPE, nullptr, &a);
  if (a.sa_handler != SIG_DFL)
    return "signal-mask: the handling of SIGPIPE was changed";
  return "";
}
struct Fault
{
  int solve;
  char where;
  long bytes;
  char action;
  std::string text() const { return str(solve, " ", where, " ", bytes, " ", action); }
};
// One process: solves 1 .. k-1 fine, solve k hits the fault; then healthy.
Result one(Ctx& c, int n, int rows, const std::vector<Fault>& faults, bool waitFirst)
{
  return isolated(c, [&]() -> std::string {
    int fds0 = openFds();
    plan(faults[0].text());
    Problem p(n, rows), q(3, 1);
    int first = 0;
    for (size_t f = 0; f < faults.size(); ++f)
    {
      for (int k = 1; k < faults[f].solve; ++k)
        if (int r = p.solve(); r != 1)
          return str(r < 0 ? "made-up" : "unsolved", ": healthy solve ", k);
      if (waitFirst && !waitDead())
        return "harness: the process did not end";
      if (f + 1 < faults.size())
        plan(faults[f + 1].text());
      else
        plan("");
      int r = p.solve();
      if (r < 0)
        return "made-up: reported solved with values that were never sent";
      if (f == 0)
        first = r;
      if (r == 1)
        break;
    }
    for (int k = 0; k < 2; ++k)
    {
      if (int r = p.solve(); r != 1)
        return str(r < 0 ? "made-up" : "unsolved", ": solve ", k + 1, " after the failure");
      if (int r = q.solve(); r != 1)
        return str(r < 0 ? "made-up" : "unsolved", ": other model after the failure");
    }
    std::string s = cleanUp(fds0);
    if (!s.empty())
      return s;
    return str(first);
  });
}
}  // namespace

void mc::explore(Ctx& c)
{
  trajopt_common::gLogLevel = trajopt_common::LevelFatal;
  setenv("S12_PEER", S12_PEER_PATH, 1);
  plan("");
  // every byte
  std::vector<std::pair<int, int>> sizes = { { 2, 1 } };
  if (c.thorough)
    sizes.push_back({ 1, 0 }), sizes.push_back({ 4, 3 });
  const int STRIDE = 16;
  for (auto [n, rows] : sizes)
    for (int solve = 1; solve <= 2; ++solve)
      for (char where : { 'r', 'w' })
        for (char action : { 'e', 'k', 'c' })
          for (int from = 0; from < STRIDE; ++from)
            c.item([=] { return str(n, " variables, ", rows, " rows: solve ", solve, " ends by ", action, " in the ", where == 'r' ? "request" : "response", ", bytes ", from, " + ", STRIDE, "k"); },
              [&c, n = n, rows = rows, solve, where, action, from] {
                for (long bytes = from;; bytes += STRIDE)
                {
                  Fault f{ solve, where, bytes, action };
                  auto r = one(c, n, rows, { f }, false);
                  judge(c, r, f.text());
                  c.state(Hash().u(uint64_t(n)).u(uint64_t(solve)).u(uint64_t(where)).u(uint64_t(action)).u(uint64_t(bytes)).h);
                  c.outcome(uint64_t(r.solved + 5));
                  if (r.solved == 1)
                    break;
                  c.checkf(bytes < 4000, "harness", [] { return "the message is longer than expected"; });
                }
              });
  // ended before the next solve was even begun
  for (char action : { 'e', 'k' })
    for (int solve = 1; solve <= 3; ++solve)
      c.item([=] { return str("gone before solve ", solve, " by ", action); }, [&c, action, solve] {
        Fault f{ solve, 'r', 0, action };
        judge(c, one(c, 2, 1, { f }, true), f.text());
      });
  // two failures in a row
  for (char w1 : { 'r', 'w' })
    for (char w2 : { 'r', 'w' })
      for (char a2 : { 'e', 'k', 'c' })
        c.item([=] { return str("two failures, ", w1, " then ", w2, " by ", a2); }, [&c, w1, w2, a2] {
          std::vector<long> at = { 0, 1, 5, 40, 70 };
          if (c.thorough)
            for (long k = 2; k < 100; k += 7) at.push_back(k);
          for (long b1 : at)
            for (long b2 : at)
            {
              Fault f{ 1, w1, b1, 'e' }, g{ 1, w2, b2, a2 };
              judge(c, one(c, 2, 1, { f, g }, false), f.text() + ", " + g.text());
            }
        });
  // messages that fill the pipe
  for (char where : { 'r', 'w' })
    for (char action : { 'e', 'k', 'c' })
      for (long base = 0; base < 10; ++base)
        c.item([=] { return str("long message, ", where, " by ", action, ", part ", base); }, [&c, where, action, base] {
          for (long at : { base * 16384, base * 16384 + 4096, base * 16384 + 9001 })
          {
            Fault f{ 1, where, at, action };
            judge(c, one(c, 4000, 2, { f }, false), "4000 variables, " + f.text());
          }
        });
  // the process ends unnoticed before the program does
  for (char action : { 'e', 'k' })
    for (int solve = 1; solve <= 2; ++solve)
      c.item([=] { return str("solver gone at the end of the program, after solve ", solve - 1, " by ", action); }, [&c, action, solve] {
        Fault f{ solve, 'r', 0, action };
        judge(c, isolated(c, [&]() -> std::string {
          plan(f.text());
          Problem p(2, 1);
          for (int k = 1; k < solve; ++k)
            if (p.solve() != 1)
              return "unsolved: healthy solve";
          waitDead();
          return "0";
        }), f.text());
      });
  // no process to talk to
  for (int kind = 0; kind < 8; ++kind)
    c.item([=] { return str("the solver process can not be started, ", kind < 2 ? "fork or program fails " : "free descriptors - 2: ", kind); }, [&c, kind] {
      judge(c, isolated(c, [&]() -> std::string {
        int fds0 = openFds();
        rlimit old{};
        getrlimit(RLIMIT_NOFILE, &old);
        auto broken = [&](bool on) {
          if (kind == 0)
            fork_fails = on;
          else if (kind == 1)
            setenv("S12_PEER", on ? "/nonexistent/solver" : S12_PEER_PATH, 1);
          else
          {
            // exactly kind - 2 descriptors are free
            rlimit l = old;
            if (on)
            {
              int fd = 0;
              for (int free = 0; fd < 256; ++fd)
                if (fcntl(fd, F_GETFD) == -1 && free++ == kind - 2)
                  break;
              l.rlim_cur = rlim_t(fd);
            }
            setrlimit(RLIMIT_NOFILE, &l);
          }
        };
        broken(true);
        std::unique_ptr<Problem> p;
        try
        {
          p = std::make_unique<Problem>(2, 1);
          for (int k = 0; k < 3; ++k)
            if (p->solve() < 0)
              return "made-up: solved without a process";
        }
        catch (const std::exception& e)
        {
        }
        broken(false);
        if (!p)
          p = std::make_unique<Problem>(2, 1);
        int r = p->solve();   // may still notice the failed process
        if (r < 0)
          return "made-up: solved without a process";
        for (int k = 0; k < 2; ++k)
          if (p->solve() != 1)
            return "unsolved: a healthy process after one that could not be started";
        return cleanUp(fds0) + "0";
      }), str("kind ", kind));
    });
}
