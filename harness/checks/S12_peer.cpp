// Stand-in for the solver routine behind the real solver program, which stops at a planned point of the exchange.
// S12_PLAN="<solve> <r|w> <bytes> <e|k|c>": in that solve, after so many bytes of the request were read or of the
// response written: exit, be killed, or close the connection and linger.
#include <cstdio>
#include <cstdlib>
#include <signal.h>
#include <unistd.h>
static int solve = 1, planSolve = -1;
static char where = 'n', action = 'e';
static long limit = 0, done = 0;
static bool writing = false, planned = false;
static void plan()
{
  if (planned)
    return;
  planned = true;
  if (const char* p = getenv("S12_PLAN"))
    if (sscanf(p, "%d %c %ld %c", &planSolve, &where, &limit, &action) != 4)
      planSolve = -1;
}
static void act()
{
  if (action == 'e')
    _exit(3);
  if (action == 'k')
    raise(SIGKILL);
  close(0), close(1);
  alarm(100);
  for (;;)
    pause();
}
extern "C" {
ssize_t __real_read(int, void*, size_t);
ssize_t __real_write(int, const void*, size_t);
ssize_t __wrap_read(int fd, void* b, size_t n)
{
  plan();
  if (fd != 0)
    return __real_read(fd, b, n);
  if (writing)
    writing = false, done = 0, ++solve;
  if (solve == planSolve && where == 'r')
  {
    if (done >= limit)
      act();
    if (long(n) > limit - done)
      n = size_t(limit - done);
  }
  ssize_t r = __real_read(fd, b, n);
  if (r > 0)
    done += r;
  return r;
}
ssize_t __wrap_write(int fd, const void* b, size_t n)
{
  plan();
  if (fd != 1)
    return __real_write(fd, b, n);
  if (!writing)
    writing = true, done = 0;
  if (solve == planSolve && where == 'w')
  {
    if (done >= limit)
      act();
    if (long(n) > limit - done)
      n = size_t(limit - done);
  }
  ssize_t r = __real_write(fd, b, n);
  if (r > 0)
    done += r;
  return r;
}
void bpmpd(int* m, int* n, int*, int*, int*, int*, int*, double*, int*, int*, double*, double* rhs, double* obj, double* lb, double* ub, double* primal, double*, int*, double*, int* code, double* opt, int*)
{
  // a point inside the bounds that depends on everything
  double s = 0;
  for (int i = 0; i < *m; ++i)
    s += rhs[i];
  for (int i = 0; i < *n; ++i)
  {
    double t = obj[i] * 0.125 + s * 0.01 + 1000;
    primal[i] = lb[i] + (ub[i] - lb[i]) * (t - (long)t);
  }
  *code = 2, *opt = 0;
}
}
