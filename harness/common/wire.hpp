// The bundled solver in one process: the model wrapper's process and pipe calls are redirected (link option --wrap) to
// buffers, the solver program's real main loop runs as a coroutine on the other end, and the solver routine is a stand-in.
#pragma once
#include <functional>
#include <string>
#include <vector>
namespace wire
{
struct Problem
{
  int m, n, nz, qn, qnz;
  int *acolcnt, *acolidx, *qcolcnt, *qcolidx;
  double *acolnzs, *qcolnzs, *rhs, *obj, *lb, *ub, *primal, *dual;
  int *status, *code;
  double *opt, big;
};
extern std::function<void(Problem&)> solver;                  // the solver routine
enum Side { PARENT, CHILD };
// number of bytes to transfer (at most size), 0: end of file (reads), negative: -errno
extern std::function<long(Side, bool write, size_t size)> transfer;
extern size_t calls, bytes;                                   // transfers performed
void reset();                                                 // drop undelivered bytes
void cut(size_t n);                                           // keep only the first n undelivered bytes, the other end is closed (unless more than there are)
bool drained();                                               // nothing undelivered
struct Hang {};                                               // the caller would wait for ever
extern bool childDead, childError;                            // the solver program ended, with an error
}
