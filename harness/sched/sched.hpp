// A controlled scheduler for real threads: one thread runs at a time, every synchronisation operation of the code under
// check is a scheduling point, and the choice of who runs next is made by the depth-first exploration (mc::Dfs).
// Plain memory accesses of the code under check (compiled with -fsanitize=thread against the hooks in sched.cpp) are
// checked for data races by vector clocks and for use after release through the address sanitizer's shadow.
#pragma once
#include <cstddef>
#include <functional>
#include <string>

namespace mc
{
class Dfs;
}
namespace vs
{
// --- one execution -------------------------------------------------------------------------------------------------
struct Result
{
  std::string key, msg;  // empty key: nothing was violated
  int points = 0, switches = 0, threads = 0;
};
// Runs body as thread 0 under the scheduler; returns when it has ended and every thread has, or at a violation (then
// the threads of this execution stay parked for ever).
Result run(mc::Dfs& d, const std::function<void()>& body);
bool managed();                      // the calling thread belongs to the current execution
int self();                          // its number (0: the caller)
[[noreturn]] void violate(const std::string& key, const std::string& msg);
int running();                       // threads started and not yet ended, thread 0 not counted
void trace(const std::string& s);    // a line in the history of this execution
std::string history();

// --- operations of the controlled primitives -----------------------------------------------------------------------
enum Order { RELAXED = 0, ACQUIRE = 1, RELEASE = 2, BOTH = 3 };
void atomicPoint(const void* a, const char* what);         // scheduling point before an atomic operation
void atomicSync(const void* a, bool reads, bool writes, int order);
int spawn(std::function<void()> f);
void join(int id);
void detachOrDie(int id);
void lock(void* m, bool recursive);
bool tryLock(void* m, bool recursive);
void unlock(void* m);
void destroyMutex(void* m);
void cvWait(void* cv, void* m, bool recursive);
void cvNotify(void* cv, bool all);
void yield();
void access(const void* p, size_t n, bool write, const char* what = nullptr);

// --- which code is being watched -----------------------------------------------------------------------------------
struct Api { Api(); ~Api(); bool was; };  // calls into the code under check
struct Ext { Ext(); ~Ext(); bool was; };  // calls out of it (stand-ins, user callbacks)
// blocks allocated by watched code in this execution and not yet freed
size_t outstanding();
std::string describeOutstanding();
}  // namespace vs
#define VS_EXPECT(ok, key, msg) do { if (!(ok)) vs::violate(key, msg); } while (0)
