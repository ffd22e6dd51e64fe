#include "sched/sched.hpp"
#include "mc/mc.hpp"

#include <semaphore.h>
#include <sanitizer/asan_interface.h>

#include <array>
#include <atomic>
#include <condition_variable>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <thread>
#include <unordered_map>
#include <vector>

extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t),
                                                         void (*)(const volatile void*)) __attribute__((weak));

namespace vs
{
namespace
{
constexpr int MAXT = 8;
constexpr int FAIR_AFTER = 1500, GIVE_UP = 6000;
using Clock = std::array<uint32_t, MAXT>;

// a real thread that runs one thread of an execution after another
struct Slot
{
  sem_t sem;
  std::function<void()> job;
  Slot() { sem_init(&sem, 0, 0); }
};

enum State { READY, WAIT_MUTEX, WAIT_JOIN, WAIT_CV, DONE };
struct Thr
{
  Slot* slot = nullptr;
  State state = READY;
  void* on = nullptr;
  int joinOn = -1;
  Clock vc{};
  bool joined = false;
};
struct Mtx
{
  int owner = -1, depth = 0;
  Clock vc{};
};
struct Cell
{
  int wt = -1;
  uint32_t wc = 0;
  std::array<uint32_t, MAXT> rc{};
};
struct Exec
{
  mc::Dfs* dfs = nullptr;
  std::vector<Thr> t;
  int cur = 0, points = 0, switches = 0;
  std::map<void*, Mtx> mtx;
  std::map<const void*, Clock> sync;
  std::unordered_map<uintptr_t, Cell> cells;
  std::map<const void*, size_t> blocks;
  std::string key, msg;
  std::vector<std::string> hist;
  bool dead = false, over = false;
  sem_t done;
  Exec() { sem_init(&done, 0, 0); }
};
Exec* E = nullptr;
std::vector<Slot*> idle;  // only touched by the controller and by the thread that holds the token
thread_local Slot* tls_slot = nullptr;
thread_local int tls_id = -1;
thread_local Exec* tls_exec = nullptr;
thread_local bool in_api = false;
thread_local int in_hook = 0;
thread_local bool in_free = false;
struct Quiet
{
  Quiet() { ++in_hook; }
  ~Quiet() { --in_hook; }
};
inline bool mine() { return E != nullptr && tls_exec == E && !E->over; }

void park()
{
  for (;;)
    sem_wait(&tls_slot->sem);
}
void join_clock(Clock& a, const Clock& b)
{
  for (int i = 0; i < MAXT; ++i)
    if (b[i] > a[i])
      a[i] = b[i];
}
void tick() { ++E->t[tls_id].vc[tls_id]; }
bool enabled(const Thr& t)
{
  switch (t.state)
  {
    case READY: return true;
    case WAIT_MUTEX: return E->mtx[t.on].owner < 0;
    case WAIT_JOIN: return E->t[t.joinOn].state == DONE;
    case WAIT_CV: return false;
    default: return false;
  }
}
void switchTo(int id)
{
  if (id == tls_id)
    return;
  ++E->switches;
  E->cur = id;
  Slot* me = tls_slot;
  sem_post(&E->t[id].slot->sem);
  while (sem_wait(&me->sem) != 0)
    ;
  if (E->dead)
    park();
}
[[noreturn]] void stop(const std::string& key, const std::string& msg)
{
  E->key = key;
  E->msg = msg;
  E->dead = true;
  in_api = false;
  sem_post(&E->done);
  park();
  __builtin_unreachable();
}
int pickOther()  // the next enabled thread after the current one, -1 if none
{
  const int n = (int)E->t.size();
  for (int k = 1; k < n; ++k)
  {
    const int i = (tls_id + k) % n;
    if (enabled(E->t[i]))
      return i;
  }
  return -1;
}
void deadlock()
{
  std::string s = "no thread can run:";
  for (size_t i = 0; i < E->t.size(); ++i)
  {
    static const char* what[] = { "ready", "waits for a mutex", "waits for a thread to end", "waits for a notification", "ended" };
    s += mc::str(" thread ", i, " ", what[E->t[i].state], ";");
  }
  stop("deadlock", s + " history: " + history());
}
// the current thread gives up the processor because it can not continue
void block()
{
  while (!enabled(E->t[tls_id]))
  {
    const int o = pickOther();
    if (o < 0)
      deadlock();
    switchTo(o);
  }
}
void point()
{
  Exec& e = *E;
  if (++e.points > GIVE_UP)
    stop("does-not-end", "the execution goes on without end under a fair schedule; history: " + history());
  std::array<int, MAXT> other;
  int n = 0;
  const int nt = (int)e.t.size();
  for (int k = 1; k < nt; ++k)
  {
    const int i = (tls_id + k) % nt;
    if (enabled(e.t[i]))
      other[n++] = i;
  }
  if (!n)
    return;
  if (e.points > FAIR_AFTER)
  {
    switchTo(other[0]);
    return;
  }
  const int k = e.dfs->choose(1 + n);
  if (k)
    switchTo(other[k - 1]);
}

void slotMain(Slot* s)
{
  tls_slot = s;
  for (;;)
  {
    while (sem_wait(&s->sem) != 0)
      ;
    auto job = std::move(s->job);
    s->job = nullptr;
    job();
  }
}
Slot* takeSlot()
{
  if (!idle.empty())
  {
    Slot* s = idle.back();
    idle.pop_back();
    return s;
  }
  Slot* s = new Slot;
  std::thread(slotMain, s).detach();
  return s;
}

void onMalloc(const volatile void* p, size_t n)
{
  if (in_hook || !p || !mine())
    return;
  Quiet q;
  if (!E->cells.empty())
    for (uintptr_t a = (uintptr_t)p & ~uintptr_t(7); a < (uintptr_t)p + n && n < 65536; a += 8)
      for (int b = 0; b < 8; ++b)
        E->cells.erase(a + b);
  if (in_api)
    E->blocks[(const void*)p] = n;
}
void onFree(const volatile void* p)
{
  if (in_free || !p || !mine())
    return;
  in_free = true;
  Quiet q;
  E->blocks.erase((const void*)p);
  in_free = false;
}
}  // namespace

Api::Api() : was(in_api) { in_api = true; }
Api::~Api() { in_api = was; }
Ext::Ext() : was(in_api) { in_api = false; }
Ext::~Ext() { in_api = was; }

Result run(mc::Dfs& d, const std::function<void()>& body)
{
  static bool hooked = false;
  if (!hooked)
  {
    hooked = true;
    if (__sanitizer_install_malloc_and_free_hooks)
      __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
  }
  Exec* e = new Exec;
  e->dfs = &d;
  e->t.reserve(MAXT);
  e->t.emplace_back();
  e->t[0].slot = takeSlot();
  e->t[0].vc[0] = 1;
  E = e;
  Slot* s0 = e->t[0].slot;
  s0->job = [e, &body, s0] {
    tls_id = 0;
    tls_exec = e;
    in_api = false;
    body();
    {
      Quiet q;
      for (size_t i = 1; i < e->t.size(); ++i)
        if (e->t[i].state != DONE)
          stop("unfinished-thread", "the execution ended while thread " + std::to_string(i) + " was still running; history: " + history());
      e->over = true;
      e->t[0].state = DONE;
      tls_exec = nullptr;
      idle.push_back(s0);
    }
    sem_post(&e->done);
  };
  sem_post(&s0->sem);
  while (sem_wait(&e->done) != 0)
    ;
  Result r;
  r.key = e->key;
  r.msg = e->msg;
  r.points = e->points;
  r.switches = e->switches;
  r.threads = (int)e->t.size();
  E = nullptr;
  if (!e->dead)
    delete e;
  return r;
}
bool managed() { return mine(); }
int self() { return tls_id; }
void violate(const std::string& key, const std::string& msg)
{
  Quiet q;
  if (mine())
    stop(key, msg + "; history: " + history());
  std::abort();
}
int running()
{
  int n = 0;
  for (size_t i = 1; i < E->t.size(); ++i)
    n += E->t[i].state != DONE;
  return n;
}
void trace(const std::string& s)
{
  if (!mine())
    return;
  Quiet q;
  E->hist.push_back(s);
}
std::string history()
{
  std::string r;
  if (E)
    for (size_t i = E->hist.size() > 60 ? E->hist.size() - 60 : 0; i < E->hist.size(); ++i)
      r += (r.empty() ? "" : " | ") + E->hist[i];
  return r;
}

void access(const void* p, size_t n, bool write, const char* what)
{
  if (in_hook || !mine() || !in_api)
    return;
  Quiet q;
  if (__asan_region_is_poisoned(const_cast<void*>(p), n))
    stop("memory-error", mc::str(write ? "write" : "read", " of memory that is not allocated any more (", what ? what : "an access", " of ", n,
                                 " bytes by thread ", tls_id, "); history: ", history()));
  const Clock& vc = E->t[tls_id].vc;
  for (size_t i = 0; i < n && i < 4096; ++i)
  {
    Cell& c = E->cells[(uintptr_t)p + i];
    bool race = c.wt >= 0 && c.wt != tls_id && c.wc > vc[c.wt];
    int with = c.wt;
    if (write)
      for (int t = 0; t < MAXT; ++t)
        if (t != tls_id && c.rc[t] > vc[t])
          race = true, with = t;
    if (race)
      stop("data-race", mc::str("thread ", tls_id, write ? " writes" : " reads", " memory that thread ", with,
                                " accesses without synchronisation (", what ? what : "a plain access", "); history: ", history()));
    if (write)
    {
      c.wt = tls_id;
      c.wc = vc[tls_id];
      c.rc.fill(0);
    }
    else
      c.rc[tls_id] = vc[tls_id];
  }
}
static void alive(const void* p, size_t n, const char* what)
{
  if (__asan_region_is_poisoned(const_cast<void*>(p), n))
    stop("memory-error", mc::str(what, " that is not allocated any more is used by thread ", tls_id, "; history: ", history()));
}

void atomicPoint(const void* a, const char* what)
{
  if (in_hook || !mine())
    return;
  Quiet q;
  point();
  alive(a, 1, "an atomic");
}
void atomicSync(const void* a, bool reads, bool writes, int order)
{
  if (in_hook || !mine())
    return;
  Quiet q;
  Clock& vc = E->t[tls_id].vc;
  if (reads && (order & ACQUIRE))
  {
    auto it = E->sync.find(a);
    if (it != E->sync.end())
      join_clock(vc, it->second);
  }
  if (writes)
  {
    Clock& s = E->sync[a];
    if (!reads)
      s.fill(0);  // a plain store ends the release sequence
    if (order & RELEASE)
    {
      join_clock(s, vc);
      tick();
    }
  }
}
int spawn(std::function<void()> f)
{
  if (!mine())
    return -1;
  Quiet q;
  Exec* e = E;
  const int id = (int)e->t.size();
  if (id >= MAXT)
    stop("too-many-threads", "more threads than the exploration allows; history: " + history());
  e->t.emplace_back();
  e->t[id].slot = takeSlot();
  e->t[id].vc = e->t[tls_id].vc;
  e->t[id].vc[id] = 1;
  tick();
  Slot* s = e->t[id].slot;
  auto fn = std::make_shared<std::function<void()>>(std::move(f));
  s->job = [e, id, fn, s]() mutable {
    tls_id = id;
    tls_exec = e;
    in_hook = 0;
    if (e->dead)
      park();
    in_api = true;
    (*fn)();
    in_api = false;
    Quiet q;
    fn.reset();
    e->t[id].state = DONE;
    tls_exec = nullptr;
    idle.push_back(s);
    // hand the token on; this real thread is done with the execution
    int next = -1;
    for (int k = 1; k < (int)e->t.size(); ++k)
    {
      const int i = (id + k) % (int)e->t.size();
      if (enabled(e->t[i]))
      {
        next = i;
        break;
      }
    }
    if (next < 0)
    {
      tls_exec = e;
      deadlock();
    }
    e->cur = next;
    ++e->switches;
    sem_post(&e->t[next].slot->sem);
  };
  e->hist.push_back(mc::str("thread ", id, " starts"));
  point();
  return id;
}
void join(int id)
{
  if (!mine())
    return;
  Quiet q;
  point();
  Thr& me = E->t[tls_id];
  me.state = WAIT_JOIN;
  me.joinOn = id;
  block();
  me.state = READY;
  join_clock(me.vc, E->t[id].vc);
  E->t[id].joined = true;
}
void detachOrDie(int id)
{
  if (!mine())
    return;
  Quiet q;
  stop("crash", "a std::thread that was neither joined nor detached is destroyed: std::terminate; history: " + history());
}
void lock(void* m, bool recursive)
{
  if (in_hook || !mine())
    return;
  Quiet q;
  point();
  alive(m, 1, "a mutex");
  if (E->mtx[m].owner == tls_id)
  {
    if (!recursive)
      stop("deadlock", mc::str("thread ", tls_id, " locks a mutex that it holds already; history: ", history()));
    ++E->mtx[m].depth;
    return;
  }
  Thr& me = E->t[tls_id];
  me.state = WAIT_MUTEX;
  me.on = m;
  block();
  me.state = READY;
  Mtx& x = E->mtx[m];
  x.owner = tls_id;
  x.depth = 1;
  join_clock(me.vc, x.vc);
}
bool tryLock(void* m, bool recursive)
{
  if (in_hook || !mine())
    return true;
  Quiet q;
  point();
  alive(m, 1, "a mutex");
  Mtx& x = E->mtx[m];
  if (x.owner == tls_id && recursive)
  {
    ++x.depth;
    return true;
  }
  if (x.owner >= 0)
    return false;
  x.owner = tls_id;
  x.depth = 1;
  join_clock(E->t[tls_id].vc, x.vc);
  return true;
}
void unlock(void* m)
{
  if (in_hook || !mine())
    return;
  Quiet q;
  alive(m, 1, "a mutex");
  Mtx& x = E->mtx[m];
  if (x.owner != tls_id)
    stop("crash", mc::str("thread ", tls_id, " unlocks a mutex it does not hold; history: ", history()));
  if (--x.depth)
    return;
  x.owner = -1;
  join_clock(x.vc, E->t[tls_id].vc);
  tick();
  point();
}
void destroyMutex(void* m)
{
  if (in_hook || !mine())
    return;
  Quiet q;
  auto it = E->mtx.find(m);
  if (it != E->mtx.end() && it->second.owner >= 0)
    stop("memory-error", "a mutex is destroyed while it is held; history: " + history());
  E->mtx.erase(m);
}
void cvWait(void* cv, void* m, bool)
{
  if (!mine())
    return;
  Quiet q;
  point();
  Mtx& x = E->mtx[m];
  const int depth = x.depth;
  x.owner = -1;
  join_clock(x.vc, E->t[tls_id].vc);
  tick();
  Thr& me = E->t[tls_id];
  me.state = WAIT_CV;
  me.on = cv;
  block();
  me.state = WAIT_MUTEX;
  me.on = m;
  block();
  me.state = READY;
  E->mtx[m].owner = tls_id;
  E->mtx[m].depth = depth;
  join_clock(me.vc, E->mtx[m].vc);
}
void cvNotify(void* cv, bool all)
{
  if (!mine())
    return;
  Quiet q;
  point();
  for (auto& t : E->t)
    if (t.state == WAIT_CV && t.on == cv)
    {
      t.state = READY;  // cvWait goes on to take the mutex
      if (!all)
        return;
    }
}
void yield()
{
  if (!mine())
    return;
  Quiet q;
  if (++E->points > GIVE_UP)
    stop("does-not-end", "the execution goes on without end under a fair schedule; history: " + history());
  const int o = pickOther();
  if (o >= 0)
    switchTo(o);
}
size_t outstanding() { return E ? E->blocks.size() : 0; }
std::string describeOutstanding()
{
  std::string s;
  for (auto& b : E->blocks)
    s += std::to_string(b.second) + " ";
  return s + "bytes";
}
}  // namespace vs

// --- what gcc -fsanitize=thread calls ------------------------------------------------------------------------------
#define RW(n)                                                                                                          \
  void __tsan_read##n(void* p) { vs::access(p, n, false); }                                                            \
  void __tsan_write##n(void* p) { vs::access(p, n, true); }                                                            \
  void __tsan_unaligned_read##n(void* p) { vs::access(p, n, false); }                                                  \
  void __tsan_unaligned_write##n(void* p) { vs::access(p, n, true); }                                                  \
  void __tsan_volatile_read##n(void* p) { vs::access(p, n, false); }                                                   \
  void __tsan_volatile_write##n(void* p) { vs::access(p, n, true); }                                                   \
  void __tsan_unaligned_volatile_read##n(void* p) { vs::access(p, n, false); }                                         \
  void __tsan_unaligned_volatile_write##n(void* p) { vs::access(p, n, true); }
#define ATOMIC(bits, T)                                                                                                \
  T __tsan_atomic##bits##_load(const volatile T* p, int o)                                                             \
  {                                                                                                                    \
    vs::atomicPoint((const void*)p, "load");                                                                           \
    vs::atomicSync((const void*)p, true, false, vs::ACQUIRE);                                                          \
    return *p;                                                                                                         \
  }                                                                                                                    \
  void __tsan_atomic##bits##_store(volatile T* p, T v, int o)                                                          \
  {                                                                                                                    \
    vs::atomicPoint((const void*)p, "store");                                                                          \
    vs::atomicSync((const void*)p, false, true, vs::RELEASE);                                                          \
    *p = v;                                                                                                            \
  }                                                                                                                    \
  T __tsan_atomic##bits##_exchange(volatile T* p, T v, int o)                                                          \
  {                                                                                                                    \
    vs::atomicPoint((const void*)p, "exchange");                                                                       \
    vs::atomicSync((const void*)p, true, true, vs::BOTH);                                                              \
    T old = *p;                                                                                                        \
    *p = v;                                                                                                            \
    return old;                                                                                                        \
  }                                                                                                                    \
  T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int o)                                                         \
  {                                                                                                                    \
    vs::atomicPoint((const void*)p, "add");                                                                            \
    vs::atomicSync((const void*)p, true, true, vs::BOTH);                                                              \
    T old = *p;                                                                                                        \
    *p = (T)(old + v);                                                                                                 \
    return old;                                                                                                        \
  }                                                                                                                    \
  T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int o)                                                         \
  {                                                                                                                    \
    vs::atomicPoint((const void*)p, "sub");                                                                            \
    vs::atomicSync((const void*)p, true, true, vs::BOTH);                                                              \
    T old = *p;                                                                                                        \
    *p = (T)(old - v);                                                                                                 \
    return old;                                                                                                        \
  }                                                                                                                    \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int o, int f)                            \
  {                                                                                                                    \
    vs::atomicPoint((const void*)p, "cas");                                                                            \
    const bool ok = *p == *e;                                                                                          \
    vs::atomicSync((const void*)p, true, ok, vs::BOTH);                                                                \
    if (ok)                                                                                                            \
      *p = v;                                                                                                          \
    else                                                                                                               \
      *e = *p;                                                                                                         \
    return ok;                                                                                                         \
  }                                                                                                                    \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int o, int f)                              \
  {                                                                                                                    \
    return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, o, f);                                               \
  }
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { vs::access(p, 8, true, "a virtual table pointer"); }
void __tsan_vptr_read(void** p) { vs::access(p, 8, false, "a virtual table pointer"); }
void __tsan_read_range(void* p, unsigned long n) { vs::access(p, n, false); }
void __tsan_write_range(void* p, unsigned long n) { vs::access(p, n, true); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
RW(1) RW(2) RW(4) RW(8) RW(16)
ATOMIC(8, unsigned char) ATOMIC(16, unsigned short) ATOMIC(32, unsigned int) ATOMIC(64, unsigned long)
}
