// V01: every interleaving (up to a preemption bound) of the background decomposition with the calls of its owner.
// trajopt_ext/vhacd/src/VHACD-ASYNC.cpp is compiled with its threads, mutexes and atomics replaced by controlled ones
// and with every plain memory access reported to a race detector (sched/). The decomposition engine behind it
// (VHACD::CreateVHACD) is a scripted stand-in with the engine's rules: Compute resets the cancel request, works in
// steps, reports progress, and gives up at the next step after Cancel.
#include "mc/mc.hpp"
#include "sched/sched.hpp"
#include <vhacd/VHACD.h>

#include <cstring>
#include <memory>

using namespace mc;
using VHACD::IVHACD;
using vs::Api;
using vs::Ext;

const CheckInfo mc::info = {
  "V01", "model_checking",
  "every sequence of calls (start with each engine script and callback kind, poll, wait, cancel, read results, clean, "
  "centre of mass; released at the end) up to the depth bound, and for each every interleaving of the caller with the "
  "background thread at every atomic, mutex and thread operation with at most the stated number of preemptions; a case "
  "is one interleaving, states are distinct histories",
  { "the decomposition engine is a stand-in: it resets a cancel request when Compute starts, calls the callbacks it is "
    "given and looks for a cancel request before every step",
    "memory is sequentially consistent at synchronisation operations; missing synchronisation is reported as a data race",
    "one calling thread, as the interface documents" },
  120
};

namespace
{
enum Script { EMPTY, FAILS, QUICK, STEPS, ENDLESS, NSCRIPT };
const char* SNAME[] = { "empty", "fails", "quick", "steps", "endless" };
enum Mode { PLAIN, MUTE, CANCELS, ASKS };
const char* MNAME[] = { "callbacks", "no callbacks", "callback that cancels", "callback that asks" };
struct Req
{
  Script s;
  Mode m;
};
struct Op
{
  char k;  // S start, P poll, W wait, X cancel, G get, K clean, M mass, (R release)
  Req r{ EMPTY, PLAIN };
};

struct Msg
{
  int req, seq;
};
struct Request;
struct World
{
  IVHACD* api = nullptr;
  std::vector<std::unique_ptr<Request>> reqs;
  int caller = 0;
  // engine
  bool cancel = false;
  int in_engine = -1;    // thread inside the engine
  int engine_req = -1;   // request whose hulls the engine holds
  std::vector<std::vector<double>> pts;
  std::vector<std::vector<uint32_t>> tris;
  bool computing = false, released = false;
  int depth = 0;         // nesting of callbacks
  bool starting = false; // inside the call that starts a request
};
World* W = nullptr;

struct Request : IVHACD::IUserCallback, IVHACD::IUserLogger
{
  int id;
  Req r;
  std::vector<double> in;
  std::vector<uint32_t> idx;
  int updatesSent = 0, updatesSeen = 0, logsSent = 0, logsSeen = 0;  // sequence numbers (latest)
  bool started = false, ended = false, ok = false, cancelled = false, cancelledInCallback = false;
  int hulls() const { return r.s == QUICK ? 2 : r.s == STEPS ? 1 : 0; }
  int steps() const { return r.s == QUICK ? 1 : r.s == STEPS ? 2 : r.s == ENDLESS ? 1 << 30 : 0; }
  void Update(const double o, const double, const double, const char* const stage, const char* const operation) override
  {
    Ext e;
    vs::trace(str("update ", stage, "/", operation, " arrives at request ", id));
    VS_EXPECT(vs::self() == W->caller, "wrong-thread", "a progress message is delivered on the background thread");
    int rq = -1, seq = -1;
    std::sscanf(stage, "r%d.%d", &rq, &seq);
    VS_EXPECT(rq == id, "stale-message", str("a progress message of request ", rq, " is delivered to the callback of request ", id));
    VS_EXPECT(std::string(operation) == str("o", rq, ".", seq) && o == seq, "torn-message",
               str("a progress message is delivered in pieces of different messages: ", stage, " / ", operation, " / ", o));
    VS_EXPECT(seq > updatesSeen, "message-twice", str("progress message ", seq, " arrives after ", updatesSeen));
    updatesSeen = seq;
    ++W->depth;
    if (r.m == CANCELS && W->depth == 1)
    {
      cancelled = true;
      Api a;
      W->api->Cancel();
    }
    if (r.m == ASKS && W->depth == 1)
    {
      Api a;
      W->api->GetNConvexHulls();
      W->api->IsReady();
    }
    --W->depth;
  }
  void Log(const char* const msg) override
  {
    Ext e;
    vs::trace(str("log ", msg, " arrives at request ", id));
    VS_EXPECT(vs::self() == W->caller, "wrong-thread", "a log message is delivered on the background thread");
    int rq = -1, seq = -1;
    if (std::sscanf(msg, "l%d.%d", &rq, &seq) == 2)
    {
      VS_EXPECT(rq == id, "stale-message", str("a log message of request ", rq, " is delivered to the logger of request ", id));
      VS_EXPECT(seq > logsSeen, "message-twice", str("log message ", seq, " arrives after ", logsSeen));
      logsSeen = seq;
    }
  }
};

// --- the stand-in engine ---------------------------------------------------------------------------------------------
struct Engine : IVHACD
{
  struct Use
  {
    Use(const char* what)
    {
      VS_EXPECT(W->in_engine < 0 || W->in_engine == vs::self(), "engine-shared",
                 str("the engine's ", what, " is called while the other thread is inside the engine"));
      prev = W->in_engine;
      W->in_engine = vs::self();
    }
    ~Use() { W->in_engine = prev; }
    int prev;
  };
  int alive = 1;
  void Cancel() override
  {
    Ext e;
    vs::atomicPoint(&W->cancel, "cancel");
    vs::atomicSync(&W->cancel, true, true, vs::BOTH);
    vs::trace("cancel reaches the engine");
    W->cancel = true;
  }
  static void reset()
  {
    vs::atomicPoint(&W->cancel, "reset");
    vs::atomicSync(&W->cancel, true, true, vs::BOTH);
    W->cancel = false;
  }
  static bool cancelled()
  {
    vs::atomicPoint(&W->cancel, "check");
    vs::atomicSync(&W->cancel, true, true, vs::BOTH);
    return W->cancel;
  }
  bool Compute(const float* const, const uint32_t, const uint32_t* const, const uint32_t, const Parameters&) override
  {
    vs::violate("harness", "the engine is called with float points");
  }
  bool Compute(const double* const p, const uint32_t n, const uint32_t* const t, const uint32_t nt, const Parameters& d) override
  {
    Ext e;
    Use u("Compute");
    look(p, n, t, nt, "at the start");
    const int id = (int)p[0];
    VS_EXPECT(id == (int)W->reqs.size() - 1 || (W->starting && id == (int)W->reqs.size() - 2), "stale-request", str("the engine is asked to work on request ", id, " although request ",
                                                                 W->reqs.size() - 1, " is the latest"));
    Request& q = *W->reqs[id];
    VS_EXPECT(!q.started, "request-twice", "the engine is asked twice to work on the same request");
    VS_EXPECT(n == q.in.size() / 3 && nt == q.idx.size() / 3 && !std::memcmp(p, q.in.data(), q.in.size() * sizeof(double)) &&
                   !std::memcmp(t, q.idx.data(), q.idx.size() * sizeof(uint32_t)),
               "input-changed", "the engine does not get the points and triangles of the request");
    VS_EXPECT((d.m_callback != nullptr) || q.r.m == MUTE, "callback-lost", "the engine gets no progress callback although the request has one");
    VS_EXPECT((d.m_logger != nullptr) || q.r.m == MUTE, "callback-lost", "the engine gets no logger although the request has one");
    VS_EXPECT(d.m_resolution == 1000u + id, "parameters-changed", "the engine does not get the parameters of the request");
    vs::trace(str("the engine starts request ", id));
    q.started = true;
    W->pts.clear();
    W->tris.clear();
    W->engine_req = id;
    reset();
    if (q.r.s == FAILS)
    {
      q.ended = true;
      vs::trace("the engine fails");
      return false;
    }
    for (int k = 0; k < q.steps(); ++k)
    {
      if (k < 1000 && d.m_callback)
      {
        ++q.updatesSent;
        const std::string a = str("r", id, ".", q.updatesSent), b = str("o", id, ".", q.updatesSent);
        vs::trace("the engine reports " + a);
        Api ap;
        d.m_callback->Update(q.updatesSent, 0, 0, a.c_str(), b.c_str());
      }
      if (k == 0 && d.m_logger)
      {
        ++q.logsSent;
        const std::string a = str("l", id, ".", q.logsSent);
        Api ap;
        d.m_logger->Log(a.c_str());
      }
      if (cancelled())
      {
        vs::trace("the engine gives up");
        look(p, n, t, nt, "when it gives up");
        q.ended = true;
        return false;
      }
      if (q.r.s == ENDLESS)
        vs::yield();
    }
    look(p, n, t, nt, "at the end");
    for (int h = 0; h < q.hulls(); ++h)
    {
      W->pts.push_back({ 10. * id + h, 1, 2, 3, 4, 5 });
      W->tris.push_back({ (uint32_t)(100 * id + h), 1, 0 });
    }
    q.ended = q.ok = true;
    vs::trace(str("the engine ends request ", id));
    return true;
  }
  // the caller's buffers must stay valid and unwritten while the engine works
  static void look(const double* p, uint32_t n, const uint32_t* t, uint32_t nt, const char*)
  {
    Api a;
    vs::access(p, n * 3 * sizeof(double), false, "the points of the request, read by the engine");
    vs::access(t, nt * 3 * sizeof(uint32_t), false, "the triangles of the request, read by the engine");
  }
  uint32_t GetNConvexHulls() const override
  {
    Ext e;
    Use u("GetNConvexHulls");
    return (uint32_t)W->pts.size();
  }
  void GetConvexHull(const uint32_t i, ConvexHull& h) const override
  {
    Ext e;
    Use u("GetConvexHull");
    VS_EXPECT(i < W->pts.size(), "engine-index", "the engine is asked for a hull it does not have");
    h.m_nPoints = 2;
    h.m_points = W->pts[i].data();
    h.m_nTriangles = 1;
    h.m_triangles = W->tris[i].data();
    h.m_volume = 7 + W->pts[i][0];
    h.m_center[0] = W->pts[i][0];
    h.m_center[1] = 8;
    h.m_center[2] = 9;
  }
  void Clean() override
  {
    Ext e;
    Use u("Clean");
    for (auto& v : W->pts)
      v.clear();
    W->pts.clear();
    W->tris.clear();
  }
  void Release() override
  {
    Ext e;
    Use u("Release");
    VS_EXPECT(!W->released, "double-release", "the engine is released twice");
    W->released = true;
    for (auto& v : W->pts)
      v.clear();
  }
  bool OCLInit(void* const, IUserLogger* const) override { return false; }
  bool OCLRelease(IUserLogger* const) override { return false; }
  bool ComputeCenterOfMass(double c[3]) const override
  {
    Ext e;
    Use u("ComputeCenterOfMass");
    c[0] = W->engine_req;
    c[1] = c[2] = 0;
    return !W->pts.empty();
  }
};

std::string text(const std::vector<Op>& ops)
{
  std::string s;
  for (auto& o : ops)
  {
    s += s.empty() ? "" : ", ";
    switch (o.k)
    {
      case 'S': s += str("start(", SNAME[o.r.s], ", ", MNAME[o.r.m], ")"); break;
      case 'P': s += "poll"; break;
      case 'W': s += "wait"; break;
      case 'X': s += "cancel"; break;
      case 'G': s += "read hulls"; break;
      case 'K': s += "clean"; break;
      case 'M': s += "centre of mass"; break;
    }
  }
  return s + ", release";
}

Request* latest() { return W->reqs.empty() ? nullptr : W->reqs.back().get(); }

bool ready()
{
  bool r;
  {
    Api a;
    r = W->api->IsReady();
  }
  Request* q = latest();
  if (r && q && q->r.s != EMPTY)
  {
    VS_EXPECT(q->ended || q->cancelled, "ready-early", "readiness is reported before the request has ended");
    VS_EXPECT(vs::running() == 0 || W->in_engine < 0, "ready-early", "readiness is reported while the engine works");
    if (!q->cancelled && q->r.m != MUTE)
    {
      VS_EXPECT(q->updatesSeen == q->updatesSent, "message-after-ready",
                 str("readiness is reported although the last progress message (", q->updatesSent, ") has not been delivered (", q->updatesSeen, ")"));
      VS_EXPECT(q->logsSeen == q->logsSent, "message-after-ready", "readiness is reported although the last log message has not been delivered");
    }
  }
  return r;
}
void hulls(bool settled)
{
  uint32_t n;
  {
    Api a;
    n = W->api->GetNConvexHulls();
  }
  Request* q = latest();
  const int id = q ? q->id : -1;
  if (n)
  {
    VS_EXPECT(q && q->ok, "hulls-early", str(n, " hulls are reported although the latest request has not succeeded"));
    VS_EXPECT((int)n == q->hulls(), "hull-count", str(n, " hulls are reported, the latest request has ", q->hulls()));
  }
  if (settled && q && q->ok && !q->cancelled)
    VS_EXPECT((int)n == q->hulls(), "hull-count", str(n, " hulls are reported after readiness, the latest request has ", q->hulls()));
  for (uint32_t i = 0; i <= n; ++i)
  {
    IVHACD::ConvexHull h;
    std::memset(&h, 0, sizeof(h));
    h.m_nPoints = 12345;
    {
      Api a;
      W->api->GetConvexHull(i, h);
    }
    if (i == n)
    {
      // a request may have become ready in between
      VS_EXPECT(h.m_nPoints == 12345 || (q && q->ok && (int)i < q->hulls()), "hull-beyond-end", "a hull beyond the number of hulls is returned");
      continue;
    }
    Api a;
    vs::access(h.m_points, 6 * sizeof(double), false, "the points of a result hull");
    vs::access(h.m_triangles, 3 * sizeof(uint32_t), false, "the triangles of a result hull");
    VS_EXPECT(h.m_nPoints == 2 && h.m_nTriangles == 1 && h.m_points[0] == 10. * id + i && h.m_points[5] == 5 &&
                   h.m_triangles[0] == (uint32_t)(100 * id + i) && h.m_volume == 7 + 10. * id + i && h.m_center[0] == 10. * id + i &&
                   h.m_center[1] == 8 && h.m_center[2] == 9,
               "hull-content", str("hull ", i, " is not the one of the latest request ", id));
  }
}
void settledAfterCancel(const char* what)
{
  VS_EXPECT(vs::running() == 0, "thread-left", str(what, " returns while the background thread is still running"));
}
void start(const Req& r)
{
  auto q = std::make_unique<Request>();
  q->id = (int)W->reqs.size();
  q->r = r;
  if (r.s != EMPTY)
    q->in = { (double)q->id, 1, 2, 3, 4, 5 };
  q->idx = { 0, 1, (uint32_t)q->id };
  IVHACD::Parameters d;
  if (r.m != MUTE)
  {
    d.m_callback = q.get();
    d.m_logger = q.get();
  }
  d.m_resolution = 1000u + q->id;
  if (Request* old = latest())
    old->cancelled = true;
  Request* p = q.get();
  W->reqs.push_back(std::move(q));
  bool ok;
  std::vector<double> tmp = p->in;
  std::vector<uint32_t> ti = p->idx;
  {
    Api a;
    W->starting = true;
    ok = W->api->Compute(tmp.data(), (uint32_t)tmp.size() / 3, ti.data(), (uint32_t)ti.size() / 3, d);
  }
  W->starting = false;
  VS_EXPECT(ok, "refused", "a request is not accepted");
  // the caller may reuse its buffers at once
  std::fill(tmp.begin(), tmp.end(), -1.);
  std::fill(ti.begin(), ti.end(), 77u);
}
void body(const std::vector<Op>& ops)
{
  {
    Api a;
    W->api = VHACD::CreateVHACD_ASYNC();
  }
  bool settled = false;
  for (auto& o : ops)
    switch (o.k)
    {
      case 'S':
        vs::trace(str("start ", SNAME[o.r.s]));
        start(o.r);
        settled = false;
        break;
      case 'P':
        vs::trace("poll");
        settled = ready();
        break;
      case 'W':
        vs::trace("wait");
        while (!ready())
          vs::yield();
        settled = true;
        break;
      case 'X':
        vs::trace("cancel");
        if (Request* q = latest())
          q->cancelled = true;
        {
          Api a;
          W->api->Cancel();
        }
        settledAfterCancel("a cancellation");
        break;
      case 'G':
        vs::trace("read");
        hulls(settled);
        break;
      case 'K':
        vs::trace("clean");
        if (Request* q = latest())
          q->cancelled = true;
        {
          Api a;
          W->api->Clean();
          VS_EXPECT(W->api->GetNConvexHulls() == 0, "hulls-after-clean", "hulls are reported after cleaning up");
        }
        settledAfterCancel("cleaning up");
        settled = false;
        break;
      case 'M':
      {
        vs::trace("mass");
        double c[3] = { 1, 1, 1 };
        Api a;
        const bool r = W->api->ComputeCenterOfMass(c);
        if (!r)
          break;
        VS_EXPECT(latest() && latest()->ok && c[0] == latest()->id, "mass", "the centre of mass is not that of the latest request");
        break;
      }
    }
  vs::trace("release");
  if (Request* q = latest())
    q->cancelled = true;
  {
    Api a;
    W->api->Release();
  }
  settledAfterCancel("the release");
  VS_EXPECT(W->released, "leak", "the engine is not released");
  VS_EXPECT(vs::outstanding() == 0, "leak", str("memory is left after the release: ", vs::describeOutstanding()));
}

void explore1(Ctx& c, const std::vector<Op>& ops, int preemptions)
{
  c.item([&] { return text(ops); },
         [&] {
           Dfs d(c, preemptions);
           d.run([&] {
             World w;
             W = &w;
             vs::Result r = vs::run(d, [&] { body(ops); });
             c.transitions(r.points);
             c.traces();
             Hash h;
             for (auto& q : w.reqs)
               h.u(q->updatesSeen).u(q->logsSeen).u(q->ok).u(q->started).u(q->updatesSent > 1000);
             h.u(r.switches);
             for (int x : d.path())
               h.u(x);
             c.state(h);
             Hash oh;
             for (auto& q : w.reqs)
               oh.u(q->updatesSeen).u(q->logsSeen).u(q->ok).u(q->started);
             c.outcome(oh);
             if (!r.key.empty())
             {
               // parked threads refer to the requests for ever
               for (auto& q : w.reqs)
                 q.release();
               c.fail(r.key, str(r.msg, "; schedule ", d.pathText()));
             }
           });
         });
}
}  // namespace

namespace VHACD
{
IVHACD* CreateVHACD(void)
{
  static Engine e;
  W->released = false;
  return &e;
}
}  // namespace VHACD

void mc::explore(Ctx& c)
{
  std::vector<Req> reqs = { { QUICK, PLAIN }, { STEPS, PLAIN }, { STEPS, CANCELS }, { ENDLESS, PLAIN }, { ENDLESS, MUTE }, { FAILS, PLAIN }, { EMPTY, PLAIN }, { QUICK, ASKS }, { STEPS, MUTE } };
  std::vector<Op> alphabet;
  for (auto& r : reqs)
    alphabet.push_back({ 'S', r });
  for (char k : { 'P', 'W', 'X', 'G', 'K', 'M' })
    alphabet.push_back({ k });
  const int depth = c.thorough ? 4 : 3;
  std::function<void(std::vector<Op>&)> rec = [&](std::vector<Op>& ops) {
    explore1(c, ops, c.thorough ? (ops.size() <= 3 ? 3 : 2) : (ops.size() <= 2 ? 3 : 2));
    if ((int)ops.size() == depth)
      return;
    bool running = false, endless = false;
    int starts = 0;
    for (auto& o : ops)
    {
      if (o.k == 'S')
        running = true, endless = o.r.s == ENDLESS, ++starts;
      if (o.k == 'X' || o.k == 'K')
        running = endless = false;
    }
    for (auto& o : alphabet)
    {
      if (o.k == 'S' && (starts == 2 || (starts == 1 && !c.thorough && !(o.r.s == QUICK && o.r.m == PLAIN) && !(o.r.s == ENDLESS && o.r.m == MUTE) &&
                                         !(o.r.s == STEPS && o.r.m == CANCELS) && o.r.s != EMPTY)))
        continue;
      if (o.k == 'W' && endless)
        continue;
      if (!c.thorough && starts == 0 && o.k != 'S' && !ops.empty())
        continue;  // one call on an idle object before the first request
      ops.push_back(o);
      rec(ops);
      ops.pop_back();
    }
  };
  std::vector<Op> ops;
  rec(ops);
}
