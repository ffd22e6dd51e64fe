// V03: whole convex decompositions (VHACD::CreateVHACD) of every small block shape, and a cancellation at every point
// where the engine calls back.
#include "mc/mc.hpp"
#include "common/blocks.hpp"
#include <vhacd/VHACD.h>

#include <algorithm>
#include <array>
#include <map>
#include <memory>
#include <set>

extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));

using namespace mc;
using VHACD::IVHACD;
using namespace blk;

const CheckInfo mc::info = {
  "V03", "fault_enumeration",
  "every face-connected shape of unit blocks in the stated boxes with every parameter set, decomposed by a fresh engine, "
  "by the same engine again and through the float interface; and for the stated shapes a cancellation at every single "
  "progress and log call, followed by a decomposition on the same engine; a case is one decomposition",
  { "meshes are closed surfaces of unit blocks, voxel grids of about 6 to 20 cells per axis",
    "a hull may miss a mesh vertex by up to two voxel diagonals (the voxel grid rounds the shape)" },
  120
};

namespace
{
// --- live memory of the library -------------------------------------------------------------------------------------
bool watching = false;
size_t largest = 0;  // the largest block asked for
std::map<const volatile void*, size_t>* blocks = nullptr;
bool inside = false;
void onMalloc(const volatile void* p, size_t n)
{
  if (!watching || inside || !p)
    return;
  inside = true;
  (*blocks)[p] = n;
  largest = std::max(largest, n);
  inside = false;
}
void onFree(const volatile void* p)
{
  if (inside || !blocks || !p)
    return;
  inside = true;
  blocks->erase(p);
  inside = false;
}
struct Watch
{
  Watch() : was(watching) { watching = true; }
  ~Watch() { watching = was; }
  bool was;
};
struct Pause
{
  Pause() : was(watching) { watching = false; }
  ~Pause() { watching = was; }
  bool was;
};

struct Setting
{
  const char* name;
  uint32_t resolution, mode, maxHulls, maxVerts, pca, approx;
  double concavity;
  bool project;
  uint32_t downsampling = 4;
};
IVHACD::Parameters parameters(const Setting& s)
{
  IVHACD::Parameters p;
  p.m_resolution = s.resolution;
  p.m_mode = s.mode;
  p.m_maxConvexHulls = s.maxHulls;
  p.m_maxNumVerticesPerCH = s.maxVerts;
  p.m_pca = s.pca;
  p.m_concavity = s.concavity;
  p.m_projectHullVertices = s.project;
  p.m_convexhullApproximation = s.approx;
  p.m_planeDownsampling = p.m_convexhullDownsampling = s.downsampling;
  p.m_oclAcceleration = 0;
  return p;
}

struct Hooks : IVHACD::IUserCallback, IVHACD::IUserLogger
{
  Ctx& c;
  IVHACD* api;
  int calls = 0, cancelAt = -1;
  double last = 0;
  bool bad = false;
  Hooks(Ctx& ctx, IVHACD* a) : c(ctx), api(a) {}
  void hit()
  {
    c.beat();
    if (calls++ == cancelAt)
    {
      Watch w;
      api->Cancel();
    }
  }
  void Update(const double o, const double s, const double p, const char* const a, const char* const b) override
  {
    Pause w;
    if (!(o >= 0 && o <= 100 + 1e-9 && p >= -1e-9 && p <= 100 + 1e-9 && a && b && o >= last - 1e-9))
      bad = true;
    last = o;
    hit();
  }
  void Log(const char* const m) override
  {
    Pause w;
    if (!m)
      bad = true;
    hit();
  }
};

struct Hull
{
  std::vector<double> p;
  std::vector<uint32_t> t;
  double volume, centre[3];
  bool operator==(const Hull& o) const
  {
    return p == o.p && t == o.t && volume == o.volume && !std::memcmp(centre, o.centre, sizeof(centre));
  }
};
std::vector<Hull> hullsOf(IVHACD* v)
{
  std::vector<Hull> r;
  for (uint32_t i = 0; i < v->GetNConvexHulls(); ++i)
  {
    IVHACD::ConvexHull h;
    v->GetConvexHull(i, h);
    Hull x;
    x.p.assign(h.m_points, h.m_points + 3 * h.m_nPoints);
    x.t.assign(h.m_triangles, h.m_triangles + 3 * h.m_nTriangles);
    x.volume = h.m_volume;
    std::copy(h.m_center, h.m_center + 3, x.centre);
    r.push_back(x);
  }
  return r;
}
double vol6(const double* a, const double* b, const double* c, const double* d)
{
  double u[3], v[3], w[3];
  for (int i = 0; i < 3; ++i)
    u[i] = a[i] - d[i], v[i] = b[i] - d[i], w[i] = c[i] - d[i];
  return u[0] * (v[1] * w[2] - v[2] * w[1]) + u[1] * (v[2] * w[0] - v[0] * w[2]) + u[2] * (v[0] * w[1] - v[1] * w[0]);
}
double tri2(const double* a, const double* b, const double* c)
{
  double u[3], v[3];
  for (int i = 0; i < 3; ++i)
    u[i] = b[i] - a[i], v[i] = c[i] - a[i];
  const double x = u[1] * v[2] - u[2] * v[1], y = u[2] * v[0] - u[0] * v[2], z = u[0] * v[1] - u[1] * v[0];
  return std::sqrt(x * x + y * y + z * z);
}
void judge(Ctx& c, const Mesh& m, const Setting& s, const std::vector<Hull>& h)
{
  auto what = [&](const std::string& t) { return str(m.name, ", ", s.name, ": ", t); };
  c.checkf(!h.empty(), "no-hulls", [&] { return what("no hulls"); });
  c.checkf(h.size() <= s.maxHulls, "too-many-hulls", [&] { return what(str(h.size(), " hulls")); });
  double ext = 0;
  for (int i = 0; i < 3; ++i)
    ext = std::max(ext, m.hi[i] - m.lo[i]);
  double dim = 64;
  if (s.pca)
    dim = std::floor(std::pow((double)s.resolution, 1.0 / 3) + 0.5);
  const double voxel = ext / std::max(4., dim - 1) ;
  double tol = 2 * std::sqrt(3.) * voxel;
  size_t i = 0;
  double sum = 0;
  for (auto& x : h)
  {
    sum += x.volume;
    const size_t nv = x.p.size() / 3;
    c.checkf(nv >= 4 && x.t.size() >= 12, "hull-degenerate", [&] { return what(str("hull ", i, " has ", nv, " vertices and ", x.t.size() / 3, " triangles")); });
    c.checkf(s.maxVerts < 4 || nv <= std::max(s.maxVerts, 4u) || s.maxVerts == 4, "too-many-vertices", [&] { return what(str("hull ", i, " has ", nv, " vertices")); });
    std::map<std::pair<int, int>, int> e;
    for (size_t k = 0; k < x.t.size(); k += 3)
      for (int j = 0; j < 3; ++j)
      {
        c.checkf(x.t[k + j] < nv, "hull-index", [&] { return what(str("hull ", i, ": a triangle refers to a vertex that does not exist")); });
        ++e[{ x.t[k + j], x.t[k + (j + 1) % 3] }];
      }
    for (auto& y : e)
      c.checkf(y.second == 1 && e.count({ y.first.second, y.first.first }), "hull-not-closed", [&] { return what(str("hull ", i, " is not closed")); });
    double six = 0;
    for (size_t k = 0; k < x.t.size(); k += 3)
    {
      const double *a = &x.p[3 * x.t[k]], *b = &x.p[3 * x.t[k + 1]], *d = &x.p[3 * x.t[k + 2]];
      six += vol6(a, b, d, &x.p[0]);
      const double area = tri2(a, b, d);
      if (area < 1e-9)
        continue;
      for (size_t q = 0; q < nv; ++q)
        c.checkf(vol6(a, b, d, &x.p[3 * q]) / area >= -1e-4 * ext, "hull-not-convex", [&] {
          return what(str("hull ", i, ": a vertex is ", -vol6(a, b, d, &x.p[3 * q]) / area, " outside of a face"));
        });
      for (int j = 0; j < 3; ++j)
        c.checkf(a[j] >= m.lo[j] - tol && a[j] <= m.hi[j] + tol, "hull-too-big", [&] { return what(str("hull ", i, " reaches beyond the mesh")); });
    }
    c.checkf(six > 0 && near(x.volume, six / 6, 1e-6), "hull-volume", [&] { return what(str("hull ", i, ": the volume is reported as ", x.volume, " but is ", six / 6)); });
    for (int j = 0; j < 3; ++j)
    {
      // the centre is inside
      for (size_t k = 0; k < x.t.size(); k += 3)
        c.checkf(vol6(&x.p[3 * x.t[k]], &x.p[3 * x.t[k + 1]], &x.p[3 * x.t[k + 2]], x.centre) >= -1e-9, "hull-centre",
                 [&] { return what(str("hull ", i, ": the centre is outside")); });
      break;
    }
    ++i;
  }
  // hulls that may be as many as needed do not fill the concavities
  c.count("hulls", h.size());
  if (s.maxHulls > 2)
    c.checkf(sum <= m.volume + m.surface * 4 * voxel + h.size() * s.concavity * ext * ext * ext, "concavity-filled",
             [&] { return what(str(h.size(), " hulls have a volume of ", sum, ", the mesh has ", m.volume, " and a surface of ", m.surface, " (voxel ", voxel, ")")); });
  // every corner of the mesh is in some hull, up to the voxel size
  if (s.maxVerts >= 16)
  for (size_t k = 0; k < m.p.size(); k += 3)
  {
    double best = 1e9;
    for (auto& x : h)
    {
      double out = 0;
      for (size_t q = 0; q < x.t.size(); q += 3)
      {
        const double *a = &x.p[3 * x.t[q]], *b = &x.p[3 * x.t[q + 1]], *d = &x.p[3 * x.t[q + 2]];
        const double area = tri2(a, b, d);
        if (area > 1e-9)
          out = std::max(out, -vol6(a, b, d, &m.p[k]) / area);
      }
      best = std::min(best, out);
    }
    c.checkf(best <= tol, "mesh-not-covered", [&] { return what(str("mesh vertex (", m.p[k], ",", m.p[k + 1], ",", m.p[k + 2], ") is ", best, " outside of every hull (voxel ", voxel, ")")); });
  }
}

struct Run
{
  bool ok;
  std::vector<Hull> h;
  int calls;
  bool bad;
};
Run decompose(Ctx& c, IVHACD* v, const Mesh& m, const Setting& s, int cancelAt, bool hooks, bool single)
{
  Hooks k(c, v);
  k.cancelAt = cancelAt;
  auto p = parameters(s);
  if (hooks)
    p.m_callback = &k, p.m_logger = &k;
  std::vector<float> f(m.p.begin(), m.p.end());
  Run r;
  {
    Watch w;
    r.ok = single ? v->Compute(f.data(), (uint32_t)f.size() / 3, m.t.data(), (uint32_t)m.t.size() / 3, p) :
                    v->Compute(m.p.data(), (uint32_t)m.p.size() / 3, m.t.data(), (uint32_t)m.t.size() / 3, p);
  }
  r.h = hullsOf(v);
  r.calls = k.calls;
  r.bad = k.bad;
  c.transitions(1 + k.calls);
  c.traces();
  return r;
}
struct Engine
{
  IVHACD* v;
  Engine()
  {
    Watch w;
    v = VHACD::CreateVHACD();
  }
  void clean()
  {
    Watch w;
    v->Clean();
  }
  ~Engine()
  {
    Watch w;
    v->Clean();
    v->Release();
  }
};
std::string leftOver()
{
  size_t n = 0, b = 0;
  for (auto& x : *blocks)
    ++n, b += x.second;
  return str(n, " blocks, ", b, " bytes");
}

void whole(Ctx& c, const Mesh& m, const Setting& s, bool more)
{
  auto what = [&](const std::string& t) { return str(m.name, ", ", s.name, ": ", t); };
  blocks->clear();
  largest = 0;
  {
    Engine e;
    Run a = decompose(c, e.v, m, s, -1, true, false);
    c.checkf(largest <= (64u << 20) + 200 * (size_t)s.resolution, "memory", [&] { return what(str("a block of ", largest, " bytes was asked for")); });
    c.checkf(a.ok, "failed", [&] { return what("the decomposition fails"); });
    c.checkf(!a.bad, "progress", [&] { return what("a progress message is out of range or goes back"); });
    judge(c, m, s, a.h);
    c.state(Hash().s(m.name).s(s.name));
    c.outcome(Hash().u(a.h.size()).u(a.h[0].p.size()).u(a.calls));
    c.note(str(a.h.size(), " hulls, ", a.calls, " calls back"));
    double com[3];
    bool ok;
    {
      Watch w;
      ok = e.v->ComputeCenterOfMass(com);
    }
    double want[3] = { 0, 0, 0 }, total = 0;
    for (auto& x : a.h)
    {
      total += x.volume;
      for (int i = 0; i < 3; ++i)
        want[i] += x.volume * x.centre[i];
    }
    for (int i = 0; i < 3; ++i)
      c.checkf(ok && near(com[i], want[i] / total, 1e-9), "centre-of-mass", [&] { return what(str("the centre of mass is ", com[i], " instead of ", want[i] / total)); });
    if (more)
    {
      // without callbacks, again on the same engine, after a clean-up
      Run b = decompose(c, e.v, m, s, -1, false, false);
      c.checkf(b.ok && b.h == a.h, "not-repeatable", [&] { return what("a second decomposition on the same engine, without callbacks, differs from the first"); });
      e.clean();
      c.checkf(e.v->GetNConvexHulls() == 0, "not-clean", [&] { return what("hulls are left after cleaning up"); });
      Run d = decompose(c, e.v, m, s, -1, true, true);
      c.checkf(d.ok && d.h.size() == a.h.size(), "float", [&] { return what("the decomposition from float coordinates differs"); });
      for (size_t i = 0; i < d.h.size(); ++i)
        c.checkf(d.h[i].p.size() == a.h[i].p.size() && near(d.h[i].volume, a.h[i].volume, 1e-3), "float", [&] { return what("the decomposition from float coordinates differs"); });
    }
  }
  c.checkf(blocks->empty(), "leak", [&] { return what("memory is left after clean-up and release: " + leftOver()); });
}
void cancelled(Ctx& c, const Mesh& m, const Mesh& other, const Setting& s)
{
  auto what = [&](const std::string& t) { return str(m.name, ", ", s.name, ": ", t); };
  std::vector<Hull> want, wantOther;
  int calls;
  {
    Engine e;
    Run a = decompose(c, e.v, m, s, -1, true, false);
    want = a.h;
    calls = a.calls;
    Engine e2;
    wantOther = decompose(c, e2.v, other, s, -1, false, false).h;
  }
  const int parts = 4;
  for (int at = 0; at < calls; ++at)
  {
    blocks->clear();
    {
      Engine e;
      if (at % 2)
      {
        // an engine that has results already
        Run z = decompose(c, e.v, other, s, -1, false, false);
        c.checkf(z.ok && z.h == wantOther, "not-repeatable", [&] { return what("an engine's first decomposition differs"); });
      }
      Run a = decompose(c, e.v, m, s, at, true, false);
      c.checkf(!a.ok, "cancel-ignored", [&] { return what(str("cancelled at call ", at, " of ", calls, ", but the decomposition reports success")); });
      c.checkf(a.h.empty(), "cancel-hulls", [&] { return what(str("cancelled at call ", at, " of ", calls, ", but ", a.h.size(), " hulls are left")); });
      double com[3];
      c.checkf(!e.v->ComputeCenterOfMass(com), "cancel-hulls", [&] { return what("a cancelled decomposition has a centre of mass"); });
      Run b = decompose(c, e.v, m, s, -1, false, false);
      c.checkf(b.ok && b.h == want, "cancel-afterwards", [&] { return what(str("after a cancellation at call ", at, " the same engine gives another result")); });
      c.state(Hash().s(m.name).s(s.name).u(at));
    }
    c.checkf(blocks->empty(), "leak", [&] { return what(str("cancelled at call ", at, " of ", calls, ": memory is left after clean-up and release: ", leftOver())); });
  }
}
}  // namespace

void mc::explore(Ctx& c)
{
  blocks = new std::map<const volatile void*, size_t>;
  __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
  std::vector<Setting> settings = {
    { "voxels", 1000, 0, 1024, 64, 1, 1, 0.001, true },
    { "voxels, two hulls of at most 8 vertices", 1000, 0, 2, 8, 1, 1, 0.001, true },
    { "tetrahedra, no projection", 512, 1, 1024, 64, 1, 1, 0.001, false },
    { "coarse, every plane, loose", 216, 0, 1024, 16, 1, 0, 0.1, false, 1 },
  };
  std::vector<Shape> shapes;
  auto addAll = [&](int x, int y, int z) {
    for (unsigned b = 1; b < 1u << (x * y * z); ++b)
    {
      Shape s{ x, y, z, b };
      // touching the first corner of every axis, so that no shape is only a shifted other one
      bool fx = false, fy = false, fz = false;
      for (int i = 0; i < x; ++i)
        for (int j = 0; j < y; ++j)
          for (int k = 0; k < z; ++k)
            if (s.has(i, j, k))
              fx |= i == 0, fy |= j == 0, fz |= k == 0;
      if (fx && fy && fz && connected(s))
        shapes.push_back(s);
    }
  };
  addAll(2, 2, 2);
  addAll(3, 2, 1);
  if (c.thorough)
  {
    addAll(3, 3, 1);
    addAll(3, 2, 2);
  }
  // boxes of every combination of sides, a plate of one thousandth among them
  const double sides[] = { 0.001, 1, 2 };
  for (double x : sides)
    for (double y : sides)
      for (double z : sides)
        for (auto& p : settings)
        {
          if ((x == 0.001) + (y == 0.001) + (z == 0.001) == 2)
            continue;  // thinner than the distance within which points of a hull are merged
          Mesh m = meshOf({ 1, 1, 1, 1 });
          m.name = str("box ", x, " x ", y, " x ", z);
          for (size_t k = 0; k < m.p.size(); k += 3)
            m.p[k] *= x, m.p[k + 1] *= y, m.p[k + 2] *= z;
          m.hi[0] = x, m.hi[1] = y, m.hi[2] = z;
          m.volume = x * y * z;
          m.surface = 2 * (x * y + y * z + z * x);
          c.item([&] { return str(m.name, ", ", p.name); }, [&] { whole(c, m, p, false); });
        }
  // walls around a hollow: several hulls are needed
  const std::vector<Setting> fine = {
    { "fine voxels", 8000, 0, 1024, 64, 1, 1, 0.001, true },
    { "fine voxels, not aligned", 8000, 0, 1024, 64, 0, 1, 0.001, false },
    { "fine voxels, two hulls", 8000, 0, 2, 64, 1, 1, 0.001, true },
    { "fine tetrahedra", 8000, 1, 1024, 64, 1, 1, 0.001, true },
  };
  for (auto s : shapes)
    if (s.nx * s.ny * s.nz <= 8)
      for (auto& p : fine)
      {
        s.grid = 1;
        c.item([&] { return str(meshOf(s).name, ", ", p.name); }, [&] { whole(c, meshOf(s), p, false); });
      }
  for (auto& s : shapes)
    for (auto& p : settings)
      c.item([&] { return str(meshOf(s).name, ", ", p.name); }, [&] { whole(c, meshOf(s), p, s.bits % (c.thorough ? 2 : 5) == 0); });
  // the scan of the cancellation points
  const Mesh other = meshOf({ 1, 1, 1, 1 });
  std::vector<Shape> few = { { 1, 1, 1, 1 }, { 2, 2, 1, 7 }, { 3, 2, 1, 0x37 }, { 2, 2, 2, 0x17 } };
  if (c.thorough)
    few.insert(few.end(), { { 3, 3, 1, 0x1ef }, { 2, 2, 2, 0x7f }, { 3, 2, 2, 0xf7f }, { 3, 1, 3, 0x1ef } });
  for (auto& s : few)
    for (auto& p : settings)
      c.item([&] { return str("cancel ", meshOf(s).name, ", ", p.name); }, [&] { cancelled(c, meshOf(s), other, p); });
}
