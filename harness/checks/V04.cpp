// V04: voxelisation of a mesh and the splitting of voxel and tetrahedron sets by planes: every small block shape, every
// plane of a family, and every plane again for the parts.
#include "mc/mc.hpp"
#include "common/blocks.hpp"
#include <vhacd/VHACD.h>
#include <vhacd/inc/vhacdVolume.h>

#include <cmath>
#include <cstring>
#include <memory>
#include <tuple>

using namespace mc;
using namespace blk;
using namespace VHACD;

const CheckInfo mc::info = {
  "V04", "exploration",
  "every face-connected shape of blocks in the stated boxes, voxelised at every stated resolution and in every stated "
  "position, compared cell by cell with the exact classification of the shape; then every split of the voxel set and of "
  "the tetrahedron set by every plane of the family (all voxel boundaries, all voxel centres, oblique planes), and every "
  "split of the parts again; a case is one voxelisation or one split",
  { "meshes are closed axis-aligned surfaces; a cell whose closed box touches the surface within 1e-9 of its size may be "
    "classified either way" },
  120
};

namespace
{
typedef std::tuple<int, int, int> Cell;
struct Split
{
  double a, b, c, d;
  AXIS axis;
  Plane plane() const
  {
    Plane p;
    p.m_a = a, p.m_b = b, p.m_c = c, p.m_d = d;
    p.m_axis = axis;
    p.m_index = 0;
    return p;
  }
  double at(const Vec3<double>& q) const { return a * q[0] + b * q[1] + c * q[2] + d; }
};
std::string str_(const Split& s) { return str("plane (", s.a, ",", s.b, ",", s.c, ",", s.d, ")"); }

// whether a closed box touches the surface of the shape: 1 yes, 0 no, -1 too close to say
int touches(const Shape& s, const double lo[3], const double hi[3], double tol)
{
  bool maybe = false;
  for (int x = 0; x < s.nx; ++x)
    for (int y = 0; y < s.ny; ++y)
      for (int z = 0; z < s.nz; ++z)
      {
        if (!s.has(x, y, z))
          continue;
        for (int d = 0; d < 6; ++d)
        {
          int n[3] = { x, y, z };
          n[d / 2] += d % 2 ? 1 : -1;
          if (s.has(n[0], n[1], n[2]))
            continue;
          double flo[3] = { s.at(x), s.at(y), s.at(z) }, fhi[3] = { s.at(x + 1), s.at(y + 1), s.at(z + 1) };
          if (d % 2)
            flo[d / 2] = fhi[d / 2];
          else
            fhi[d / 2] = flo[d / 2];
          double gap = -1e9;  // the largest distance along an axis; negative if they overlap
          for (int i = 0; i < 3; ++i)
            gap = std::max(gap, std::max(flo[i] - hi[i], lo[i] - fhi[i]));
          if (gap < -tol)
            return 1;
          if (gap <= tol)
            maybe = true;
        }
      }
  return maybe ? -1 : 0;
}
bool within(const Shape& s, const Vec3<double>& q)
{
  for (int x = 0; x < s.nx; ++x)
    for (int y = 0; y < s.ny; ++y)
      for (int z = 0; z < s.nz; ++z)
        if (s.has(x, y, z) && q[0] >= s.at(x) && q[0] <= s.at(x + 1) && q[1] >= s.at(y) && q[1] <= s.at(y + 1) &&
            q[2] >= s.at(z) && q[2] <= s.at(z + 1))
          return true;
  return false;
}

std::map<Cell, int> cellsOf(const VoxelSet& v)
{
  std::map<Cell, int> r;
  for (size_t i = 0; i < v.GetNPrimitives(); ++i)
  {
    auto& x = v.GetVoxels()[i];
    r[Cell{ x.m_coord[0], x.m_coord[1], x.m_coord[2] }] = x.m_data;
  }
  return r;
}

typedef std::vector<Vec3<double>> Points;
// the largest extent of points in 26 directions
std::vector<double> support(const Points& p)
{
  std::vector<double> r;
  for (int x = -1; x <= 1; ++x)
    for (int y = -1; y <= 1; ++y)
      for (int z = -1; z <= 1; ++z)
      {
        double m = -1e9;
        for (auto& q : p)
          m = std::max(m, x * q[0] + y * q[1] + z * q[2]);
        r.push_back(m);
      }
  return r;
}
bool sameSupport(const Points& a, const Points& b, double tol = 1e-9)
{
  if (a.empty() || b.empty())
    return a.empty() == b.empty();
  auto x = support(a), y = support(b);
  for (size_t i = 0; i < x.size(); ++i)
    if (std::fabs(x[i] - y[i]) > tol)
      return false;
  return true;
}
Points pointsOf(const SArray<Vec3<double>>& p)
{
  Points r;
  for (size_t i = 0; i < p.Size(); ++i)
    r.push_back(p[i]);
  return r;
}
Points pointsOf(const VHACD::Mesh& m)
{
  Points r;
  for (size_t i = 0; i < m.GetNPoints(); ++i)
    r.push_back(m.GetPoint(i));
  return r;
}
double vol6(const Vec3<double>& a, const Vec3<double>& b, const Vec3<double>& c, const Vec3<double>& d)
{
  double u[3], v[3], w[3];
  for (int i = 0; i < 3; ++i)
    u[i] = a[i] - d[i], v[i] = b[i] - d[i], w[i] = c[i] - d[i];
  return u[0] * (v[1] * w[2] - v[2] * w[1]) + u[1] * (v[2] * w[0] - v[0] * w[2]) + u[2] * (v[0] * w[1] - v[1] * w[0]);
}

struct Judge
{
  Ctx& c;
  std::string name;
  double scale, extent = 0;
  mutable unsigned splits = 0;
  std::string what(const std::string& t) const { return name + ": " + t; }

  // what a set says about itself: counts, volumes, hull, surface
  template <class Set>
  void self(const Set& s, const std::string& who, bool withHull = true) const
  {
    VHACD::Mesh on, in;
    s.Convert(on, PRIMITIVE_ON_SURFACE);
    s.Convert(in, PRIMITIVE_INSIDE_SURFACE);
    const bool tet = std::is_same<Set, TetrahedronSet>::value;
    const size_t per = tet ? 4 : 8;
    const size_t nOn = on.GetNPoints() / per, nIn = in.GetNPoints() / per;
    c.checkf(s.GetNPrimitives() == nOn + nIn && s.GetNPrimitivesOnSurf() == nOn && s.GetNPrimitivesInsideSurf() == nIn, "counts", [&] {
      return what(str(who, " says it has ", s.GetNPrimitives(), " cells, ", s.GetNPrimitivesOnSurf(), " on the surface and ", s.GetNPrimitivesInsideSurf(),
                      " inside, but has ", nOn, " and ", nIn));
    });
    double vOn = 0, vIn = 0;
    for (int k = 0; k < 2; ++k)
    {
      auto& m = k ? in : on;
      for (size_t t = 0; t < m.GetNTriangles(); ++t)
      {
        auto& f = m.GetTriangle(t);
        (k ? vIn : vOn) += vol6(m.GetPoint(f[0]), m.GetPoint(f[1]), m.GetPoint(f[2]), m.GetPoint(t / (tet ? 4 : 12) * per)) / 6;
      }
    }
    vOn = std::fabs(vOn), vIn = std::fabs(vIn);
    const double tol = 1e-8;
    c.checkf(near(s.ComputeVolume(), vOn + vIn, tol), "volume", [&] { return what(str(who, " says its volume is ", s.ComputeVolume(), ", but it is ", vOn + vIn)); });
    c.checkf(near(s.ComputeMaxVolumeError(), vOn, tol), "surface-volume", [&] { return what(str(who, " says the volume on its surface is ", s.ComputeMaxVolumeError(), ", but it is ", vOn)); });
    if (!s.GetNPrimitives() || !withHull)
      return;
    Set surf;
    s.SelectOnSurface(&surf);
    VHACD::Mesh son, sin;
    surf.Convert(son, PRIMITIVE_ON_SURFACE);
    surf.Convert(sin, PRIMITIVE_INSIDE_SURFACE);
    c.checkf(son.GetNPoints() == on.GetNPoints() && !sin.GetNPoints() && surf.GetNPrimitivesOnSurf() == nOn && surf.GetNPrimitives() == nOn, "surface",
             [&] { return what("the surface cells of " + who + " are not those marked so"); });
    // the hull: all the cells, nothing but the cells; it is computed on a grid of about ten thousand points an axis
    const double grain = 2e-4 * extent;
    VHACD::Mesh hull;
    s.ComputeConvexHull(hull, 1);
    Points all = pointsOf(on);
    for (auto& q : pointsOf(in))
      all.push_back(q);
    std::sort(all.begin(), all.end(), [](const Vec3<double>& a, const Vec3<double>& b) {
      return a[0] != b[0] ? a[0] < b[0] : a[1] != b[1] ? a[1] < b[1] : a[2] < b[2];
    });
    all.erase(std::unique(all.begin(), all.end(), [](const Vec3<double>& a, const Vec3<double>& b) { return a[0] == b[0] && a[1] == b[1] && a[2] == b[2]; }),
              all.end());
    c.checkf(sameSupport(pointsOf(hull), all, 5 * grain), "hull", [&] { return what("the hull of " + who + " does not reach as far as its cells, or further"); });
    for (size_t t = 0; t < hull.GetNTriangles(); ++t)
    {
      auto& f = hull.GetTriangle(t);
      auto &a = hull.GetPoint(f[0]), &b = hull.GetPoint(f[1]), &d = hull.GetPoint(f[2]);
      for (auto& q : all)
        c.checkf(vol6(a, b, d, q) >= -3 * grain * extent * extent, "hull", [&] { return what("a cell of " + who + " is outside of its hull"); });
    }
    const double hv = hull.ComputeVolume();
    c.checkf(std::fabs(hv) >= s.ComputeVolume() - 6 * extent * extent * grain, "hull", [&] { return what(str("the hull of ", who, " has a volume of ", hv, ", less than the cells")); });
  }

  // one split
  void voxels(const VoxelSet& s, const Split& sp, VoxelSet& pos, VoxelSet& neg, const std::string& who) const
  {
    const Plane pl = sp.plane();
    s.Clip(pl, &pos, &neg);
    auto all = cellsOf(s), p = cellsOf(pos), n = cellsOf(neg);
    auto w = [&](const std::string& t) { return what(str(who, ", ", str_(sp), ": ", t)); };
    c.checkf(p.size() == pos.GetNPrimitives() && n.size() == neg.GetNPrimitives() && p.size() + n.size() == all.size(), "split-lost",
             [&] { return w(str(all.size(), " cells become ", pos.GetNPrimitives(), " and ", neg.GetNPrimitives())); });
    for (int side = 0; side < 2; ++side)
      for (auto& x : side ? n : p)
      {
        c.checkf(all.count(x.first), "split-lost", [&] { return w("a part has a cell that was not there"); });
        const double d = sp.at(s.GetPoint(Vec3<short>((short)std::get<0>(x.first), (short)std::get<1>(x.first), (short)std::get<2>(x.first))));
        c.checkf(std::fabs(d) < 1e-9 || (d > 0) == (side == 0), "split-side", [&] { return w("a cell is on the wrong side"); });
        const bool was = all[x.first] == PRIMITIVE_ON_SURFACE, is = x.second == PRIMITIVE_ON_SURFACE;
        if (std::fabs(std::fabs(d) - scale) > 1e-9)
          c.checkf(is == (was || std::fabs(d) <= scale), "split-surface",
                   [&] { return w(str("a cell at a distance of ", d, " of the plane ", was ? "was" : "was not", " on the surface and ", is ? "is" : "is not")); });
      }
    measure(s, sp, pos, neg, who);
  }
  void tetrahedra(const TetrahedronSet& s, const Split& sp, TetrahedronSet& pos, TetrahedronSet& neg, const std::string& who) const
  {
    s.Clip(sp.plane(), &pos, &neg);
    auto w = [&](const std::string& t) { return what(str(who, ", ", str_(sp), ": ", t)); };
    c.checkf(near(pos.ComputeVolume() + neg.ComputeVolume(), s.ComputeVolume(), 1e-8), "split-lost",
             [&] { return w(str("a volume of ", s.ComputeVolume(), " becomes ", pos.ComputeVolume(), " and ", neg.ComputeVolume())); });
    for (int side = 0; side < 2; ++side)
    {
      VHACD::Mesh m;
      (side ? neg : pos).Convert(m, PRIMITIVE_ON_SURFACE);
      (side ? neg : pos).Convert(m, PRIMITIVE_INSIDE_SURFACE);
      for (auto& q : pointsOf(m))
        c.checkf(side ? sp.at(q) <= 1e-9 : sp.at(q) >= -1e-9, "split-side", [&] { return w("a tetrahedron reaches to the wrong side"); });
    }
    measure(s, sp, pos, neg, who);
  }
  // the shortcuts the search for the best plane uses agree with the split
  template <class Set>
  void measure(const Set& s, const Split& sp, const Set& pos, const Set& neg, const std::string& who) const
  {
    auto w = [&](const std::string& t) { return what(str(who, ", ", str_(sp), ": ", t)); };
    double vp = -1, vn = -1;
    s.ComputeClippedVolumes(sp.plane(), vp, vn);
    c.checkf(near(vp, pos.ComputeVolume(), 1e-8) && near(vn, neg.ComputeVolume(), 1e-8), "clipped-volumes",
             [&] { return w(str("the volumes of the parts are said to be ", vp, " and ", vn, ", but are ", pos.ComputeVolume(), " and ", neg.ComputeVolume())); });
    for (size_t sampling : { 1, 1000000 })
    {
      SArray<Vec3<double>> pp, np;
      s.Intersect(sp.plane(), &pp, &np, sampling);
      VHACD::Mesh pm, nm;
      pos.Convert(pm, PRIMITIVE_ON_SURFACE), pos.Convert(pm, PRIMITIVE_INSIDE_SURFACE);
      neg.Convert(nm, PRIMITIVE_ON_SURFACE), neg.Convert(nm, PRIMITIVE_INSIDE_SURFACE);
      if (sampling == 1)
        c.checkf(sameSupport(pointsOf(pp), pointsOf(pm)) && sameSupport(pointsOf(np), pointsOf(nm)), "intersect",
                 [&] { return w("the points of the parts do not reach as far as their cells, or further"); });
      else
      {
        auto sub = [&](const Points& a, const Points& b) {
          if (a.empty())
            return true;
          auto x = support(a), y = support(b);
          for (size_t i = 0; i < x.size(); ++i)
            if (x[i] > y[i] + 1e-9)
              return false;
          return true;
        };
        c.checkf(sub(pointsOf(pp), pointsOf(pm)) && sub(pointsOf(np), pointsOf(nm)), "intersect", [&] { return w("some of the points of the parts are not in them"); });
      }
    }
    // (in the quick tier the hulls of every second part)
    self(pos, str("the positive part of ", who, " by ", str_(sp)), c.thorough || splits % 2 == 0);
    self(neg, str("the negative part of ", who, " by ", str_(sp)), c.thorough || splits % 2 == 1);
    ++splits;
    c.transitions();
  }
};

std::vector<Split> planesOf(const Vec3<double>& lo, double scale, const int dim[3], bool oblique)
{
  std::vector<Split> r;
  for (int a = 0; a < 3; ++a)
    for (int i = -1; i <= 2 * dim[a]; ++i)
    {
      double n[3] = { 0, 0, 0 };
      n[a] = 1;
      r.push_back({ n[0], n[1], n[2], -(lo[a] + 0.5 * i * scale), (AXIS)a });
    }
  if (oblique)
  {
    const double dirs[][3] = { { 1, 1, 0 }, { 1, -1, 0 }, { 1, 1, 1 }, { -1, 1, 1 }, { 1, 2, -1 }, { 0, 1, 3 } };
    for (auto& n : dirs)
    {
      const double l = std::sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]);
      for (int i = 0; i <= 4; ++i)
      {
        double d = 0;
        for (int a = 0; a < 3; ++a)
          d += n[a] * (lo[a] + (0.13 + 0.2 * i) * dim[a] * scale);
        r.push_back({ n[0] / l, n[1] / l, n[2] / l, -d / l, AXIS_X });
      }
    }
  }
  return r;
}

void explore1(Ctx& c, const Shape& s, size_t dim, int pose, bool deep)
{
  blk::Mesh m = meshOf(s);
  // pose: 0 as it is; 1 moved and turned by a quarter about every axis (the engine gets the inverse)
  Vec3<double> bary(0.0, 0.0, 0.0);
  double rot[3][3] = { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 } };
  if (pose == 1)
  {
    // point' = R p + b is given; the engine computes R^T (p' - b)
    const double R[3][3] = { { 0, 0, 1 }, { 1, 0, 0 }, { 0, 1, 0 } };
    bary = Vec3<double>(2, -3, 5);
    std::memcpy(rot, R, sizeof R);
    for (size_t k = 0; k < m.p.size(); k += 3)
    {
      double q[3] = { m.p[k], m.p[k + 1], m.p[k + 2] };
      for (int i = 0; i < 3; ++i)
        m.p[k + i] = R[i][0] * q[0] + R[i][1] * q[1] + R[i][2] * q[2] + bary[i];
    }
  }
  Judge j{ c, str(m.name, ", ", dim, " cells", pose ? ", turned" : ""), 0 };
  Volume v;
  v.Voxelize(m.p.data(), 3, (uint32_t)m.p.size() / 3, (const int32_t*)m.t.data(), 3, (uint32_t)m.t.size() / 3, dim, bary, rot);
  VoxelSet vs;
  v.Convert(vs);
  const double sc = vs.GetScale();
  j.scale = sc;
  auto cells = cellsOf(vs);
  c.checkf(cells.size() == vs.GetNPrimitives(), "voxel-twice", [&] { return j.what("a cell occurs twice"); });
  c.checkf(v.GetNPrimitivesOnSurf() == vs.GetNPrimitivesOnSurf() && v.GetNPrimitivesInsideSurf() == vs.GetNPrimitivesInsideSurf(), "counts",
           [&] { return j.what("the counts of the volume and of its voxel set differ"); });
  double ext = 0;
  for (int i = 0; i < 3; ++i)
    ext = std::max(ext, m.hi[i] - m.lo[i]);
  j.extent = ext + sc;
  c.checkf(near(sc * (dim - 1), pose ? ext : ext, 1e-9), "voxel-size", [&] { return j.what(str("the cells have a size of ", sc, " for an extent of ", ext)); });
  int N[3];
  for (int i = 0; i < 3; ++i)
    N[i] = (int)std::floor((blk::meshOf(s).hi[i] - blk::meshOf(s).lo[i]) / sc + 2.5);
  for (auto& x : cells)
    for (int i = 0; i < 3; ++i)
    {
      const int q = i == 0 ? std::get<0>(x.first) : i == 1 ? std::get<1>(x.first) : std::get<2>(x.first);
      c.checkf(q >= 0 && q < N[i] + 1, "voxel-range", [&] { return j.what("a cell is outside of the grid"); });
    }
  size_t unsure = 0;
  for (int x = -1; x <= N[0]; ++x)
    for (int y = -1; y <= N[1]; ++y)
      for (int z = -1; z <= N[2]; ++z)
      {
        const Vec3<double> q = vs.GetPoint(Vec3<short>((short)x, (short)y, (short)z));
        double lo[3], hi[3];
        for (int i = 0; i < 3; ++i)
          lo[i] = q[i] - sc / 2, hi[i] = q[i] + sc / 2;
        const int t = touches(s, lo, hi, 1e-9 * sc);
        auto it = cells.find(Cell{ x, y, z });
        const int is = it == cells.end() ? 0 : it->second == PRIMITIVE_ON_SURFACE ? 2 : 1;
        const int rest = within(s, q) ? 1 : 0;
        auto name = [](int k) { return k == 0 ? "outside" : k == 1 ? "inside" : "on the surface"; };
        if (t == -1)
        {
          ++unsure;
          c.checkf(is == 2 || is == rest, "voxel", [&] { return j.what(str("the cell (", x, ",", y, ",", z, ") is taken to be ", name(is), " but is ", name(rest), " or on the surface")); });
        }
        else
        {
          const int want = t == 1 ? 2 : rest;
          c.checkf(is == want, "voxel", [&] { return j.what(str("the cell (", x, ",", y, ",", z, ") is taken to be ", name(is), " but is ", name(want))); });
        }
      }
  c.count("cells", (uint64_t)(N[0] + 2) * (N[1] + 2) * (N[2] + 2));
  c.count("cells that may be classified either way", unsure);
  c.state(Hash().s(m.name).u(dim).u(pose));
  c.outcome(Hash().u(vs.GetNPrimitivesOnSurf()).u(vs.GetNPrimitivesInsideSurf()));
  c.traces();
  j.self(vs, "the voxel set");
  TetrahedronSet ts;
  v.Convert(ts);
  ts.ComputeBB();
  j.self(ts, "the tetrahedron set");
  c.checkf(near(ts.ComputeVolume(), vs.ComputeVolume(), 1e-8), "volume", [&] { return j.what("the tetrahedra and the voxels differ in volume"); });

  const Vec3<double> lo = vs.GetMinBB();
  auto planes = planesOf(lo, sc, N, true);
  for (auto& sp : planes)
  {
    c.beat();
    VoxelSet p, n;
    j.voxels(vs, sp, p, n, "the voxel set");
    TetrahedronSet tp, tn;
    j.tetrahedra(ts, sp, tp, tn, "the tetrahedron set");
    c.state(Hash().s(m.name).u(dim).u(pose).s(str_(sp)));
    if (!deep)
      continue;
    size_t k = 0;
    for (auto& sp2 : planes)
    {
      if (++k % (c.thorough ? 3 : 7))
        continue;
      for (int side = 0; side < 2; ++side)
      {
        VoxelSet a, b;
        j.voxels(side ? n : p, sp2, a, b, str("a part by ", str_(sp)));
        TetrahedronSet ta, tb;
        if ((side ? tn : tp).GetNPrimitives())
          j.tetrahedra(side ? tn : tp, sp2, ta, tb, str("a part by ", str_(sp)));
      }
    }
  }
}
}  // namespace

void mc::explore(Ctx& c)
{
  std::vector<Shape> shapes;
  auto addAll = [&](int x, int y, int z, int grid) {
    for (unsigned b = 1; b < 1u << (x * y * z); ++b)
    {
      Shape s{ x, y, z, b, grid };
      bool fx = false, fy = false, fz = false;
      for (int i = 0; i < x; ++i)
        for (int k = 0; k < y; ++k)
          for (int l = 0; l < z; ++l)
            if (s.has(i, k, l))
              fx |= i == 0, fy |= k == 0, fz |= l == 0;
      if (fx && fy && fz && connected(s))
        shapes.push_back(s);
    }
  };
  addAll(2, 2, 2, 0);
  addAll(2, 2, 2, 1);
  addAll(3, 2, 1, 0);
  if (c.thorough)
  {
    addAll(3, 2, 2, 1);
    addAll(3, 3, 1, 0);
  }
  for (auto& s : shapes)
    for (size_t dim : c.thorough ? std::vector<size_t>{ 3, 4, 5, 7, 8 } : std::vector<size_t>{ 3, 5 })
      for (int pose = 0; pose < (c.thorough || dim == 3 ? 2 : 1); ++pose)
        c.item([&] { return str(meshOf(s).name, ", ", dim, " cells", pose ? ", turned" : ""); },
               [&] { explore1(c, s, dim, pose, dim == (c.thorough ? 4 : 3) && s.bits % (c.thorough ? 3 : 32) == 7); });
}
