// V02: the convex hull routines of the decomposition library on every small point set of an integer grid.
#include "mc/mc.hpp"
#include <vhacd/inc/btConvexHullComputer.h>
#include <vhacd/inc/vhacdICHull.h>
#include <vhacd/inc/vhacdMesh.h>

#include <algorithm>
#include <array>
#include <map>
#include <set>

using namespace mc;
using namespace VHACD;

const CheckInfo mc::info = {
  "V02", "exploration",
  "every ordered sequence of points of the stated integer grids up to the size bound (repetitions included) and every "
  "subset of the larger grid; each is given to the incremental hull (in one go, in two goes, and with every limit on "
  "the number of points), to the hull computer and to the mesh class; a case is one point sequence on one route",
  { "coordinates are small integers times a scale, so that the exact hull is known; the incremental hull at a scale that "
    "is not a power of two is judged for points in general position only; the hull computer's rounding of "
    "coordinates (to about 1e-4 of the extent) is allowed for" },
  60
};

namespace
{
using P = std::array<int, 3>;
using Pts = std::vector<P>;
using Tri = std::array<int, 3>;
P sub(const P& a, const P& b) { return { a[0] - b[0], a[1] - b[1], a[2] - b[2] }; }
P cross(const P& a, const P& b) { return { a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0] }; }
long dot(const P& a, const P& b) { return (long)a[0] * b[0] + (long)a[1] * b[1] + (long)a[2] * b[2]; }
bool zero(const P& a) { return !a[0] && !a[1] && !a[2]; }
long vol(const P& a, const P& b, const P& c, const P& d) { return dot(sub(a, d), cross(sub(b, d), sub(c, d))); }

std::string text(const Pts& p)
{
  std::string s;
  for (auto& x : p)
    s += str("(", x[0], ",", x[1], ",", x[2], ")");
  return s;
}
struct Rank
{
  int r = 0;
  P n{};  // normal of the plane if r == 2
};
Rank rankOf(const Pts& p)
{
  Rank k;
  P d{};
  for (auto& x : p)
    if (!zero(sub(x, p[0])))
    {
      k.r = 1;
      d = sub(x, p[0]);
      break;
    }
  if (!k.r)
    return k;
  for (auto& x : p)
    if (!zero(cross(d, sub(x, p[0]))))
    {
      k.r = 2;
      k.n = cross(d, sub(x, p[0]));
      break;
    }
  if (k.r < 2)
    return k;
  for (auto& x : p)
    if (dot(k.n, sub(x, p[0])))
    {
      k.r = 3;
      break;
    }
  return k;
}
// twice the area of the planar hull times |n|: the cross products along n
long planarArea(const Pts& p, const P& n)
{
  // order the hull by walking: all points, gift wrapping in the plane
  Pts q = p;
  std::sort(q.begin(), q.end());
  q.erase(std::unique(q.begin(), q.end()), q.end());
  P start = q[0], cur = start;
  long sum = 0;
  int guard = 0;
  do
  {
    P best = cur;
    for (auto& x : q)
    {
      if (x == cur)
        continue;
      if (best == cur)
      {
        best = x;
        continue;
      }
      const long t = dot(n, cross(sub(best, cur), sub(x, cur)));
      if (t < 0 || (t == 0 && dot(sub(x, cur), sub(x, cur)) > dot(sub(best, cur), sub(best, cur))))
        best = x;
    }
    sum += dot(n, cross(sub(cur, start), sub(best, start)));
    cur = best;
  } while (cur != start && ++guard < 100);
  return sum;
}

void judge(Ctx& c, const char* route, const Pts& p, const Pts& bound, const std::vector<P>& v, const std::vector<Tri>& t, bool exact = true)
{
  // bound: the points the hull has to contain
  auto what = [&](const std::string& m) {
    std::string s = str(route, " of ", text(p), ": ", m, "; vertices ", text(v), " faces ");
    for (auto& x : t)
      s += str("(", x[0], ",", x[1], ",", x[2], ")");
    return s;
  };
  const Rank k = rankOf(bound);
  std::set<P> in(p.begin(), p.end()), seen;
  for (auto& x : v)
  {
    c.checkf(in.count(x), "vertex-not-input", [&] { return what("a vertex is not one of the points"); });
    c.checkf(seen.insert(x).second, "vertex-twice", [&] { return what("a vertex occurs twice"); });
  }
  for (auto& x : t)
    for (int i : x)
      c.checkf(i >= 0 && i < (int)v.size(), "face-index", [&] { return what("a face refers to a vertex that does not exist"); });
  std::map<std::pair<int, int>, int> edge;
  std::set<int> used;
  for (auto& x : t)
    for (int i = 0; i < 3; ++i)
    {
      ++edge[{ x[i], x[(i + 1) % 3] }];
      used.insert(x[i]);
    }
  if (k.r == 3)
  {
    c.checkf(!t.empty(), "hull-empty", [&] { return what("no hull although the points span a volume"); });
    for (auto& x : t)
    {
      c.checkf(!exact || !zero(cross(sub(v[x[1]], v[x[0]]), sub(v[x[2]], v[x[0]]))), "face-degenerate", [&] { return what("a face without area"); });
      for (auto& y : bound)
        c.checkf(vol(v[x[0]], v[x[1]], v[x[2]], y) >= 0, "point-outside",
                 [&] { return what(str("point ", text({ y }), " is outside of face (", x[0], ",", x[1], ",", x[2], ")")); });
    }
    for (auto& e : edge)
    {
      c.checkf(e.second == 1, "not-closed", [&] { return what("an edge is used twice in the same direction"); });
      c.checkf(edge.count({ e.first.second, e.first.first }), "not-closed", [&] { return what("an edge has a face on one side only"); });
    }
    c.checkf((int)used.size() == (int)v.size(), "vertex-unused", [&] { return what("a vertex is in no face"); });
    c.checkf((long)v.size() - (long)edge.size() / 2 + (long)t.size() == 2, "not-closed", [&] { return what("vertices - edges + faces is not 2"); });
  }
  else if (k.r == 2)
  {
    c.checkf(!t.empty(), "hull-empty", [&] { return what("no hull although the points span a plane"); });
    long up = 0, down = 0;
    for (auto& x : t)
    {
      const long a = dot(k.n, cross(sub(v[x[1]], v[x[0]]), sub(v[x[2]], v[x[0]])));
      c.checkf(!exact || a != 0, "face-degenerate", [&] { return what("a face without area"); });
      (a > 0 ? up : down) += std::labs(a);
    }
    const long area = planarArea(bound, k.n);
    c.checkf(up == area && down == area, "flat-area", [&] { return what(str("the two sides cover ", up, " and ", down, ", the hull of the points ", area)); });
    for (auto& e : edge)
      c.checkf(edge.count({ e.first.second, e.first.first }) && e.second == edge[{ e.first.second, e.first.first }], "not-closed",
               [&] { return what("an edge has a face on one side only"); });
  }
  c.outcome(Hash().u(k.r).u(v.size()).u(t.size()));
}

std::vector<Vec3<double>> scaled(const Pts& p, double s, const std::array<double, 3>& o)
{
  std::vector<Vec3<double>> r;
  for (auto& x : p)
    r.push_back(Vec3<double>(x[0] * s + o[0], x[1] * s + o[1], x[2] * s + o[2]));
  return r;
}
bool back(const double x, double s, double o, double tol, int& out)
{
  const double y = (x - o) / s;
  out = (int)std::lround(y);
  return std::fabs(y - out) <= tol;
}

struct Scale
{
  double s;
  std::array<double, 3> o;
};

// no two points equal, no three on a line, no four in a plane: rounding can not change the combinatorics
bool general(const Pts& p)
{
  for (size_t a = 0; a < p.size(); ++a)
    for (size_t b = a + 1; b < p.size(); ++b)
    {
      if (p[a] == p[b])
        return false;
      for (size_t d = b + 1; d < p.size(); ++d)
      {
        if (zero(cross(sub(p[b], p[a]), sub(p[d], p[a]))))
          return false;
        for (size_t e = d + 1; e < p.size(); ++e)
          if (vol(p[a], p[b], p[d], p[e]) == 0)
            return false;
      }
    }
  return true;
}

// the incremental hull
void incremental(Ctx& c, const Pts& p, const Scale& sc, size_t first, uint32_t limit)
{
  const auto pts = scaled(p, sc.s, sc.o);
  ICHull h;
  c.transitions();
  ICHullError e = ICHullErrorOK;
  const std::string route = limit ? str("incremental hull with at most ", limit, " points") : first ? str("incremental hull in two goes (", first, " first)") : "incremental hull";
  if (first)
  {
    h.AddPoints(pts.data(), first);
    h.Process();
    h.AddPoints(pts.data() + first, pts.size() - first);
    e = h.Process();
  }
  else
  {
    h.AddPoints(pts.data(), pts.size());
    e = limit ? h.Process(limit, 0.0) : h.Process();
  }
  const Rank k = rankOf(p);
  if (k.r < 2 || p.size() < 3 || (limit && limit < 3))
    return;  // ended without crashing
  if (sc.s != 1 && !general(p))
    return;  // the orientation tests are not exact: only judged for ending
  c.checkf(e == ICHullErrorOK, "refused", [&] { return str(route, " of ", text(p), " fails (", (int)e, ") although the points span ", k.r == 3 ? "a volume" : "a plane"); });
  TMMesh& m = h.GetMesh();
  std::vector<Vec3<double>> ov(m.GetNVertices());
  std::vector<Vec3<int32_t>> ot(m.GetNTriangles());
  m.GetIFS(ov.data(), ot.data());
  std::vector<P> v;
  std::vector<Tri> t;
  for (auto& x : ov)
  {
    P q;
    for (int i = 0; i < 3; ++i)
      c.checkf(back(x[i], sc.s, sc.o[i], 0, q[i]) || back(x[i], sc.s, sc.o[i], 1e-12, q[i]), "vertex-not-input", [&] {
        return str(route, " of ", text(p), ": a vertex is not one of the points: ", x[0], " ", x[1], " ", x[2]);
      });
    v.push_back(q);
  }
  for (auto& x : ot)
    t.push_back({ x[0], x[1], x[2] });
  if (k.r == 2)
  {
    // flat hulls keep points that are no corners; only those in a face count
    std::set<int> used;
    for (auto& x : t)
      used.insert(x.begin(), x.end());
    std::vector<P> v2;
    std::map<int, int> at;
    for (int i : used)
      if (i >= 0 && i < (int)v.size())
        at[i] = (int)v2.size(), v2.push_back(v[i]);
    if (at.size() == used.size())
    {
      for (auto& x : t)
        for (int& i : x)
          i = at[i];
      v = v2;
    }
  }
  if (!limit)
    judge(c, route.c_str(), p, p, v, t);
  else
  {
    c.checkf(v.size() <= limit, "too-many-points", [&] { return str(route, " of ", text(p), " has ", v.size(), " vertices"); });
    std::set<P> distinct(p.begin(), p.end());
    if (limit >= p.size() + (k.r == 2))  // (a flat hull needs an auxiliary point)
      judge(c, route.c_str(), p, p, v, t);
    else if (limit >= 4 || k.r == 2)
    {
      // a hull of some of the points, that has the rank of the whole
      c.checkf(rankOf(v).r == k.r, "rank-lost", [&] { return str(route, " of ", text(p), " loses a dimension: ", text(v)); });
      judge(c, route.c_str(), p, v, v, t);
    }
  }
}

// the hull computer, and the mesh built from it
void computer(Ctx& c, const Pts& p, const Scale& sc, bool single)
{
  const auto pts = scaled(p, sc.s, sc.o);
  std::vector<double> d;
  std::vector<float> f;
  for (auto& x : pts)
    for (int i = 0; i < 3; ++i)
      d.push_back(x[i]), f.push_back((float)x[i]);
  c.transitions();
  btConvexHullComputer h;
  if (single)
    h.compute(f.data(), 3 * sizeof(float), (int)p.size(), -1, -1);
  else
    h.compute(d.data(), 3 * sizeof(double), (int)p.size(), -1, -1);
  const Rank k = rankOf(p);
  const char* route = single ? "hull computer (float)" : "hull computer";
  auto what = [&](const std::string& m) { return str(route, " of ", text(p), ": ", m); };
  std::vector<P> v;
  const double tol = 1e-3;
  for (int j = 0; j < h.vertices.size(); ++j)
  {
    P q;
    bool ok = true;
    for (int i = 0; i < 3; ++i)
      ok = back(h.vertices[j][i], sc.s, sc.o[i], tol, q[i]) && ok;
    c.checkf(ok, "vertex-not-input", [&] { return what(str("a vertex is not one of the points: ", h.vertices[j][0], " ", h.vertices[j][1], " ", h.vertices[j][2])); });
    v.push_back(q);
  }
  std::vector<Tri> t;
  const int ne = h.edges.size();
  auto inRange = [&](const btConvexHullComputer::Edge* e) { return e >= &h.edges[0] && e < &h.edges[0] + ne; };
  size_t corners = 0;
  for (int i = 0; i < h.faces.size(); ++i)
  {
    c.checkf(h.faces[i] >= 0 && h.faces[i] < ne, "face-index", [&] { return what("a face refers to an edge that does not exist"); });
    const btConvexHullComputer::Edge* e0 = &h.edges[h.faces[i]];
    const btConvexHullComputer::Edge* e = e0;
    std::vector<int> loop;
    do
    {
      c.checkf(inRange(e) && inRange(e->getReverseEdge()) && e->getReverseEdge()->getReverseEdge() == e, "edge-links",
               [&] { return what("an edge and its reverse do not belong together"); });
      c.checkf(e->getTargetVertex() >= 0 && e->getTargetVertex() < (int)v.size(), "face-index", [&] { return what("an edge ends at a vertex that does not exist"); });
      loop.push_back(e->getSourceVertex());
      e = e->getNextEdgeOfFace();
      c.checkf((int)loop.size() <= ne, "edge-links", [&] { return what("the edges of a face do not form a loop"); });
    } while (e != e0);
    corners += loop.size();
    for (size_t j = 1; j + 1 < loop.size(); ++j)
      t.push_back({ loop[0], loop[j], loop[j + 1] });
    if (k.r == 3)
      for (size_t j = 3; j < loop.size(); ++j)
        c.checkf(vol(v[loop[0]], v[loop[1]], v[loop[2]], v[loop[j]]) == 0, "face-not-planar", [&] { return what("a face is not planar"); });
  }
  if (k.r >= 2)
    c.checkf(corners == (size_t)ne, "edge-links", [&] { return what("an edge is in no face or in several"); });
  if (k.r == 0)
    c.checkf(v.size() == 1, "flat-area", [&] { return what(str(v.size(), " vertices for a single point")); });
  if (k.r == 1)
  {
    auto mm = std::minmax_element(p.begin(), p.end());
    std::set<P> sv(v.begin(), v.end());
    c.checkf(sv.count(*mm.first) && sv.count(*mm.second), "point-outside", [&] { return what("an end of the segment is missing: " + text(v)); });
  }
  else
    judge(c, route, p, p, v, t, sc.s == 1);
  if (single || k.r != 3)
    return;
  // the mesh
  Mesh m;
  m.ComputeConvexHull(d.data(), p.size());
  std::vector<P> mv;
  for (size_t j = 0; j < m.GetNPoints(); ++j)
  {
    P q;
    for (int i = 0; i < 3; ++i)
      back(m.GetPoint(j)[i], sc.s, sc.o[i], tol, q[i]);
    mv.push_back(q);
  }
  std::vector<Tri> mt;
  long six = 0;
  for (size_t j = 0; j < m.GetNTriangles(); ++j)
    mt.push_back({ m.GetTriangle(j)[0], m.GetTriangle(j)[1], m.GetTriangle(j)[2] });
  judge(c, "convex hull mesh", p, p, mv, mt, sc.s == 1);
  for (auto& x : mt)
    six += vol(mv[x[0]], mv[x[1]], mv[x[2]], p[0]);
  const double want = six / 6.0 * sc.s * sc.s * sc.s;
  c.checkf(std::fabs(m.ComputeVolume() - want) <= 5e-3 * want + 1e-3 * sc.s * sc.s * sc.s, "volume", [&] { return what(str("the volume is ", m.ComputeVolume(), " instead of ", want)); });
}

const Scale UNIT{ 1, { 0, 0, 0 } };
const Scale ODD{ 0.1, { 0.3, -0.7, 1.1 } };

void all(Ctx& c, const Pts& p, const Scale& sc, bool deep)
{
  incremental(c, p, sc, 0, 0);
  computer(c, p, sc, false);
  if (deep)
  {
    computer(c, p, sc, true);
    for (size_t k = 3; k < p.size(); ++k)
      incremental(c, p, sc, k, 0);
    for (uint32_t l = 4; l <= p.size() + 1; ++l)
      incremental(c, p, sc, 0, l);
  }
  c.state(Hash().s(text(p)).d(sc.s));
  c.traces();
}
Pts grid(int x, int y, int z)
{
  Pts g;
  for (int i = 0; i < x; ++i)
    for (int j = 0; j < y; ++j)
      for (int k = 0; k < z; ++k)
        g.push_back({ i, j, k });
  return g;
}
// every ordered sequence of n points of g with repetition, split into items by the first two
void sequences(Ctx& c, const char* name, const Pts& g, int n, const Scale& sc, bool deep)
{
  if (n < 2)
  {
    c.item([&] { return str(name, " sequences of ", n); }, [&] {
      for (auto& a : g)
        all(c, { a }, sc, deep);
    });
    return;
  }
  for (auto& a : g)
    for (auto& b : g)
      c.item([&] { return str(name, " sequences of ", n, " starting ", text({ a, b })); },
             [&] {
               Pts p{ a, b };
               std::function<void()> rec = [&] {
                 if ((int)p.size() == n)
                 {
                   all(c, p, sc, deep);
                   return;
                 }
                 for (auto& x : g)
                 {
                   p.push_back(x);
                   rec();
                   p.pop_back();
                 }
               };
               rec();
             });
}
// every subset of n points, in a fixed order
void subsets(Ctx& c, const char* name, const Pts& g, int n, const Scale& sc, bool deep)
{
  for (size_t a = 0; a < g.size(); ++a)
    for (size_t b = a + 1; b < g.size(); ++b)
      c.item([&] { return str(name, " subsets of ", n, " starting ", text({ g[a], g[b] })); },
             [&] {
               Pts p{ g[a], g[b] };
               std::function<void(size_t)> rec = [&](size_t from) {
                 if ((int)p.size() == n)
                 {
                   all(c, p, sc, deep);
                   return;
                 }
                 for (size_t i = from; i < g.size(); ++i)
                 {
                   p.push_back(g[i]);
                   rec(i + 1);
                   p.pop_back();
                 }
               };
               rec(b + 1);
             });
}
}  // namespace

void mc::explore(Ctx& c)
{
  const Pts cube = grid(2, 2, 2), square = grid(3, 3, 1), big = grid(3, 3, 3), slab = grid(3, 2, 2);
  for (int n = 1; n <= (c.thorough ? 7 : 5); ++n)
    sequences(c, "cube", cube, n, UNIT, n <= 5);
  for (int n = 1; n <= (c.thorough ? 6 : 5); ++n)
    sequences(c, "square", square, n, UNIT, n <= 5);
  for (int n = 3; n <= (c.thorough ? 6 : 4); ++n)
    sequences(c, "slab", slab, n, UNIT, true);
  for (int n = 4; n <= (c.thorough ? 5 : 4); ++n)
    sequences(c, "grid", big, n, UNIT, false);
  for (int n = 5; n <= (c.thorough ? 8 : 5); ++n)
    subsets(c, "grid", big, n, UNIT, false);
  const Pts plate = grid(3, 3, 2);
  for (int n = 6; n <= (c.thorough ? 9 : 7); ++n)
    subsets(c, "plate", plate, n, UNIT, false);
  // the whole grid but for up to three points, in two orders
  for (int rev = 0; rev < 2; ++rev)
    for (size_t a = 0; a < big.size(); ++a)
      c.item([&] { return str("nearly the whole grid, without ", text({ big[a] }), rev ? ", backwards" : ""); },
             [&] {
               for (size_t b = a; b < big.size(); ++b)
                 for (size_t e = b; e < (c.thorough ? big.size() : b + 1); ++e)
                 {
                   Pts p;
                   for (size_t i = 0; i < big.size(); ++i)
                     if (i != a && i != b && i != e)
                       p.push_back(big[rev ? big.size() - 1 - i : i]);
                   all(c, p, UNIT, a == b);
                 }
             });
  for (int n = 4; n <= (c.thorough ? 6 : 5); ++n)
    sequences(c, "cube, scaled", cube, n, ODD, false);
  for (int n = 4; n <= (c.thorough ? 6 : 4); ++n)
    subsets(c, "grid, scaled", big, n, ODD, false);
}
