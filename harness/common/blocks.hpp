// Closed surface meshes of small sets of axis-aligned blocks.
#pragma once
#include "mc/mc.hpp"
#include <algorithm>
#include <array>
#include <cstdint>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace blk
{
struct Mesh
{
  std::vector<double> p;
  std::vector<uint32_t> t;
  std::string name;
  double lo[3], hi[3], volume = 0, surface = 0;
};
struct Shape
{
  int nx, ny, nz;
  unsigned bits;
  int grid = 0;  // 0: unit cubes; 1: the first layer of every axis is thin, the second is wide
  double size(int i) const { return grid == 0 ? 1 : i % 2 ? 1.7 : 0.3; }
  double at(int i) const
  {
    double r = 0;
    for (int k = 0; k < i; ++k)
      r += size(k);
    return r;
  }
  bool has(int x, int y, int z) const
  {
    return x >= 0 && y >= 0 && z >= 0 && x < nx && y < ny && z < nz && (bits >> ((x * ny + y) * nz + z) & 1);
  }
};
inline bool connected(const Shape& s)
{
  std::vector<std::array<int, 3>> cells, todo;
  for (int x = 0; x < s.nx; ++x)
    for (int y = 0; y < s.ny; ++y)
      for (int z = 0; z < s.nz; ++z)
        if (s.has(x, y, z))
          cells.push_back({ x, y, z });
  if (cells.empty())
    return false;
  std::set<std::array<int, 3>> seen{ cells[0] };
  todo = { cells[0] };
  while (!todo.empty())
  {
    auto c = todo.back();
    todo.pop_back();
    for (int d = 0; d < 6; ++d)
    {
      auto n = c;
      n[d / 2] += d % 2 ? 1 : -1;
      if (s.has(n[0], n[1], n[2]) && seen.insert(n).second)
        todo.push_back(n);
    }
  }
  return seen.size() == cells.size();
}
inline Mesh meshOf(const Shape& s)
{
  Mesh m;
  m.name = mc::str(s.nx, "x", s.ny, "x", s.nz, s.grid ? " thin blocks " : " blocks ", s.bits);
  std::map<std::array<int, 3>, uint32_t> at;
  auto v = [&](int x, int y, int z) {
    auto it = at.find({ x, y, z });
    if (it != at.end())
      return it->second;
    const uint32_t i = (uint32_t)m.p.size() / 3;
    for (double d : { s.at(x), s.at(y), s.at(z) })
      m.p.push_back(d);
    at[{ x, y, z }] = i;
    return i;
  };
  for (int x = 0; x < s.nx; ++x)
    for (int y = 0; y < s.ny; ++y)
      for (int z = 0; z < s.nz; ++z)
      {
        if (!s.has(x, y, z))
          continue;
        m.volume += s.size(x) * s.size(y) * s.size(z);
        for (int d = 0; d < 6; ++d)
        {
          const int ax = d / 2, up = d % 2;
          int n[3] = { x, y, z };
          n[ax] += up ? 1 : -1;
          if (s.has(n[0], n[1], n[2]))
            continue;
          int o[3] = { x, y, z };
          o[ax] += up;
          const int u = (ax + 1) % 3, w = (ax + 2) % 3;
          auto corner = [&](int a, int b) {
            int q[3] = { o[0], o[1], o[2] };
            q[u] += a;
            q[w] += b;
            return v(q[0], q[1], q[2]);
          };
          uint32_t a = corner(0, 0), b = corner(1, 0), c = corner(1, 1), e = corner(0, 1);
          if (!up)
            std::swap(b, e);
          const double side[3] = { s.size(x), s.size(y), s.size(z) };
          m.surface += side[u] * side[w];
          for (uint32_t i : { a, b, c, a, c, e })
            m.t.push_back(i);
        }
      }
  for (int i = 0; i < 3; ++i)
  {
    m.lo[i] = 1e9;
    m.hi[i] = -1e9;
    for (size_t k = 0; k < m.p.size(); k += 3)
    {
      m.lo[i] = std::min(m.lo[i], m.p[k + i]);
      m.hi[i] = std::max(m.hi[i], m.p[k + i]);
    }
  }
  return m;
}
}  // namespace blk
