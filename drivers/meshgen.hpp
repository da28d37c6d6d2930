// Random meshes and an independent description of their content.
#pragma once
#include "mesh/Data.hpp"
#include "mesh/Edge.hpp"
#include "mesh/Mesh.hpp"
#include "mesh/Tetrahedron.hpp"
#include "mesh/Triangle.hpp"
#include "mesh/Vertex.hpp"
#include "unit.hpp"
namespace gen {
using namespace precice;
using PtrM = std::shared_ptr<mesh::Mesh>;
struct VDesc {
  std::vector<double> x;
  int                 gid;
  bool                owner, tagged;
  bool                operator==(const VDesc &o) const { return x == o.x && gid == o.gid && owner == o.owner && tagged == o.tagged; }
};
struct Desc {
  int                           dim = 0;
  std::vector<VDesc>            v;
  std::vector<std::vector<int>> e, t, q; ///< sorted vertex ids per element, in order
};
template <class P>
std::vector<int> ids(const P &p, int n)
{
  std::vector<int> r;
  for (int i = 0; i < n; ++i)
    r.push_back(p.vertex(i).getID());
  std::sort(r.begin(), r.end());
  return r;
}
inline Desc describe(const mesh::Mesh &m)
{
  Desc d;
  d.dim = m.getDimensions();
  int k = 0;
  for (const auto &v : m.vertices()) {
    CHECK_THAT(v.getID() == k, "vertex ids are not consecutive");
    CHECK_THAT(m.isValidVertexID(k), "valid id rejected");
    ++k;
    auto  c = v.getCoords();
    VDesc x;
    x.x.assign(c.data(), c.data() + c.size());
    x.gid    = v.getGlobalIndex();
    x.owner  = v.isOwner();
    x.tagged = v.isTagged();
    d.v.push_back(x);
  }
  CHECK_THAT(!m.isValidVertexID(k) && !m.isValidVertexID(-1), "invalid id accepted");
  for (const auto &e : m.edges())
    d.e.push_back(ids(e, 2));
  for (const auto &e : m.triangles())
    d.t.push_back(ids(e, 3));
  for (const auto &e : m.tetrahedra())
    d.q.push_back(ids(e, 4));
  return d;
}
inline std::string show(const std::vector<std::vector<int>> &l)
{
  std::string s;
  for (auto &x : l)
    s += ::show(x);
  return s;
}
inline void same(const Desc &a, const Desc &b, const char *what, bool flags = true)
{
  CHECK_THAT(a.dim == b.dim, what);
  CHECK_THAT(a.v.size() == b.v.size(), what, ": number of vertices ", a.v.size(), " and ", b.v.size());
  for (size_t i = 0; i < a.v.size(); ++i) {
    CHECK_THAT(a.v[i].x == b.v[i].x, what, ": coordinates of vertex ", i, " ", ::show(a.v[i].x), " and ", ::show(b.v[i].x));
    CHECK_THAT(a.v[i].gid == b.v[i].gid, what, ": global index of vertex ", i, " ", a.v[i].gid, " and ", b.v[i].gid);
    if (flags)
      CHECK_THAT(a.v[i].owner == b.v[i].owner && a.v[i].tagged == b.v[i].tagged, what, ": flags of vertex ", i);
  }
  CHECK_THAT(a.e == b.e, what, ": edges ", show(a.e), " and ", show(b.e));
  CHECK_THAT(a.t == b.t, what, ": triangles ", show(a.t), " and ", show(b.t));
  CHECK_THAT(a.q == b.q, what, ": tetrahedra ", show(a.q), " and ", show(b.q));
}
/// a mesh with pairwise different vertices; dup: elements may be repeated
inline PtrM make(Rng &r, int dim, int maxV, bool conn, bool dup)
{
  auto m = std::make_shared<mesh::Mesh>("M", dim, 0);
  int  n = r.p(0.1) ? 0 : r.in(1, maxV);
  for (int i = 0; i < n; ++i) {
    Eigen::VectorXd c(dim);
    for (int d = 0; d < dim; ++d)
      c[d] = r.v();
    c[r.in(0, dim - 1)] += 10.0 * i; // pairwise different
    c[0] += 1000.0 * i;
    auto &v = m->createVertex(c);
    v.setGlobalIndex(r.p(0.1) ? -1 : r.in(0, 50));
    v.setOwner(r.p(0.6));
    if (r.p(0.4))
      v.tag();
  }
  if (conn && n > 0) {
    auto pick = [&](int k) {
      std::vector<int> p(n);
      for (int i = 0; i < n; ++i)
        p[i] = i;
      for (int i = n - 1; i > 0; --i)
        std::swap(p[i], p[r.in(0, i)]);
      p.resize(k);
      return p;
    };
    std::set<std::vector<int>> seen;
    auto                       fresh = [&](std::vector<int> p) {
      std::sort(p.begin(), p.end());
      return seen.insert(p).second || dup;
    };
    auto V = [&](int i) -> mesh::Vertex & { return m->vertex(i); };
    int  ne = n > 1 ? r.in(0, 6) : 0, nt = n > 2 ? r.in(0, 5) : 0, nq = dim == 3 && n > 3 ? r.in(0, 4) : 0;
    if (r.p(0.2)) ne = 0;
    if (r.p(0.2)) nt = 0;
    if (r.p(0.2)) nq = 0;
    for (int i = 0; i < ne; ++i) {
      auto p = pick(2);
      if (fresh(p))
        m->createEdge(V(p[0]), V(p[1]));
    }
    for (int i = 0; i < nt; ++i) {
      auto p = pick(3);
      if (fresh(p))
        m->createTriangle(V(p[0]), V(p[1]), V(p[2]));
    }
    for (int i = 0; i < nq; ++i) {
      auto p = pick(4);
      if (fresh(p))
        m->createTetrahedron(V(p[0]), V(p[1]), V(p[2]), V(p[3]));
    }
  }
  return m;
}
} // namespace gen
