// Executable contracts of meshes and bounding boxes (C12).
#include "mesh/BoundingBox.hpp"
#include "mesh/Filter.hpp"
#include "mesh/Utils.hpp"
#include "meshgen.hpp"
using namespace precice;
using mesh::BoundingBox;
typedef Eigen::VectorXd Vec;

struct Box {
  std::vector<double> lo, hi;
  bool                empty = false;
};
static std::string show(const Box &b) { return b.empty ? "empty" : ::show(b.lo) + ".." + ::show(b.hi); }
static Box         rbox(Rng &r, int dim)
{
  Box b;
  for (int d = 0; d < dim; ++d) {
    double x = r.v(), y = r.v();
    b.lo.push_back(std::min(x, y));
    b.hi.push_back(std::max(x, y));
  }
  return b;
}
static BoundingBox mk(Rng &r, const Box &b)
{
  int dim = b.lo.size();
  if (r.p(0.5)) {
    std::vector<double> v;
    for (int d = 0; d < dim; ++d) {
      v.push_back(b.lo[d]);
      v.push_back(b.hi[d]);
    }
    return BoundingBox(v);
  }
  Vec lo(dim), hi(dim);
  for (int d = 0; d < dim; ++d) {
    lo[d] = b.lo[d];
    hi[d] = b.hi[d];
  }
  return BoundingBox(lo, hi);
}
static void is(const BoundingBox &x, const Box &b, const char *what)
{
  int dim = b.lo.size();
  CHECK_THAT(x.getDimension() == dim, what);
  if (b.empty) {
    CHECK_THAT(x.isDefault() && x.empty(), what, ": must be empty");
    return;
  }
  CHECK_THAT(!x.isDefault(), what, ": must not be the empty box");
  auto dv = x.dataVector();
  CHECK_THAT((int) dv.size() == 2 * dim, what);
  for (int d = 0; d < dim; ++d) {
    CHECK_THAT(close(x.minCorner()[d], b.lo[d]) && close(x.maxCorner()[d], b.hi[d]), what, ": box is ", ::show(x.dataVector()), " instead of ", show(b));
    CHECK_THAT(dv[2 * d] == x.minCorner()[d] && dv[2 * d + 1] == x.maxCorner()[d], what, ": data vector");
    CHECK_THAT(close(x.center()[d], (b.lo[d] + b.hi[d]) / 2), what, ": center");
    CHECK_THAT(close(x.getEdgeLength(d), b.hi[d] - b.lo[d]), what, ": edge length");
  }
}
static mesh::Vertex vtx(Rng &r, int dim, const Box *near, std::vector<double> &x)
{
  Vec c(dim);
  x.clear();
  for (int d = 0; d < dim; ++d) {
    c[d] = near && r.p(0.7) ? (r.p(0.3) ? near->lo[d] : r.p(0.4) ? near->hi[d] : r.r(near->lo[d], near->hi[d])) : r.v();
    x.push_back(c[d]);
  }
  return mesh::Vertex(c, 0);
}

static void boxCase(Rng &r)
{
  int         dim = r.in(2, 3);
  Box         m;
  BoundingBox x(dim);
  if (r.p(0.3)) {
    m       = rbox(r, dim);
    m.empty = true;
  } else {
    m = rbox(r, dim);
    x = mk(r, m);
  }
  is(x, m, "constructed");
  for (int step = r.in(1, 5); step > 0; --step) {
    switch (r.in(0, 5)) {
    case 0: {
      Box b = rbox(r, dim);
      if (r.p(0.2)) {
        x.expandBy(BoundingBox(dim));
      } else {
        x.expandBy(mk(r, b));
        if (m.empty) {
          m = b;
        } else
          for (int d = 0; d < dim; ++d) {
            m.lo[d] = std::min(m.lo[d], b.lo[d]);
            m.hi[d] = std::max(m.hi[d], b.hi[d]);
          }
      }
      is(x, m, "expanded by a box");
      break;
    }
    case 1: {
      std::vector<double> p;
      auto                v = vtx(r, dim, nullptr, p);
      x.expandBy(v);
      if (m.empty) {
        m.lo = m.hi = p;
        m.empty     = false;
      } else
        for (int d = 0; d < dim; ++d) {
          m.lo[d] = std::min(m.lo[d], p[d]);
          m.hi[d] = std::max(m.hi[d], p[d]);
        }
      is(x, m, "expanded by a vertex");
      break;
    }
    case 2: {
      double v = std::abs(r.v());
      x.expandBy(v);
      if (!m.empty)
        for (int d = 0; d < dim; ++d) {
          m.lo[d] -= v;
          m.hi[d] += v;
        }
      is(x, m, "expanded by a radius");
      break;
    }
    case 3: {
      double f = r.r(0, 1.5), len = 0;
      for (int d = 0; d < dim; ++d)
        len = std::max(len, m.hi[d] - m.lo[d]);
      if (!m.empty)
        CHECK_THAT(close(x.longestEdgeLength(), len), "longest edge");
      x.scaleBy(f);
      if (!m.empty)
        for (int d = 0; d < dim; ++d) {
          m.lo[d] -= f * len;
          m.hi[d] += f * len;
        }
      is(x, m, "scaled");
      break;
    }
    case 4: {
      Box b = rbox(r, dim);
      if (!m.empty && r.p(0.5)) // touching or nearly
        for (int d = 0; d < dim; ++d) {
          double w = b.hi[d] - b.lo[d];
          if (r.p(0.5)) {
            b.lo[d] = x.maxCorner()[d];
            b.hi[d] = b.lo[d] + w;
          } else if (r.p(0.5)) {
            b.hi[d] = x.minCorner()[d];
            b.lo[d] = b.hi[d] - w;
          }
        }
      auto y  = mk(r, b);
      bool ov = !m.empty;
      for (int d = 0; d < dim && ov; ++d)
        ov = x.minCorner()[d] <= b.hi[d] && b.lo[d] <= x.maxCorner()[d];
      if (!m.empty)
        CHECK_THAT(x.overlapping(y) == ov && y.overlapping(x) == ov, "overlap of ", ::show(x.dataVector()), " and ", show(b), " must be ", ov);
      break;
    }
    default: {
      std::vector<double> p;
      Box                 n = m;
      if (!m.empty)
        for (int d = 0; d < dim; ++d) {
          n.lo[d] = x.minCorner()[d];
          n.hi[d] = x.maxCorner()[d];
        }
      auto v  = vtx(r, dim, m.empty ? nullptr : &n, p);
      bool in = !m.empty;
      for (int d = 0; d < dim && in; ++d)
        in = n.lo[d] <= p[d] && p[d] <= n.hi[d];
      CHECK_THAT(x.contains(v) == in, "point ", ::show(p), " in ", ::show(x.dataVector()), " must be ", in);
    }
    }
  }
  if (!m.empty) {
    std::vector<bool> dead(dim);
    double            a = 1;
    for (int d = 0; d < dim; ++d)
      if (!(dead[d] = r.p(0.3)))
        a *= m.hi[d] - m.lo[d];
    CHECK_THAT(close(x.getArea(dead), a, 1e-7), "area of the live axes");
    CHECK_THAT(x == x, "equal to itself");
    bool point = true;
    for (int d = 0; d < dim; ++d)
      point = point && m.lo[d] == m.hi[d];
    if (point)
      CHECK_THAT(x.empty(), "a single point has no extent");
  }
}

static std::vector<std::vector<int>> mapped(const std::vector<std::vector<int>> &l, const std::map<int, int> &to)
{
  std::vector<std::vector<int>> out;
  for (auto &x : l) {
    std::vector<int> y;
    for (int i : x)
      if (to.count(i))
        y.push_back(to.at(i));
    if (y.size() == x.size())
      out.push_back(y);
  }
  return out;
}
static std::set<std::vector<int>> unique(const std::vector<std::vector<int>> &l) { return {l.begin(), l.end()}; }

static void meshCase(Rng &r)
{
  int  dim = r.in(2, 3);
  auto m   = gen::make(r, dim, r.p(0.2) ? 30 : 7, r.p(0.8), r.p(0.4));
  auto d   = gen::describe(*m);
  // filter
  std::set<int> keep;
  double        pr = r.d();
  for (int i = 0; i < (int) d.v.size(); ++i)
    if (r.p(pr))
      keep.insert(i);
  mesh::Mesh f("F", dim, 1);
  int        pre = r.p(0.3) ? r.in(1, 2) : 0;
  for (int i = 0; i < pre; ++i)
    f.createVertex(Eigen::VectorXd::Constant(dim, -7 - i));
  auto ex = gen::describe(f);
  mesh::filterMesh(f, *m, [&](const mesh::Vertex &v) { return keep.count(v.getID()) > 0; });
  std::map<int, int> to;
  for (int i : keep) {
    int k = ex.v.size();
    to[i] = k;
    ex.v.push_back(d.v[i]);
  }
  ex.e = mapped(d.e, to);
  ex.t = mapped(d.t, to);
  ex.q = mapped(d.q, to);
  gen::same(gen::describe(f), ex, "filtered mesh");
  gen::same(gen::describe(*m), d, "source of the filter");
  // merge
  auto o  = gen::make(r, dim, 6, r.p(0.7), r.p(0.3));
  auto od = gen::describe(*o);
  auto dd = gen::describe(*m);
  int  n  = od.v.size();
  o->addMesh(*m);
  auto all = od;
  for (auto &v : dd.v)
    all.v.push_back(v);
  auto app = [&](std::vector<std::vector<int>> &l, const std::vector<std::vector<int>> &x) {
    for (auto y : x) {
      for (auto &i : y)
        i += n;
      l.push_back(y);
    }
  };
  app(all.e, dd.e);
  app(all.t, dd.t);
  app(all.q, dd.q);
  gen::same(gen::describe(*o), all, "merged mesh");
  // bounding box of the mesh and counting
  o->computeBoundingBox();
  for (size_t i = 0; i < o->nVertices(); ++i)
    CHECK_THAT(o->getBoundingBox().contains(o->vertex(i)), "a vertex outside of the bounding box of its mesh");
  if (o->nVertices()) {
    Vec lo = o->vertex(0).getCoords(), hi = lo;
    for (size_t i = 0; i < o->nVertices(); ++i) {
      lo = lo.cwiseMin(o->vertex(i).getCoords());
      hi = hi.cwiseMax(o->vertex(i).getCoords());
    }
    CHECK_THAT(o->getBoundingBox().minCorner() == lo && o->getBoundingBox().maxCorner() == hi, "bounding box of the mesh is not tight");
    Box  b = rbox(r, dim);
    b.hi[0] += 1000.0 * r.in(0, (int) o->nVertices());
    b.hi[dim - 1] += 10.0 * r.in(0, (int) o->nVertices());
    auto bb = mk(r, b);
    size_t c = 0;
    for (size_t i = 0; i < o->nVertices(); ++i) {
      bool in = true;
      for (int k = 0; k < dim; ++k)
        in = in && b.lo[k] <= o->vertex(i).coord(k) && o->vertex(i).coord(k) <= b.hi[k];
      c += in;
    }
    CHECK_THAT(mesh::countVerticesInBoundingBox(o, bb) == c, "vertices counted in a box");
    // data of owned vertices
    int vd = r.in(1, 3);
    Vec vals(vd * o->nVertices());
    std::vector<double> own;
    for (int i = 0; i < vals.size(); ++i) {
      vals[i] = r.v();
      if (o->vertex(i / vd).isOwner())
        own.push_back(vals[i]);
    }
    Vec g = o->getOwnedVertexData(vals);
    CHECK_THAT(std::vector<double>(g.data(), g.data() + g.size()) == own, "values of owned vertices");
  }
  // preprocessing
  auto before = gen::describe(*o);
  o->preprocess();
  auto after = gen::describe(*o);
  CHECK_THAT(after.v == before.v, "preprocessing changed vertices");
  auto q = unique(before.q), t = unique(before.t), e = unique(before.e);
  for (auto &x : q)
    for (int k = 0; k < 4; ++k) {
      auto y = x;
      y.erase(y.begin() + k);
      t.insert(y);
    }
  for (auto &x : t)
    for (int k = 0; k < 3; ++k) {
      auto y = x;
      y.erase(y.begin() + k);
      e.insert(y);
    }
  CHECK_THAT(unique(after.q) == q && after.q.size() == q.size(), "tetrahedra after preprocessing ", gen::show(after.q));
  CHECK_THAT(unique(after.t) == t && after.t.size() == t.size(), "triangles after preprocessing ", gen::show(after.t), " of ", gen::show(before.t), gen::show(before.q));
  CHECK_THAT(unique(after.e) == e && after.e.size() == e.size(), "edges after preprocessing ", gen::show(after.e), " of ", gen::show(before.e), gen::show(before.t));
  o->clear();
  CHECK_THAT(o->nVertices() == 0 && o->edges().empty() && o->triangles().empty() && o->tetrahedra().empty(), "cleared mesh is not empty");
}

void runCase(Rng &r, const std::string &prop)
{
  if (r.p(0.6))
    boxCase(r);
  else
    meshCase(r);
}
