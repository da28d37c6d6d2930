// Executable contracts of the serialisation between participants (C06 meshes and partitioning metadata, C07 time samples).
#include "com/Extra.hpp"
#include "com/SerializedMesh.hpp"
#include "com/SerializedPartitioning.hpp"
#include "com/SerializedStamples.hpp"
#include "cplscheme/CouplingData.hpp"
#include "fakecom.hpp"
#include "meshgen.hpp"
using namespace precice;

static void meshCase(Rng &r)
{
  int  dim = r.in(2, 3);
  auto m   = gen::make(r, dim, r.p(0.3) ? 40 : 8, r.p(0.7), r.p(0.3));
  auto d   = gen::describe(*m);
  fake::Queue q;
  fake::Com   a;
  a.chan = [&](Rank, bool) -> fake::Queue & { return q; };
  mesh::Mesh o("O", dim, 1);
  int        pre = r.p(0.3) ? r.in(1, 3) : 0;
  for (int i = 0; i < pre; ++i)
    o.createVertex(Eigen::VectorXd::Constant(dim, -i));
  if (r.p(0.5)) {
    com::sendMesh(a, 0, *m);
    com::receiveMesh(a, 0, o);
  } else {
    com::broadcastSendMesh(a, *m);
    com::broadcastReceiveMesh(a, o);
  }
  CHECK_THAT(q.q.empty(), "messages left over after the mesh was received");
  gen::same(gen::describe(*m), d, "sending changed the mesh");
  auto x = gen::describe(o);
  x.v.erase(x.v.begin(), x.v.begin() + pre);
  for (auto *l : {&x.e, &x.t, &x.q})
    for (auto &el : *l)
      for (auto &i : el)
        i -= pre;
  gen::same(x, d, "received mesh", false);
}

static void metaCase(Rng &r)
{
  fake::Queue q;
  fake::Com   a;
  a.chan   = [&](Rank, bool) -> fake::Queue & { return q; };
  int dim  = r.in(2, 3);
  bool bc  = r.p(0.5);
  auto box = [&] {
    if (r.p(0.2))
      return mesh::BoundingBox(dim);
    std::vector<double> b;
    for (int d = 0; d < dim; ++d) {
      double x = r.v(), y = r.v();
      b.push_back(std::min(x, y));
      b.push_back(std::max(x, y));
    }
    return mesh::BoundingBox(b);
  };
  auto sameBox = [&](const mesh::BoundingBox &x, const mesh::BoundingBox &y) {
    CHECK_THAT(x.getDimension() == y.getDimension(), "dimension of a bounding box");
    CHECK_THAT(x.minCorner() == y.minCorner() && x.maxCorner() == y.maxCorner(), "bounding box changed: ", x.dataVector()[0], " ", ::show(x.dataVector()), ::show(y.dataVector()));
  };
  switch (r.in(0, 2)) {
  case 0: {
    mesh::Mesh::ConnectionMap cm, got;
    int                       n = r.in(1, 5);
    while ((int) cm.size() < n) {
      std::vector<int> v;
      std::set<int>    s;
      for (int i = r.in(0, 5); i > 0; --i) {
        int x = r.in(0, 30);
        if (s.insert(x).second)
          v.push_back(x);
      }
      cm[r.in(0, 20)] = v;
    }
    if (r.p(0.3))
      got[99] = {1, 2};
    if (bc) {
      com::broadcastSendConnectionMap(a, cm);
      com::broadcastReceiveConnectionMap(a, got);
    } else {
      com::sendConnectionMap(a, 0, cm);
      com::receiveConnectionMap(a, 0, got);
    }
    CHECK_THAT(got == cm, "connection map changed");
    break;
  }
  case 1: {
    auto              b = box();
    mesh::BoundingBox got(dim);
    com::sendBoundingBox(a, 0, b);
    com::receiveBoundingBox(a, 0, got);
    sameBox(b, got);
    break;
  }
  default: {
    mesh::Mesh::BoundingBoxMap m, got;
    for (int i = r.in(0, 5); i > 0; --i)
      m.emplace(r.in(0, 20), box());
    if (r.p(0.3))
      got.emplace(77, box());
    if (bc) {
      com::broadcastSendBoundingBoxMap(a, m);
      com::broadcastReceiveBoundingBoxMap(a, got);
    } else {
      com::sendBoundingBoxMap(a, 0, m);
      com::receiveBoundingBoxMap(a, 0, got);
    }
    CHECK_THAT(got.size() == m.size(), "number of bounding boxes ", got.size(), " and ", m.size());
    for (auto i = m.begin(), j = got.begin(); i != m.end(); ++i, ++j) {
      CHECK_THAT(i->first == j->first, "rank of a bounding box");
      sameBox(i->second, j->second);
    }
  }
  }
  CHECK_THAT(q.q.empty(), "messages left over");
}

static void stampleCase(Rng &r)
{
  int  mdim = r.in(2, 3), n = r.p(0.1) ? 0 : r.in(1, 6), dd = r.p(0.5) ? 1 : mdim;
  bool grad = r.p(0.4);
  auto mk   = [&](const char *name) {
    auto m = std::make_shared<mesh::Mesh>(name, mdim, 0);
    for (int i = 0; i < n; ++i) {
      Eigen::VectorXd c(mdim);
      for (int d = 0; d < mdim; ++d)
        c[d] = r.v();
      m->createVertex(c);
    }
    auto d = m->createData("D", dd, 0);
    if (grad)
      d->requireDataGradient();
    m->allocateDataValues();
    return m;
  };
  auto ma = mk("A"), mb = mk("B");
  cplscheme::CouplingData a(ma->data(0), ma, false, true, cplscheme::CouplingData::Direction::Send);
  cplscheme::CouplingData b(mb->data(0), mb, false, true, cplscheme::CouplingData::Direction::Receive);
  int                     k = r.in(1, 5);
  double                  t = r.p(0.5) ? 0 : r.r(0, 5);
  std::vector<double>     times;
  std::vector<Eigen::VectorXd> vals;
  std::vector<Eigen::MatrixXd> grads;
  auto rnd = [&](int rows, int cols) {
    Eigen::MatrixXd x(rows, cols);
    for (int j = 0; j < cols; ++j)
      for (int i = 0; i < rows; ++i)
        x(i, j) = r.v();
    return x;
  };
  auto put = [&](cplscheme::CouplingData &d, double t) {
    Eigen::VectorXd v = rnd(n * dd, 1);
    Eigen::MatrixXd g = rnd(mdim, n * dd);
    if (grad)
      d.setSampleAtTime(t, time::Sample(dd, v, g));
    else
      d.setSampleAtTime(t, time::Sample(dd, v));
    return std::make_pair(v, g);
  };
  for (int i = 0; i < k; ++i) {
    auto p = put(a, t);
    times.push_back(t);
    vals.push_back(p.first);
    grads.push_back(p.second);
    t += r.r(0.01, 1);
  }
  b.initializeWithZeroAtTime(0); // as the coupling schemes do before they receive
  double tb = 0;
  for (int i = r.in(0, 3); i > 0; --i)
    put(b, tb += 1);
  auto s = com::serialize::SerializedStamples::serialize(a);
  CHECK_THAT(s.nTimeSteps() == k, "number of time steps ", s.nTimeSteps(), " and ", k);
  CHECK_THAT(s.values().size() == k * n * dd, "size of the serialised values");
  auto e = com::serialize::SerializedStamples::empty(k, b);
  CHECK_THAT(e.values().size() == s.values().size() && e.gradients().size() == s.gradients().size(), "the receiver allocates ", e.values().size(), "+", e.gradients().size(), " values, ", s.values().size(), "+", s.gradients().size(), " are sent");
  // every value of a vertex travels in one block, so that distributing vertices between ranks keeps them together
  for (int v = 0; v < n * dd; ++v)
    for (int i = 0; i < k; ++i)
      CHECK_THAT(s.values()[v * k + i] == vals[i][v], "value ", v, " of time step ", i, " is not in the block of its vertex");
  e.values()    = s.values();
  if (grad)
    e.gradients() = s.gradients();
  e.deserializeInto(times, b);
  CHECK_THAT(b.waveform().nTimes() == k, "received ", b.waveform().nTimes(), " instead of ", k, " time steps");
  int i = 0;
  for (const auto &x : b.stamples()) {
    CHECK_THAT(x.timestamp == times[i], "time stamp ", x.timestamp, " instead of ", times[i]);
    CHECK_THAT(x.sample.values == vals[i], "values of time step ", i, ": ", ::show(x.sample.values), " instead of ", ::show(vals[i]));
    if (grad)
      CHECK_THAT(x.sample.gradients.rows() == mdim && x.sample.gradients == grads[i], "gradients of time step ", i);
    ++i;
  }
}

void runCase(Rng &r, const std::string &prop)
{
  if (prop == "C07")
    stampleCase(r);
  else if (r.p(0.6))
    meshCase(r);
  else
    metaCase(r);
}
