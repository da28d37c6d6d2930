// In-memory communication between ranks of one process: a FIFO of typed messages per (tag) direction.
#pragma once
#include <deque>
#include <variant>
#include "com/Communication.hpp"
#include "com/Request.hpp"
#include "unit.hpp"
namespace fake {
using namespace precice;
using Item = std::variant<std::vector<int>, std::vector<double>, std::string, double, int, bool>;
struct DoneRequest : com::Request {
  bool test() override { return true; }
  void wait() override {}
};
/// messages are delivered in order; receiving another type or size than was sent is a failure
struct Queue {
  std::deque<Item> q;
  template <class T>
  T take(const char *what)
  {
    CHECK_THAT(!q.empty(), "receive without a message: ", what);
    Item i = q.front();
    q.pop_front();
    CHECK_THAT(std::holds_alternative<T>(i), "message of another type received: ", what);
    return std::get<T>(i);
  }
};
struct Com : com::Communication {
  std::function<Queue &(Rank, bool)> chan; ///< channel to (true) or from (false) a rank
  size_t                             remote = 1;
  Com() { _isConnected = true; }
  size_t getRemoteCommunicatorSize() override { return remote; }
  void   acceptConnection(std::string const &, std::string const &, std::string const &, int, int) override {}
  void   acceptConnectionAsServer(std::string const &, std::string const &, std::string const &, int, int) override {}
  void   requestConnection(std::string const &, std::string const &, std::string const &, int, int) override {}
  void   requestConnectionAsClient(std::string const &, std::string const &, std::string const &, std::set<int> const &, int) override {}
  void   closeConnection() override { _isConnected = false; }
  template <class T>
  void put(T v, Rank r) { chan(r - _rankOffset, true).q.push_back(Item(std::move(v))); }
  template <class T>
  T    get(Rank r, const char *w) { return chan(r - _rankOffset, false).take<T>(w); }
  void send(std::string const &v, Rank r) override { put(std::string(v), r); }
  void send(precice::span<const int> v, Rank r) override { put(std::vector<int>(v.begin(), v.end()), r); }
  void send(precice::span<const double> v, Rank r) override { put(std::vector<double>(v.begin(), v.end()), r); }
  void send(double v, Rank r) override { put(v, r); }
  void send(int v, Rank r) override { put(v, r); }
  void send(bool v, Rank r) override { put(v, r); }
  com::PtrRequest done() { return std::make_shared<DoneRequest>(); }
  com::PtrRequest aSend(precice::span<const int> v, Rank r) override { send(v, r); return done(); }
  com::PtrRequest aSend(precice::span<const double> v, Rank r) override { send(v, r); return done(); }
  com::PtrRequest aSend(const double &v, Rank r) override { send(v, r); return done(); }
  com::PtrRequest aSend(const int &v, Rank r) override { send(v, r); return done(); }
  com::PtrRequest aSend(const bool &v, Rank r) override { send(v, r); return done(); }
  void            receive(std::string &v, Rank r) override { v = get<std::string>(r, "string"); }
  template <class T>
  void range(precice::span<T> v, Rank r)
  {
    auto x = get<std::vector<T>>(r, "range");
    CHECK_THAT(x.size() == v.size(), "a range of ", x.size(), " items was sent, ", v.size(), " are received");
    std::copy(x.begin(), x.end(), v.begin());
  }
  void            receive(precice::span<int> v, Rank r) override { range<int>(v, r); }
  void            receive(precice::span<double> v, Rank r) override { range<double>(v, r); }
  com::PtrRequest aReceive(precice::span<double> v, int r) override { range<double>(v, r); return done(); }
  void            receive(double &v, Rank r) override { v = get<double>(r, "double"); }
  com::PtrRequest aReceive(double &v, Rank r) override { receive(v, r); return done(); }
  void            receive(int &v, Rank r) override { v = get<int>(r, "int"); }
  com::PtrRequest aReceive(int &v, Rank r) override { receive(v, r); return done(); }
  void            receive(bool &v, Rank r) override { v = get<bool>(r, "bool"); }
  com::PtrRequest aReceive(bool &v, Rank r) override { receive(v, r); return done(); }
};
} // namespace fake
