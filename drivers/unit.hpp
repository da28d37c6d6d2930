// Harness of the unit-level executable contracts: random cases, one failing case is reported with its seed.
// usage: <driver> <property> <seed> <budget seconds> [case seed]
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <signal.h>
#include <sstream>
#include <string>
#include <sys/time.h>
#include <unistd.h>
#include <vector>
#include <boost/log/core.hpp>

typedef unsigned long long u64;
static u64 mix(u64 x)
{
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}
struct Rng {
  u64 s;
  explicit Rng(u64 x) : s(x) {}
  u64    next() { return s = mix(s); }
  int    in(int a, int b) { return a + (int) (next() % (u64) (b - a + 1)); }
  double d() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double r(double a, double b) { return a + (b - a) * d(); }
  bool   p(double x) { return d() < x; }
  /// values that collide now and then
  double v() { return p(0.4) ? (double) in(-3, 3) : r(-3, 3); }
};

struct Failure {
  std::string text;
};
static std::ostringstream g_note;
template <class... T>
std::string cat(const T &...t)
{
  std::ostringstream o;
  o.precision(17);
  (o << ... << t);
  return o.str();
}
#define CHECK_THAT(cond, ...)                                                  \
  do {                                                                         \
    if (!(cond))                                                               \
      throw Failure{cat(#cond, " (line ", __LINE__, ") ", ##__VA_ARGS__)};     \
  } while (0)
template <class V>
std::string show(const V &v)
{
  std::ostringstream o;
  o.precision(17);
  o << "[";
  for (int i = 0; i < (int) v.size(); ++i)
    o << (i ? " " : "") << v[i];
  o << "]";
  return o.str();
}
inline bool close(double a, double b, double tol = 1e-9) { return std::abs(a - b) <= tol * (1 + std::abs(a) + std::abs(b)); }

/// defined by the driver
void runCase(Rng &r, const std::string &prop);

static volatile u64 g_case = 0;
static void         onCrash(int s)
{
  char b[200];
  int  n = snprintf(b, sizeof b, "\nFAIL case %llu: the process died with signal %d (assertion or memory error)\n", (u64) g_case, s);
  if (write(1, b, n)) {
  }
  _exit(1);
}

int main(int argc, char **argv)
{
  std::string prop = argc > 1 ? argv[1] : "";
  u64         seed = argc > 2 ? strtoull(argv[2], nullptr, 10) : 1;
  double      bud  = argc > 3 ? atof(argv[3]) : 5;
  boost::log::core::get()->set_logging_enabled(false);
  setvbuf(stdout, nullptr, _IOLBF, 0);
  for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGILL, SIGBUS})
    signal(s, onCrash);
  auto now = [] {timeval t; gettimeofday(&t, nullptr); return t.tv_sec + 1e-6 * t.tv_usec; };
  auto one = [&](u64 s) {
    g_case = s;
    Rng r(mix(s));
    g_note.str("");
    try {
      runCase(r, prop);
      return std::string();
    } catch (const Failure &f) {
      return cat("case ", s, ": ", f.text, " ", g_note.str());
    } catch (const std::exception &e) {
      return cat("case ", s, ": unexpected exception ", e.what(), " ", g_note.str());
    }
  };
  if (argc > 4) {
    auto t = one(strtoull(argv[4], nullptr, 10));
    printf("%s\n", t.empty() ? "ok" : ("FAIL " + t).c_str());
    return t.empty() ? 0 : 1;
  }
  double t0  = now();
  int    n   = 0, bad = 0;
  while (now() - t0 < bud && n < 2000000) {
    auto t = one(mix(seed * 1000003ULL + n) % 1000000000000ULL);
    ++n;
    if (!t.empty()) {
      for (auto &ch : t)
        if (ch == '\n')
          ch = ' ';
      printf("FAIL %s\n", t.c_str());
      if (++bad >= 3)
        break;
    }
  }
  printf("CASES %d\n", n);
  return bad ? 1 : 0;
}
