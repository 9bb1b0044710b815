// Workload generators shared by the library monitors.
#pragma once
#include "common.hpp"
#include "polyref.hpp"

#include <Eigen/Core>
#include "mav_trajectory_generation/polynomial.h"
#include "mav_trajectory_generation/segment.h"
#include "mav_trajectory_generation/trajectory.h"
#include "mav_trajectory_generation/vertex.h"

namespace mtg = mav_trajectory_generation;
namespace gen {

static const double EPS = std::numeric_limits<double>::epsilon();

inline void quiet(const char* name) {
  google::InitGoogleLogging(name);
  FLAGS_minloglevel = 3;
  FLAGS_logtostderr = true;
}

// Coefficients of a polynomial meant for use on a time scale T.
inline Eigen::VectorXd coeffs(vf::Rng& g, int N, double T, int* kind_out = nullptr) {
  int kind = g.i(0, 5);
  Eigen::VectorXd c(N);
  for (int i = 0; i < N; ++i) {
    switch (kind) {
      case 0: c[i] = g.normal(); break;
      case 1: c[i] = 3 * g.normal() * std::pow(T, -i); break;
      case 2: c[i] = g.normal() * std::pow(10.0, g.uni(-6, 3)); break;
      case 3: c[i] = g.p(0.4) ? 0.0 : g.normal() * std::pow(T, -i); break;
      case 4: c[i] = g.i(-9, 9); break;
      default: c[i] = i == 0 ? 100 * g.normal() : g.normal() * std::pow(T, -i); break;
    }
  }
  if (kind_out) *kind_out = kind;
  return c;
}

// A duration: dyadic (exactly summable) or arbitrary.
inline double duration(vf::Rng& g, bool dyadic) {
  if (dyadic) return g.i(1, 640) / 64.0;
  return g.p(0.1) ? g.logu(1e-3, 1e-1) : g.logu(0.1, 15);
}

inline mtg::Segment segment(vf::Rng& g, int N, int D, double T) {
  mtg::Segment s(N, D);
  for (int d = 0; d < D; ++d) s[d] = mtg::Polynomial(coeffs(g, N, std::max(T, 0.05)));
  s.setTime(T);
  return s;
}
inline mtg::Segment::Vector segments(vf::Rng& g, int K, int N, int D, bool dyadic) {
  mtg::Segment::Vector v;
  for (int k = 0; k < K; ++k) v.push_back(segment(g, N, D, duration(g, dyadic)));
  return v;
}

inline ref::P refPoly(const mtg::Polynomial& p) { return ref::make(p.getCoefficients(0)); }

// reference value of derivative k at t and the scale of its rounding error,
// dt = uncertainty of t itself
struct RV { double v, tol; };
inline RV refEval(const ref::P& p, int k, double t, double dt = 0) {
  ref::P q = ref::deriv(p, k);
  RV r;
  r.v = (double)ref::eval(q, t);
  r.tol = 64 * (q.size() + 1) * EPS * ref::absEval(q, t) + 1e-290;
  if (dt > 0) {
    ref::P q1 = ref::deriv(q);
    r.tol += dt * ref::absEval(q1, std::abs(t) + dt) * 2;
  }
  return r;
}
inline uint64_t hashVec(const Eigen::VectorXd& v, uint64_t h = 1469598103934665603ULL) {
  return vf::fnv(v.data(), sizeof(double) * v.size(), h);
}
inline std::string show(const Eigen::VectorXd& v) {
  std::string s = "[";
  for (int i = 0; i < v.size(); ++i) s += vf::fmt("%s%.9g", i ? "," : "", v[i]);
  return s + "]";
}
inline bool close(double a, double b, double tol) { return std::abs(a - b) <= tol; }
}  // namespace gen
