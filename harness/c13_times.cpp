// C13: estimated segment times.
#include "gen.hpp"
#include "mav_trajectory_generation/polynomial_optimization_linear.h"
using namespace mtg;
using vf::fmt;

static double ramp(double d, double v, double a) {  // rest to rest, speed <= v, acceleration a
  return d < v * v / a ? 2 * std::sqrt(d / a) : d / v + v / a;
}
static void runCase(vf::Ctx& x) {
  vf::Rng& g = x.rng;
  int D = g.i(1, 4), n = g.i(2, 9);
  double v = g.logu(0.05, 40), a = g.logu(0.05, 60), size = g.logu(1e-4, 300);
  Vertex::Vector vs;
  std::vector<Eigen::VectorXd> pos;
  std::vector<int> rest;
  for (int i = 0; i < n; ++i) {
    Vertex w(D);
    Eigen::VectorXd p(D);
    for (int d = 0; d < D; ++d) p[d] = size * g.normal();
    if (i && g.p(0.12)) { p = pos.back(); vf::count("coincident_vertices"); }
    else if (i && g.p(0.3)) p = pos.back() + (v * v / a) * g.uni(0, 2.5) * (p / (p.norm() + 1e-300));
    w.addConstraint(0, p);
    bool r = false;
    if (g.p(0.4)) {
      Eigen::VectorXd u(D);
      for (int d = 0; d < D; ++d) u[d] = g.normal();
      if (g.p(0.4)) for (int d = 0; d < D; ++d) if (g.p(0.6)) u[d] = 0;          // along an axis
      if (g.p(0.15)) u *= g.logu(1e-4, 1e-2) / (u.norm() + 1e-300);                // slow, not at rest
      if (g.p(0.4)) u.setZero();
      r = u.norm() < 1e-6;
      if (!r && u[0] == 0) vf::count("moving_along_an_axis");
      w.addConstraint(1, u);
    }
    if (g.p(0.3)) w.addConstraint(2, Eigen::VectorXd::Zero(D));
    vs.push_back(w);
    pos.push_back(p);
    rest.push_back(r);
  }
  vf::evaluated();
  std::string what = fmt("%d vertices of %d dimensions, v %.4g a %.4g", n, D, v, a);
  auto near = [&](double got, double want) { return std::abs(got - want) <= 1e-12 * want; };
  double f = g.p(0.4) ? 1.0 : g.uni(1, 5);
  std::vector<double> dflt = estimateSegmentTimes(vs, v, a), nf = g.p(0.5) ? estimateSegmentTimesNfabian(vs, v, a) : estimateSegmentTimesNfabian(vs, v, a, g.uni(1, 10)),
                      vr = estimateSegmentTimesVelocityRamp(vs, v, a, f), vr1 = estimateSegmentTimesVelocityRamp(vs, v, a);
  if ((int)nf.size() != n - 1 || (int)vr.size() != n - 1 || (int)vr1.size() != n - 1 || dflt != nf) { vf::viol("C13.count", fmt("%zu %zu %zu times; ", dflt.size(), nf.size(), vr.size()) + what); return; }
  for (int i = 0; i + 1 < n; ++i) {
    double d = (pos[i + 1] - pos[i]).norm();
    // one positive time per segment, long enough to cover the distance
    if (!(nf[i] > 0) || !std::isfinite(nf[i]) || !(vr[i] > 0) || !std::isfinite(vr[i])) { vf::viol("C13.positive", fmt("segment %d of length %g gets %g and %g s; ", i, d, nf[i], vr[i]) + what); continue; }
    if (nf[i] < d / v * (1 - 1e-12) || vr[i] < d / v * (1 - 1e-12)) vf::viol("C13.speed", fmt("segment %d of length %g: %g and %g s; ", i, d, nf[i], vr[i]) + what);
    // at rest at either end: time to speed up or slow down on top
    double want = d / v + (rest[i] || rest[i + 1] ? v / a : 0), w2 = std::max(want, 0.1);
    vf::count(rest[i] || rest[i + 1] ? "rest_segments" : "moving_segments");
    if (want >= 0.1 ? !near(nf[i], want) : !(nf[i] >= want * (1 - 1e-12) && nf[i] <= w2 * (1 + 1e-12))) vf::viol("C13.estimate", fmt("segment %d of length %g at rest %d/%d: %.12g s, expected %.12g; ", i, d, rest[i], rest[i + 1], nf[i], w2) + what);
    double r = ramp(d, v, a);
    vf::count(d < v * v / a ? "ramps_short" : "ramps_long");
    if (!near(computeTimeVelocityRamp(pos[i], pos[i + 1], v, a), r) && r > 1e-12) vf::viol("C13.ramp", fmt("length %g: %.12g s, expected %.12g; ", d, computeTimeVelocityRamp(pos[i], pos[i + 1], v, a), r) + what);
    if (!near(vr[i], std::max(0.1, r * f)) || !near(vr1[i], std::max(0.1, r))) vf::viol("C13.ramp.estimate", fmt("length %g factor %g: %.12g and %.12g s, expected %.12g; ", d, f, vr[i], vr1[i], std::max(0.1, r * f)) + what);
  }
  // the optimiser accepts the estimate
  if (g.p(0.1)) {
    Vertex::Vector w;
    for (int i = 0; i < n; ++i) { Vertex u(D); if (i == 0 || i == n - 1) u.makeStartOrEnd(pos[i], 4); else u.addConstraint(0, pos[i]); w.push_back(u); }
    std::vector<double> t = estimateSegmentTimes(w, v, a);
    PolynomialOptimization<10> o(D);
    bool ok = o.setupFromVertices(w, t, 4) && o.solveLinear();
    Trajectory tr;
    o.getTrajectory(&tr);
    double s = 0;
    for (double q : t) s += q;
    if (!ok || !near(tr.getMaxTime(), s)) vf::viol("C13.usable", what);
    vf::count("estimates_optimised");
  }
  vf::distinct(vf::fnv(nf.data(), nf.size() * 8));
  vf::sample(what);
}
int main(int c, char** v) { gen::quiet(v[0]); return vf::drive(c, v, "C13", runCase); }
