// C05: sampling of trajectories over ranges and into flat states.
#include "trajref.hpp"
#include "mav_trajectory_generation/trajectory_sampling.h"
using namespace mtg;
using gen::EPS;
using vf::fmt;
typedef mav_msgs::EigenTrajectoryPoint Pt;

// continuous trajectory: each segment starts with the derivatives the last one
// ends with (up to order C), the rest is free.
static Segment::Vector makeSegs(vf::Rng& g, int K, int N, int D, bool dyadic) {
  Segment::Vector v = gen::segments(g, K, N, D, dyadic);
  if (D == 6)  // keep the rotation vector moderate
    for (auto& s : v)
      for (int d = 3; d < 6; ++d) {
        Eigen::VectorXd c(N);
        for (int i = 0; i < N; ++i) c[i] = 0.5 * g.normal() * std::pow(std::max(s.getTime(), 0.05), -i) / (1 + i);
        s[d] = Polynomial(c);
      }
  return v;
}
static void checkPoint(const tref::Ref& R, int D, double t, double slack, const Pt& p, const char* key) {
  std::string why;
  struct { const Eigen::Vector3d* v; int k; } f[] = {{&p.position_W, 0}, {&p.velocity_W, 1}, {&p.acceleration_W, 2}, {&p.jerk_W, 3}, {&p.snap_W, 4}};
  for (auto& e : f)
    if (!R.match(t, slack, e.k, {0, 1, 2}, *e.v, &why)) vf::viol(std::string(key) + ".state", why);
  int64_t ns = p.time_from_start_ns;
  if (std::abs((double)ns - t * 1e9) > 2 + t * 1e9 * 1e-12) vf::viol(std::string(key) + ".time", fmt("time_from_start_ns %lld for t=%.12g", (long long)ns, t));
  if (D == 4) {
    vf::count("yaw_states");
    if (p.degrees_of_freedom != mav_msgs::MavActuation::DOF4) vf::viol(std::string(key) + ".dof", "DOF");
    bool ok = false;
    for (size_t i : R.at(t, slack + 4 * EPS * (t + R.total))) {
      double l = t - R.start[i], sl = slack + 4 * EPS * (t + R.total);
      gen::RV y = gen::refEval(gen::refPoly(R.segs[i][3]), 0, l, sl), yr = gen::refEval(gen::refPoly(R.segs[i][3]), 1, l, sl), ya = gen::refEval(gen::refPoly(R.segs[i][3]), 2, l, sl);
      if (std::abs(y.v) > 1e8) { ok = true; continue; }
      double dy = std::remainder(p.getYaw() - y.v, 2 * M_PI);
      // roll and pitch are zero: a pure rotation about z
      bool level = std::abs(p.orientation_W_B.x()) < 1e-15 && std::abs(p.orientation_W_B.y()) < 1e-15;
      if (level && std::abs(dy) <= y.tol + 1e-12 * (1 + std::abs(y.v)) && gen::close(p.getYawRate(), yr.v, yr.tol) && gen::close(p.getYawAcc(), ya.v, ya.tol) &&
          p.angular_velocity_W.head(2).isZero(0) && p.angular_acceleration_W.head(2).isZero(0)) ok = true;
    }
    if (!ok) vf::viol(std::string(key) + ".yaw", fmt("yaw %g rate %g acc %g at t=%g are not those of dimension 3", p.getYaw(), p.getYawRate(), p.getYawAcc(), t));
  } else if (D == 6) {
    if (p.degrees_of_freedom != mav_msgs::MavActuation::DOF6) vf::viol(std::string(key) + ".dof", "DOF");
    bool ok = false;
    std::string w;
    for (size_t i : R.at(t, slack + 4 * EPS * (t + R.total))) {
      double l = t - R.start[i], sl = slack + 4 * EPS * (t + R.total);
      Eigen::Vector3d r, v, a, om, omd;
      double tr = 0, tv = 0, ta = 0;
      for (int d = 0; d < 3; ++d) {
        ref::P q = gen::refPoly(R.segs[i][3 + d]);
        gen::RV e0 = gen::refEval(q, 0, l, sl), e1 = gen::refEval(q, 1, l, sl), e2 = gen::refEval(q, 2, l, sl);
        r[d] = e0.v; v[d] = e1.v; a[d] = e2.v;
        tr = std::max(tr, e0.tol); tv = std::max(tv, e1.tol); ta = std::max(ta, e2.tol);
      }
      double n = r.norm(), nv = v.norm(), na = a.norm();
      if (n > 15) { ok = true; vf::count("rotation_skipped_large"); continue; }
      tref::omegaRef(r, v, a, &om, &omd);
      double small = n < 1.1e-3 ? n : 0;  // documented small angle shortcut
      double amp = 1 / std::max(n * n * n, 1e-9);
      double e1 = (p.orientation_W_B.toRotationMatrix() - tref::expQ(r)).norm();
      double t1 = 1e-12 + 10 * tr, t2 = 1e-9 * amp * 1e-3 * nv + 1e-10 * nv + 10 * (tv + tr * nv) + small * nv + 1e-14;
      double t3 = (1e-12 * amp / std::max(n, 1e-3) + 1e-10) * (nv * nv) + (1e-12 * amp + 1e-10) * na + 10 * (ta + tv * nv + tr * (na + nv * nv)) + small * (na + nv * nv) + (small > 0 ? nv * nv : 0) + 1e-14;
      double e2 = (p.angular_velocity_W - om).norm(), e3 = (p.angular_acceleration_W - omd).norm();
      if (e1 <= t1 && e2 <= t2 && e3 <= t3) ok = true;
      else w = fmt("t=%g |r|=%g |v|=%g |a|=%g: rotation off %g (tol %g), angular velocity off %g (tol %g), acceleration off %g (tol %g)", t, n, nv, na, e1, t1, e2, t2, e3, t3);
    }
    vf::count("rotation_states");
    if (!ok) vf::viol(std::string(key) + ".rotation", w);
  } else {
    if (p.degrees_of_freedom != mav_msgs::MavActuation::DOF4) vf::viol(std::string(key) + ".dof", "DOF");
  }
}
// number of grid points t0 + j dt < t1 (range of acceptable counts)
static void gridCount(double t0, double t1, double dt, double total, long* lo, long* hi) {
  double end = std::min(t1, total);
  long double q = ((long double)end - t0) / dt;
  double fuzz = 1e-9 + 1e-12 * std::abs((double)q) + 8 * EPS * total / dt * ((double)q + 1);
  *lo = std::max(0L, (long)std::ceil((double)q - fuzz));
  *hi = std::max(0L, (long)std::ceil((double)q + fuzz));
  if (t1 >= total - 1e-9) *hi = std::max(*hi, (long)std::floor((double)q + fuzz) + 1);  // end point itself may be included
}
static void checkGrid(const char* key, size_t n, double t0, double t1, double dt, double total) {
  long lo, hi;
  gridCount(t0, t1, dt, total, &lo, &hi);
  if ((long)n < lo || (long)n > hi) vf::viol(std::string(key) + ".count", fmt("%zu samples of [%.12g,%.12g) every %.12g (trajectory of %.12g): want %ld..%ld", n, t0, t1, dt, total, lo, hi));
}
static void runCase(vf::Ctx& x) {
  vf::Rng& g = x.rng;
  int K = g.i(1, 8), N = g.i(1, 10), D = g.p(0.5) ? g.i(1, 7) : (g.p(0.5) ? 4 : 6);
  Segment::Vector segs = makeSegs(g, K, N, D, g.p(0.5));
  Trajectory T;
  T.setSegments(segs);
  tref::Ref R(segs);
  const double total = T.getMaxTime();
  std::vector<double> knots = R.end;
  auto pickTime = [&]() {
    int k = g.i(0, 5);
    if (k == 0) return 0.0;
    if (k == 1) return total;
    if (k == 2) { double acc = 0; int n = g.i(0, K - 1); for (int i = 0; i < n; ++i) acc += segs[i].getTime(); return acc; }
    return g.uni(0, total);
  };
  for (int rep = 0; rep < 3; ++rep) {
    double t0 = pickTime(), t1 = pickTime();
    if (t1 < t0) std::swap(t0, t1);
    double dt = g.p(0.2) ? g.uni(0.2, 1.5) * total : g.p(0.3) ? g.i(1, 64) / 64.0 : std::max(total, 1e-6) * g.logu(3e-3, 0.3);
    if ((t1 - t0) / dt > 400) dt = (t1 - t0) / 400;
    double over = g.p(0.15) ? g.uni(0, 2 * dt) : 0;  // ask beyond the end
    int k = g.i(0, N);
    std::vector<Eigen::VectorXd> res(3), res2;
    std::vector<double> times(2, -4);
    vf::evaluated();
    T.evaluateRange(t0, t1 + over, dt, k, &res, &times);
    T.evaluateRange(t0, t1 + over, dt, k, &res2);
    vf::count("ranges");
    if (times.size() != res.size() || res2.size() != res.size()) { vf::viol("C05.range.sizes", fmt("%zu values, %zu times, %zu without times", res.size(), times.size(), res2.size())); continue; }
    checkGrid("C05.range", res.size(), t0, t1 + over, dt, total);
    std::string why;
    for (size_t j = 0; j < res.size(); ++j) {
      double tt = t0 + j * dt, slack = (j + 2) * 4 * EPS * (total + tt);
      if (!gen::close(times[j], tt, slack)) { vf::viol("C05.range.times", fmt("sample %zu of [%.12g,%.12g) step %.12g is reported at %.12g, want %.12g", j, t0, t1, dt, times[j], tt)); break; }
      if (!R.match(tt, slack, k, tref::allDims(D), res[j], &why)) { vf::viol("C05.range.value", fmt("sample %zu from %.12g step %.12g: %s", j, t0, dt, why.c_str())); break; }
      if (res2[j].size() != res[j].size() || !(res2[j] == res[j])) { vf::viol("C05.range.notimes", "values depend on whether times are asked for"); break; }
    }
    vf::count("range_samples", res.size());
    // flat states over the range
    if (D >= 3) {
      Pt::Vector st(2);
      int how = g.i(0, 2);
      bool ok;
      double a = t0, b = t1;
      if (how == 0) ok = sampleTrajectoryInRange(T, t0, t1, dt, &st);
      else if (how == 1) { double dur = (t1 - t0) * 0.999; b = t0 + dur; ok = sampleTrajectoryStartDuration(T, t0, dur, dt, &st); }
      else { a = 0; b = total; ok = sampleWholeTrajectory(T, std::max(dt, total / 400), &st); dt = std::max(dt, total / 400); }
      if (!ok) { vf::viol("C05.flat.refused", fmt("[%g,%g] of [0,%g] step %g mode %d", a, b, total, dt, how)); continue; }
      checkGrid("C05.flat", st.size(), a, b, dt, total);
      for (size_t j = 0; j < st.size(); ++j) checkPoint(R, D, a + j * dt, (j + 2) * 4 * EPS * (total + a + j * dt), st[j], "C05.flat");
      vf::count(how == 0 ? "flat_ranges" : how == 1 ? "flat_durations" : "flat_whole");
      vf::count("flat_samples", st.size());
    }
    // single states
    if (D >= 3) {
      double t = pickTime();
      if (t > total) t = total;
      Pt p;
      p.timestamp_ns = 77;
      if (!sampleTrajectoryAtTime(T, t, &p)) vf::viol("C05.at.refused", fmt("t=%.17g of [0,%.17g]", t, total));
      else checkPoint(R, D, t, 0, p, "C05.at");
      const int si = g.i(0, K - 1);
      double ts = g.p(0.2) ? segs[si].getTime() : g.uni(0, segs[si].getTime());
      tref::Ref R1(Segment::Vector{segs[si]});
      Pt q;
      if (!sampleSegmentAtTime(segs[si], ts, &q)) vf::viol("C05.segment.refused", fmt("t=%g", ts));
      else checkPoint(R1, D, ts, 0, q, "C05.segment");
      vf::count("single_states", 2);
      // a state whose yaw is not part of the trajectory keeps it
      if (D == 3 || D == 5) {
        Pt keep;
        keep.setFromYaw(0.7);
        keep.setFromYawRate(0.3);
        sampleTrajectoryAtTime(T, t, &keep);
        if (std::abs(keep.getYaw() - 0.7) > 1e-12 || keep.getYawRate() != 0.3) vf::viol("C05.at.yawkept", "an unset yaw was changed");
      }
    }
  }
  // ---- refusals ----------------------------------------------------------------
  Pt p;
  Pt::Vector st;
  double eps = 1e-6 + 1e-9 * total;
  bool bad = sampleTrajectoryAtTime(T, -eps, &p) || sampleTrajectoryAtTime(T, total + eps, &p) || sampleTrajectoryInRange(T, -eps, total, total / 3, &st) ||
             sampleTrajectoryInRange(T, 0, total + eps, total / 3, &st) || sampleTrajectoryStartDuration(T, total / 2, total, total / 3, &st) ||
             sampleSegmentAtTime(segs[0], -eps, &p) || sampleSegmentAtTime(segs[0], segs[0].getTime() + eps, &p);
  if (bad) vf::viol("C05.outofrange", "a state outside the trajectory's time range was produced");
  if (D < 3 && (sampleTrajectoryAtTime(T, total / 2, &p) || sampleTrajectoryInRange(T, 0, total, total / 3, &st) || sampleWholeTrajectory(T, total / 3, &st) || sampleSegmentAtTime(segs[0], 0, &p)))
    vf::viol("C05.dimension", "a flat state was produced from fewer than three dimensions");
  vf::count("refusals", 8);
  // ---- nothing to sample ---------------------------------------------------------
  std::vector<Eigen::VectorXd> r(2);
  std::vector<double> tm(3);
  switch (g.i(0, 3)) {
    case 0: T.evaluateRange(total, 0, total / 5, 0, &r, &tm); break;
    case 1: T.evaluateRange(total + eps, total + 1, 0.1, 0, &r, &tm); break;
    case 2: Trajectory().evaluateRange(0, 1, 0.1, 0, &r, &tm); break;
    default: T.evaluateRange(0, total, 0, 0, &r, &tm); break;
  }
  if (!r.empty() || !tm.empty()) vf::viol("C05.empty", fmt("%zu samples of an empty or reversed range", r.size()));
  vf::count("empty_ranges");
  vf::distinct(gen::hashVec(segs[0][0].getCoefficients(), gen::hashVec(segs.back()[D - 1].getCoefficients())));
  vf::sample(fmt("K=%d N=%d D=%d over %.6g s", K, N, D, total));
}
int main(int c, char** v) { gen::quiet(v[0]); return vf::drive(c, v, "C05", runCase); }
