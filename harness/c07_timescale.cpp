// C07: time scaling of trajectories.
#include "gen.hpp"
using namespace mtg;
using gen::EPS;
using vf::fmt;

static double absMag(const Segment& s, int k) {  // magnitude scale of derivative k on the segment
  double r = 0;
  for (int d = 0; d < s.D(); ++d) { double e = ref::absEval(ref::deriv(gen::refPoly(s[d]), k), s.getTime()); r += e * e; }
  return std::sqrt(r) + 1e-290;
}
static double trueMax(const Segment::Vector& segs, int k) {
  double best = 0;
  for (auto& s : segs) {
    ref::P sq;
    for (int d = 0; d < s.D(); ++d) { ref::P q = ref::deriv(gen::refPoly(s[d]), k); sq = ref::add(sq, ref::mul(q, q)); }
    if (!sq.empty()) best = std::max(best, std::sqrt(std::max(0.0, ref::minmax(sq, 0, s.getTime()).max)));
  }
  return best;
}
// b must be a with all times multiplied by f
static void sameShape(const char* key, vf::Rng& g, const Segment::Vector& a, const Trajectory& b, double f) {
  if (b.K() != (int)a.size()) { vf::viol(std::string(key) + ".K", ""); return; }
  double total = 0;
  for (size_t i = 0; i < a.size(); ++i) {
    const Segment &s = a[i], &r = b.segments()[i];
    double want = s.getTime() * f;
    total += want;
    if (!gen::close(r.getTime(), want, 1e-12 * want)) { vf::viol(std::string(key) + ".time", fmt("segment %zu lasts %.15g want %.15g", i, r.getTime(), want)); continue; }
    if (r.D() != s.D() || r.N() != s.N()) { vf::viol(std::string(key) + ".shape", ""); continue; }
    for (double u : {0.0, 1.0, g.u01(), g.u01()})
      for (int k = 0; k <= 4; ++k) {
        double fk = std::pow(f, -k);
        Eigen::VectorXd v = r.evaluate(u * r.getTime(), k);
        vf::evaluated();
        for (int d = 0; d < s.D(); ++d) {
          ref::P q = ref::deriv(gen::refPoly(s[d]), k);
          double w = (double)ref::eval(q, u * s.getTime()) * fk;
          double tol = 1e-11 * ref::absEval(q, s.getTime()) * fk + 1e-290;
          if (!gen::close(v[d], w, tol)) vf::viol(std::string(key) + ".value", fmt("factor %g segment %zu u=%g derivative %d dim %d: got %.15g want %.15g", f, i, u, k, d, v[d], w));
        }
      }
  }
  if (!gen::close(b.getMaxTime(), total, 1e-12 * total)) vf::viol(std::string(key) + ".maxtime", fmt("%.15g want %.15g", b.getMaxTime(), total));
  vf::count("shape_comparisons");
}
static void runCase(vf::Ctx& x) {
  vf::Rng& g = x.rng;
  int K = g.i(1, 8), N = g.i(3, 12), D = g.i(1, 4);
  Segment::Vector segs;
  for (int k = 0; k < K; ++k) {
    double T = g.logu(0.3, 15);
    Segment s(N, D);
    for (int d = 0; d < D; ++d) {
      Eigen::VectorXd c(N);
      for (int i = 0; i < N; ++i) c[i] = 4 * g.normal() * std::pow(T, -i);
      s[d] = Polynomial(c);
    }
    s.setTime(T);
    segs.push_back(s);
  }
  Trajectory orig;
  orig.setSegments(segs);
  {
    double f = g.p(0.1) ? 1.0 : g.p(0.2) ? g.logu(2e-6, 2e5) : g.logu(0.02, 50);
    if (f < 0.02 || f > 50) vf::count("extreme_factors");
    Trajectory t = orig;
    if (!t.scaleSegmentTimes(f)) vf::viol("C07.scale.refused", fmt("%g", f));
    else sameShape("C07.scale", g, segs, t, f);
    double back = 1 / f;
    if (t.scaleSegmentTimes(back)) sameShape("C07.scale.roundtrip", g, segs, t, 1.0);
    vf::count("scalings");
    for (double bad : {0.0, -g.u01() * 10, 9.9e-7, -1e-9}) {
      Trajectory u = orig;
      if (u.scaleSegmentTimes(bad)) vf::viol("C07.scale.accepted", fmt("factor %g accepted", bad));
      if (!(u == orig) || u.getMaxTime() != orig.getMaxTime()) vf::viol("C07.scale.refusal.changed", fmt("a refused scaling by %g changed the trajectory", bad));
      vf::count("refused_scalings");
    }
  }
  {
    double v0 = trueMax(segs, 1), a0 = trueMax(segs, 2);
    int mode = g.i(0, 4);
    double vl = v0, al = a0;
    if (mode == 0) { vl = v0 * (g.p(0.3) ? g.logu(1e-4, 0.05) : g.logu(0.05, 0.95)); al = a0 * 100; }
    else if (mode == 1) { vl = v0 * 100; al = a0 * (g.p(0.3) ? g.logu(1e-6, 0.02) : g.logu(0.02, 0.95)); }
    else if (mode == 2) { vl = v0 * g.logu(0.05, 2); al = a0 * g.logu(0.05, 2); }
    else if (mode == 3) { vl = v0 * g.uni(1.01, 5); al = a0 * g.uni(1.01, 5); }
    else { vl = v0 * g.uni(0.99, 1.01); al = a0 * g.uni(0.99, 1.01); }
    if (g.p(0.1)) {  // at rest all the time: every limit holds
      Segment::Vector still = segs;
      for (auto& q : still) for (int d = 0; d < D; ++d) { Eigen::VectorXd c = Eigen::VectorXd::Zero(N); c[0] = q[d].getCoefficients()[0]; q[d] = Polynomial(c); }
      Trajectory u;
      u.setSegments(still);
      Trajectory before = u;
      if (!u.scaleSegmentTimesToMeetConstraints(g.logu(1e-3, 10), g.logu(1e-3, 10)) || !(u == before)) vf::viol("C07.limits.rest", "a trajectory at rest was scaled");
      vf::count("trajectories_at_rest");
    }
    if (v0 > 1e-6 && a0 > 1e-6) {
      Trajectory t = orig;
      bool ok = t.scaleSegmentTimesToMeetConstraints(vl, al);
      vf::count(fmt("limit_mode_%d", mode));
      double f = t.getMaxTime() / orig.getMaxTime();
      if (f < 1 - 1e-12) vf::viol("C07.limits.faster", fmt("times shrank by %g", f));
      sameShape("C07.limits", g, segs, t, f);
      double v1 = trueMax(t.segments(), 1), a1 = trueMax(t.segments(), 2);
      const double tol = 1e-3 + 1e-6;  // the documented tolerance of the search
      if (ok && (v1 > vl * (1 + tol) || a1 > al * (1 + tol))) vf::viol("C07.limits.exceeded", fmt("reported success with v %.9g (limit %.9g), a %.9g (limit %.9g)", v1, vl, a1, al));
      if (!ok) vf::viol("C07.limits.failed", fmt("not met: v %.9g (limit %.9g), a %.9g (limit %.9g)", v1, vl, a1, al));
      double need = std::max(1.0, std::max(v0 / vl, std::sqrt(a0 / al)));
      vf::maxv("factor_over_need", f / need);
      if (f > need * (1 + 2e-3)) vf::viol("C07.limits.slower", fmt("scaled by %.9g where %.9g suffices", f, need));
      if (v0 <= vl && a0 <= al && std::abs(f - 1) > 1e-12) vf::viol("C07.limits.unneeded", fmt("feasible trajectory scaled by %.15g", f));
    }
  }
  vf::distinct(gen::hashVec(segs[0][0].getCoefficients()));
  vf::sample(fmt("K=%d N=%d D=%d duration %.5g", K, N, D, orig.getMaxTime()));
}
int main(int c, char** v) { gen::quiet(v[0]); return vf::drive(c, v, "C07", runCase); }
