// C04: piecewise evaluation of segments and trajectories.
#include "gen.hpp"
using namespace mtg;
using gen::EPS;
using vf::fmt;

// want: value(s) the trajectory may return at t.  Returns false if none match.
static bool matches(const Segment::Vector& segs, const std::vector<double>& starts, const std::vector<double>& ends, double t, int d,
                    const Eigen::VectorXd& got, double slack, bool right_only, std::string* why) {
  double total = ends.back();
  for (size_t i = 0; i < segs.size(); ++i) {
    bool last = i + 1 == segs.size();
    bool in = t >= starts[i] - slack && (right_only && !last ? t < ends[i] : t <= ends[i] + slack);
    if (right_only && t < starts[i]) in = false;
    if (i == 0 && t < 0) in = true;
    if (!in) continue;
    double local = t - starts[i];
    bool ok = got.size() == segs[i].D();
    for (int k = 0; ok && k < segs[i].D(); ++k) {
      gen::RV e = gen::refEval(gen::refPoly(segs[i][k]), d, local, slack + 2 * EPS * total);
      if (!gen::close(got[k], e.v, e.tol)) {
        ok = false;
        *why = fmt("segment %zu local %.17g dim %d: got %.15g want %.15g tol %g", i, local, k, got[k], e.v, e.tol);
      }
    }
    if (ok) return true;
  }
  return false;
}

static void runCase(vf::Ctx& x) {
  vf::Rng& g = x.rng;
  int K = g.i(1, 12), N = g.i(1, 12), D = g.i(1, 6);
  bool dyadic = g.p(0.5);
  Segment::Vector segs = gen::segments(g, K, N, D, dyadic);
  // ---- segments ------------------------------------------------------------
  for (int k = 0; k < K; ++k) {
    const Segment& s = segs[k];
    if (s.N() != N || s.D() != D) vf::viol("C04.segment.shape", fmt("%d %d", s.N(), s.D()));
    double t = g.uni(-1, s.getTime() + 1);
    for (int d = 0; d <= N + 1; ++d) {
      Eigen::VectorXd v = s.evaluate(t, d);
      vf::evaluated();
      vf::count("segment_evaluations");
      if (v.size() != D) { vf::viol("C04.segment.dim", fmt("%d", (int)v.size())); continue; }
      for (int q = 0; q < D; ++q) {
        gen::RV e = gen::refEval(gen::refPoly(s[q]), d, t);
        if (d >= N) e.v = 0, e.tol = 0;
        if (!gen::close(v[q], e.v, e.tol)) vf::viol("C04.segment.evaluate", fmt("d=%d t=%g dim %d got %.17g want %.17g", d, t, q, v[q], e.v));
      }
    }
    if (!(s.evaluate(t) == s.evaluate(t, 0))) vf::viol("C04.segment.default", "default derivative is not position");
    uint64_t ns = s.getTimeNSec();
    if (std::abs((double)ns - s.getTime() * 1e9) > 1.0) vf::viol("C04.segment.nsec", fmt("%.12g s is %llu ns", s.getTime(), (unsigned long long)ns));
    Segment c = s;
    if (!(c == s) || c != s) vf::viol("C04.segment.equal", "a copy differs");
    uint64_t set = (uint64_t)g.i(1, 2000000000);
    c.setTimeNSec(set);
    if (std::abs(c.getTime() - set * 1e-9) > 1e-9 * 1e-3) vf::viol("C04.segment.setnsec", fmt("%llu ns became %.12g s", (unsigned long long)set, c.getTime()));
    if (c == s && std::abs(c.getTime() - s.getTime()) > 0) vf::viol("C04.segment.equal.time", "segments of different duration are equal");
    Segment c2 = s;
    int q = g.i(0, D - 1);
    Eigen::VectorXd co = s[q].getCoefficients();
    int j = g.i(0, N - 1);
    co[j] += 1 + std::abs(co[j]);
    c2[q] = Polynomial(co);
    if (c2 == s || !(c2 != s)) vf::viol("C04.segment.equal.coeff", "segments of different coefficients are equal");
  }
  // ---- trajectory ------------------------------------------------------------
  Trajectory t;
  if (!t.empty() || t.K() != 0 || t.getMaxTime() != 0) vf::viol("C04.empty", "a new trajectory is not empty");
  if (g.p(0.3)) {  // replaces earlier content
    t.setSegments(gen::segments(g, g.i(1, 4), g.i(1, 12), g.i(1, 6), false));
    if (g.p(0.5)) { t.clear(); if (!t.empty() || t.K() || t.D() || t.N() || t.getMaxTime() != 0) vf::viol("C04.clear", "clear leaves content"); }
  }
  int split = g.p(0.5) ? K : g.i(1, K);
  t.setSegments(Segment::Vector(segs.begin(), segs.begin() + split));
  if (split < K) { t.addSegments(Segment::Vector(segs.begin() + split, segs.end())); vf::count("trajectories_extended"); }
  std::vector<double> starts, ends;
  double acc = 0;
  for (auto& s : segs) { starts.push_back(acc); acc += s.getTime(); ends.push_back(acc); }
  double total = acc, slack = dyadic ? 0 : 8 * EPS * K * total;
  if (t.K() != K || t.N() != N || t.D() != D || t.empty()) vf::viol("C04.shape", fmt("K=%d N=%d D=%d", t.K(), t.N(), t.D()));
  if (!gen::close(t.getMaxTime(), total, slack)) vf::viol("C04.maxtime", fmt("%.17g want %.17g", t.getMaxTime(), total));
  if (t.getMinTime() != 0) vf::viol("C04.mintime", fmt("%g", t.getMinTime()));
  std::vector<double> st = t.getSegmentTimes();
  Segment::Vector got;
  t.getSegments(&got);
  if ((int)st.size() != K || (int)got.size() != K || (int)t.segments().size() != K) vf::viol("C04.segments.count", "");
  else for (int k = 0; k < K; ++k) {
    if (st[k] != segs[k].getTime()) vf::viol("C04.segmenttimes", fmt("%d", k));
    if (!(got[k] == segs[k]) || !(t.segments()[k] == segs[k])) vf::viol("C04.segments", fmt("segment %d is not the one set", k));
  }
  Trajectory copy = t;
  if (!(copy == t) || copy != t) vf::viol("C04.equal", "a copy differs");
  {
    Segment::Vector other = segs;
    int k = g.i(0, K - 1);
    Eigen::VectorXd co = other[k][0].getCoefficients();
    co[0] += 1 + std::abs(co[0]);
    other[k][0] = Polynomial(co);
    Trajectory o;
    o.setSegments(other);
    if (o == t || !(o != t)) vf::viol("C04.equal.differs", fmt("segment %d differs", k));
    if (K > 1) { Trajectory sh; sh.setSegments(Segment::Vector(segs.begin(), segs.end() - 1)); if (sh == t) vf::viol("C04.equal.length", "prefix compares equal"); }
  }
  {  // no segments: nothing to evaluate; a trajectory's own segments given back to it
    Trajectory e;
    if (g.p(0.5)) { e = t; e.clear(); }
    for (double tt : {-1.0, 0.0, g.uni(0, 10)}) if (e.evaluate(tt, g.i(0, 4)).size() != 0) vf::viol("C04.empty.evaluate", "a trajectory without dimensions has a position");
    vf::count("empty_evaluations", 3);
    Trajectory s = t;
    s.setSegments(s.segments());
    if (!(s == t) || s.K() != K || s.D() != D || s.N() != N || !gen::close(s.getMaxTime(), total, slack)) vf::viol("C04.self.set", fmt("%d of %d segments, %g of %g s", s.K(), K, s.getMaxTime(), total));
    s.addSegments(s.segments());
    bool ok = s.K() == 2 * K && gen::close(s.getMaxTime(), 2 * total, 4 * slack);
    for (int k = 0; ok && k < 2 * K; ++k) ok = s.segments()[k] == segs[k % K];
    if (!ok) vf::viol("C04.self.add", fmt("%d segments added to themselves: %d, %g of %g s", K, s.K(), s.getMaxTime(), 2 * total));
    vf::count("self_assignments", 2);
  }
  std::vector<double> ts = {0.0, t.getMaxTime()};
  for (int k = 0; k < K; ++k) {
    ts.push_back(ends[k]);
    ts.push_back(g.uni(starts[k], ends[k]));
    ts.push_back(starts[k] + (ends[k] - starts[k]) * (g.p(0.5) ? 1e-9 : 1 - 1e-9));
  }
  for (double tt : ts) {
    if (tt > t.getMaxTime()) continue;
    for (int d : {0, 1, 2, g.i(3, 6), N, N + 1}) {
      Eigen::VectorXd v = t.evaluate(tt, d);
      vf::evaluated();
      vf::count("trajectory_evaluations");
      std::string why;
      if (!matches(segs, starts, ends, tt, d, v, slack, dyadic, &why))
        vf::viol("C04.evaluate", fmt("t=%.17g of %.17g derivative %d K=%d dyadic=%d: ", tt, total, d, K, dyadic) + why);
    }
    if (!(t.evaluate(tt) == t.evaluate(tt, 0))) vf::viol("C04.default", "default derivative is not position");
  }
  if (dyadic) vf::count("exact_boundaries", K - 1);
  for (double tt : {t.getMaxTime() * (1 + 1e-9) + 1e-9, t.getMaxTime() + g.uni(0.001, 100)}) {
    Eigen::VectorXd v = t.evaluate(tt, g.i(0, 4));
    vf::count("past_end_evaluations");
    if (v.size() != D || !v.isZero(0)) vf::viol("C04.pastend", "evaluation past the end is not the zero vector of dimension D: " + gen::show(v));
  }
  uint64_t h = 0;
  for (auto& s : segs) h ^= gen::hashVec(s[0].getCoefficients(), vf::fnv(&h, 8));
  vf::distinct(h);
  vf::sample(fmt("K=%d N=%d D=%d total=%.6g dyadic=%d extended_at=%d", K, N, D, total, dyadic, split));
}
int main(int c, char** v) { gen::quiet(v[0]); return vf::drive(c, v, "C04", runCase); }
