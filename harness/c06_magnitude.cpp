// C06: extrema of the magnitude of vector-valued segments and trajectories.
#include "gen.hpp"
using namespace mtg;
using gen::EPS;
using vf::fmt;

struct Mag { double min, max, scale; };
// true extrema of sqrt(sum p_d^(deriv)^2) on [a,b]
static Mag refMag(const Segment& s, int deriv, double a, double b, const std::vector<int>& dims) {
  ref::P sq;
  double sc = 0;
  for (int d : dims) {
    ref::P q = ref::deriv(gen::refPoly(s[d]), deriv);
    sq = ref::add(sq, ref::mul(q, q));
    double e = std::max(ref::absEval(q, a), ref::absEval(q, b));
    sc += e * e;
  }
  if (sq.empty()) return {0, 0, 1e-290};
  ref::MinMax m = ref::minmax(sq, a, b);
  return {std::sqrt(std::max(0.0, m.min)), std::sqrt(std::max(0.0, m.max)), std::sqrt(sc) + 1e-290};
}
static double magAt(const Segment& s, int deriv, double t, const std::vector<int>& dims) {
  double v = 0;
  for (int d : dims) { double e = (double)ref::eval(ref::deriv(gen::refPoly(s[d]), deriv), t); v += e * e; }
  return std::sqrt(v);
}
static Segment smooth(vf::Rng& g, int N, int D, double T) {
  Segment s(N, D);
  for (int d = 0; d < D; ++d) {
    Eigen::VectorXd c(N);
    bool zero = g.p(0.08), constant = g.p(0.08);
    for (int i = 0; i < N; ++i) c[i] = zero || (constant && i > 0) ? 0 : 3 * g.normal() * std::pow(T, -i) * (g.p(0.1) ? 0 : 1);
    s[d] = Polynomial(c);
  }
  s.setTime(T);
  return s;
}
static std::vector<int> someDims(vf::Rng& g, int D) {
  std::vector<int> v;
  for (int d = 0; d < D; ++d) if (g.p(0.6)) v.push_back(d);
  if (v.empty()) v.push_back(g.i(0, D - 1));
  if (g.p(0.3)) std::reverse(v.begin(), v.end());
  return v;
}
static void runCase(vf::Ctx& x) {
  vf::Rng& g = x.rng;
  int K = g.i(1, 6), N = g.p(0.7) ? g.i(6, 12) : g.i(2, 12), D = g.i(1, 6);
  if (N % 2 && g.p(0.5)) N--;
  Segment::Vector segs;
  for (int k = 0; k < K; ++k) segs.push_back(smooth(g, N, D, gen::duration(g, false)));
  const double relTol = 1e-7;
  std::vector<int> dims = someDims(g, D);
  int deriv = g.i(0, std::min(4, N - 1));
  // ---- one segment, sub-interval --------------------------------------------
  for (const Segment& s : segs) {
    double a = 0, b = s.getTime();
    if (g.p(0.4)) { a = g.uni(0, b); b = g.uni(a, b); }
    else if (g.p(0.3)) { double T = b; a = -T * g.u01(); b = g.p(0.3) ? 0 : g.uni(a, 1.5 * T); vf::count("intervals_beyond_the_segment"); }
    vf::evaluated();
    Mag m = refMag(s, deriv, a, b, dims);
    std::vector<Extremum> cand(2, Extremum(1, 1e9, 3));
    std::vector<double> times(2, 55.0);
    bool ok1 = s.computeMinMaxMagnitudeCandidateTimes(deriv, a, b, dims, &times);
    bool ok = s.computeMinMaxMagnitudeCandidates(deriv, a, b, dims, &cand);
    if (!ok || !ok1) {
      vf::count(s.getTime() >= 0.05 ? "refusals" : "refusals_short");
      continue;
    }
    vf::count(s.getTime() >= 0.05 ? "operations" : "operations_short");
    vf::count("segments");
    Extremum mn(0, 0, 0), mx(0, 0, 0);
    if (cand.size() != times.size()) vf::viol("C06.candidates.size", fmt("%zu %zu", cand.size(), times.size()));
    for (size_t i = 0; i < cand.size(); ++i) {
      if (!(cand[i].time >= a && cand[i].time <= b)) vf::viol("C06.candidates.interval", fmt("%g outside [%g,%g]", cand[i].time, a, b));
      if (!gen::close(cand[i].value, magAt(s, deriv, cand[i].time, dims), 1e-10 * m.scale)) vf::viol("C06.candidates.value", fmt("%g at %g, magnitude is %g", cand[i].value, cand[i].time, magAt(s, deriv, cand[i].time, dims)));
    }
    if (!s.selectMinMaxMagnitudeFromCandidates(deriv, a, b, dims, cand, &mn, &mx)) { vf::viol("C06.select.refused", fmt("[%g,%g]", a, b)); continue; }
    // A minimum of the magnitude at a common zero is a square root of a
    // cancelled value: compare squares there.
    vf::maxv("segment_max_gap", (m.max - mx.value) / m.scale);
    if (mx.value < m.max - relTol * m.scale) vf::viol("C06.segment.max", fmt("max %.12g at %g, true %.12g (deriv %d, %zu dims, [%g,%g], N=%d)", mx.value, mx.time, m.max, deriv, dims.size(), a, b, N));
    if (mx.value > m.max + relTol * m.scale) vf::viol("C06.segment.max.over", fmt("max %.12g true %.12g", mx.value, m.max));
    if (mn.value * mn.value > m.min * m.min + relTol * m.scale * m.scale) vf::viol("C06.segment.min", fmt("min %.12g at %g, true %.12g", mn.value, mn.time, m.min));
    if (mn.value * mn.value < m.min * m.min - relTol * m.scale * m.scale) vf::viol("C06.segment.min.under", fmt("min %.12g true %.12g", mn.value, m.min));
    if (!gen::close(mx.value, magAt(s, deriv, mx.time, dims), 1e-10 * m.scale) || !(mx.time >= a && mx.time <= b)) vf::viol("C06.segment.attained", fmt("maximum %g at %g", mx.value, mx.time));
    if (!gen::close(mn.value, magAt(s, deriv, mn.time, dims), 1e-10 * m.scale) || !(mn.time >= a && mn.time <= b)) vf::viol("C06.segment.attained", fmt("minimum %g at %g", mn.value, mn.time));
    // candidates outside the interval do not count, wherever they stand in the list
    {
      std::vector<Extremum> more = cand;
      int n = g.i(1, 3);
      for (int i = 0; i < n; ++i) {
        double w = b - a + 0.1 * (1 + std::abs(a)), t = g.p(0.5) ? a - w * g.logu(1e-3, 3) : b + w * g.logu(1e-3, 3);
        more.insert(more.begin() + g.i(0, (int)more.size()), Extremum(t, g.p(0.5) ? 1e3 * m.scale + 1 : -1, 0));
      }
      Extremum mn2(0, 0, 0), mx2(0, 0, 0);
      if (!s.selectMinMaxMagnitudeFromCandidates(deriv, a, b, dims, more, &mn2, &mx2) || mn2.value != mn.value || mx2.value != mx.value || !(mn2.time >= a && mn2.time <= b && mx2.time >= a && mx2.time <= b)) vf::viol("C06.candidates.outside", fmt("%g at %g and %g at %g chosen in [%g,%g]", mn2.value, mn2.time, mx2.value, mx2.time, a, b));
      vf::count("candidates_outside", n);
    }
    // refusals
    if (b > a) {
      if (s.selectMinMaxMagnitudeFromCandidates(deriv, b, a, dims, cand, &mn, &mx)) vf::viol("C06.reversed", "reversed interval accepted");
      if (s.computeMinMaxMagnitudeCandidateTimes(deriv, b, a, dims, &times)) vf::viol("C06.reversed", "reversed interval accepted (times)");
    }
    if (s.computeMinMaxMagnitudeCandidateTimes(deriv, a, b, {}, &times)) vf::viol("C06.nodims", "no dimensions accepted");
    if (s.computeMinMaxMagnitudeCandidateTimes(deriv, a, b, {0, D}, &times) || s.computeMinMaxMagnitudeCandidateTimes(deriv, a, b, {-1, 0}, &times) || s.computeMinMaxMagnitudeCandidateTimes(deriv, a, b, {D}, &times) || s.computeMinMaxMagnitudeCandidateTimes(deriv, a, b, {-1}, &times)) vf::viol("C06.baddims", "a dimension out of range was accepted");
    std::vector<int> wrong = someDims(g, D);
    wrong[g.i(0, (int)wrong.size() - 1)] = g.p(0.5) ? D + g.i(0, 2) : -1 - g.i(0, 2);
    if (s.computeMinMaxMagnitudeCandidateTimes(deriv, a, b, wrong, &times) || s.computeMinMaxMagnitudeCandidates(deriv, a, b, wrong, &cand)) vf::viol("C06.baddims", "a dimension out of range was accepted");
    vf::count("refused_requests", 7);
  }
  // ---- trajectory --------------------------------------------------------------
  Trajectory t;
  t.setSegments(segs);
  auto trajMag = [&](int dv, const std::vector<int>& ds, std::vector<Mag>* per) {
    Mag r{1e300, -1, 0};
    for (auto& s : segs) {
      Mag m = refMag(s, dv, 0, s.getTime(), ds);
      if (per) per->push_back(m);
      r.min = std::min(r.min, m.min); r.max = std::max(r.max, m.max); r.scale = std::max(r.scale, m.scale);
    }
    return r;
  };
  std::vector<Mag> per;
  Mag m = trajMag(deriv, dims, &per);
  double shortest = 1e9;
  for (auto& s : segs) shortest = std::min(shortest, s.getTime());
  const char* refusals = shortest >= 0.05 ? "refusals" : "refusals_short";
  Extremum mn, mx;
  vf::evaluated();
  if (!t.computeMinMaxMagnitude(deriv, dims, &mn, &mx)) vf::count(refusals);
  else {
    vf::count("trajectories");
    if (std::abs(mx.value - m.max) > relTol * m.scale) vf::viol("C06.trajectory.max", fmt("max %.12g true %.12g", mx.value, m.max));
    if (std::abs(mn.value * mn.value - m.min * m.min) > relTol * m.scale * m.scale) vf::viol("C06.trajectory.min", fmt("min %.12g true %.12g", mn.value, m.min));
    for (auto* e : {&mn, &mx}) {
      if (e->segment_idx < 0 || e->segment_idx >= K) { vf::viol("C06.trajectory.segment", fmt("segment index %d of %d", e->segment_idx, K)); continue; }
      const Segment& s = segs[e->segment_idx];
      if (!(e->time >= 0 && e->time <= s.getTime()) || !gen::close(e->value, magAt(s, deriv, e->time, dims), 1e-10 * per[e->segment_idx].scale))
        vf::viol("C06.trajectory.attained", fmt("value %g is not attained in segment %d at %g", e->value, e->segment_idx, e->time));
    }
  }
  // ---- maximum velocity and acceleration ------------------------------------
  std::vector<int> all;
  for (int d = 0; d < D; ++d) all.push_back(d);
  double vm = -5, am = -5;
  if (N >= 3) {
    if (!t.computeMaxVelocityAndAcceleration(&vm, &am)) vf::count(refusals);
    else {
      Mag v = trajMag(1, all, nullptr), a = trajMag(2, all, nullptr);
      if (std::abs(vm - v.max) > relTol * v.scale) vf::viol("C06.vmax", fmt("%.12g true %.12g", vm, v.max));
      if (std::abs(am - a.max) > relTol * a.scale) vf::viol("C06.amax", fmt("%.12g true %.12g", am, a.max));
      vf::count("velocity_acceleration_maxima");
    }
  }
  if (shortest >= 0.05) vf::count("operations", 2);
  vf::distinct(gen::hashVec(segs[0][0].getCoefficients(), gen::hashVec(segs.back()[D - 1].getCoefficients())));
  vf::sample(fmt("K=%d N=%d D=%d derivative %d over %zu dimensions: magnitude in [%.6g, %.6g]", K, N, D, deriv, dims.size(), m.min, m.max));
}
int main(int c, char** v) { gen::quiet(v[0]); return vf::drive(c, v, "C06", runCase); }
