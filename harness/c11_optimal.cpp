// C11: the linear optimiser's result is optimal, its cost is the integral of
// the squared derivative and its matrices mean what they say.
#include "lin.hpp"
using namespace mtg;
using vf::fmt;
typedef Eigen::MatrixXd M;

// The form with the derivative as template argument, and the search by sampling.
template <int N, int DV>
static void compareForms(vf::Rng& g, const PolynomialOptimization<N>& opt, const Trajectory& t, const lin::Problem& p, const Extremum& e, const std::vector<Extremum>& cand) {
  typedef PolynomialOptimization<N> O;
  std::vector<Extremum> c2(2);
  Extremum e2 = opt.template computeMaximumOfMagnitude<DV>(&c2);
  bool same = e2.value == e.value && e2.time == e.time && e2.segment_idx == e.segment_idx && c2.size() == cand.size();
  for (size_t i = 0; same && i < cand.size(); ++i) same = c2[i].time == cand[i].time && c2[i].value == cand[i].value && c2[i].segment_idx == cand[i].segment_idx;
  if (!same) vf::viol("C11.maximum.template", fmt("maximum of derivative %d: %g at %g of segment %d, by the template %g at %g of segment %d", DV, e.value, e.time, e.segment_idx, e2.value, e2.time, e2.segment_idx));
  const Segment& s = t.segments()[g.i(0, p.K() - 1)];
  double a = 0, b = s.getTime();
  if (g.p(0.4)) { a = g.uni(0, 0.4) * b; b *= g.uni(0.6, 1); }
  std::vector<double> u, v, w;
  bool r1 = O::template computeSegmentMaximumMagnitudeCandidates<DV>(s, a, b, &u), r2 = O::computeSegmentMaximumMagnitudeCandidates(DV, s, a, b, &v);
  if (r1 != r2 || u != v) vf::viol("C11.candidates.template", fmt("candidates of derivative %d differ", DV));
  for (double x : v) if (!(x >= a && x <= b)) vf::viol("C11.candidates.range", fmt("candidate %g outside [%g, %g]", x, a, b));
  double dt = (b - a) / g.i(3, 300);
  if (p.D == 1) dt = std::max((b - a) / 3000, std::min(dt, 2e-3 / (ref::absEval(ref::deriv(gen::refPoly(s[0]), DV + 2), b) + 1e-9)));
  O::template computeSegmentMaximumMagnitudeCandidatesBySampling<DV>(s, a, b, dt, &w);
  vf::count("sampled_candidates", w.size());
  if (w.empty() || w.front() != a || w.back() != b) vf::viol("C11.sampling.ends", fmt("sampled candidates of [%.17g, %.17g] every %g: %zu, %.17g .. %.17g", a, b, dt, w.size(), w.empty() ? 0.0 : w.front(), w.empty() ? 0.0 : w.back()));
  for (size_t i = 0; i < w.size(); ++i) if (!(w[i] >= a && w[i] <= b) || (i && !(w[i] > w[i - 1]))) { vf::viol("C11.sampling.range", fmt("sampled candidate %g of [%g, %g]", w[i], a, b)); break; }
  if (p.D != 1) return;
  // along one axis every clear extremum is seen within a sample
  ref::P f = ref::deriv(gen::refPoly(s[0]), DV), f1 = ref::deriv(f), f2 = ref::deriv(f1);
  if (!(ref::absEval(f2, b) * 2 * dt < 5e-3)) return;
  std::vector<lin::Q> z = ref::rootsIn(ref::mul(f, f1), a, b);
  std::sort(z.begin(), z.end());
  double sc = ref::absEval(f, b);
  for (size_t i = 0; i < z.size(); ++i) {
    double x = (double)z[i];
    if (x - a < 4 * dt || b - x < 4 * dt || (i && x - (double)z[i - 1] < 6 * dt) || (i + 1 < z.size() && (double)z[i + 1] - x < 6 * dt)) continue;
    double h = std::abs((double)ref::eval(f, z[i]));
    double drop = std::min(std::abs(h - std::abs((double)ref::eval(f, x - dt))), std::abs(h - std::abs((double)ref::eval(f, x + dt))));
    if (h < 1e-3 * sc || drop < 1e-9 * sc) continue;
    if ((ref::eval(f1, z[i] - dt) < 0) == (ref::eval(f1, z[i] + dt) < 0)) continue;
    vf::count("sampled_extrema");
    bool near = false;
    for (double y : w) near |= std::abs(y - x) <= 2 * dt;
    if (!near) vf::viol("C11.sampling.missed", fmt("extremum at %g of [%g, %g] missed when sampling every %g", x, a, b, dt));
  }
}

template <int N>
static void one(vf::Ctx& x) {
  vf::Rng& g = x.rng;
  lin::Problem p = lin::problem(g, N, 6);
  PolynomialOptimization<N> opt(p.D);
  opt.setupFromVertices(p.v, p.T, p.k);
  opt.solveLinear();
  Trajectory t;
  opt.getTrajectory(&t);
  vf::evaluated();
  vf::count(fmt("problems_N%d", N));
  auto exactCost = [&](const Segment::Vector& s) { lin::Q c = 0; for (int d = 0; d < p.D; ++d) c += lin::cost(s, d, p.k); return (double)c; };
  auto costScale = [&](const Segment::Vector& s) {
    double c = 0;
    for (auto& q : s) for (int d = 0; d < p.D; ++d) { double a = ref::absEval(ref::deriv(gen::refPoly(q[d]), p.k), q.getTime()); c += a * a * q.getTime(); }
    return c;
  };
  // ---- cost -------------------------------------------------------------------
  double want = exactCost(t.segments()), cs = costScale(t.segments());
  vf::maxv("cost_error", std::abs(opt.computeCost() - want) / (cs + 1e-280));
  if (!(std::abs(opt.computeCost() - want) <= 1e-11 * cs)) vf::viol("C11.cost", fmt("computeCost %.12g, integral of the squared derivative %d is %.12g; %s", opt.computeCost(), p.k, want, lin::show(p).c_str()));
  vf::count("costs");
  // ---- optimality ---------------------------------------------------------------
  for (int d = 0; d < p.D; ++d) {
    double gap = 0;
    int nf = 0;
    if (!lin::suboptimality(p, t.segments(), d, &gap, &nf)) { vf::count("singular_reference"); continue; }
    if (nf == 0) { vf::count("nothing_to_optimise"); continue; }
    vf::count("optimality_checks");
    vf::maxv(fmt("suboptimality_N%d", N), gap);
    if (!(gap <= (N <= 8 ? 1e-10 : N == 10 ? 1e-8 : 1e-5))) vf::viol("C11.optimal", fmt("dimension %d costs %.3g times more than necessary; %s", d, gap, lin::show(p).c_str()));
  }
  // ---- no free choice of derivatives beats it --------------------------------------
  size_t nfree = opt.getNumberFreeConstraints();
  std::vector<Eigen::VectorXd> fr, fx;
  opt.getFreeConstraints(&fr);
  opt.getFixedConstraints(&fx);
  // ---- matrices -----------------------------------------------------------------
  M A, Ai, Mm, Mp, R;
  opt.getA(&A); opt.getAInverse(&Ai); opt.getM(&Mm); opt.getMpinv(&Mp); opt.getR(&R);
  int n = p.K() * N, m = (p.K() + 1) * (N / 2);
  if (A.rows() != n || A.cols() != n || Ai.rows() != n || Ai.cols() != n || Mm.rows() != n || Mm.cols() != m || Mp.rows() != m || Mp.cols() != n || R.rows() != m || R.cols() != m) { vf::viol("C11.matrix.size", fmt("A %dx%d M %dx%d R %dx%d", (int)A.rows(), (int)A.cols(), (int)Mm.rows(), (int)Mm.cols(), (int)R.rows(), (int)R.cols())); return; }
  // A maps coefficients to end derivatives
  for (int i = 0; i < p.K(); ++i)
    for (int q = 0; q < N / 2; ++q)
      for (int c = 0; c < N; ++c) {
        lin::Q f = 1;
        for (int z = 0; z < q; ++z) f *= (c - z);
        double a0 = c == q ? (double)f : 0, a1 = c >= q ? (double)f * std::pow(p.T[i], c - q) : 0;
        double g0 = A(i * N + q, i * N + c), g1 = A(i * N + q + N / 2, i * N + c);
        if (!(std::abs(g0 - a0) <= 1e-12 * std::abs(a0)) || !(std::abs(g1 - a1) <= 1e-12 * std::abs(a1))) { vf::viol("C11.A", fmt("segment %d derivative %d coefficient %d: %g %g want %g %g", i, q, c, g0, g1, a0, a1)); goto doneA; }
      }
doneA:
  for (int i = 0; i < p.K(); ++i)
    for (int j = 0; j < p.K(); ++j) {
      if (i != j) { if (!A.block(i * N, j * N, N, N).isZero(0) || !Ai.block(i * N, j * N, N, N).isZero(0)) vf::viol("C11.A.blocks", "segments are coupled"); continue; }
      M a = A.block(i * N, i * N, N, N), b = Ai.block(i * N, i * N, N, N);
      // residual relative to the magnitude of the products that are summed
      M e = (a * b - M::Identity(N, N)).cwiseAbs(), s = a.cwiseAbs() * b.cwiseAbs();
      double worst = 0;
      for (int r = 0; r < N; ++r) for (int c = 0; c < N; ++c) if (s(r, c) > 0) worst = std::max(worst, e(r, c) / s(r, c));
      vf::maxv("inverse_residual", worst);
      if (!(worst <= 1e-9)) vf::viol("C11.Ainverse", fmt("A times its inverse is off by %g; %s", worst, lin::show(p).c_str()));
    }
  // M distributes [fixed; free] to the segment ends
  for (int d = 0; d < p.D; ++d) {
    Eigen::VectorXd dd(m);
    dd << fx[d], fr[d];
    Eigen::VectorXd ends = Mm * dd;
    double worst = 0;
    std::string why;
    // order of [fixed; free]: by vertex, then derivative
    int a = 0, b = 0;
    std::vector<std::vector<double>> val(p.K() + 1, std::vector<double>(N / 2));
    for (int v = 0; v <= p.K(); ++v) for (int q = 0; q < N / 2; ++q) {
      Eigen::VectorXd c;
      if (p.v[v].getConstraint(q, &c)) { val[v][q] = c[d]; if (fx[d][a] != c[d]) vf::viol("C11.fixed", fmt("fixed value %d of dimension %d is %g, constraint %g", a, d, fx[d][a], c[d])); ++a; }
      else { val[v][q] = fr[d][b]; ++b; }
    }
    for (int i = 0; i < p.K(); ++i) for (int q = 0; q < N / 2; ++q) {
      if (ends[i * N + q] != val[i][q] || ends[i * N + N / 2 + q] != val[i + 1][q]) { vf::viol("C11.M", fmt("derivative %d at the ends of segment %d", q, i)); break; }
      // ... which are the derivatives of the returned segments
      const Segment& s = t.segments()[i];
      double T = s.getTime(), e0 = (double)ref::eval(ref::deriv(gen::refPoly(s[d]), q), 0), e1 = (double)ref::eval(ref::deriv(gen::refPoly(s[d]), q), T), sc = lin::endScale(s, d, q) + 1e-280;
      worst = std::max({worst, std::abs(e0 - val[i][q]) / sc, std::abs(e1 - val[i + 1][q]) / sc});
    }
    if (!(worst <= 1e-6)) vf::viol("C11.segments", fmt("the segments do not have the optimiser's derivatives at their ends (off by %g); %s", worst, lin::show(p).c_str()));
    if (!((Mp * ends - dd).norm() <= 1e-12 * (dd.norm() + 1e-280))) vf::viol("C11.Mpinv", "the pseudo-inverse does not undo the reordering");
    // cost in terms of R
    double c = 0.5 * dd.dot(R * dd), sc = 0.5 * dd.cwiseAbs().dot(R.cwiseAbs() * dd.cwiseAbs());
    double ref1 = (double)lin::cost(t.segments(), d, p.k);
    vf::maxv(fmt("R_error_N%d", N), std::abs(c - ref1) / (sc + 1e-280));
    if (!(std::abs(c - ref1) <= 1e-5 * sc)) vf::viol("C11.R", fmt("quadratic form gives %g, cost is %g; %s", c, ref1, lin::show(p).c_str()));
    vf::count("matrix_checks");
  }
  double asym = (R - R.transpose()).cwiseAbs().maxCoeff();
  if (!(asym <= 1e-6 * R.cwiseAbs().maxCoeff())) vf::viol("C11.R.symmetric", fmt("%g", asym));
  // cost matrix of one segment
  {
    typename PolynomialOptimization<N>::SquareMatrix Qm;
    double T = g.logu(0.1, 10);
    int k = g.i(0, N - 1);
    Qm.setConstant(7);
    PolynomialOptimization<N>::computeQuadraticCostJacobian(k, T, &Qm);
    for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) {
      lin::Q w = 0;
      if (i >= k && j >= k) { w = 2; for (int z = 0; z < k; ++z) w *= (lin::Q)((i - z)) * (j - z); w *= (lin::Q)std::pow(T, i + j - 2 * k + 1) / (i + j - 2 * k + 1); }
      if (!(std::abs(Qm(i, j) - (double)w) <= 1e-12 * std::abs((double)w))) { vf::viol("C11.Q", fmt("entry %d,%d of the cost of derivative %d over %g s: %g want %g", i, j, k, T, Qm(i, j), (double)w)); i = j = N; }
    }
    vf::count("cost_matrices");
  }
  // ---- maximum of the magnitude --------------------------------------------------
  std::vector<int> dvs = {1, 2};
  int extra = g.i(0, N - 2);
  if (extra != 1 && extra != 2) dvs.push_back(extra);
  for (int dv : dvs) {
    if (dv >= N - 1) continue;
    std::vector<Extremum> cand(3);
    Extremum e = opt.computeMaximumOfMagnitude(dv, &cand), e2 = opt.computeMaximumOfMagnitude(dv, nullptr);
    double best = 0, bs = 0;
    for (auto& s : t.segments()) {
      ref::P sq;
      double sc = 0;
      for (int d = 0; d < p.D; ++d) { ref::P r = ref::deriv(gen::refPoly(s[d]), dv); sq = ref::add(sq, ref::mul(r, r)); sc += std::pow(ref::absEval(r, s.getTime()), 2); }
      best = std::max(best, std::sqrt(std::max(0.0, ref::minmax(sq, 0, s.getTime()).max)));
      bs = std::max(bs, std::sqrt(sc));
    }
    vf::maxv("magnitude_error", std::abs(e.value - best) / (bs + 1e-280));
    if (!(std::abs(e.value - best) <= 1e-7 * bs)) vf::viol("C11.maximum", fmt("maximum of derivative %d: %.10g, true %.10g; %s", dv, e.value, best, lin::show(p).c_str()));
    if (e.value != e2.value) vf::viol("C11.maximum.nullptr", "the maximum depends on whether candidates are asked for");
    double cm = 0;
    for (auto& c : cand) {
      cm = std::max(cm, c.value);
      if (c.segment_idx < 0 || c.segment_idx >= p.K()) { vf::viol("C11.maximum.segment", fmt("%d", c.segment_idx)); break; }
      double mag = 0;
      const Segment& s = t.segments()[c.segment_idx];
      if (!(c.time >= 0 && c.time <= s.getTime())) { vf::viol("C11.maximum.time", fmt("%g of %g", c.time, s.getTime())); break; }
      for (int d = 0; d < p.D; ++d) mag += std::pow((double)ref::eval(ref::deriv(gen::refPoly(s[d]), dv), c.time), 2);
      if (!(std::abs(std::sqrt(mag) - c.value) <= 1e-9 * bs)) { vf::viol("C11.maximum.attained", fmt("%g at %g of segment %d, there it is %g", c.value, c.time, c.segment_idx, std::sqrt(mag))); break; }
    }
    if (cm != e.value) vf::viol("C11.maximum.candidates", fmt("best candidate %g, maximum %g", cm, e.value));
    vf::count("maxima");
    if (dv == 1) compareForms<N, 1>(g, opt, t, p, e, cand);
    if (dv == 2) compareForms<N, 2>(g, opt, t, p, e, cand);
  }
  // ---- any other choice of the free derivatives costs more ---------------------------
  if (nfree > 0) {
    double base = exactCost(t.segments());
    std::vector<Eigen::VectorXd> f2 = fr;
    double sz = g.logu(1e-3, 1);
    for (auto& f : f2) for (int i = 0; i < f.size(); ++i) f[i] += sz * g.normal() * (std::abs(f[i]) + 0.1);
    opt.setFreeConstraints(f2);
    Trajectory u;
    opt.getTrajectory(&u);
    double c2 = exactCost(u.segments());
    if (c2 < base * (1 - 1e-5)) vf::viol("C11.beaten", fmt("another choice costs %.10g instead of %.10g; %s", c2, base, lin::show(p).c_str()));
    if (!(std::abs(opt.computeCost() - c2) <= 1e-11 * costScale(u.segments()))) vf::viol("C11.cost.free", fmt("computeCost %.12g, integral %.12g", opt.computeCost(), c2));
    vf::count("alternatives");
  }
  vf::distinct(vf::fnv(p.T.data(), p.T.size() * 8, gen::hashVec(t.segments()[0][0].getCoefficients(0))));
  vf::sample(lin::show(p) + fmt(" cost %.6g", want));
}
static void runCase(vf::Ctx& x) {
  switch (x.idx % 5) { case 0: one<4>(x); break; case 1: one<6>(x); break; case 2: one<8>(x); break; case 3: one<12>(x); break; default: one<10>(x); }
}
int main(int c, char** v) { gen::quiet(v[0]); return vf::drive(c, v, "C11", runCase); }
