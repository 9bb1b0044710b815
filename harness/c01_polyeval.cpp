// C01: value and derivatives of a polynomial against an extended-precision
// reference.
#include "gen.hpp"
using namespace mtg;
using gen::EPS;
using vf::fmt;

static void runCase(vf::Ctx& x) {
  vf::Rng& g = x.rng;
  for (int rep = 0; rep < 8; ++rep) {
    int N = g.p(0.85) ? g.i(1, 12) : g.i(13, 22);
    double T = g.logu(0.05, 20);
    int kind;
    Eigen::VectorXd c = gen::coeffs(g, N, T, &kind);
    // every way of building the polynomial
    int how = g.i(0, 3);
    Polynomial p(N);
    if (how == 0) p = Polynomial(c);
    else if (how == 1) p = Polynomial(N, c);
    else if (how == 2) p.setCoefficients(c);
    else { Polynomial q(c); p = q; }
    ref::P r = ref::make(c);
    if (p.N() != N) vf::viol("C01.N", fmt("N()=%d for %d coefficients", p.N(), N));
    if (!(p.getCoefficients(0) == c)) vf::viol("C01.coefficients.identity", "coefficients are not those set " + gen::show(c));
    double times[7] = {0.0, T, -T * g.u01(), g.uni(0, T), g.p(0.5) ? 1.0 : g.logu(1e-18, 1e-3), g.uni(-30, 30), (g.p(0.5) ? 1 : -1) * g.logu(20, 1e6)};
    for (double t : times) {
      for (int d = 0; d <= N + 2; ++d) {
        double got = p.evaluate(t, d);
        vf::evaluated();
        if (d >= N) {
          vf::count("derivatives_above_degree");
          if (got != 0.0) vf::viol("C01.evaluate.above", fmt("N=%d derivative %d at t=%g is %g, not 0", N, d, t, got));
          continue;
        }
        gen::RV e = gen::refEval(r, d, t);
        vf::maxv("evaluate_error_over_tolerance", std::abs(got - e.v) / e.tol);
        if (!gen::close(got, e.v, e.tol))
          vf::viol("C01.evaluate", fmt("N=%d d=%d t=%.17g got %.17g want %.17g c=", N, d, t, got, e.v) + gen::show(c));
        // base coefficient vector: its product with the coefficients
        Eigen::VectorXd b = Polynomial::baseCoeffsWithTime(N, d, t), b2 = Eigen::VectorXd::Constant(g.i(0, 3), 7.0);
        Polynomial::baseCoeffsWithTime(N, d, t, &b2);
        if (b.size() != N || b2.size() != N || !(b == b2)) { vf::viol("C01.base.overloads", fmt("N=%d d=%d t=%g", N, d, t)); continue; }
        double f = 1;
        for (int j = 0; j < N; ++j) {
          if (j < d) { if (b[j] != 0) vf::viol("C01.base", fmt("N=%d d=%d j=%d t=%g got %g want 0", N, d, j, t, b[j])); continue; }
          long double w = 1;
          for (int q = 0; q < d; ++q) w *= (j - q);
          w *= powl((long double)t, j - d);
          long double tol = 64 * N * EPS * fabsl(w) + 1e-290L;
          if (std::abs(t) < 2.3e-16) { if (j > d) { long double w1 = 1; for (int q = 0; q < d; ++q) w1 *= (j - q); tol += w1 * 2.3e-16L; } }
          if (fabsl(b[j] - w) > tol) vf::viol("C01.base", fmt("N=%d d=%d j=%d t=%.17g got %.17g want %.17Lg", N, d, j, t, b[j], w));
        }
        (void)f;
        vf::count("base_vectors");
      }
      // all derivatives at once
      int m = g.i(1, N);
      Eigen::VectorXd res = Eigen::VectorXd::Constant(m, 1e300);
      p.evaluate(t, &res);
      if (res.size() != m) vf::viol("C01.evaluate.vector.size", "size changed");
      for (int d = 0; d < m; ++d) {
        gen::RV e = gen::refEval(r, d, t);
        if (!gen::close(res[d], e.v, e.tol))
          vf::viol("C01.evaluate.vector", fmt("N=%d d=%d/%d t=%.17g got %.17g want %.17g", N, d, m, t, res[d], e.v));
      }
      vf::count("vector_evaluations");
    }
    for (int d = 0; d < N; ++d) {
      Eigen::VectorXd dc = p.getCoefficients(d);
      if (dc.size() != N) { vf::viol("C01.coefficients.size", fmt("%d", (int)dc.size())); continue; }
      ref::P q = ref::deriv(r, d);
      for (int j = 0; j < N; ++j) {
        double w = j < N - d ? (double)q[j] : 0.0;
        if (!gen::close(dc[j], w, 16 * N * EPS * std::abs(w) + 1e-290))
          vf::viol("C01.coefficients", fmt("N=%d d=%d j=%d got %.17g want %.17g", N, d, j, dc[j], w));
      }
      vf::count("derivative_coefficient_vectors");
    }
    if (N <= 12) {
      Eigen::VectorXd dc = p.getCoefficients(N);
      if (dc.size() != N || !dc.isZero(0)) vf::viol("C01.coefficients.N", "derivative N is not the zero polynomial");
    }
    vf::distinct(gen::hashVec(c));
    if (rep == 0) vf::sample(fmt("N=%d T=%.3g coefficients ", N, T) + gen::show(c));
  }
}
int main(int c, char** v) { gen::quiet(v[0]); return vf::drive(c, v, "C01", runCase); }
