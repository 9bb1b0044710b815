// C02: algebra of polynomials as functions of time.
#include "gen.hpp"
#include "mav_trajectory_generation/convolution.h"
using namespace mtg;
using gen::EPS;
using vf::fmt;

static void cmpCoeffs(const char* key, const Eigen::VectorXd& got, const ref::P& want, const ref::P& absSum, double mult) {
  vf::evaluated();
  if ((size_t)got.size() != want.size()) { vf::viol(std::string(key) + ".size", fmt("%d coefficients, want %zu", (int)got.size(), want.size())); return; }
  for (size_t i = 0; i < want.size(); ++i) {
    double tol = mult * EPS * (double)absSum[i] + 1e-300;
    if (!gen::close(got[i], (double)want[i], tol))
      vf::viol(key, fmt("coefficient %zu got %.17g want %.17g", i, got[i], (double)want[i]));
  }
}
static ref::P absP(const ref::P& p) { ref::P q = p; for (auto& c : q) c = ref::qabs(c); return q; }

template <int D, int K>
static void fixedConv(vf::Rng& g) {
  Eigen::Matrix<double, D, 1> a;
  Eigen::Matrix<double, K, 1> b;
  for (int i = 0; i < D; ++i) a[i] = g.normal();
  for (int i = 0; i < K; ++i) b[i] = g.normal();
  Eigen::VectorXd r = mtg::convolve<D, K>(a, b);
  ref::P pa = ref::make(a), pb = ref::make(b);
  cmpCoeffs("C02.convolve.fixed", r, ref::mul(pa, pb), ref::mul(absP(pa), absP(pb)), 64);
}

static void runCase(vf::Ctx& x) {
  vf::Rng& g = x.rng;
  for (int rep = 0; rep < 10; ++rep) {
    int N = g.i(1, 12), M = g.i(1, 12);
    double T = g.logu(0.05, 20);
    Eigen::VectorXd a = gen::coeffs(g, N, T), b = gen::coeffs(g, N, T), k = gen::coeffs(g, M, T);
    ref::P ra = ref::make(a), rb = ref::make(b), rk = ref::make(k);
    const Polynomial A(a), B(b), Kp(k);
    // sum
    Polynomial S = A + B;
    cmpCoeffs("C02.sum", S.getCoefficients(), ref::add(ra, rb), ref::add(absP(ra), absP(rb)), 4);
    if (S.N() != N) vf::viol("C02.sum.N", "N of a sum");
    Polynomial S2 = A;
    Polynomial& same = (S2 += B);
    if (&same != &S2) vf::viol("C02.sum.inplace.ref", "+= does not return its object");
    cmpCoeffs("C02.sum.inplace", S2.getCoefficients(), ref::add(ra, rb), ref::add(absP(ra), absP(rb)), 4);
    {  // of different size
      Polynomial SK = A + Kp, SI = A;
      SI += Kp;
      cmpCoeffs("C02.sum.sizes", SK.getCoefficients(), ref::add(ra, rk), ref::add(absP(ra), absP(rk)), 4);
      cmpCoeffs("C02.sum.sizes.inplace", SI.getCoefficients(), ref::add(ra, rk), ref::add(absP(ra), absP(rk)), 4);
      double t = g.uni(-T, T), tol = 200 * EPS * (ref::absEval(ra, t) + ref::absEval(rk, t)) + 1e-290;
      if (SK.N() != std::max(N, M) || SI.N() != SK.N()) vf::viol("C02.sum.N", fmt("%d + %d coefficients give %d", N, M, SK.N()));
      else if (!gen::close(SK.evaluate(t, 0), (double)(ref::eval(ra, t) + ref::eval(rk, t)), tol)) vf::viol("C02.sum.value", fmt("t=%g", t));
      vf::count(N == M ? "sums_of_equal_size" : "sums_of_different_size");
    }
    {  // an object with itself
      Polynomial W = A;
      W += W;
      cmpCoeffs("C02.self.sum", W.getCoefficients(), ref::add(ra, ra), ref::add(absP(ra), absP(ra)), 4);
      W = A;
      W = W * W;
      cmpCoeffs("C02.self.product", W.getCoefficients(), ref::mul(ra, ra), ref::mul(absP(ra), absP(ra)), 64);
      W = A;
      W = W + W;
      cmpCoeffs("C02.self.sum", W.getCoefficients(), ref::add(ra, ra), ref::add(absP(ra), absP(ra)), 4);
      W = A;
      int n = N + g.i(0, 3);
      if (!W.getPolynomialWithAppendedCoefficients(n, &W) || W.N() != n) vf::viol("C02.self.pad", fmt("%d to %d", N, n));
      ref::P z = ra;
      z.resize(n, ref::Q(0));
      cmpCoeffs("C02.self.pad", W.getCoefficients(), z, absP(z), 0);
      vf::count("self_operations", 4);
    }
    // product (different sizes too)
    Polynomial P = A * Kp, P2 = Kp * A;
    ref::P w = ref::mul(ra, rk), wa = ref::mul(absP(ra), absP(rk));
    cmpCoeffs("C02.product", P.getCoefficients(), w, wa, 64);
    cmpCoeffs("C02.product.commutes", P2.getCoefficients(), w, wa, 64);
    if (P.N() != N + M - 1) vf::viol("C02.product.N", fmt("%d", P.N()));
    if (Polynomial::getConvolutionLength(N, M) != N + M - 1) vf::viol("C02.convolution.length", fmt("%d,%d", N, M));
    cmpCoeffs("C02.convolve", Polynomial::convolve(a, k), w, wa, 64);
    // as functions of time, up to kMaxConvolutionSize coefficients
    if (P.N() <= Polynomial::kMaxConvolutionSize) {
      double t = g.uni(-T, T);
      double va = (double)ref::eval(ra, t), vk = (double)ref::eval(rk, t);
      double tol = 200 * 24 * EPS * ref::absEval(ra, t) * ref::absEval(rk, t) + 1e-290;
      if (!gen::close(P.evaluate(t, 0), va * vk, tol)) vf::viol("C02.product.value", fmt("t=%g", t));
      vf::count("product_values");
    }
    // scalar
    double s = g.p(0.2) ? 0.0 : g.normal() * g.logu(1e-3, 1e3);
    Polynomial Sc = A * s;
    cmpCoeffs("C02.scalar", Sc.getCoefficients(), ref::mul(ra, ref::P{ref::Q(s)}), ref::mul(absP(ra), ref::P{ref::Q(std::abs(s))}), 2);
    // time scaling: q(t) = p(b t)
    double f = g.p(0.1) ? 0.0 : g.sgn() * g.logu(0.05, 20);
    Polynomial Z = A;
    Z.scalePolynomialInTime(f);
    {
      ref::P z = ra;
      ref::Q pw = 1;
      for (auto& c : z) { c *= pw; pw *= f; }
      cmpCoeffs("C02.timescale", Z.getCoefficients(), z, absP(z), 64);
      double t = g.uni(0, T);
      for (int d = 0; d < N; ++d) {
        ref::P q = ref::deriv(ra, d);
        double want = (double)ref::eval(q, f * t) * std::pow(f, d);
        double tol = 400 * 12 * EPS * ref::absEval(q, f * t) * std::pow(std::abs(f), d) + 1e-290;
        if (!gen::close(Z.evaluate(t, d), want, tol)) vf::viol("C02.timescale.value", fmt("N=%d d=%d f=%g t=%g got %.17g want %.17g", N, d, f, t, Z.evaluate(t, d), want));
      }
      vf::count("time_scalings");
    }
    // offset
    double o = g.normal() * g.logu(1e-2, 1e3);
    Polynomial O = A;
    O.offsetPolynomial(o);
    {
      ref::P z = ra;
      z[0] += o;
      ref::P za = absP(ra);
      za[0] += std::abs(o);
      cmpCoeffs("C02.offset", O.getCoefficients(), z, za, 2);
    }
    // padding with coefficients
    int newN = g.i(1, 14);
    Polynomial padded(g.i(1, 5));
    bool ok = A.getPolynomialWithAppendedCoefficients(newN, &padded);
    if (ok != (newN >= N)) vf::viol("C02.pad.accepted", fmt("N=%d new=%d returned %d", N, newN, ok));
    {
      ref::P z = ra;
      if (newN > N) z.resize(newN, ref::Q(0));
      cmpCoeffs("C02.pad", padded.getCoefficients(), z, absP(z), 0);
      if (padded.N() != (int)z.size()) vf::viol("C02.pad.N", fmt("%d", padded.N()));
    }
    vf::count(ok ? "pads" : "refused_pads");
    // equality
    Polynomial C2(a);
    if (!(C2 == A) || (C2 != A)) vf::viol("C02.equality.reflexive", gen::show(a));
    int j = g.i(0, N - 1);
    Eigen::VectorXd a2 = a;
    a2[j] += (a2[j] == 0 ? 1.0 : a2[j] * 1e-10);
    Polynomial C3(a2);
    if (C3 == A || !(C3 != A) || A == C3) vf::viol("C02.equality.differs", fmt("coefficient %d of %d", j, N));
    if (N != M) {
      if (A == Kp || !(A != Kp)) vf::viol("C02.equality.sizes", "polynomials of different N compare equal");
      Eigen::VectorXd az = Eigen::VectorXd::Zero(N + 1);
      az.head(N) = a;
      (void)az;
      vf::count("comparisons_of_different_size");
    }
    // arguments are not changed
    if (!(A.getCoefficients() == a) || !(B.getCoefficients() == b) || !(Kp.getCoefficients() == k))
      vf::viol("C02.operands", "an operand changed");
    vf::distinct(gen::hashVec(a, gen::hashVec(k)));
    if (rep == 0) vf::sample("a=" + gen::show(a) + " k=" + gen::show(k));
  }
  fixedConv<1, 1>(g); fixedConv<2, 5>(g); fixedConv<5, 2>(g); fixedConv<6, 6>(g); fixedConv<12, 11>(g); fixedConv<3, 12>(g);
}
int main(int c, char** v) { gen::quiet(v[0]); return vf::drive(c, v, "C02", runCase); }
