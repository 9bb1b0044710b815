// C03: roots and extrema of a polynomial on an interval.
#include "gen.hpp"
using namespace mtg;
using gen::EPS;
using vf::fmt;

static void runCase(vf::Ctx& x) {
  vf::Rng& g = x.rng;
  for (int rep = 0; rep < 20; ++rep) {
    int N = g.i(1, 12);
    double T = g.logu(0.05, 20);
    int kind = 0;
    Eigen::VectorXd c;
    if (g.p(0.3)) {  // from chosen roots: repeated, at the borders, outside
      ref::P p = {ref::Q(g.normal())};
      double rr = 0;
      for (int i = 0; i < N - 1; ++i) {
        if (i == 0 || !g.p(0.25)) rr = g.p(0.1) ? (g.p(0.5) ? 0.0 : T) : g.uni(-0.3 * T, 1.3 * T);
        p = ref::mul(p, ref::P{ref::Q(-rr / T), ref::Q(1 / T)});
      }
      if (g.p(0.5)) {  // as a derivative: integrate
        if (N > 1) {
          ref::P q(p.size() + 1, ref::Q(0));
          for (size_t i = 0; i < p.size(); ++i) q[i + 1] = p[i] / ref::Q((double)(i + 1));
          q[0] = g.normal();
          if (q.size() <= 12) p = q;
        }
      }
      N = p.size();
      c.resize(N);
      for (int i = 0; i < N; ++i) c[i] = (double)p[i];
      kind = 9;
    } else {
      c = gen::coeffs(g, N, T, &kind);
    }
    Polynomial p(c);
    ref::P r = ref::make(c);
    double a = 0, b = T;
    if (g.p(0.3)) { a = g.uni(-T, T); b = a + g.uni(0, T); }
    if (g.p(0.06)) { b = g.p(0.7) ? 0.0 : g.uni(-T, 0); a = b - g.uni(0, T); vf::count("negative_intervals"); }
    if (g.p(0.03)) b = a;
    int d = g.p(0.5) ? 0 : g.i(0, N - 1);
    ref::P q = ref::deriv(r, d);
    vf::evaluated();

    // --- roots -------------------------------------------------------------
    bool roots_ok = true;
    {
      Eigen::VectorXcd roots = Eigen::VectorXcd::Constant(3, std::complex<double>(7, 7));
      roots_ok = p.getRoots(d, &roots);
      ref::P qq = q;
      while (!qq.empty() && ref::qabs(qq.back()) < 2.3e-308) qq.pop_back();
      int deg = std::max(0, (int)qq.size() - 1);
      if (!roots_ok) {
        vf::count("root_finder_refusals");
        if (kind != 2 && kind != 9) vf::viol("C03.roots.refused", fmt("N=%d d=%d c=", N, d) + gen::show(c));
      } else {
        if (roots.size() != deg) vf::viol("C03.roots.count", fmt("%d roots of a degree %d polynomial c=", (int)roots.size(), deg) + gen::show(c));
        for (int i = 0; i < roots.size(); ++i) {
          std::complex<long double> z(roots[i].real(), roots[i].imag()), acc(0, 0);
          long double s = 0, az = std::abs(z);
          for (int j = (int)qq.size() - 1; j >= 0; --j) { acc = acc * z + std::complex<long double>((long double)qq[j], 0); s = s * az + fabsl((long double)qq[j]); }
          double res = (double)(std::abs(acc) / (s + 1e-300L));
          vf::maxv("root_residual", res);
          vf::count("roots");
          if (!(res < 1e-4)) vf::viol("C03.roots.residual", fmt("residual %g at root (%g,%g) N=%d d=%d c=", res, roots[i].real(), roots[i].imag(), N, d) + gen::show(c));
        }
        // every simple real root of the reference inside the interval is found
        std::vector<ref::Q> rr = ref::rootsIn(qq, a, b);
        ref::P dq = ref::deriv(qq);
        for (ref::Q z : rr) {
          double t = (double)z, slope = (double)ref::qabs(ref::eval(dq, z));
          double u = 1e-8 * std::max(ref::absEval(qq, a), ref::absEval(qq, b));
          double want = 1e-3 * (std::abs(t) + 1e-6);
          if (slope * want <= u || (double)ref::qabs(ref::eval(qq, t - want)) <= u || (double)ref::qabs(ref::eval(qq, t + want)) <= u) continue;  // ill conditioned
          bool hit = false;
          for (int i = 0; i < roots.size(); ++i)
            if (std::abs(roots[i].real() - t) <= want && std::abs(roots[i].imag()) <= want) hit = true;
          vf::count("reference_real_roots");
          if (!hit) { std::string rs; for (int i = 0; i < roots.size(); ++i) rs += fmt(" (%.9g,%.3g)", roots[i].real(), roots[i].imag()); vf::viol("C03.roots.missing", fmt("real root %.12g not reported (condition %.3g; roots%s) N=%d d=%d c=", t, slope * want / u, rs.c_str(), N, d) + gen::show(c)); }
        }
      }
    }
    // --- extrema -----------------------------------------------------------
    ref::MinMax m = ref::minmax(q, a, b);
    double sc = std::max(ref::absEval(q, a), ref::absEval(q, b)) + 1e-290;
    double tol = 1e-9 * sc;
    std::pair<double, double> mn(99, 99), mx(99, 99);
    bool ok = p.computeMinMax(a, b, d, &mn, &mx);
    if (!ok) {
      vf::count("extrema_refusals");
      if (kind != 2 && kind != 9) vf::viol("C03.minmax.refused", fmt("N=%d d=%d [%g,%g] c=", N, d, a, b) + gen::show(c));
    } else {
      vf::count("extrema");
      vf::count("interior_critical_points", m.interior);
      vf::maxv("extremum_gap", std::max(mn.second - m.min, m.max - mx.second) / sc);
      if (mn.second > m.min + tol) vf::viol("C03.min.global", fmt("min %.12g at %g, true %.12g at %g; N=%d d=%d [%g,%g] c=", mn.second, mn.first, m.min, m.tmin, N, d, a, b) + gen::show(c));
      if (mx.second < m.max - tol) vf::viol("C03.max.global", fmt("max %.12g at %g, true %.12g at %g; N=%d d=%d [%g,%g] c=", mx.second, mx.first, m.max, m.tmax, N, d, a, b) + gen::show(c));
      for (auto* e : {&mn, &mx}) {
        if (!(e->first >= a && e->first <= b)) vf::viol("C03.attained.interval", fmt("extremum at %g outside [%g,%g]", e->first, a, b));
        else if (!gen::close(e->second, (double)ref::eval(q, e->first), 1e-12 * sc)) vf::viol("C03.attained.value", fmt("value %.12g at %g is not the polynomial's %.12g", e->second, e->first, (double)ref::eval(q, e->first)));
      }
    }
    // --- candidates and the selection functions ------------------------------
    std::vector<double> cand(3, 1e9);
    bool cok = p.computeMinMaxCandidates(a, b, d, &cand);
    if (cok != ok) vf::viol("C03.candidates.refusal", "computeMinMax and its candidates disagree");
    if (cok) {
      bool ha = false, hb = false;
      for (double t : cand) {
        if (!(t >= a && t <= b)) vf::viol("C03.candidates.interval", fmt("candidate %g outside [%g,%g]", t, a, b));
        ha |= t == a;
        hb |= t == b;
      }
      if (!ha || !hb) vf::viol("C03.candidates.ends", "an interval end is not a candidate");
      std::pair<double, double> m1(9, 9), m2(9, 9);
      if (!p.selectMinMaxFromCandidates(cand, d, &m1, &m2)) vf::viol("C03.select.refused", "");
      else if (m1.second > m.min + tol || m2.second < m.max - tol) vf::viol("C03.select.candidates", fmt("%g %g vs %g %g", m1.second, m2.second, m.min, m.max));
    }
    std::vector<double> none;
    std::pair<double, double> e1, e2;
    if (p.selectMinMaxFromCandidates(none, d, &e1, &e2)) vf::viol("C03.select.empty", "extrema from no candidates");
    if (d + 1 <= N && roots_ok) {
      Eigen::VectorXcd rts;
      if (p.getRoots(d + 1, &rts)) {
        std::pair<double, double> m1(9, 9), m2(9, 9);
        if (!p.selectMinMaxFromRoots(a, b, d, rts, &m1, &m2)) vf::viol("C03.fromroots.refused", "");
        else if (m1.second > m.min + tol || m2.second < m.max - tol) vf::viol("C03.fromroots", fmt("%g %g vs %g %g", m1.second, m2.second, m.min, m.max));
        std::vector<double> cr;
        if (!Polynomial::selectMinMaxCandidatesFromRoots(a, b, rts, &cr)) vf::viol("C03.rootcandidates.refused", "");
        for (double t : cr) if (!(t >= a && t <= b)) vf::viol("C03.rootcandidates.interval", fmt("%g", t));
        if (b > a) {
          if (Polynomial::selectMinMaxCandidatesFromRoots(b, a, rts, &cr)) vf::viol("C03.reversed.accepted", "selectMinMaxCandidatesFromRoots");
          if (p.selectMinMaxFromRoots(b, a, d, rts, &m1, &m2)) vf::viol("C03.reversed.accepted", "selectMinMaxFromRoots");
        }
      }
    }
    if (b > a) {
      vf::count("reversed_intervals");
      if (p.computeMinMax(b, a, d, &e1, &e2) || p.computeMinMaxCandidates(b, a, d, &cand)) vf::viol("C03.reversed.accepted", fmt("[%g,%g]", b, a));
    }
    if (N <= 12 && p.computeMinMax(a, b, N, &e1, &e2)) vf::viol("C03.derivative.accepted", fmt("derivative %d of %d coefficients", N, N));
    vf::distinct(gen::hashVec(c));
    if (rep == 0) vf::sample(fmt("N=%d derivative %d on [%.4g,%.4g]: %d interior critical points, c=", N, d, a, b, m.interior) + gen::show(c));
  }
}
int main(int c, char** v) { gen::quiet(v[0]); return vf::drive(c, v, "C03", runCase); }
