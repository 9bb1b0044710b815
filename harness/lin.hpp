// Generators and reference computations for the trajectory optimisers.
#pragma once
#include "trajref.hpp"
#include "mav_trajectory_generation/polynomial_optimization_linear.h"
namespace lin {
typedef __float128 Q;
typedef std::vector<std::vector<Q>> QM;

// Solve A X = B in quadruple precision (partial pivoting). false: singular
inline bool solve(QM a, QM b, QM* x) {
  size_t n = a.size(), m = b[0].size();
  for (size_t c = 0; c < n; ++c) {
    size_t p = c;
    for (size_t r = c + 1; r < n; ++r) if (ref::qabs(a[r][c]) > ref::qabs(a[p][c])) p = r;
    if (a[p][c] == 0) return false;
    std::swap(a[p], a[c]); std::swap(b[p], b[c]);
    for (size_t r = c + 1; r < n; ++r) {
      Q f = a[r][c] / a[c][c];
      if (f == 0) continue;
      for (size_t k = c; k < n; ++k) a[r][k] -= f * a[c][k];
      for (size_t k = 0; k < m; ++k) b[r][k] -= f * b[c][k];
    }
  }
  for (size_t c = n; c-- > 0;)
    for (size_t k = 0; k < m; ++k) {
      for (size_t q = c + 1; q < n; ++q) b[c][k] -= a[c][q] * b[q][k];
      b[c][k] /= a[c][c];
    }
  *x = b;
  return true;
}
// Hermite basis on [0,T]: column j = polynomial whose j-th end condition is 1
inline QM hermite(int N, double T) {
  QM a(N, std::vector<Q>(N, 0)), e(N, std::vector<Q>(N, 0)), x;
  for (int i = 0; i < N / 2; ++i) {
    for (int c = i; c < N; ++c) {
      Q f = 1;
      for (int k = 0; k < i; ++k) f *= (c - k);
      if (c == i) a[i][c] = f;
      Q pw = 1;
      for (int k = 0; k < c - i; ++k) pw *= (Q)T;
      a[i + N / 2][c] = f * pw;
    }
  }
  for (int i = 0; i < N; ++i) e[i][i] = 1;
  solve(a, e, &x);
  return x;
}
// integral over [0,T] of the product of two polynomials
inline Q inner(const ref::P& a, const ref::P& b, double T) {
  ref::P m = ref::mul(a, b);
  Q s = 0, pw = T;
  for (size_t i = 0; i < m.size(); ++i) { s += m[i] * pw / (Q)(i + 1); pw *= (Q)T; }
  return s;
}
struct Problem {
  int N, D, k;  // coefficients, dimensions, derivative to optimise
  mtg::Vertex::Vector v;
  std::vector<double> T;
  int K() const { return (int)T.size(); }
};
// fixed[v][d]: is derivative d fixed at vertex v (orders < N/2)
inline bool fixedAt(const Problem& p, int v, int d) { return p.v[v].hasConstraint(d); }

inline Problem problem(vf::Rng& g, int N, int maxK = 7) {
  Problem p;
  p.N = N;
  p.D = g.i(1, 4);
  int H = N / 2 - 1;
  p.k = g.p(0.5) ? H : g.i(1, H);
  int K = g.i(1, maxK);
  double scaleT = g.logu(0.3, 6);
  for (int i = 0; i < K; ++i) p.T.push_back(g.p(0.2) ? scaleT * g.logu(0.15, 6) : scaleT * g.uni(0.5, 2));
  Eigen::VectorXd pos(p.D);
  for (int d = 0; d < p.D; ++d) pos[d] = 5 * g.normal();
  bool fullEnds = g.p(0.7);
  for (int i = 0; i <= K; ++i) {
    mtg::Vertex v(p.D);
    Eigen::VectorXd step(p.D);
    for (int d = 0; d < p.D; ++d) step[d] = g.uni(-4, 4);
    if (i) pos += step;
    if (i == 0 || (i == K && fullEnds)) {
      v.makeStartOrEnd(pos, i == 0 ? H : g.i(p.k > 1 ? p.k - 1 : 1, H));
      if (g.p(0.3))
        for (int q = 1; q <= H; ++q) if (g.p(0.5)) { Eigen::VectorXd c(p.D); for (int d = 0; d < p.D; ++d) c[d] = g.normal() * std::pow(p.T[std::max(0, i - 1)], -q); v.addConstraint(q, c); }
    } else {
      if (g.p(0.9) || i == K) v.addConstraint(0, pos);
      for (int q = 1; q <= H; ++q) if (g.p(0.15)) { Eigen::VectorXd c(p.D); for (int d = 0; d < p.D; ++d) c[d] = 2 * g.normal() * std::pow(scaleT, -q); v.addConstraint(q, c); }
    }
    p.v.push_back(v);
  }
  return p;
}
inline std::string show(const Problem& p) {
  std::string s = vf::fmt("N=%d D=%d optimise %d times", p.N, p.D, p.k);
  for (double t : p.T) s += vf::fmt(" %.4g", t);
  s += " constraints";
  for (auto& v : p.v) { s += " "; for (int d = 0; d < p.N / 2; ++d) s += v.hasConstraint(d) ? "x" : "-"; }
  return s;
}
// scale of the q-th derivative of a spline with these data in dimension d
inline double scaleOf(const mtg::Segment::Vector& s, int d, int q) {
  double m = 0;
  for (auto& g : s) { ref::P r = ref::deriv(gen::refPoly(g[d]), q); m = std::max(m, ref::absEval(r, g.getTime())); }
  return m;
}
// Scale of rounding errors of derivative q at the ends of a segment: all end
// derivatives carried over to order q by the segment's duration.
inline double endScale(const mtg::Segment& s, int d, int q) {
  double T = s.getTime(), m = 0;
  ref::P p = gen::refPoly(s[d]);
  for (int j = 0; j < s.N() / 2; ++j) {
    ref::P r = ref::deriv(p, j);
    m += (std::abs((double)ref::eval(r, 0)) + std::abs((double)ref::eval(r, T))) * std::pow(T, j - q);
  }
  return m;
}
// Checks the vertex constraints and the continuity of a solution. Residuals are
// relative to the sum of absolute terms of the evaluated derivative.
inline void checkSpline(const Problem& p, const mtg::Segment::Vector& s, double tol, const char* key, const std::string& what) {
  if ((int)s.size() != p.K()) { vf::viol(std::string(key) + ".segments", vf::fmt("%zu segments for %d times", s.size(), p.K())); return; }
  for (int i = 0; i < p.K(); ++i)
    if (s[i].N() != p.N || s[i].D() != p.D || s[i].getTime() != p.T[i]) { vf::viol(std::string(key) + ".shape", vf::fmt("segment %d N=%d D=%d time %.17g want %.17g; %s", i, s[i].N(), s[i].D(), s[i].getTime(), p.T[i], what.c_str())); return; }
  for (int d = 0; d < p.D; ++d)
    for (int q = 0; q < p.N / 2; ++q)
      for (int i = 0; i <= p.K(); ++i) {
        double left = 0, right = 0, sl = 0, sr = 0;
        if (i > 0) { ref::P r = ref::deriv(gen::refPoly(s[i - 1][d]), q); left = (double)ref::eval(r, s[i - 1].getTime()); sl = endScale(s[i - 1], d, q); }
        if (i < p.K()) { ref::P r = ref::deriv(gen::refPoly(s[i][d]), q); right = (double)ref::eval(r, 0); sr = endScale(s[i], d, q); }
        Eigen::VectorXd c;
        if (p.v[i].getConstraint(q, &c)) {
          double sc = sl + std::abs(c[d]) + 1e-280;
          if (i > 0) { vf::maxv(std::string(key) + vf::fmt("_constraint_end_N%d", p.N), std::abs(left - c[d]) / sc); if (!(std::abs(left - c[d]) <= tol * sc)) { vf::viol(std::string(key) + ".constraint", vf::fmt("vertex %d derivative %d dim %d: segment ends with %.12g, constraint %.12g; %s", i, q, d, left, c[d], what.c_str())); return; } }
          if (i < p.K()) { if (!(std::abs(right - c[d]) <= 1e-13 * (std::abs(c[d]) + 1e-280))) { vf::viol(std::string(key) + ".constraint", vf::fmt("vertex %d derivative %d dim %d: segment starts with %.12g, constraint %.12g; %s", i, q, d, right, c[d], what.c_str())); return; } }
        }
        if (i > 0 && i < p.K()) {
          double sc = sl + sr + 1e-280;
          vf::maxv(std::string(key) + vf::fmt("_jump_N%d", p.N), std::abs(left - right) / sc);
          if (!(std::abs(left - right) <= tol * sc)) { vf::viol(std::string(key) + ".continuity", vf::fmt("derivative %d of dim %d jumps from %.12g to %.12g at vertex %d; %s", q, d, left, right, i, what.c_str())); return; }
        }
      }
  vf::count(std::string(key) + "_splines_checked");
}
// Exact cost of one dimension: integral of the squared k-th derivative
inline Q cost(const mtg::Segment::Vector& s, int d, int k) {
  Q c = 0;
  for (auto& g : s) { ref::P r = ref::deriv(gen::refPoly(g[d]), k); c += inner(r, r, g.getTime()); }
  return c;
}
// Relative suboptimality of dimension d among all splines that satisfy the
// same constraints: g' H^-1 g / cost
inline bool suboptimality(const Problem& p, const mtg::Segment::Vector& s, int d, double* gap, int* nfree) {
  int N = p.N, H = N / 2;
  std::vector<QM> basis;
  for (int i = 0; i < p.K(); ++i) basis.push_back(hermite(N, p.T[i]));
  std::vector<std::pair<int, int>> fr;
  for (int v = 0; v <= p.K(); ++v) for (int q = 0; q < H; ++q) if (!fixedAt(p, v, q)) fr.push_back({v, q});
  *nfree = (int)fr.size();
  *gap = 0;
  if (fr.empty()) return true;
  auto piece = [&](int f, int i) {  // k-th derivative of basis function f on segment i
    ref::P r;
    int v = fr[f].first, q = fr[f].second, row;
    if (i == v) row = q; else if (i == v - 1) row = H + q; else return r;
    r.resize(N);
    for (int c = 0; c < N; ++c) r[c] = basis[i][c][row];
    return ref::deriv(r, p.k);
  };
  size_t n = fr.size();
  QM Hm(n, std::vector<Q>(n, 0)), gv(n, std::vector<Q>(1, 0)), x;
  for (int i = 0; i < p.K(); ++i) {
    ref::P sp = ref::deriv(gen::refPoly(s[i][d]), p.k);
    std::vector<std::pair<int, ref::P>> act;
    for (size_t f = 0; f < n; ++f) { ref::P r = piece((int)f, i); if (!r.empty()) act.push_back({(int)f, r}); }
    for (auto& a : act) {
      gv[a.first][0] += inner(a.second, sp, p.T[i]);
      for (auto& b : act) Hm[a.first][b.first] += inner(a.second, b.second, p.T[i]);
    }
  }
  // scale to unit diagonal
  std::vector<Q> sc(n);
  for (size_t i = 0; i < n; ++i) sc[i] = 1 / (Q)std::sqrt((double)Hm[i][i]);
  for (size_t i = 0; i < n; ++i) { gv[i][0] *= sc[i]; for (size_t j = 0; j < n; ++j) Hm[i][j] *= sc[i] * sc[j]; }
  if (!solve(Hm, gv, &x)) return false;
  Q g2 = 0;
  for (size_t i = 0; i < n; ++i) g2 += gv[i][0] * x[i][0];
  Q c = cost(s, d, p.k);
  *gap = c > 0 ? (double)(g2 / c) : 0;
  return true;
}
}  // namespace lin
