// Independent evaluation of a piecewise trajectory given its segments.
#pragma once
#include "gen.hpp"
namespace tref {
using Seg = mtg::Segment;
struct Ref {
  std::vector<double> start, end;
  Seg::Vector segs;
  double total = 0;
  explicit Ref(const Seg::Vector& s) : segs(s) {
    long double acc = 0;
    for (auto& q : segs) { start.push_back((double)acc); acc += q.getTime(); end.push_back((double)acc); }
    total = (double)acc;
  }
  // candidates for the segment holding t, a time known to +-slack
  std::vector<size_t> at(double t, double slack) const {
    std::vector<size_t> r;
    for (size_t i = 0; i < segs.size(); ++i)
      if ((t >= start[i] - slack) && (t <= end[i] + slack)) r.push_back(i);
    return r;
  }
  // does `got` equal derivative k of some candidate (componentwise over dims)?
  bool match(double t, double slack, int k, const std::vector<int>& dims, const Eigen::VectorXd& got, std::string* why) const {
    *why = vf::fmt("no segment at %.17g", t);
    slack += 4 * gen::EPS * (std::abs(t) + total);
    for (size_t i : at(t, slack)) {
      bool ok = (size_t)got.size() == dims.size();
      if (!ok) *why = vf::fmt("%d components, want %zu", (int)got.size(), dims.size());
      for (size_t d = 0; ok && d < dims.size(); ++d) {
        gen::RV e = gen::refEval(gen::refPoly(segs[i][dims[d]]), k, t - start[i], slack);
        if (!gen::close(got[d], e.v, e.tol)) {
          ok = false;
          *why = vf::fmt("derivative %d dim %d at t=%.12g (segment %zu, local %.12g): got %.12g want %.12g tol %.3g", k, dims[d], t, i, t - start[i], got[d], e.v, e.tol);
        }
      }
      if (ok) return true;
    }
    return false;
  }
};
inline std::vector<int> allDims(int D) { std::vector<int> v; for (int d = 0; d < D; ++d) v.push_back(d); return v; }

// world frame angular velocity of R(t)=exp([r(t)]), and its derivative, by
// series in quadruple precision: omega = J(r) r', J = sum [r]^n/(n+1)!
typedef __float128 Q;
struct M3 { Q a[3][3]; };
inline M3 skewQ(const Eigen::Vector3d& r) {
  M3 m{};
  m.a[0][1] = -r[2]; m.a[0][2] = r[1]; m.a[1][0] = r[2]; m.a[1][2] = -r[0]; m.a[2][0] = -r[1]; m.a[2][1] = r[0];
  return m;
}
inline M3 mulQ(const M3& x, const M3& y) {
  M3 m{};
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) m.a[i][j] += x.a[i][k] * y.a[k][j];
  return m;
}
inline M3 addQ(const M3& x, const M3& y, Q s = 1) {
  M3 m;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m.a[i][j] = x.a[i][j] + s * y.a[i][j];
  return m;
}
inline M3 eyeQ() { M3 m{}; for (int i = 0; i < 3; ++i) m.a[i][i] = 1; return m; }
inline void mulv(const M3& m, const Eigen::Vector3d& v, Q* o) { for (int i = 0; i < 3; ++i) { o[i] = 0; for (int k = 0; k < 3; ++k) o[i] += m.a[i][k] * (Q)v[k]; } }
inline Eigen::Matrix3d expQ(const Eigen::Vector3d& r) {
  M3 s = skewQ(r), p = eyeQ(), sum = eyeQ();
  for (int n = 1; n < 90; ++n) { p = mulQ(p, s); for (auto& row : p.a) for (auto& v : row) v /= n; sum = addQ(sum, p); }
  Eigen::Matrix3d R;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) R(i, j) = (double)sum.a[i][j];
  return R;
}
inline void omegaRef(const Eigen::Vector3d& r, const Eigen::Vector3d& v, const Eigen::Vector3d& a, Eigen::Vector3d* w, Eigen::Vector3d* wd) {
  // J = sum S^n/(n+1)!,  J' = sum (S^n)'/(n+1)! with S' = [v]
  M3 S = skewQ(r), D = skewQ(v), P = eyeQ(), dP{}, J = eyeQ(), dJ{};
  Q f = 1;
  for (int n = 1; n < 90; ++n) {
    dP = addQ(mulQ(dP, S), mulQ(P, D));
    P = mulQ(P, S);
    f *= (n + 1);
    J = addQ(J, P, 1 / f);
    dJ = addQ(dJ, dP, 1 / f);
  }
  Q o[3], b[3], c[3];
  mulv(J, v, o); mulv(dJ, v, b); mulv(J, a, c);
  for (int i = 0; i < 3; ++i) { (*w)[i] = (double)o[i]; (*wd)[i] = (double)(b[i] + c[i]); }
}
}  // namespace tref
