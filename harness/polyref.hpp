// Extended-precision reference for polynomials (independent of the library).
#pragma once
#include <cmath>
#include <vector>
namespace ref {
typedef __float128 Q;
typedef std::vector<Q> P;  // increasing powers

inline Q qabs(Q x) { return x < 0 ? -x : x; }

template <class V>
P make(const V& c) {
  P p(c.size());
  for (int i = 0; i < (int)c.size(); ++i) p[i] = c[i];
  return p;
}
inline P deriv(const P& p, int k = 1) {
  P r = p;
  for (int n = 0; n < k; ++n) {
    if (r.empty()) return r;
    P s(r.size() - 1);
    for (size_t i = 1; i < r.size(); ++i) s[i - 1] = r[i] * Q((double)i);
    r = s;
  }
  return r;
}
inline Q eval(const P& p, Q t) {
  Q a = 0;
  for (size_t i = p.size(); i-- > 0;) a = a * t + p[i];
  return a;
}
// sum |c_i| |t|^i : scale of the rounding error of any evaluation order
inline double absEval(const P& p, double t) {
  Q a = 0, x = qabs(t);
  for (size_t i = p.size(); i-- > 0;) a = a * x + qabs(p[i]);
  return (double)a;
}
inline P mul(const P& a, const P& b) {
  if (a.empty() || b.empty()) return P();
  P r(a.size() + b.size() - 1, Q(0));
  for (size_t i = 0; i < a.size(); ++i)
    for (size_t j = 0; j < b.size(); ++j) r[i + j] += a[i] * b[j];
  return r;
}
inline P add(const P& a, const P& b) {
  P r(std::max(a.size(), b.size()), Q(0));
  for (size_t i = 0; i < a.size(); ++i) r[i] += a[i];
  for (size_t i = 0; i < b.size(); ++i) r[i] += b[i];
  return r;
}
// All sign-changing real roots in [a,b] (by the derivative chain: between
// consecutive critical points the polynomial is monotone), plus the critical
// points themselves.  Every local extremum of an antiderivative of p in (a,b)
// is in the result.
inline std::vector<Q> rootsIn(const P& p0, Q a, Q b) {
  P p = p0;
  while (!p.empty() && p.back() == 0) p.pop_back();
  std::vector<Q> out;
  if (p.size() <= 1) return out;
  if (p.size() == 2) {
    Q r = -p[0] / p[1];
    if (r >= a && r <= b) out.push_back(r);
    return out;
  }
  std::vector<Q> cp = rootsIn(deriv(p), a, b);
  std::vector<Q> grid;
  grid.push_back(a);
  for (Q c : cp) grid.push_back(c);
  grid.push_back(b);
  for (size_t i = 0; i + 1 < grid.size(); ++i) {
    Q lo = grid[i], hi = grid[i + 1];
    if (!(lo < hi)) continue;
    Q fl = eval(p, lo), fh = eval(p, hi);
    if (fl == 0) { out.push_back(lo); continue; }
    if (fh == 0) { out.push_back(hi); continue; }
    if ((fl < 0) == (fh < 0)) continue;
    for (int k = 0; k < 110; ++k) {
      Q m = (lo + hi) / 2;
      Q fm = eval(p, m);
      if (fm == 0) { lo = hi = m; break; }
      if ((fm < 0) == (fl < 0)) lo = m; else hi = m;
    }
    out.push_back((lo + hi) / 2);
  }
  return out;
}
struct MinMax { double min, max, tmin, tmax; int interior; };
inline MinMax minmax(const P& p, double a, double b) {
  std::vector<Q> r = rootsIn(deriv(p), a, b);
  MinMax m;
  m.interior = (int)r.size();
  r.push_back(a);
  r.push_back(b);
  Q lo = 0, hi = 0, tl = 0, th = 0;
  bool first = true;
  for (Q t : r) {
    Q v = eval(p, t);
    if (first || v < lo) { lo = v; tl = t; }
    if (first || v > hi) { hi = v; th = t; }
    first = false;
  }
  m.min = (double)lo; m.max = (double)hi; m.tmin = (double)tl; m.tmax = (double)th;
  return m;
}
}  // namespace ref
