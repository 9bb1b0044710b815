// C14: vertices keep exactly the constraints given; generated vertex lists;
// names of derivatives.
#include <map>
#include "gen.hpp"
#include "mav_trajectory_generation/motion_defines.h"
using namespace mtg;
using vf::fmt;
typedef std::map<int, Eigen::VectorXd> Model;

static bool same(const Vertex& v, const Model& m, int D, std::string* why) {
  if (v.D() != D) { *why = "dimension"; return false; }
  if (v.getNumberOfConstraints() != m.size()) { *why = fmt("%zu constraints, expected %zu", v.getNumberOfConstraints(), m.size()); return false; }
  for (int k = -2; k < 12; ++k) {
    auto it = m.find(k);
    Eigen::VectorXd c = Eigen::VectorXd::Constant(1, 77);
    bool has = v.getConstraint(k, &c);
    if (has != (it != m.end()) || v.hasConstraint(k) != has) { *why = fmt("constraint %d present %d", k, has); return false; }
    if (has && !(c.size() == D && c == it->second)) { *why = fmt("value of constraint %d", k); return false; }
    if (!has && !(c.size() == 1 && c[0] == 77)) { *why = "missing constraint overwrote the output"; return false; }
  }
  size_t n = 0;
  for (auto it = v.cBegin(); it != v.cEnd(); ++it, ++n) if (!m.count(it->first) || !(m.at(it->first) == it->second)) { *why = "iteration"; return false; }
  if (n != m.size()) { *why = "iteration length"; return false; }
  return true;
}
static void runCase(vf::Ctx& x) {
  vf::Rng& g = x.rng;
  vf::evaluated();
  std::string why;
  auto vec = [&](int D) { Eigen::VectorXd c(D); for (int d = 0; d < D; ++d) c[d] = g.p(0.2) ? g.i(-2, 2) : 10 * g.normal(); return c; };
  // ---- a history of operations against a map ---------------------------------------
  int D = g.i(1, 6);
  Vertex v(D);
  Model m;
  std::string hist;
  for (int s = 0, n = g.i(1, 14); s < n; ++s) {
    int k = g.i(0, 7);
    switch (g.i(0, 4)) {
      case 0: { auto c = vec(D); v.addConstraint(k, c); m[k] = c; hist += fmt(" add%d", k); break; }
      case 1: { double c = g.normal(); v.addConstraint(k, c); m[k] = Eigen::VectorXd::Constant(D, c); hist += fmt(" addc%d", k); break; }
      case 2: { bool r = v.removeConstraint(k); if (r != (m.erase(k) == 1)) vf::viol("C14.remove", "return value;" + hist); hist += fmt(" rm%d", k); vf::count("removals"); break; }
      case 3: { auto c = vec(D); v.makeStartOrEnd(c, k); m[0] = c; for (int q = 1; q <= k; ++q) m[q] = Eigen::VectorXd::Zero(D); hist += fmt(" end%d", k); break; }
      default: { double c = g.normal(); v.makeStartOrEnd(c, k); m[0] = Eigen::VectorXd::Constant(D, c); for (int q = 1; q <= k; ++q) m[q] = Eigen::VectorXd::Zero(D); hist += fmt(" endc%d", k); break; }
    }
    vf::count("operations");
    if (!same(v, m, D, &why)) { vf::viol("C14.constraints", why + ";" + hist); return; }
  }
  // ---- comparison --------------------------------------------------------------------
  Vertex w(v);
  if (!w.isEqualTol(v, 0) || !same(w, m, D, &why)) vf::viol("C14.copy", hist);
  if (!m.empty()) {
    auto it = m.begin();
    std::advance(it, g.i(0, (int)m.size() - 1));
    Eigen::VectorXd c = it->second;
    double off = g.logu(1e-6, 1);
    int d0 = g.i(0, D - 1);
    c[d0] += g.sgn() * off;
    if (D > 1 && g.p(0.4)) { int d1 = (d0 + 1 + g.i(0, D - 2)) % D; c[d1] -= (c[d0] - it->second[d0]) * (g.p(0.5) ? 1.0 : g.u01()); vf::count("opposite_differences"); }
    w.addConstraint(it->first, c);
    if (w.isEqualTol(v, off * 0.9) || v.isEqualTol(w, off * 0.9) || !w.isEqualTol(v, off * 1.1) || !v.isEqualTol(w, off * 1.1)) vf::viol("C14.equal", fmt("difference %g;", off) + hist);
    w = v;
    w.removeConstraint(it->first);
    if (w.isEqualTol(v, 1e9) || v.isEqualTol(w, 1e9)) vf::viol("C14.equal.missing", hist);
    w = v;
    w.removeConstraint(it->first);
    w.addConstraint(11, it->second);
    if (w.isEqualTol(v, 1e9) || v.isEqualTol(w, 1e9)) vf::viol("C14.equal.other", hist);
    Vertex other(D + g.i(1, 3));
    for (auto& c : m) other.addConstraint(c.first, c.second[0]);
    if (other.isEqualTol(v, 1e9) || v.isEqualTol(other, 1e9)) vf::viol("C14.equal.dimension", hist);
    vf::count("comparisons");
  }
  // ---- chosen dimensions ---------------------------------------------------------------
  {
    std::vector<size_t> dims;
    bool bad = g.p(0.2);
    for (int i = 0, n = g.i(1, 5); i < n; ++i) dims.push_back((size_t)g.i(0, D - 1));
    if (bad) dims[g.i(0, (int)dims.size() - 1)] = D + g.i(0, 3);
    int maxk = g.i(0, 8);
    Vertex sub(9);
    bool r = v.getSubdimension(dims, maxk, &sub);
    if (r == bad) vf::viol("C14.sub.answer", hist);
    if (!bad) {
      Model e;
      for (auto& c : m) if (c.first <= maxk) { Eigen::VectorXd u(dims.size()); for (size_t i = 0; i < dims.size(); ++i) u[i] = c.second[dims[i]]; e[c.first] = u; }
      if (!same(sub, e, (int)dims.size(), &why)) vf::viol("C14.sub", why + ";" + hist);
      Vertex self = v;
      if (!self.getSubdimension(dims, maxk, &self) || !same(self, e, (int)dims.size(), &why)) vf::viol("C14.sub.alias", why + ";" + hist);
      vf::count("subdimensions");
    } else vf::count("refused_subdimensions");
  }
  // ---- random vertices ---------------------------------------------------------------------
  {
    int G = g.i(1, 4), K = g.i(1, 8), md = g.i(1, 5);
    Eigen::VectorXd lo(G), hi(G);
    for (int d = 0; d < G; ++d) { lo[d] = 10 * g.normal(); hi[d] = lo[d] + g.uni(1, 20); }
    size_t seed = g.u64() % 100000;
    bool one = G == 1 && g.p(0.5);
    Vertex::Vector a = one ? createRandomVertices1D(md, K, lo[0], hi[0], seed) : createRandomVertices(md, K, lo, hi, seed), b = createRandomVertices(md, K, lo, hi, seed), c = createRandomVertices(md, K, lo, hi, seed + 1);
    bool ok = (int)a.size() == K + 1 && a.size() == b.size();
    Eigen::VectorXd last;
    for (int i = 0; ok && i <= K; ++i) {
      Eigen::VectorXd p;
      ok = a[i].getConstraint(0, &p) && p.size() == G && (p.array() >= lo.array()).all() && (p.array() <= hi.array()).all() && a[i].isEqualTol(b[i], 0);
      if (!ok) { why = fmt("position of vertex %d", i); break; }
      bool end = i == 0 || i == K;
      Model e;
      e[0] = p;
      if (end) for (int q = 1; q <= md; ++q) e[q] = Eigen::VectorXd::Zero(G);
      ok = same(a[i], e, G, &why);
      if (ok && i && !((p - last).norm() > 0.2)) { ok = false; why = fmt("vertices %d and %d only %g apart", i - 1, i, (p - last).norm()); }
      last = p;
    }
    if (!ok) vf::viol("C14.random", why);
    bool diff = false;
    for (int i = 0; i <= K && i < (int)c.size(); ++i) diff |= !a[i].isEqualTol(c[i], 1e-12);
    if (!diff) vf::viol("C14.random.seed", "two seeds give the same vertices");
    vf::count("random_lists");
  }
  // ---- square -----------------------------------------------------------------------------
  {
    Eigen::Vector3d ctr(5 * g.normal(), 5 * g.normal(), 5 * g.normal());
    double side = g.logu(0.1, 30);
    int rounds = g.i(1, 4), md = g.i(1, 5);
    Vertex::Vector q = createSquareVertices(md, ctr, side, rounds);
    bool ok = (int)q.size() == 4 * rounds + 1;
    if (!ok) why = "number of vertices";
    for (int i = 0; ok && i < (int)q.size(); ++i) {
      static const double sx[] = {-1, -1, 1, 1}, sy[] = {-1, 1, 1, -1};
      Eigen::VectorXd p = Eigen::Vector3d(ctr[0] + sx[i % 4] * side / 2, ctr[1] + sy[i % 4] * side / 2, ctr[2]), got;
      ok = q[i].getConstraint(0, &got) && (got - p).norm() <= 1e-12 * (1 + p.norm());
      if (!ok) { why = fmt("corner %d", i); break; }
      Model e;
      e[0] = got;
      if (i == 0 || i == 4 * rounds) for (int k = 1; k <= md; ++k) e[k] = Eigen::VectorXd::Zero(3);
      ok = same(q[i], e, 3, &why);
    }
    if (!ok) vf::viol("C14.square", why);
    vf::count("squares");
  }
  // ---- names ---------------------------------------------------------------------------------
  static const char* pn[] = {"position", "velocity", "acceleration", "jerk", "snap"};
  static const char* on[] = {"orientation", "angular_velocity", "angular_acceleration"};
  int k = g.i(-3, 9);
  std::string s = positionDerivativeToString(k), o = orintationDerivativeToString(k);
  if (s != (k >= 0 && k < 5 ? pn[k] : "invalid") || o != (k >= 0 && k < 3 ? on[k] : "invalid")) vf::viol("C14.names", fmt("%d is %s / %s", k, s.c_str(), o.c_str()));
  if (k >= 0 && k < 5 && positionDerivativeToInt(s) != k) vf::viol("C14.names.back", s);
  if (k >= 0 && k < 3 && orientationDerivativeToInt(o) != k) vf::viol("C14.names.back", o);
  if (positionDerivativeToInt("speed") != derivative_order::INVALID || orientationDerivativeToInt("") != derivative_order::INVALID || positionDerivativeToInt("Position") != derivative_order::INVALID) vf::viol("C14.names.unknown", "unknown names");
  for (int N = 2; N <= 12; N += 2) if (getHighestDerivativeFromN(N) != N / 2 - 1) vf::viol("C14.highest", fmt("%d", N));
  vf::distinct(hist + fmt("%g", m.empty() ? 0.0 : m.begin()->second[0]));
  vf::sample("history:" + hist);
}
int main(int c, char** v) { gen::quiet(v[0]); return vf::drive(c, v, "C14", runCase); }
