// C16: the displacement of references when a waypoint is moved online.
#include <array>
#include "gen.hpp"
#include "dynamic_trajectory_generator/dynamic_waypoint.hpp"
using namespace dynamic_traj_generator;
using vf::fmt;
typedef Eigen::Vector3d V3;

struct Bump { long double d, mu, s; };  // displacement, centre, width
static long double bump(const Bump& b, long double t, int k) {
  if (b.s <= 0 || std::abs(b.d) < 0.02L || std::abs(t - b.mu) > 3.5L * b.s) return 0;
  long double u = t - b.mu, e = std::exp(-u * u / (2 * b.s * b.s)), q = b.s * b.s;
  return b.d * (k == 0 ? e : k == 1 ? -u / q * e : (u * u / (q * q) - 1 / q) * e);
}
// too close to a threshold to tell which side of it the code is on
static bool border(const Bump& b, double t) {
  return std::abs(std::abs((double)b.d) - 0.02) < 1e-12 || (b.s > 0 && std::abs(std::abs(t - (double)b.mu) - 3.5 * (double)b.s) < 1e-9 * (1 + std::abs(t)));
}
static V3 rnd(vf::Rng& g, double s) { return V3(s * g.normal(), s * g.normal(), s * g.normal()); }

static void oneModifier(vf::Rng& g) {
  GaussianModifier m;
  Bump b{0, 0, 1.5};
  if (g.p(0.9)) { b.d = g.p(0.2) ? g.uni(-0.03, 0.03) : g.sgn() * g.logu(0.02, 50); m.setDifference(b.d); }
  if (g.p(0.9)) { b.mu = g.uni(-5, 100); m.setModifierTime(b.mu); }
  if (g.p(0.8)) { b.s = g.p(0.1) ? 0 : g.p(0.1) ? -g.logu(1e-3, 10) : g.logu(1e-3, 30); m.setSigma(b.s); }
  VF_EXPECT(m.getSigma() == (double)b.s, "C16.sigma", "width %g", m.getSigma());
  double w = b.s > 0 ? (double)b.s : 1;
  for (int i = 0; i < 12; ++i) {
    double t = i == 0 ? (double)b.mu : i == 1 ? 0 : (double)b.mu + w * g.uni(-5, 5);
    if (border(b, t)) continue;
    for (int k = 0; k < 3; ++k) {
      double v = m(t, k);
      long double e = bump(b, t, k), scale = std::abs(b.d) / std::pow((long double)w, k);
      vf::count(e == 0 ? "modifier_zero" : "modifier_values");
      if (!std::isfinite(v) || std::abs(v - (double)e) > 1e-12 * (double)scale * (1 + std::abs(t) / w)) vf::viol("C16.modifier", fmt("difference %.9g at %.9g width %.9g: derivative %d at %.12g is %.12g, expected %.12Lg", (double)b.d, (double)b.mu, (double)b.s, k, t, v, e));
    }
  }
}

static void runCase(vf::Ctx& x) {
  vf::Rng& g = x.rng;
  vf::evaluated();
  oneModifier(g);
  // ---- a waypoint and its history --------------------------------------------
  V3 p0 = rnd(g, 20);
  mtg::Vertex vx(3);
  std::map<int, V3> cons;
  cons[0] = p0;
  vx.addConstraint(0, p0);
  for (int o = 1; o < 5; ++o) if (g.p(0.3)) { cons[o] = rnd(g, 3); vx.addConstraint(o, cons[o]); }
  std::string name = g.p(0.8) ? fmt("wp%d", g.i(0, 9)) : "";
  int index = g.p(0.5) ? g.i(0, 20) : -1;
  DynamicWaypoint wp;
  int how = g.i(0, 2);
  if (how == 0) wp = index < 0 ? DynamicWaypoint(vx, name) : DynamicWaypoint(vx, index, name);
  else {
    for (auto& c : cons) wp.setConstraint(c.first, c.second);
    wp.setName(name);
    if (index >= 0) wp.setIndex(index);
  }
  V3 orig = p0, cur = p0;
  double T = 0;
  std::array<std::vector<Bump>, 3> bumps;
  bool known = true;  // all widths known
  double guard = 100;
  std::string log;
  int steps = g.i(1, 10);
  for (int s = 0; s < steps; ++s) {
    int op = g.i(0, 9);
    if (op <= 1) {
      T = g.p(0.05) ? 0 : g.uni(0.01, 60);
      wp.setTime(T);
      for (auto& a : bumps) for (auto& b : a) b.mu = T;
      log += fmt("time %.6g; ", T);
    } else if (op <= 5) {
      V3 p = cur;
      for (int i = 0; i < 3; ++i) if (!g.p(0.15)) p[i] += g.p(0.2) ? g.uni(-0.025, 0.025) : g.normal() * g.logu(0.02, 5);
      double now = g.p(0.8) ? T - g.logu(1e-3, 30) : g.p(0.3) ? T : g.p(0.5) ? 0 : T + g.uni(0, 2);
      if (now <= 0 && g.p(0.7)) now = T * g.uni(0.01, 0.99);
      if (now > 0) {
        wp.setCurrentPosition(p, now);
        for (int i = 0; i < 3; ++i) bumps[i].push_back({(long double)(p[i] - cur[i]), T, (T - now) / 3.0});
        vf::count(now < T ? "moves" : "late_moves");
      } else {
        if (g.p(0.5)) wp.setCurrentPosition(p); else wp.setCurrentPosition(p, now);
        for (int i = 0; i < 3; ++i) bumps[i].push_back({(long double)(p[i] - cur[i]), T, 1.5});
        known = false;
        vf::count("moves_without_time");
      }
      log += fmt("move by %.5g %.5g %.5g at %.6g; ", p[0] - cur[0], p[1] - cur[1], p[2] - cur[2], now);
      cur = p;
      cons[0] = p;
    } else if (op == 6 && g.p(0.5)) {
      if (g.p(0.5)) { wp.resetWaypointWithCurrentPosition(); }
      else { cur = rnd(g, 20); if (g.p(0.5)) wp.resetWaypoint(cur); else wp.setConstraint(0, cur); }
      orig = cur;
      cons[0] = cur;
      for (auto& a : bumps) a.clear();
      known = true;
      vf::count("resets");
      log += "reset; ";
    } else if (op == 7) {
      int o = g.i(1, 4);
      cons[o] = rnd(g, 3);
      wp.setConstraint(o, cons[o]);
    } else if (op == 8) {
      int d = g.i(-3, 3);
      wp.displaceIndex(d);
      index += d;
    } else {
      DynamicWaypoint c(wp), e;
      e = c;
      std::vector<DynamicWaypoint> vec{e};
      vec.push_back(c);
      vec.erase(vec.begin());
      wp = vec[0];
      vf::count("copies");
      log += "copy; ";
    }
    // ---- what can be asked of it ------------------------------------------------
    std::string what = fmt("[%d] ", how) + log;
    if (wp.getName() != name || wp.getIndex() != index || wp.getTime() != T || wp.getOriginalPosition() != orig || wp.getCurrentPosition() != cur || wp.hasModifiers() != !bumps[0].empty())
      vf::viol("C16.state", what);
    mtg::Vertex vv = wp.getVertex();
    Eigen::VectorXd c;
    for (int o = 0; o < 6; ++o) {
      bool has = vv.getConstraint(o, &c);
      if (has != (cons.count(o) > 0) || (has && V3(c) != cons[o])) vf::viol("C16.vertex", fmt("constraint %d; ", o) + what);
    }
    // at its time the reference is displaced by exactly the moves
    V3 want = V3::Zero(), sure = V3::Zero();
    for (int i = 0; i < 3; ++i) for (auto& b : bumps[i]) { want[i] += (double)bump(b, T, 0); if (border(b, T)) sure[i] += std::abs((double)b.d); }
    V3 got = wp.trajectoryCompensation(T);
    for (int i = 0; i < 3; ++i) if (!(std::abs(got[i] - want[i]) <= 1e-12 * (1 + std::abs(want[i])) + sure[i])) vf::viol("C16.attime", fmt("axis %d: displaced by %.12g, moved by %.12g; ", i, got[i], want[i]) + what);
    vf::count("at_waypoint_time");
    double smin = 1e9, smax = 1e-9;
    for (auto& b : bumps[0]) if (b.s > 0) { smin = std::min(smin, (double)b.s); smax = std::max(smax, (double)b.s); }
    if (smin > 1e8) smin = smax = 1;
    for (int q = 0; q < 8; ++q) {
      double t = q == 0 ? T : T + (g.p(0.5) ? smin : smax) * g.uni(-4, 4);
      V3 r[3];
      for (int k = 0; k < 3; ++k) r[k] = wp.trajectoryCompensation(t, k);
      for (int k = 0; k < 3; ++k) for (int i = 0; i < 3; ++i) {
        if (!std::isfinite(r[k][i])) { vf::viol("C16.finite", fmt("derivative %d at %.9g; ", k, t) + what); continue; }
        if (!known) continue;
        long double e = 0, scale = 0;
        bool edge = false;
        for (auto& b : bumps[i]) { e += bump(b, t, k); edge |= border(b, t); if (b.s > 0) scale += std::abs(b.d) / std::pow(b.s, (long double)k) * (1 + std::abs(t) / b.s); }
        if (edge) continue;
        vf::count("compensations");
        if (std::abs(r[k][i] - (double)e) > 1e-12 * (double)scale) vf::viol("C16.compensation", fmt("derivative %d of axis %d at %.12g is %.12g, expected %.12Lg; ", k, i, t, r[k][i], e) + what);
      }
      // the derivatives are those of the displacement
      if (!known) {
        double h = 1e-4;
        auto f = [&](double u, int k) { return wp.trajectoryCompensation(u, k); };
        for (int k = 0; k < 2; ++k) {
          V3 a = (f(t + h, k) - f(t - h, k)) / (2 * h), b = (f(t + h / 2, k) - f(t - h / 2, k)) / h;
          for (int i = 0; i < 3; ++i) {
            double tot = 0;
            for (auto& m : bumps[i]) tot += std::abs((double)m.d);
            // widths shrink down to 1.5 * 0.75^n; skip places where a window ends
            if (std::abs(a[i] - b[i]) > 1e-3 * (1e-3 + tot)) continue;
            vf::count("numeric_derivatives");
            if (std::abs(b[i] - r[k + 1][i]) > 3e-3 * (1e-3 + tot)) vf::viol("C16.derivative", fmt("derivative %d of axis %d at %.9g is %.9g, differences give %.9g; ", k + 1, i, t, r[k + 1][i], b[i]) + what);
          }
        }
        for (double far : {T - guard, T + guard}) if (known || wp.trajectoryCompensation(far).norm() != 0) {
          bool any = false;
          for (auto& m : bumps[0]) any |= 3.6 * m.s > guard;
          if (!any) vf::viol("C16.far", fmt("displaced %g s away; ", far - T) + what);
        }
      }
    }
    vf::distinct(what);
  }
  vf::sample(log);
}
int main(int c, char** v) { gen::quiet(v[0]); return vf::drive(c, v, "C16", runCase); }
