// C18: references of one trajectory belong together.
#include "dt.hpp"
using namespace dt;
using vf::fmt;

// Position change over [a,b] against the integral of the velocity, and velocity
// against acceleration; a, b multiples of 1/512, so that times are exact floats.
static void integrate(DynamicTrajectory& d, double a, int cells, const std::string& how) {
  const double h = 1.0 / 1024;
  int n = 4 * cells;
  std::vector<References> r(n + 1);
  for (int i = 0; i <= n; ++i) {
    r[i] = at(d, a + h * i);
    if (!finite(r[i])) { vf::viol("C18.finite", fmt("%s: reference at %.9g not finite", how.c_str(), a + h * i)); return; }
  }
  for (int k = 0; k < 2; ++k) {
    auto f = [&](int i) -> V3 { return k == 0 ? r[i].velocity : r[i].acceleration; };
    auto F = [&](int i) -> V3 { return k == 0 ? r[i].position : r[i].velocity; };
    V3 s1(0, 0, 0), s2(0, 0, 0);
    double top = 0;
    for (int i = 0; i < n; i += 2) s1 += h / 3 * (f(i) + 4 * f(i + 1) + f(i + 2));
    for (int i = 0; i < n; i += 4) s2 += 2 * h / 3 * (f(i) + 4 * f(i + 2) + f(i + 4));
    for (int i = 0; i <= n; ++i) top = std::max({top, f(i).norm(), F(i).norm()});
    double kink = 0;  // at joints the derivative of the integrand may jump
    for (int i = 1; i < n; ++i) kink = std::max(kink, (f(i + 1) - 2 * f(i) + f(i - 1)).norm());
    V3 e = F(n) - F(0) - s1;
    double tol = 1e-8 * (1 + top) + (s1 - s2).norm() + 2 * h * kink;
    vf::maxv("integral_error_over_tolerance", e.norm() / tol);
    vf::maxv("tolerance_over_size", tol / (1 + top));
    vf::count(k == 0 ? "velocity_integrals" : "acceleration_integrals");
    if (e.norm() > tol) vf::viol(k == 0 ? "C18.velocity" : "C18.acceleration", fmt("%s: between %.9g and %.9g %s changes by %s, the integral of %s is %s (allowed %.3g)", how.c_str(), a, a + h * n, k == 0 ? "position" : "velocity", show(V3(F(n) - F(0))).c_str(), k == 0 ? "velocity" : "acceleration", show(s1).c_str(), tol));
  }
}

static void look(DynamicTrajectory& d, vf::Rng& g, const std::vector<double>& cuts, bool moved, const std::string& how) {
  double comp = d.getTimeCompensation(), a = d.getMinTime() - comp, b = d.getMaxTime() - comp;
  List l = listOf(d);
  for (int i = 0; i < 6; ++i) {
    int cells = g.i(4, 40);
    double len = cells * 4 / 1024.0, lo = std::ceil((a + 2e-3) * 512) / 512, hi = b + (i == 0 ? 1 : 0) - len;
    if (hi <= lo) { cells = 2; len = cells * 4 / 1024.0; hi = b - len; if (hi <= lo) break; }
    double s = std::floor(g.uni(lo, hi) * 512) / 512;
    if (i == 1) {  // across a waypoint
      const auto& w = l[g.i(0, (int)l.size() - 1)];
      s = std::floor((w.getTime() - comp - len / 2) * 512) / 512;
    }
    s = std::max(s, lo);
    bool cut = false;
    for (double c : cuts) if (c - comp > s - 2e-3 && c - comp < s + len + 2e-3) cut = true;
    if (cut) { vf::count("windows_with_cut"); continue; }
    if (moved) vf::count("windows_with_moved_waypoints");
    integrate(d, s, cells, how);
  }
  // only positions, again and in another order, outside
  std::vector<std::pair<double, References>> seen;
  for (int i = 0; i < 8; ++i) {
    double t = i == 0 ? a : i == 1 ? b : g.uni(a - 1, b + 1);
    seen.push_back({t, at(d, t)});
    References r;
    d.evaluateTrajectory((float)t, r, true, true);
    vf::count("only_positions");
    VF_EXPECT((r.position - seen.back().second.position).norm() == 0, "C18.only_positions", "%s: at %.9g only positions gives %s, else %s", how.c_str(), t, show(r.position).c_str(), show(seen.back().second.position).c_str());
    for (int k = 0; k < 3; ++k) VF_EXPECT(&seen.back().second[k] == (k == 0 ? &seen.back().second.position : k == 1 ? &seen.back().second.velocity : &seen.back().second.acceleration), "C18.index", "reference %d", k);
  }
  for (int i = 7; i >= 0; --i) {
    References r = at(d, seen[i].first);
    vf::count("repeated");
    VF_EXPECT(err(r, seen[i].second) == 0, "C18.repeated", "%s: second evaluation at %.9g differs by %.3g", how.c_str(), seen[i].first, err(r, seen[i].second));
  }
  bool thrown = false;
  try { seen[0].second[3]; } catch (const std::runtime_error&) { thrown = true; }
  VF_EXPECT(thrown, "C18.index", "index 3 accepted");
  if (!moved) {
    References s0 = at(d, a + 1e-6 * (1 + std::abs(a))), e0 = at(d, b + 1e-5 * (1 + std::abs(b)));
    for (int i = 0; i < 3; ++i) {
      References s1 = at(d, a - g.logu(1e-3, 100)), e1 = at(d, b + 1e-3 + g.logu(1e-3, 100)), e2 = at(d, b + 2e-3 + g.logu(1e-3, 100));
      vf::count("clamped");
      double v = 1 + s0.velocity.norm() + s0.acceleration.norm();
      VF_EXPECT((s1.position - s0.position).norm() < 1e-4 * (1 + std::abs(a)) * v, "C18.before", "%s: before its start at %s, at the start at %s", how.c_str(), show(s1.position).c_str(), show(s0.position).c_str());
      VF_EXPECT(err(e1, e2) == 0 && (e1.position - e0.position).norm() < 1e-6 * (1 + e0.position.norm()), "C18.after", "%s: after its end at %s then %s", how.c_str(), show(e1.position).c_str(), show(e2.position).c_str());
      VF_EXPECT(e1.velocity.norm() < 1e-3 && e1.acceleration.norm() < 1e-1, "C18.after_rest", "%s: after its end velocity %.3g acceleration %.3g", how.c_str(), e1.velocity.norm(), e1.acceleration.norm());
    }
  }
}

static void runCase(vf::Ctx& x) {
  vf::Rng& g = x.rng;
  vf::evaluated();
  Jitter delayed(g, 0.25);
  tc_ns = (long)(g.logu(5e-4, 0.02) * 1e9);
  DynamicTrajectory d;
  double speed = g.logu(0.7, 8);
  d.setSpeed(speed);
  V3 p(g.normal() * 5, g.normal() * 5, g.normal() * 2);
  d.updateVehiclePosition(p);
  auto w = route(g, p, g.i(1, 5), "w", speed * g.logu(0.7, 3));
  d.setWaypoints(w);
  float t = (float)g.uni(0, 0.1);
  at(d, t, false);
  if (!settle(d, t)) { vf::viol("C18.generated", "no trajectory within 25 s"); return; }
  std::vector<double> cuts{0.0};  // displacements only count after time 0
  bool moved = false;
  int rounds = g.i(1, 3), added = 0;
  for (int k = 0; k < rounds; ++k) {
    std::string how = fmt("round %d%s", k, moved ? " moved" : "");
    look(d, g, cuts, moved, how);
    vf::distinct(fmt("%.17g %d %d", d.getMaxTime(), k, moved));
    // evaluations for plots leave everything as it is
    double comp = d.getTimeCompensation();
    t = (float)g.uni(d.getMinTime(), d.getMinTime() + 0.6 * (d.getMaxTime() - d.getMinTime()));
    at(d, t, false);
    auto n0 = d.getNextTrajectoryWaypoints();
    int r0 = d.getRemainingWaypoints();
    List l0 = listOf(d);
    for (int i = 0; i < 4; ++i) at(d, g.uni(-5, d.getMaxTime() + 5), true);
    auto n1 = d.getNextTrajectoryWaypoints();
    List l1 = listOf(d);
    vf::count("plots");
    VF_EXPECT(n0.size() == n1.size() && r0 == d.getRemainingWaypoints(), "C18.plot_remaining", "%zu waypoints ahead, %zu after evaluations for plots", n0.size(), n1.size());
    VF_EXPECT(names(l0) == names(l1) && d.getTimeCompensation() == comp, "C18.plot_list", "list changed by evaluations for plots: %s / %s", names(l0).c_str(), names(l1).c_str());
    if (g.p(0.5)) {  // move some waypoints ahead
      std::vector<std::string> names_;
      for (auto& q : l1) if (own(q) && q.getTime() > t + comp + 0.05 && g.p(0.6)) names_.push_back(q.getName());
      for (auto& nm : names_) {
        V3 q(0, 0, 0);
        double T = 0;
        for (auto& e : listOf(d)) if (e.getName() == nm) { q = e.getCurrentPosition(); T = e.getTime(); }
        q += V3(g.normal(), g.normal(), g.normal()) * g.logu(0.1, 2);
        at(d, t, false);
        d.modifyWaypoint(nm, q, false);
        bool ok = waitFor([&] { for (auto& e : listOf(d)) if (e.getName() == nm && (e.getCurrentPosition() - q).norm() == 0) return true; return false; }, 20);
        VF_EXPECT(ok, "C18.moved", "move of %s not taken over within 20 s", nm.c_str());
        if (!ok) return;
        moved = true;
        double s = (T - t - comp) / 3;
        cuts.push_back(T - 3.5 * s);
        cuts.push_back(T + 3.5 * s);
        vf::count("moves");
      }
      look(d, g, cuts, moved, how + " then moved");
    }
    // another trajectory, generated while only plots are evaluated: it begins at
    // the time evaluated last for flying
    if (k + 1 < rounds) {
      // away from waypoints: right behind one or at the start
      t = (float)(d.getMinTime() + 0.01);
      at(d, t, false);
      V3 q = listOf(d).back().getCurrentPosition() + V3(g.normal(), g.normal(), 0.2 * g.normal()).normalized() * speed * g.logu(0.5, 3);
      References r0 = at(d, t);
      double left = d.getMaxTime() - t - d.getTimeCompensation();
      for (int i = g.i(0, 2); i >= 0; --i) at(d, g.uni(-1, d.getMaxTime() + 3), true);
      d.appendWaypoint(waypoint(q, fmt("a%d", added++)));
      bool ok = waitFor([&] { at(d, g.uni(-1, 30), true); return atRest(d); }, 3);
      if (!ok && d.getComputingNewTrajectoryStatus()) ok = waitFor([&] { at(d, 0, true); return atRest(d); }, 25);
      if (!ok) { vf::count("close_to_waypoint"); return; }  // no trajectory right before a waypoint
      vf::count("generated_while_plotting");
      VF_EXPECT(std::abs(d.getMinTime() - t) < 1e-9, "C18.plot_start", "evaluated last at %.9g, the new trajectory starts at %.9g", (double)t, d.getMinTime());
      if (left > 8 * tc_ns * 1e-9 + 0.02) {  // and continues what was flown
        double c2 = d.getTimeCompensation(), tm = d.getMinTime(), jerk = 0, eps = 1.2e-7 * (1 + std::abs(tm) + std::abs(c2));
        References s = at(d, tm - c2), lastr = s;
        for (int i = 1; i <= 40; ++i) { References r = at(d, tm - c2 + i * 0.02); jerk = std::max(jerk, (r.acceleration - lastr.acceleration).norm() / 0.02); lastr = r; }
        vf::count("continued_while_plotting");
        double tp = 1e-5 * (1 + r0.position.norm() * 0.1) + 3 * eps * (r0.velocity.norm() + s.velocity.norm()), tv = 1e-4 * (1 + r0.velocity.norm()) + 3 * eps * (r0.acceleration.norm() + s.acceleration.norm()), ta = 1e-3 * (1 + r0.acceleration.norm()) + 4 * eps * jerk;
        vf::maxv("plot_start_error_over_tolerance", std::max({(s.position - r0.position).norm() / tp, (s.velocity - r0.velocity).norm() / tv, (s.acceleration - r0.acceleration).norm() / ta}));
        VF_EXPECT((s.position - r0.position).norm() <= tp && (s.velocity - r0.velocity).norm() <= tv && (s.acceleration - r0.acceleration).norm() <= ta, "C18.plot_continue", "flown last at %.9g with %s / %s / %s, the trajectory generated while plotting starts with %s / %s / %s", (double)t, show(r0.position).c_str(), show(r0.velocity).c_str(), show(r0.acceleration).c_str(), show(s.position).c_str(), show(s.velocity).c_str(), show(s.acceleration).c_str());
      }
      moved = false;
      cuts = {0.0};
    }
  }
}
int main(int argc, char** argv) { begin(argv[0]); return vf::drive(argc, argv, "C18", runCase); }
