// C17: a plan from a standing vehicle passes its waypoints as asked.
#include "dt.hpp"
using namespace dt;
using vf::fmt;

struct Want { V3 pos; std::string name; bool hasV, hasA; V3 v, a; };

static void checkPlan(DynamicTrajectory& d, const V3& vehicle, const std::vector<Want>& want, double tgen, double speed, vf::Rng& g, const std::string& how) {
  List l = listOf(d);
  if (l.size() != want.size() + 1) { vf::viol("C17.list.size", fmt("%s: %zu waypoints for %zu asked plus the vehicle", how.c_str(), l.size(), want.size())); return; }
  double comp = d.getTimeCompensation(), tmax = d.getMaxTime(), tmin = d.getMinTime();
  VF_EXPECT(d.getTimeCompensation() == comp, "C17.compensation", "%s: compensation changed without another trajectory", how.c_str());
  VF_EXPECT(l[0].getName() == "" && (l[0].getOriginalPosition() - vehicle).norm() == 0, "C17.vehicle", "%s: plan starts at %s '%s', vehicle at %s", how.c_str(), show(l[0].getOriginalPosition()).c_str(), l[0].getName().c_str(), show(vehicle).c_str());
  VF_EXPECT(std::abs(tmin - tgen) < 1e-9 * (1 + std::abs(tgen)) && std::abs(l[0].getTime() - tgen) < 1e-9 * (1 + std::abs(tgen)), "C17.start_time", "%s: starts at %.9g / %.9g, evaluated last at %.9g", how.c_str(), tmin, l[0].getTime(), tgen);
  VF_EXPECT(std::abs(l.back().getTime() - tmax) < 1e-9 * (1 + std::abs(tmax)), "C17.end_time", "%s: last waypoint at %.12g, plan ends %.12g", how.c_str(), l.back().getTime(), tmax);
  double length = 0, still = 0;  // legs of no length take a tenth of a second
  for (size_t i = 0; i < want.size(); ++i) {
    const DynamicWaypoint& w = l[i + 1];
    const Want& q = want[i];
    VF_EXPECT(w.getName() == q.name && w.getIndex() == (int)i + 1 && (w.getOriginalPosition() - q.pos).norm() == 0 && (w.getCurrentPosition() - q.pos).norm() == 0, "C17.list", "%s: entry %zu is '%s' index %d at %s, asked '%s' at %s", how.c_str(), i + 1, w.getName().c_str(), w.getIndex(), show(w.getCurrentPosition()).c_str(), q.name.c_str(), show(q.pos).c_str());
    VF_EXPECT(w.getTime() > l[i].getTime(), "C17.times", "%s: times %.9g then %.9g", how.c_str(), l[i].getTime(), w.getTime());
    double leg = (q.pos - (i ? want[i - 1].pos : vehicle)).norm();
    length += leg;
    if (leg < 1e-9) still += 0.3;
  }
  // the speed asked for is that of the plan on the whole
  double fast = length / (tmax - tmin) / speed, slow = (tmax - tmin) / (length / speed + 2 * speed / 9.81 + still);
  vf::maxv("average_speed_over_speed", fast);
  vf::maxv("duration_over_ramps_and_distance", slow);
  VF_EXPECT(fast < 1.6 && slow < 1.6, "C17.pace", "%s: %.4g m in %.4g s at a speed of %.4g", how.c_str(), length, tmax - tmin, speed);
  // reached when announced
  double vmax = 0, amax = 0, jmax = 0;
  V3 alast(0, 0, 0); bool have = false;
  double T = tmax - tmin;
  int n = 300;
  for (int k = 0; k <= n; ++k) {
    References r = at(d, tmin - comp + T * k / n);
    if (!finite(r)) { vf::viol("C17.finite", fmt("%s: reference at %.9g not finite", how.c_str(), tmin - comp + T * k / n)); return; }
    vmax = std::max(vmax, r.velocity.norm());
    amax = std::max(amax, r.acceleration.norm());
    if (have) jmax = std::max(jmax, (r.acceleration - alast).norm() * n / T);
    alast = r.acceleration; have = true;
  }
  vf::maxv("speed_ratio", vmax / speed);
  vf::maxv("acceleration", amax);
  double dt = 2.4e-7 * (1 + std::abs(tmax)) ;  // evaluation times are floats
  double P = 0;
  for (auto& q : want) P = std::max(P, q.pos.norm());
  P = std::max(P, vehicle.norm());
  double tp = 1e-5 + 1e-6 * P + 2 * vmax * dt, tv = 1e-4 * (1 + vmax) + 3 * amax * dt, ta = 1e-3 * (1 + amax) + 4 * jmax * dt;
  for (size_t i = 0; i < l.size(); ++i) {
    References r = at(d, l[i].getTime() - comp);
    V3 p = i ? want[i - 1].pos : vehicle;
    double e = (r.position - p).norm();
    vf::maxv("waypoint_error", e);
    vf::count("waypoints_reached");
    if (e > tp) vf::viol("C17.reached", fmt("%s: waypoint %zu of %zu at %s, reference there at its time %.9g is %s (off by %.3g, allowed %.3g)", how.c_str(), i, want.size(), show(p).c_str(), l[i].getTime(), show(r.position).c_str(), e, tp));
    bool lastOrFirst = i == 0 || i == want.size();
    V3 v(0, 0, 0), a(0, 0, 0);
    bool hv = lastOrFirst, ha = lastOrFirst;
    if (!lastOrFirst) { const Want& q = want[i - 1]; hv = q.hasV; ha = q.hasA; v = q.v; a = q.a; }
    if (hv) {
      vf::count(lastOrFirst ? "rest_ends" : "velocity_constraints");
      if ((r.velocity - v).norm() > tv) vf::viol("C17.velocity", fmt("%s: at waypoint %zu of %zu velocity %s, expected %s", how.c_str(), i, want.size(), show(r.velocity).c_str(), show(v).c_str()));
    }
    if (ha) {
      if (!lastOrFirst) vf::count("acceleration_constraints");
      if ((r.acceleration - a).norm() > ta) vf::viol("C17.acceleration", fmt("%s: at waypoint %zu of %zu acceleration %s, expected %s (allowed %.3g)", how.c_str(), i, want.size(), show(r.acceleration).c_str(), show(a).c_str(), ta));
    }
  }
  // before and after
  for (double t : {tmin - comp - g.logu(1e-3, 20), tmax - comp + g.logu(1e-3, 20)}) {
    References r = at(d, t);
    bool after = t > tmin - comp;
    V3 p = after ? want.back().pos : vehicle;
    vf::count("outside_evaluations");
    if ((r.position - p).norm() > tp || r.velocity.norm() > tv || r.acceleration.norm() > ta) vf::viol("C17.outside", fmt("%s: %s the plan the reference is %s / %s / %s, not at rest at %s", how.c_str(), after ? "after" : "before", show(r.position).c_str(), show(r.velocity).c_str(), show(r.acceleration).c_str(), show(p).c_str()));
  }
}

static void remaining(DynamicTrajectory& d, double t, const std::string& how) {
  List l = listOf(d);
  auto next = d.getNextTrajectoryWaypoints();
  std::vector<std::string> a, b;
  for (auto& w : l) if (w.getTime() > t) a.push_back(fmt("%s %.12g", w.getName().c_str(), w.getTime()));
  for (auto& w : next) b.push_back(fmt("%s %.12g", w.getName().c_str(), w.getTime()));
  vf::count("remaining_checked");
  VF_EXPECT(a == b, "C17.remaining", "%s: evaluated at %.9g, %zu waypoints lie ahead, %zu are reported", how.c_str(), t, a.size(), b.size());
  VF_EXPECT(d.getRemainingWaypoints() == (int)a.size(), "C17.remaining_count", "%s: %d reported of %zu ahead", how.c_str(), d.getRemainingWaypoints(), a.size());
}

static std::vector<Want> request(vf::Rng& g, const V3& from, double speed, DynamicWaypoint::Vector* out) {
  int n = g.p(0.015) ? g.i(8, 22) : g.i(1, 6);
  if (n > 6) vf::count("long_plans");
  out->clear();
  std::vector<Want> want;
  auto r = route(g, from, n, "w", speed * g.logu(0.4, 4));
  if (g.p(0.15)) {  // a waypoint where the vehicle or the one before is
    int k = g.i(0, n - 1);
    r[k].resetWaypoint(k ? r[k - 1].getOriginalPosition() : from);
    vf::count("coincident_waypoints");
  }
  for (int i = 0; i < n; ++i) {
    Want q{r[i].getOriginalPosition(), g.p(0.15) ? "" : g.p(0.1) ? "same" : fmt("w%d", i), false, false, V3::Zero(), V3::Zero()};
    DynamicWaypoint w;
    int build = g.i(0, 2);
    if (build == 0) { w = waypoint(q.pos, q.name); }
    else {
      mtg::Vertex v(3);
      v.addConstraint(0, q.pos);
      if (i + 1 < n && g.p(0.25)) { q.hasV = true; q.v = V3(g.normal(), g.normal(), g.normal()) * 0.3 * speed; v.addConstraint(1, q.v); }
      if (i + 1 < n && g.p(0.15)) { q.hasA = true; q.a = V3(g.normal(), g.normal(), g.normal()); v.addConstraint(2, q.a); }
      w = build == 1 ? DynamicWaypoint(v, q.name) : DynamicWaypoint(v, g.i(0, 9), q.name);
    }
    want.push_back(q);
    out->push_back(w);
  }
  return want;
}

static void runCase(vf::Ctx& x) {
  vf::Rng& g = x.rng;
  vf::evaluated();
  Jitter delayed(g, 0.25);
  tc_ns = (long)(g.logu(1e-3, 0.1) * 1e9);
  DynamicTrajectory d;
  double speed = g.logu(0.5, 12);
  d.setSpeed(speed);
  VF_EXPECT(d.getSpeed() == speed, "C17.speed", "speed %g reported for %g", d.getSpeed(), speed);
  V3 p(g.normal() * 10, g.normal() * 10, g.normal() * 3);
  d.updateVehiclePosition(p);
  DynamicWaypoint::Vector w;
  auto want = request(g, p, speed, &w);
  bool atOnce = g.p(0.6);
  if (atOnce) d.setWaypoints(w);
  else if (g.p(0.5)) { for (auto& q : w) d.appendWaypoint(q); }
  else { d.setWaypoints(DynamicWaypoint::Vector(w.begin(), w.begin() + w.size() / 2)); for (size_t i = w.size() / 2; i < w.size(); ++i) d.appendWaypoint(w[i]); }
  float t = !atOnce || g.p(0.4) ? 0.f : (float)g.uni(0, 3);
  // appended one by one: the list may come in several generations
  References first = at(d, t, false);
  VF_EXPECT(finite(first), "C17.finite", "first reference not finite");
  if (!atOnce && !atRest(d)) t = -50;  // away from waypoints, close to which no trajectory is generated
  bool ok = settle(d, t);
  VF_EXPECT(ok, "C17.generated", "no trajectory within 25 s");
  if (!ok) return;
  bool whole = listOf(d).size() == want.size() + 1 && listOf(d)[0].getName() == "";
  if (whole && std::abs(d.getMinTime()) < 1e-12) {
    vf::count("first_plans");
    remaining(d, t, "first plan");
    checkPlan(d, p, want, 0, speed, g, "first plan");
  } else {
    vf::count("plans_in_pieces");
    // all the same the named waypoints come in order
    std::vector<std::string> a, b;
    for (auto& q : want) if (q.name != "") a.push_back(q.name);
    for (auto& q : owned(listOf(d))) b.push_back(q.getName());
    VF_EXPECT(a == b, "C17.pieces", "appended %zu, listed %zu", a.size(), b.size());
  }
  vf::distinct(fmt("%.17g %zu %.9g", d.getMaxTime(), want.size(), speed));
  if (x.idx < 3) vf::sample(fmt("%zu waypoints, speed %.3g: plan of %.3f s: %s", want.size(), speed, d.getMaxTime(), names(listOf(d)).c_str()));
  // ---- again from where the vehicle stands after the end ---------------------
  int rounds = g.i(1, 2);
  for (int k = 0; k < rounds; ++k) {
    float te = (float)(d.getMaxTime() + g.uni(0, 2));
    at(d, te, false);
    remaining(d, te, "after the end");
    VF_EXPECT(d.getRemainingWaypoints() == 0, "C17.remaining_end", "%d waypoints remain after the end", d.getRemainingWaypoints());
    if (g.p(0.5)) { speed = g.logu(0.5, 12); d.setSpeed(speed); }
    V3 q = V3(g.normal() * 10, g.normal() * 10, g.normal() * 3);
    d.updateVehiclePosition(q);
    want = request(g, q, speed, &w);
    d.getWasTrajectoryRegenerated();
    d.setWaypoints(w);
    ok = settle(d, te);
    VF_EXPECT(ok, "C17.generated", "no trajectory within 25 s after the end");
    if (!ok) return;
    VF_EXPECT(d.getWasTrajectoryRegenerated(), "C17.regenerated", "another trajectory is not reported");
    VF_EXPECT(!d.getWasTrajectoryRegenerated(), "C17.regenerated_twice", "one trajectory reported twice");
    vf::count("later_plans");
    remaining(d, te, "later plan");
    checkPlan(d, q, want, te, speed, g, "later plan");
    // along the plan
    double a = d.getMinTime(), b = d.getMaxTime();
    for (int i = 0; i < 4; ++i) { float s = (float)g.uni(a, b); at(d, s, false); remaining(d, s, "along the plan"); }
  }
}
int main(int argc, char** argv) { begin(argv[0]); return vf::drive(argc, argv, "C17", runCase); }
