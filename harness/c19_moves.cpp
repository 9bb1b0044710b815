// C19: waypoints of the trajectory being flown are moved.
#include "dt.hpp"
using namespace dt;
using vf::fmt;

struct Bump { V3 d; double s; };
struct Wp { std::string name; double T; V3 orig, cur; std::vector<Bump> bumps; };

// displacement at time u (as the waypoint's times); slop: how much it may change
// within du, and whether u is too close to where a displacement is cut off
static V3 displacement(const std::vector<Wp>& m, double u, int k, double du, double* slop, bool* border) {
  V3 r(0, 0, 0);
  *slop = 0;
  for (auto& w : m) for (auto& b : w.bumps) for (int i = 0; i < 3; ++i) {
    if (b.s <= 0 || u <= 0) continue;
    if (std::abs(std::abs(b.d[i]) - 0.02) < 1e-9) *border = true;
    if (std::abs(b.d[i]) < 0.02) continue;
    double z = (u - w.T) / b.s;
    if (std::abs(std::abs(z) - 3.5) < 2 * du / b.s + 1e-6) *border = true;
    if (std::abs(z) > 3.5) continue;
    double e = std::exp(-z * z / 2) * b.d[i], s = b.s;
    r[i] += k == 0 ? e : k == 1 ? -z / s * e : (z * z - 1) / (s * s) * e;
    *slop += std::abs(b.d[i]) * 3 * du / std::pow(s, k + 1) + 1e-9 * std::abs(b.d[i]) / std::pow(s, k);
  }
  return r;
}

struct Base { double t; References r; double vmax; };
static const V3& of(const References& r, int k) { return k == 0 ? r.position : k == 1 ? r.velocity : r.acceleration; }

static void compare(DynamicTrajectory& d, const std::vector<Wp>& m, const std::vector<Base>& base, double comp, const std::string& how) {
  for (auto& b : base) {
    References r = at(d, b.t);
    if (!finite(r)) { vf::viol("C19.finite", fmt("%s: reference at %.9g not finite", how.c_str(), b.t)); return; }
    double u = (double)(float)b.t + comp;
    bool border = std::abs(u) < 1e-6;
    V3 e[3];
    double slop[3];
    for (int k = 0; k < 3; ++k) e[k] = displacement(m, u, k, 1e-12 * (1 + std::abs(u)), &slop[k], &border);
    if (border) { vf::count("borders"); continue; }
    for (int k = 0; k < 3; ++k) {
      V3 got = of(r, k) - of(b.r, k) ;
      double tol = slop[k] + 1e-9 * (1 + of(b.r, k).norm() + e[k].norm());
      vf::count(e[k].norm() > 0 ? "displaced_references" : "undisplaced_references");
      if ((got - e[k]).norm() > tol) { vf::viol(k == 0 ? "C19.position" : k == 1 ? "C19.velocity" : "C19.acceleration", fmt("%s: at %.9g derivative %d is displaced by %s, expected %s", how.c_str(), b.t, k, show(got).c_str(), show(e[k]).c_str())); return; }
    }
  }
  // at its time a waypoint's reference is where it was moved to, as far as other
  // waypoints' displacements do not reach it
  for (auto& w : m) {
    bool alone = true, exact = !w.bumps.empty();
    double u = w.T;
    for (auto& o : m) for (auto& b : o.bumps) {
      if (&o != &w && b.s > 0 && std::abs(u - o.T) <= 3.6 * b.s) alone = false;
      if (&o == &w && (b.s <= 1e-3 || b.d.cwiseAbs().minCoeff() < 0.021)) exact = false;
    }
    if (!alone || !exact) continue;
    References r = at(d, u - comp);
    double tol = 1e-3 * (1 + r.velocity.norm() + w.cur.norm() * 1e-2);
    for (auto& b : w.bumps) tol += b.d.norm() * 1e-5 / (b.s * b.s);
    vf::count("moved_waypoints_reached");
    if ((r.position - w.cur).norm() > tol) vf::viol("C19.reached", fmt("%s: waypoint %s moved to %s, reference there at its time %.9g is %s", how.c_str(), w.name.c_str(), show(w.cur).c_str(), u, show(r.position).c_str()));
  }
}

static bool takenOver(DynamicTrajectory& d, const std::string& name, const V3& p) {
  return waitFor([&] {
    for (auto& e : listOf(d)) if (e.getName() == name && (e.getCurrentPosition() - p).norm() != 0) return false;
    return true;
  }, 20);
}

static void checkList(DynamicTrajectory& d, const std::vector<Wp>& m, const std::string& how) {
  List l = listOf(d);
  bool same = l.size() == m.size();
  for (size_t i = 0; same && i < l.size(); ++i)
    same = l[i].getName() == m[i].name && l[i].getTime() == m[i].T && (l[i].getOriginalPosition() - m[i].orig).norm() == 0 && (l[i].getCurrentPosition() - m[i].cur).norm() == 0;
  vf::count("lists_checked");
  if (!same) {
    std::string a, b;
    for (auto& w : l) a += fmt("%s@%.9g %s<-%s ", w.getName().c_str(), w.getTime(), show(w.getCurrentPosition()).c_str(), show(w.getOriginalPosition()).c_str());
    for (auto& w : m) b += fmt("%s@%.9g %s<-%s ", w.name.c_str(), w.T, show(w.cur).c_str(), show(w.orig).c_str());
    vf::viol("C19.list", fmt("%s: waypoints are %s, expected %s", how.c_str(), a.c_str(), b.c_str()));
  }
}

static void runCase(vf::Ctx& x) {
  vf::Rng& g = x.rng;
  vf::evaluated();
  Jitter delayed(g, 0.25);
  tc_ns = (long)(g.logu(5e-4, 0.06) * 1e9);
  DynamicTrajectory d;
  double speed = g.logu(0.7, 6);
  d.setSpeed(speed);
  V3 p(g.normal() * 5, g.normal() * 5, g.normal() * 2);
  d.updateVehiclePosition(p);
  auto w = route(g, p, g.i(2, 6), "w", speed * g.logu(0.7, 3));
  if (g.p(0.2)) w[g.i(0, (int)w.size() - 1)].setName("w0");  // one name, two waypoints
  if (g.p(0.2)) w[g.i(0, (int)w.size() - 1)].setName("");
  d.setWaypoints(w);
  float t = (float)g.uni(0.005, 0.05);
  at(d, t, false);
  if (!settle(d, t)) { vf::viol("C19.generated", "no trajectory within 25 s"); return; }
  int plans = g.i(1, 3);
  std::string log;
  for (int plan = 0; plan < plans; ++plan) {
    double comp = d.getTimeCompensation();
    if (comp < 0) vf::count("negative_compensations");
    std::vector<Wp> m;
    double tmin = d.getMinTime(), tmax = d.getMaxTime();
    for (auto& e : listOf(d)) {
      m.push_back({e.getName(), e.getTime(), e.getOriginalPosition(), e.getCurrentPosition(), {}});
      VF_EXPECT((e.getOriginalPosition() - e.getCurrentPosition()).norm() == 0, "C19.fresh", "a new trajectory's waypoint %s is at %s, originally %s", e.getName().c_str(), show(e.getCurrentPosition()).c_str(), show(e.getOriginalPosition()).c_str());
    }
    std::vector<Base> base;
    for (auto& e : m) base.push_back({(double)(float)(e.T - comp), {}, 0});
    for (int i = 0; i < 12; ++i) base.push_back({(double)(float)g.uni(tmin - comp - 0.5, tmax - comp + 0.5), {}, 0});
    for (auto& b : base) b.r = at(d, b.t);
    int steps = g.i(1, 5);
    for (int s = 0; s < steps; ++s) {
      if (g.p(0.6)) { t = (float)std::max(g.uni(std::max(tmin, 0.001), tmin + 0.9 * (tmax - tmin)) - (comp < 0 || g.p(0.3) ? comp : 0), 0.002 - comp); at(d, t, false); log += fmt("at %.4g; ", t); }
      int what = g.i(0, 9);
      std::string name = m[g.i(0, (int)m.size() - 1)].name;
      if (what == 0) name = "nobody";
      if (name == "stitching_point") continue;
      V3 q(0, 0, 0);
      bool any = false;
      for (auto& e : m) if (e.name == name && name != "") { q = e.cur; any = true; }
      for (int i = 0; i < 3; ++i) q[i] += g.p(0.15) ? 0 : g.p(0.15) ? g.uni(-0.019, 0.019) : g.normal() * g.logu(0.05, 2);
      log += fmt("move '%s' by; ", name.c_str());
      d.getWasTrajectoryRegenerated();
      VF_EXPECT(!d.getWasTrajectoryRegenerated(), "C19.reported_once", "%s: something is reported twice", log.c_str());
      if (g.p(0.3) && any) { V3 far = q + V3(3, 3, 3); if (g.p(0.5)) d.modifyWaypoint("nobody", far, false); }
      d.modifyWaypoint(name, q, false);
      bool ok = any ? takenOver(d, name, q) : lookedAround();
      VF_EXPECT(ok, "C19.taken_over", "%s: move of '%s' not taken over within 20 s", log.c_str(), name.c_str());
      if (!ok) return;
      if (any && (s + 1 < steps || g.p(0.5))) VF_EXPECT(waitFor([&] { return d.getWasTrajectoryRegenerated(); }, 20), "C19.reported", "%s: a move of %s is not reported", log.c_str(), name.c_str());
      else if (!any) VF_EXPECT(!d.getWasTrajectoryRegenerated(), "C19.reported_nothing", "%s: a move of nothing is reported", log.c_str());
      vf::count(any ? "moves" : "moves_of_nothing");
      if (any) for (auto& e : m) if (e.name == name) {
        double sg = (e.T - ((double)t + comp)) / 3;
        V3 dd = q - e.cur;
        e.bumps.push_back({dd, sg});
        if (sg <= 0) vf::count("moves_of_passed_waypoints");
        e.cur = q;
      }
      VF_EXPECT(atRest(d), "C19.no_generation", "%s: a trajectory is generated though none was asked for", log.c_str());
      checkList(d, m, log);
      compare(d, m, base, comp, log);
      vf::distinct(fmt("%s %.17g", log.c_str(), tmax));
    }
    if (x.idx < 3) vf::sample(log);
    // another trajectory takes the moved waypoints over
    if (plan + 1 < plans) {
      t = (float)(tmin + g.uni(0.0, 0.4) * (tmax - tmin));
      if (t <= 0.001f) t = 0.001f;
      at(d, t, false);
      // waypoints that lie ahead and their names
      // (references are given for the compensated time)
      std::vector<std::pair<std::string, V3>> want;
      std::set<std::string> here;
      for (auto& e : m) if (e.T > t + comp + 1e-9 && e.name != "" && e.name != "stitching_point") { want.push_back({e.name, e.cur}); here.insert(e.name); }
      int how = g.i(0, 2);
      std::vector<std::pair<std::string, V3>> moved;
      for (auto& nm : here) if (g.p(0.5)) {
        V3 q(0, 0, 0);
        for (auto& e : want) if (e.first == nm) q = e.second;
        q += V3(g.normal(), g.normal(), g.normal()) * 0.5;
        for (auto& e : want) if (e.first == nm) e.second = q;
        moved.push_back({nm, q});
      }
      if (moved.empty()) how = 0;
      log += fmt("plan anew %d at %.4g moving %zu; ", how, t, moved.size());
      bool late = g.p(0.4);  // time goes on while it is generated
      if (late) closeGate();
      if (how == 0) {
        for (auto& q : moved) d.modifyWaypoint(q.first, q.second, g.p(0.5));
        V3 q = m.back().cur + V3(g.normal(), g.normal(), 0.1 * g.normal()).normalized() * speed * 2;
        std::string nm = fmt("n%d", plan);
        d.appendWaypoint(waypoint(q, nm));
        want.push_back({nm, q});
      } else if (how == 1) d.modifyWaypoints(moved);
      else for (auto& q : moved) d.modifyWaypoint(q.first, q.second, true);
      if (late) {
        if (waitFor([&] { return blocked > 0; }, 0.3)) { t += (float)g.uni(0, 1.2); at(d, t, false); vf::count("generations_held"); log += fmt("until %.4g; ", t); }
        openGate();
      }
      // taken over, or refused for as long as the vehicle stays here
      bool zone = false;
      waitFor([&] {
        // nothing new can be reported while a trajectory is being generated
        if (d.getComputingNewTrajectoryStatus() && g.p(0.5)) {
          bool first = d.getWasTrajectoryRegenerated(), again = d.getWasTrajectoryRegenerated();
          if (first) vf::count("reports_read_during_generation");
          VF_EXPECT(!again, "C19.reported_once", "%s: something is reported twice", log.c_str());
        }
        at(d, t, true);
        if (!d.getGenerateNewTraj()) return true;
        if (d.getComputingNewTrajectoryStatus() || !lookedAround()) return false;
        return zone = d.getGenerateNewTraj() && !d.getComputingNewTrajectoryStatus();
      }, 25);
      if (zone) {
        // shortly before a waypoint no trajectory is generated, but the moves count at once
        bool ok = true;
        for (auto& q : moved) ok = ok && takenOver(d, q.first, q.second);
        VF_EXPECT(ok, "C19.zone", "%s: moves close to a waypoint not taken over within 20 s", log.c_str());
        if (!ok) return;
        vf::count("moves_close_to_waypoint", moved.size());
      }
      if (zone) { t = -30; at(d, t, false); }  // leave the zone, all waypoints ahead again
      bool ok = settle(d, t);
      VF_EXPECT(ok, "C19.generated", "%s: no trajectory within 25 s", log.c_str());
      if (!ok) return;
      if (zone) { vf::count("generated_after_zone"); }
      List l = owned(listOf(d));
      // what lay ahead lies ahead now, in order and where it was moved to
      size_t k = 0;
      for (auto& e : l) if (k < want.size() && e.getName() == want[k].first && (e.getCurrentPosition() - want[k].second).norm() == 0 && (e.getOriginalPosition() - want[k].second).norm() == 0) ++k;
      vf::count("positions_kept", k);
      if (k < want.size()) {
        std::string a, b;
        for (auto& e : l) a += e.getName() + show(e.getOriginalPosition()) + " ";
        for (auto& e : want) b += e.first + show(e.second) + " ";
        vf::viol("C19.kept", fmt("%s: the new trajectory has %s, expected %s", log.c_str(), a.c_str(), b.c_str()));
      }
      for (auto& e : l) {
        References r = at(d, e.getTime() - d.getTimeCompensation());
        double tol = 1e-3 * (1 + r.velocity.norm()) + 1e-5 * (1 + std::abs(e.getTime())) * r.velocity.norm();
        if ((r.position - e.getOriginalPosition()).norm() > tol) vf::viol("C19.kept_reached", fmt("%s: %s lies at %s, the reference at its time is %s", log.c_str(), e.getName().c_str(), show(e.getOriginalPosition()).c_str(), show(r.position).c_str()));
      }
      if (t < 0.001f) { t = 0.001f; at(d, t, false); }
    }
  }
}
int main(int argc, char** argv) { begin(argv[0]); return vf::drive(argc, argv, "C19", runCase); }
