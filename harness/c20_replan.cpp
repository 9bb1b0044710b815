// C20: a trajectory generated in flight continues the one being flown.
#include "dt.hpp"
using namespace dt;
using vf::fmt;

struct Eval { double t; References r; };

static void runCase(vf::Ctx& x) {
  vf::Rng& g = x.rng;
  vf::evaluated();
  double tc = g.p(0.25) ? g.uni(0.08, 0.15) : g.logu(1e-3, 0.15);
  tc_ns = (long)(tc * 1e9);
  Jitter delayed(g, 0.4);
  DynamicTrajectory d;
  double speed = g.logu(0.7, 6);
  d.setSpeed(speed);
  V3 p(g.normal() * 5, g.normal() * 5, g.normal() * 2);
  d.updateVehiclePosition(p);
  int serial = 0;
  bool unnamed = g.p(0.3);
  nameless.clear();
  std::map<std::string, V3> fast;  // velocities asked for
  double leg = std::max(g.p(0.5) ? 10 * tc + 0.5 : 18 * tc + 0.5, g.logu(0.7, 3));  // seconds between waypoints, roughly
  auto route_ = [&](const V3& from, int n) {
    DynamicWaypoint::Vector w = route(g, from, n, "", speed * leg);
    for (auto& q : w) {
      q.setName(fmt("w%d", serial++));
      if (unnamed && g.p(0.4)) { q.setName(""); nameless.push_back(q.getOriginalPosition()); vf::count("waypoints_without_name"); }
      if (q.getName() != "" && g.p(0.15)) { q.setConstraint(1, fast[q.getName()] = V3(g.normal(), g.normal(), g.normal()) * 0.3 * speed); vf::count("waypoints_with_velocity"); }
    }
    return w;
  };
  d.setWaypoints(route_(p, g.i(2, 6)));
  float t = g.p(0.5) ? 0.f : (float)g.uni(0, 0.05);
  at(d, t, false);
  if (!settle(d, t)) { vf::viol("C20.generated", "no trajectory within 25 s"); return; }
  int rounds = g.i(1, 5);
  std::string log = fmt("tc %.3g speed %.3g; ", tc, speed);
  bool carry = false;  // nothing was evaluated since the trajectory was taken over
  float carried = 0;
  for (int k = 0; k < rounds; ++k) {
    double comp0 = d.getTimeCompensation(), tmin0 = d.getMinTime(), tmax0 = d.getMaxTime();
    List l0 = listOf(d);
    // a time from which no waypoint is close
    bool found = false;
    float t0 = 0;
    for (int i = 0; i < 30 && !found; ++i) {
      if (carry && i == 0) t0 = carried;
      else { t0 = (float)g.uni(tmin0 + std::max(0.0, 1e-3 - comp0), tmax0 - (g.p(0.7) ? comp0 : 0) + (g.p(0.3) ? k + 2 < rounds ? 3 : 0.5 : -0.2)); carry = false; }
      if (t0 <= 0.01f) t0 = 0.01f;
      found = true;
      for (auto& w : l0) if (w.getTime() > t0 + comp0 - 1e-3 && w.getTime() - t0 - comp0 < 10 * tc * 1.5 + 0.01) found = false;
      for (auto& w : l0) if (std::abs(w.getTime() - t0 - comp0) < 1e-3) found = false;
    }
    if (!found) { vf::count("no_time_far_from_waypoints"); return; }
    if (carry) { vf::count("requests_before_an_evaluation"); log += "at once "; }
    else at(d, t0, false);
    if (!carry && g.p(0.4)) {  // displaced references at the time of the request
      int n = g.i(1, 2);
      for (int i = 0; i < n; ++i) {
        auto l = owned(listOf(d));
        if (l.empty()) break;
        size_t which = g.i(0, (int)l.size() - 1);
        if (g.p(0.5)) for (size_t j = 0; j < l.size(); ++j) if (std::abs(l[j].getTime() - t0 - comp0) < std::abs(l[which].getTime() - t0 - comp0)) which = j;
        auto& w = l[which];
        double latest = std::min((double)t0, w.getTime() - comp0 - 0.3);
        if (w.getName() == "" || latest < std::max(0.01, tmin0)) continue;
        at(d, g.p(0.4) ? (float)latest : (float)std::max(0.01, g.uni(tmin0, latest)), false);
        V3 q = w.getCurrentPosition();
        if (g.p(0.5)) q += V3(g.normal(), g.normal(), g.normal()) * g.logu(0.1, 1);
        else q += at(d, t0).velocity * g.uni(0.2, 0.6) * g.sgn() + V3(g.normal(), g.normal(), g.normal()) * 0.05;
        if (w.getTime() < t0 + comp0) vf::count("passed_after_their_move");
        d.modifyWaypoint(w.getName(), q, false);
        std::string nm = w.getName();
        if (!waitFor([&] { for (auto& e : listOf(d)) if (e.getName() == nm && (e.getCurrentPosition() - q).norm() == 0) return true; return false; }, 20)) { vf::viol("C20.moved", "move not taken over"); return; }
        vf::count("displaced_requests");
        log += "moved " + nm + "; ";
      }
      at(d, t0, false);
    }
    l0 = listOf(d);
    V3 vehicle = at(d, t0).position + V3(g.normal(), g.normal(), g.normal()) * 0.05;
    d.updateVehiclePosition(vehicle);
    // ---- the request -----------------------------------------------------------
    DynamicWaypoint::Vector set, added;
    std::map<std::string, V3> moved;
    int what = g.i(0, 4);
    bool gate = g.p(0.6);
    std::vector<Eval> evals{{(double)t0, at(d, t0)}};
    if (gate) closeGate();
    bool flyOn = !gate && !carry && g.p(0.6);  // the vehicle flies on without waiting for anything
    double zone = 1e9;  // until the zone before the next waypoint
    for (auto& w : l0) if (w.getTime() > t0 + comp0) { zone = w.getTime() - t0 - comp0 - 10 * tc; break; }
    // a way that comes back to where the vehicle will be
    bool returns = what == 0 && gate && t0 + comp0 + 2 * tc < tmax0 && g.p(tc > 0.03 ? 0.9 : 0.2);
    if (returns) { vf::count("returning_ways"); set = route_(evals[0].r.position, g.i(0, 1)); auto last = route_(at(d, t0 + 2 * tc).position, 1); last[0].resetWaypoint(at(d, t0 + 2 * tc).position); if (last[0].getName() == "") nameless.push_back(last[0].getOriginalPosition()); set.push_back(last[0]); d.setWaypoints(set); }
    else if (what == 0) {
      // waypoints the generator reported, passed and moved ones too, may be asked for again
      if (g.p(0.4)) for (auto& w : owned(l0)) if (g.p(0.7)) set.push_back(w);
      if (g.p(0.3)) std::reverse(set.begin(), set.end());
      vf::count("waypoints_asked_again", set.size());
      for (auto& w : route_(set.empty() ? evals[0].r.position : set.back().getCurrentPosition(), g.i(set.empty() ? 1 : 0, 5))) set.push_back(w);
      d.setWaypoints(set);
      for (auto& w : set) w = waypoint(w.getCurrentPosition(), w.getName());
    }
    else if (what <= 2) { V3 e = l0.empty() ? p : l0.back().getCurrentPosition(); added = route_(e, 1);
      DynamicWaypoint::Vector gone;
      for (auto& w : owned(l0)) if (w.getTime() < t0 + comp0 - 0.01 && (w.getCurrentPosition() - e).norm() > 0.1) gone.push_back(w);
      if (!gone.empty() && g.p(0.4)) { added[0] = gone[g.i(0, (int)gone.size() - 1)]; vf::count("waypoints_asked_again"); }
      d.appendWaypoint(added[0]);
      added[0] = waypoint(added[0].getCurrentPosition(), added[0].getName());
    }
    else {
      std::vector<std::pair<std::string, V3>> mv;
      for (auto& w : owned(l0)) if (w.getName() != "" && w.getTime() > t0 + comp0 && g.p(0.6)) mv.push_back({w.getName(), w.getCurrentPosition() + V3(g.normal(), g.normal(), g.normal()) * 0.5});
      if (what == 4 && mv.size() > 1) mv.resize(1);
      for (auto& m : mv) moved[m.first] = m.second;
      if (mv.empty() || g.p(0.2)) { mv.clear(); moved.clear(); d.setWaypoints({}); vf::count("asked_without_waypoints"); }
      else if (what == 3) d.modifyWaypoints(mv);
      else for (auto& m : mv) d.modifyWaypoint(m.first, m.second, true);
    }
    log += fmt("request %d at %.4g%s; ", what, t0, gate ? " held" : "");
    float t1 = t0, flownTo = t0;
    V3 late = vehicle;  // where the vehicle is when the trajectory takes over
    if (gate) {
      // the generation stands still; the vehicle flies on along the old trajectory
      bool stands = waitFor([&] { return blocked > 0; }, 5);
      if (stands) vf::count("generations_held");
      int n = returns ? 0 : g.i(0, 5);
      double most = t0 + comp0 > tmax0 ? 6 * tc + g.uni(0, 2) : g.p(0.7) ? 2.5 * tc : 4 * tc;
      for (int i = 0; i < n; ++i) {
        t1 += (float)(g.uni(0, most / 5));
        References a = at(d, t1, true), b = at(d, t1, false);
        VF_EXPECT(err(a, b) == 0, "C20.old", "%s: old trajectory gives two references at %.9g", log.c_str(), (double)t1);
        evals.push_back({(double)t1, b});
      }
      if (returns) { t1 = (float)(t0 + 2 * tc); evals.push_back({(double)t1, at(d, t1, false)}); }
      List l = listOf(d);
      VF_EXPECT(!stands || names(l) == names(l0), "C20.early", "%s: list changed before the new trajectory was ready", log.c_str());
      if (g.p(0.5)) {  // the vehicle drifts meanwhile
        late = vehicle + V3(g.normal(), g.normal(), g.normal()) * g.logu(0.01, 0.5);
        d.updateVehiclePosition(late);
      }
      openGate();
    }
    References before, first;
    bool taken_over = false;
    if (flyOn) {
      // evaluations go on while the internal thread gets to its generation, up to
      // and into the zone before the next waypoint
      double pace = g.p(0.5) && zone < 20 ? zone * g.uni(0.1, 1.2) / 10 : g.logu(1e-4, 0.02);
      for (int i = 0; i < 12 && !taken_over && t1 - t0 < std::min(3.0, zone + 2 * tc); ++i) {
        realSleep(g.i(1, 400) * 1000L);
        float tn = t1 + (float)(g.uni(0, 2) * pace);
        References r = at(d, tn, false);
        if (atRest(d)) { taken_over = true; first = r; }
        else evals.push_back({(double)tn, r});
        if (!taken_over) t1 = tn;
        else flownTo = tn;
      }
      vf::count("flown_on_while_requested");
      // it may have come close to a waypoint, where the request waits
      for (size_t i = 0; i < l0.size() && !taken_over; ++i) {
        if (l0[i].getTime() < t1 + comp0) continue;
        long p0 = idle;
        waitFor([&] { return !d.getGenerateNewTraj() || d.getComputingNewTrajectoryStatus() || idle > p0 + 8; }, 5);
        if (!d.getGenerateNewTraj() || d.getComputingNewTrajectoryStatus()) break;
        vf::count("flown_on_past_a_waypoint");
        float tn = (float)(l0[i].getTime() - comp0 + 2e-3);
        References r = at(d, tn, false);
        if (atRest(d)) { taken_over = true; first = r; flownTo = tn; }
        else { evals.push_back({(double)tn, r}); t1 = tn; }
      }
    }
    // ---- the swap --------------------------------------------------------------
    before = evals.back().r;
    float t2 = t1;
    int how = g.i(0, 2);
    bool ok = true;
    carry = false;
    bool nothing = set.empty() && added.empty();
    for (auto& w : owned(l0)) if (w.getTime() > t0 + comp0) nothing = false;
    bool rest = false;  // points of an earlier continuation lie ahead, none of the user's
    for (auto& w : l0) if (w.getTime() > t0 + comp0) rest = true;
    bool over = flyOn && !taken_over && set.empty() && added.empty();  // all may have been passed before the generation began
    for (auto& w : owned(l0)) if (w.getTime() > t1 + comp0) over = false;
    if (over && !nothing) {
      vf::count("flown_to_the_end_meanwhile");
      if (!settle(d, t1)) { vf::viol("C20.generated", fmt("%s: no trajectory within 25 s", log.c_str())); return; }
      continue;
    }
    if (nothing && taken_over) continue;
    if (nothing && rest) {
      vf::count("only_continuation_left_to_fly");
      if (!settle(d, t1)) { vf::viol("C20.generated", fmt("%s: no trajectory within 25 s", log.c_str())); return; }
      continue;
    }
    if (nothing) {  // all waypoints passed: no trajectory to be flown
      vf::count("nothing_left_to_fly");
      VF_EXPECT(settle(d, t1) && lookedAround() && d.getMinTime() == tmin0 && d.getMaxTime() == tmax0, "C20.nothing", "%s: a trajectory without waypoints: evaluated %.9g to %.9g, old from %.9g to %.9g with %s, now from %.9g to %.9g", log.c_str(), (double)t0, (double)t1, tmin0, tmax0, names(l0).c_str(), d.getMinTime(), d.getMaxTime());
      continue;
    }
    if (taken_over) {
      t2 = flownTo;
      how = 0;
    } else if (how == 0) {  // evaluating at the same time until it changes
      ok = settle(d, t1);
      if (ok) { t2 = t1 + (g.p(0.5) ? 0.f : (float)g.uni(0, 0.05)); first = at(d, t2, false); }
    } else {
      if (how == 1) ok = waitFor([&] { d.getDynamicWaypoints(); return atRest(d); }, 25);
      else ok = waitFor([&] { References r; d.evaluateTrajectory((float)g.uni(tmin0, tmax0), r, g.p(0.5), true); return atRest(d); }, 25);
      if (ok && (carry = t0 + comp0 > tmax0 || g.p(0.3))) { carried = t2 = t1; first = at(d, t2, true); }
      else if (ok) { t2 = t1 + (g.p(0.5) ? 0.f : (float)g.uni(0, 0.05)); first = at(d, t2, false); }
    }
    if (!ok) { vf::viol("C20.generated", fmt("%s: no trajectory within 25 s", log.c_str())); return; }
    vf::count(fmt("swapped_by_%s", how == 0 ? "evaluation" : how == 1 ? "list" : "plot"));
    // ---- what it must be ---------------------------------------------------------
    double comp = d.getTimeCompensation(), tmin = d.getMinTime(), tmax = d.getMaxTime();
    List l = listOf(d);
    vf::distinct(fmt("%.17g %.17g", tmin, tmax));
    int at_ = -1;
    for (size_t i = 0; i < evals.size(); ++i) if (std::abs(evals[i].t - tmin) < 1e-9) at_ = i;
    if (at_ < 0) { vf::viol("C20.begin", fmt("%s: trajectory begins at %.9g, which was not evaluated since the request (%.9g to %.9g)", log.c_str(), tmin, (double)t0, (double)t1)); return; }
    References r0 = evals[at_].r;
    double left = tmax0 - tmin - comp0;
    bool mustStitch = left > 8 * tc + 0.02, mustScratch = left < 0;
    bool stitched = l.size() >= 2 && l[0].getName() == "stitching_point";
    if (mustStitch) VF_EXPECT(stitched, "C20.stitched", "%s: with %.4g s left the new trajectory does not continue the old: %s", log.c_str(), left, names(l).c_str());
    if (mustScratch) VF_EXPECT(!stitched, "C20.scratch", "%s: stitched to a trajectory that is over", log.c_str());
    vf::count(stitched ? "stitched" : "from_scratch");
    // waypoints
    List want;
    if (!set.empty()) want.assign(set.begin(), set.end());
    else {
      for (auto& w : owned(l0)) if (w.getTime() > tmin + comp0) {
        DynamicWaypoint q = waypoint(moved.count(w.getName()) ? moved[w.getName()] : w.getCurrentPosition(), w.getName());
        want.push_back(q);
      }
      for (auto& q : added) want.push_back(q);
    }
    List o = owned(l);
    bool same = o.size() == want.size();
    for (size_t i = 0; same && i < o.size(); ++i) same = o[i].getName() == want[i].getName() && (o[i].getOriginalPosition() - want[i].getOriginalPosition()).norm() == 0 && (o[i].getCurrentPosition() - want[i].getOriginalPosition()).norm() == 0;
    vf::count("lists_checked");
    vf::count("waypoints_kept", want.size());
    if (!same) {
      std::string a, b;
      for (auto& w : o) a += w.getName() + show(w.getOriginalPosition()) + " ";
      for (auto& w : want) b += w.getName() + show(w.getOriginalPosition()) + " ";
      vf::viol("C20.list", fmt("%s: new trajectory has %s, expected %s; evaluated %.9g, begins at %.9g, old list %s(compensation %.9g), new list %s", log.c_str(), a.c_str(), b.c_str(), (double)t1, tmin, names(l0).c_str(), comp0, names(l).c_str()));
    }
    bool up = true;
    for (size_t i = 0; i < l.size(); ++i) up = up && l[i].getIndex() == (int)i && (i == 0 || l[i].getTime() > l[i - 1].getTime());
    VF_EXPECT(up && std::abs(l[0].getTime() - tmin) < 1e-9 && std::abs(l.back().getTime() - tmax) < 1e-9 * (1 + tmax), "C20.times", "%s: times and indices of the new trajectory from %.9g to %.9g: %s", log.c_str(), tmin, tmax, names(l).c_str());
    // continues with the references of the request
    double jerk = 0, vmax = 0;
    References lastr;
    for (int i = 0; i <= 60; ++i) {
      References r = at(d, tmin - comp + i * 0.02);
      if (!finite(r)) { vf::viol("C20.finite", fmt("%s: reference not finite", log.c_str())); return; }
      if (i) jerk = std::max(jerk, (r.acceleration - lastr.acceleration).norm() / 0.02);
      lastr = r;
    }
    double span = 3 * tc + 0.5 + (t2 - t1);
    for (int i = 0; i <= 80; ++i) vmax = std::max(vmax, at(d, tmin - comp + span * i / 80).velocity.norm());
    References s = at(d, tmin - comp);
    double eps = 1.2e-7 * (1 + std::abs(tmin) + std::abs(comp));
    if (stitched) {
      double tp = 1e-5 * (1 + r0.position.norm() * 0.1) + 3 * eps * (r0.velocity.norm() + s.velocity.norm()), tv = 1e-4 * (1 + r0.velocity.norm()) + 3 * eps * (r0.acceleration.norm() + s.acceleration.norm()), ta = 1e-3 * (1 + r0.acceleration.norm()) + 4 * eps * jerk;
      // a move may displace the old references before its trajectory is generated
      for (auto& w : l0) if (w.getName() != "" && moved.count(w.getName())) {
        double dd = (moved[w.getName()] - w.getCurrentPosition()).norm(), sg = (w.getTime() - tmin - comp0) / 3, z = -3, e = std::exp(-z * z / 2) * dd * 1.05;
        tp += e;
        tv += e * std::abs(z) / sg;
        ta += e * std::abs(z * z - 1) / (sg * sg);
      }
      vf::count(moved.empty() ? "continuations" : "continuations_with_moves");
      vf::maxv("start_position_error_over_tolerance", (s.position - r0.position).norm() / tp);
      vf::maxv("start_velocity_error_over_tolerance", (s.velocity - r0.velocity).norm() / tv);
      vf::maxv("start_acceleration_error_over_tolerance", (s.acceleration - r0.acceleration).norm() / ta);
      if ((s.position - r0.position).norm() > tp || (s.velocity - r0.velocity).norm() > tv || (s.acceleration - r0.acceleration).norm() > ta)
        vf::viol("C20.start", fmt("%s: requested at %s / %s / %s, the new trajectory starts with %s / %s / %s", log.c_str(), show(r0.position).c_str(), show(r0.velocity).c_str(), show(r0.acceleration).c_str(), show(s.position).c_str(), show(s.velocity).c_str(), show(s.acceleration).c_str()));
    } else {
      VF_EXPECT(std::min((s.position - vehicle).norm(), (s.position - late).norm()) < 1e-4 * (1 + vehicle.norm()) && s.velocity.norm() < 1e-2 && s.acceleration.norm() < 1, "C20.scratch_start", "%s: vehicle at %s, the new trajectory starts at %s / %s / %s", log.c_str(), (show(vehicle) + " or " + show(late)).c_str(), show(s.position).c_str(), show(s.velocity).c_str(), show(s.acceleration).c_str());
    }
    // and does not jump away from where it was evaluated last
    V3 from = stitched ? before.position : late;
    double nearest = 1e300, where = 0, low = 1e300, high = 0;
    const int G = 300;
    std::vector<double> dist(G + 1), quick(G + 1);
    for (int i = 0; i <= G; ++i) {
      References r = at(d, tmin - comp + 3 * tc * i / G);
      dist[i] = (r.position - from).norm();
      quick[i] = r.velocity.norm();
      if (dist[i] <= nearest) { nearest = dist[i]; where = 3 * tc * i / G; }
    }
    // it is taken up at most two steps of a tenth after a time about nearest to the vehicle
    double vnear = 0;
    for (int i = 0; i <= G; ++i) if (std::abs(3 * tc * i / G - where) <= 0.11) vnear = std::max(vnear, quick[i]);
    for (int i = 0; i <= G; ++i) if (dist[i] <= nearest + 0.1 * vnear + 1e-3) { low = std::min(low, 3 * tc * i / G); high = 3 * tc * i / G; }
    double taken = t2 + comp - tmin, slackT = 4 * eps + 3 * tc / G;
    vf::count(stitched ? "take_over_times" : "take_over_times_from_scratch");
    if (taken < low - slackT || taken > high + 0.15 + (t2 - t1) + slackT)
      vf::viol("C20.fit", fmt("%s: %s at take-over, nearest to the new trajectory %.4g to %.4g s after its start; first reference %.4g s after it", log.c_str(), show(from).c_str(), low, high, taken));
    nearest = 1e300;
    for (int i = 0; i <= 100; ++i) nearest = std::min(nearest, (at(d, tmin - comp + 2.9 * tc * i / 100).position - from).norm());
    double jump = (first.position - from).norm(), allowed = nearest + vmax * (0.2 + (t2 - t1)) * 1.05 + 1e-3;
    vf::count("first_references");
    vf::maxv("jump_over_allowed", jump / allowed);
    if (jump > allowed) vf::viol("C20.jump", fmt("%s: evaluated last at %.9g: %s; first reference of the new trajectory (at %.9g, begun %.9g, compensation %.6g) %s is %.4g m away, allowed %.4g", log.c_str(), (double)t1, show(from).c_str(), (double)t2, tmin, comp, show(first.position).c_str(), jump, allowed));
    // every waypoint is passed
    for (auto& w : o) {
      References r = at(d, w.getTime() - comp);
      vf::count("waypoints_reached");
      bool end = std::abs(w.getTime() - tmax) < 1e-9 * (1 + tmax);
      if (end || fast.count(w.getName())) {
        V3 v = end ? V3(0, 0, 0) : fast[w.getName()];
        vf::count(end ? "ends_at_rest" : "velocities_reached");
        double tv = 1e-4 * (1 + v.norm() + speed) + 4 * eps * (1 + tmax / (1 + std::abs(tmin))) * (1 + r.acceleration.norm() + jerk);
        if ((r.velocity - v).norm() > tv) vf::viol("C20.velocity", fmt("%s: %s is to be passed with %s, is with %s", log.c_str(), w.getName().c_str(), show(v).c_str(), show(r.velocity).c_str()));
      }
      if ((r.position - w.getOriginalPosition()).norm() > 1e-3 + 4 * eps * (1 + tmax / (1 + std::abs(tmin))) * r.velocity.norm()) vf::viol("C20.reached", fmt("%s: %s at %s, reference at its time %s", log.c_str(), w.getName().c_str(), show(w.getOriginalPosition()).c_str(), show(r.position).c_str()));
    }
    // time evaluated last is kept
    double last = t2;
    auto next = d.getNextTrajectoryWaypoints();
    size_t ahead = 0;
    for (auto& w : l) if (w.getTime() > last) ++ahead;
    VF_EXPECT(next.size() == ahead, "C20.last_time", "%s: evaluated last at %.9g, %zu waypoints ahead, %zu reported: %s", log.c_str(), last, ahead, next.size(), names(l).c_str());
    if (x.idx < 2) vf::sample(log + names(l));
  }
}
int main(int argc, char** argv) { begin(argv[0]); return vf::drive(argc, argv, "C20", runCase); }
