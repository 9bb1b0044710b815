// C21: every request has its effect, whenever it comes.
#include "dt.hpp"
using namespace dt;
using vf::fmt;

struct Wish { std::string name; V3 pos; };
struct User {
  vf::Rng& g;
  DynamicTrajectory d;
  std::vector<Wish> L;  // what was asked for
  std::string log, phase = "idle";
  int serial = 0;
  double speed;
  float t = 0.01f;  // the time being evaluated; the next waypoint is ahead of it
  bool unnamed = false;  // some waypoints have no name
  explicit User(vf::Rng& g_) : g(g_) {}

  std::vector<Wish> fresh(const V3& from, int n) {
    std::vector<Wish> w;
    for (auto& q : route(g, from, n, "", speed * 1.5)) {
      w.push_back({fmt("w%d", serial++), q.getOriginalPosition()});
      if (unnamed && g.p(0.4)) { w.back().name = ""; nameless.push_back(w.back().pos); vf::count("waypoints_without_name"); }
    }
    return w;
  }
  V3 end() { return L.empty() ? V3(0, 0, 0) : L.back().pos; }
  void ask(const char* op) {
    log += fmt("%s[%s] ", op, phase.c_str());
    vf::count(fmt("%s_%s", op, phase.c_str()));
  }
  // a request that needs a trajectory is pending or being generated, unless the
  // user has taken the trajectory over, which only evaluating does
  void mustBePending(const char* op) {
    if (!(d.getGenerateNewTraj() || d.getComputingNewTrajectoryStatus())) vf::viol("C21.pending", fmt("%s: after %s nothing is reported to be requested or generated", log.c_str(), op));
  }
  void request() {
    int op = g.i(0, 9);
    std::vector<int> named;
    for (size_t i = 0; i < L.size(); ++i) if (L[i].name != "") named.push_back(i);
    if (named.empty()) op = g.i(0, 3);
    if (op <= 1) {
      ask("set");
      std::vector<Wish> was = L;
      L = fresh(g.p(0.5) ? end() : V3(g.normal(), g.normal(), g.normal()) * 5, g.i(1, 4));
      // names may come again: earlier moves are not about the new waypoints
      if (!was.empty() && g.p(0.4)) {
        std::vector<std::string> free_;
        for (auto& w : was) if (w.name != "") free_.push_back(w.name);
        for (auto& w : L) if (w.name != "" && !free_.empty() && g.p(0.6)) { int k = g.i(0, (int)free_.size() - 1); w.name = free_[k]; free_.erase(free_.begin() + k); vf::count("names_used_again"); }
      }
      DynamicWaypoint::Vector v;
      for (auto& w : L) v.push_back(waypoint(w.pos, w.name));
      d.setWaypoints(v);
      mustBePending("set");
    } else if (op <= 4) {
      ask("append");
      Wish w = fresh(end(), 1)[0];
      L.push_back(w);
      d.appendWaypoint(waypoint(w.pos, w.name));
      mustBePending("append");
    } else if (op == 9) {
      ask("modifyAll");
      std::vector<std::pair<std::string, V3>> m;
      for (auto& w : L) if (w.name != "" && g.p(0.6)) { w.pos += V3(g.normal(), g.normal(), g.normal()) * 0.4; m.push_back({w.name, w.pos}); }
      if (g.p(0.2)) m.push_back({g.p(0.5) ? "nobody" : "", V3(1, 2, 3)});
      d.modifyWaypoints(m);
      mustBePending("modifyWaypoints");
    } else {
      bool regenerate = op <= 6;
      ask(regenerate ? "modify" : "move");
      auto& w = L[named[g.i(0, (int)named.size() - 1)]];
      w.pos += V3(g.normal(), g.normal(), g.normal()) * 0.4;
      d.modifyWaypoint(w.name, w.pos, regenerate);
      if (regenerate) mustBePending("modifyWaypoint");
    }
  }
  bool matches(bool original, std::string* what = nullptr) {
    List o = owned(listOf(d));
    bool same = o.size() == L.size();
    for (size_t i = 0; same && i < L.size(); ++i) same = o[i].getName() == L[i].name && ((original ? o[i].getOriginalPosition() : o[i].getCurrentPosition()) - L[i].pos).norm() == 0;
    if (what) {
      *what = "has ";
      for (auto& w : o) *what += w.getName() + show(original ? w.getOriginalPosition() : w.getCurrentPosition()) + " ";
      *what += "asked ";
      for (auto& w : L) *what += w.name + show(w.pos) + " ";
    }
    return same;
  }
  // eventually what was asked for is what is flown
  bool fulfilled(const char* when) {
    long i0 = -1;
    bool close = false, ok = false;
    waitFor([&] {
      at(d, t, false);
      ok = atRest(d) && matches(false);
      // asked for and not begun though looked at: close to a waypoint
      if (d.getGenerateNewTraj() && !d.getComputingNewTrajectoryStatus()) { if (i0 < 0) i0 = idle; close = idle > i0 + 5; }
      else i0 = -1;
      return ok || close;
    }, 8);
    if (!ok) {
      t -= 100;
      ok = waitFor([&] { at(d, t, false); return atRest(d) && matches(false); }, 8);
      if (ok) vf::count("fulfilled_far_from_waypoints");
    }
    std::string w;
    if (!ok) {
      bool rest = atRest(d);
      matches(false, &w);
      vf::viol(rest ? "C21.lost" : "C21.never", fmt("%s (%s): the trajectory %s%s; evaluated %.9g, begun %.9g, compensation %.6g, tc %.3g, jitter %d: %s", log.c_str(), when, w.c_str(), rest ? "" : ", still being generated", (double)t, d.getMinTime(), d.getTimeCompensation(), tc_ns * 1e-9, (int)jitter, names(listOf(d)).c_str()));
      return false;
    }
    // nothing changes any more
    lookedAround();
    at(d, t, false);
    if (!matches(false, &w) || !atRest(d)) { vf::viol("C21.later", fmt("%s (%s): fulfilled, then the trajectory %s", log.c_str(), when, w.c_str())); return false; }
    vf::count("fulfilled");
    vf::count("wishes_fulfilled", L.size());
    return true;
  }
};

static void runCase(vf::Ctx& x) {
  vf::Rng& g = x.rng;
  vf::evaluated();
  bool zoneCase = g.p(0.3);
  tc_ns = (long)((zoneCase ? g.logu(0.05, 0.3) : g.logu(1e-3, 4e-3)) * 1e9);
  Jitter delayed(g, 0.5, true);
  User u(g);
  nameless.clear();
  u.unnamed = g.p(zoneCase ? 0.6 : 0.3);
  u.speed = g.logu(1, 5);
  u.d.setSpeed(u.speed);
  u.d.updateVehiclePosition(V3(g.normal(), g.normal(), g.normal()));
  // ---- the first trajectory, perhaps asked for in several steps -----------------
  bool early = g.p(0.5);
  if (early) closeGate();
  int n = g.i(1, 3);
  for (int i = 0; i < n; ++i) {
    u.request();
    if (early && g.p(0.6)) { if (waitFor([&] { return blocked > 0; }, 5)) u.phase = "first_generation"; }
  }
  if (early) {
    if (g.p(0.5)) { step(); waitFor([&] { return blocked > 0; }, 0.5); if (g.p(0.7)) u.request(); }
    openGate();
  }
  u.phase = "idle";
  at(u.d, u.t, false);
  if (!u.fulfilled("first")) return;
  // ---- requests at every phase of later generations ------------------------------
  int rounds = g.i(1, 4);
  for (int k = 0; k < rounds; ++k) {
    int how = g.i(0, 5);
    u.log += "| ";
    if (how == 0) {  // one after the other, no evaluation between
      u.phase = "burst";
      int m = g.i(2, 6);
      for (int i = 0; i < m; ++i) { u.request(); if (g.p(0.3)) realSleep(g.i(1, 400) * 1000L); }
    } else if (how == 1) {  // evaluating all the time
      u.phase = "evaluating";
      int m = g.i(2, 6);
      for (int i = 0; i < m; ++i) {
        u.request();
        int e = g.i(0, 6);
        for (int j = 0; j < e; ++j) { at(u.d, u.t, g.p(0.3)); realSleep(g.i(1, 3000) * 1000L); }
      }
    } else if (how <= 4) {  // while a generation stands still at its beginning and at its end
      closeGate();
      u.phase = "before";
      u.request();
      bool standing = waitFor([&] { return blocked > 0; }, zoneCase ? 0.2 : 3);
      if (standing) {
        u.phase = "beginning";
        int m = g.i(1, 3);
        for (int i = 0; i < m; ++i) u.request();
        if (g.p(0.4)) { at(u.d, u.t, false); VF_EXPECT(u.d.getComputingNewTrajectoryStatus(), "C21.status", "%s: a generation under way is not reported", u.log.c_str()); }
        long p0 = passes;
        step();
        waitFor([&] { return passes > p0; }, 5);
        standing = waitFor([&] { return blocked > 0; }, 10);
        if (standing) {
          u.phase = "middle";
          m = g.i(0, 3);
          for (int i = 0; i < m; ++i) u.request();
          if (g.p(0.4)) at(u.d, u.t, false);
          openGate();
          u.phase = "generated";
          if (g.p(0.6)) { realSleep(3000000); u.request(); }
        }
      } else u.phase = "close";
      openGate();
      if (g.p(0.5)) u.request();
    } else if (zoneCase) {  // close to a waypoint: requests wait
      u.phase = "close";
      List l = owned(listOf(u.d));
      double T = 0;
      for (auto& w : l) if (w.getTime() > u.t + 0.2) { T = w.getTime(); break; }
      float tz = (float)(T - u.d.getTimeCompensation() - g.uni(0.01, 5 * tc_ns * 1e-9));
      // only if this passes no waypoint
      bool first = !l.empty() && l[0].getTime() == T && tz > u.t;
      if (first) { u.t = tz; at(u.d, u.t, false); }
      int m = g.i(1, 5);
      for (int i = 0; i < m; ++i) { u.request(); if (g.p(0.5)) lookedAround(); if (g.p(0.3)) at(u.d, u.t, false); }
      if (first) {
        bool waits = !waitFor([&] { at(u.d, u.t, true); return atRest(u.d); }, 0.02);
        if (waits) vf::count("waiting_close_to_waypoint");
      }
      u.t -= 50;  // away from it
    } else {
      u.phase = "idle";
      u.request();
    }
    if (!u.fulfilled("round")) { openGate(); return; }
    vf::distinct(u.log);
    if (g.p(0.3)) {  // what was moved stays where it is when everything is planned anew
      u.t -= 100;
      at(u.d, u.t, false);
      u.d.setWaypoints({});
      u.log += "anew ";
      if (!u.fulfilled("anew")) return;
      std::string w;
      VF_EXPECT(u.matches(true, &w), "C21.anew", "%s: planned anew the trajectory %s", u.log.c_str(), w.c_str());
      vf::count("planned_anew");
    }
  }
  if (x.idx < 3) vf::sample(u.log);
}
int main(int argc, char** argv) { begin(argv[0]); return vf::drive(argc, argv, "C21", runCase); }
