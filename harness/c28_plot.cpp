// C28: the plotter shows the trajectories, their waypoints and the vehicle.
#include <atomic>
#include "dt.hpp"
#include "matplotlibcpp.h"
#include "dynamic_trajectory_generator/utils/plotting_utils.hpp"
using namespace dt;
using vf::fmt;
typedef std::vector<double> Vec;

// What a call of plotTraj has to add to the figures.
struct Drawn { Vec t, x, y, z, wt, wx, wy, wz; double from, to; std::map<double, V3> at; };
struct Update { double t; References r; };

static std::atomic<unsigned> lingerSeed{1};
static void lingering(const char* where) {
  // the drawing thread is slow at random places
  unsigned s = lingerSeed.fetch_add(0x9E3779B9u);
  s ^= s >> 13; s *= 0x5bd1e995u; s ^= s >> 15;
  if (where[0] == 'p' && where[1] == 'a') { realSleep(100000); return; }  // pause
  int r = s % 16;
  if (r < 3) realSleep(1000L * (20 + (s >> 8) % 400));
}

static bool same(const plt::Curve& c, const Vec& x, const Vec& y, const Vec* z) { return c.x == x && c.y == y && (!z || c.z == *z); }
static std::string size(const plt::Curve& c) { return fmt("%zu points%s ", c.x.size(), c.line ? " in a line" : ""); }

// the state of the screen: everything that has to be there is
static std::string missing(long number, const std::vector<Drawn>& have, const Update* last) {
  auto& s = plt::screen();
  std::lock_guard<std::mutex> l(s.m);
  plt::Figure &f3 = s.figures[number * 3], &f2 = s.figures[number * 3 + 1];
  std::vector<plt::Curve> c3;
  for (auto& a : f3.axes) for (auto& c : a.second.curves) if (c.space) c3.push_back(c);
  std::vector<plt::Curve> c2[3];
  for (int i = 0; i < 3; ++i) c2[i] = f2.axes[i + 1].curves;
  // the first line stays, the latest three trajectories are complete
  for (size_t i = 0; i < have.size(); ++i) {
    bool first = i == 0 && have.size() > 3, recent = i + 3 >= have.size();
    if (!first && !recent) continue;
    const Drawn& d = have[i];
    const Vec* v[3] = {&d.x, &d.y, &d.z};
    const Vec* w[3] = {&d.wx, &d.wy, &d.wz};
    bool line = false, points = false;
    std::string colour;
    for (auto& c : c3) if (c.line && same(c, d.x, d.y, &d.z)) { line = true; colour = c.colour; }
    for (auto& c : c3) if (!c.line && c.colour == colour && same(c, d.wx, d.wy, &d.wz)) points = true;
    if (!line) return fmt("line of trajectory %zu of %zu in space", i, have.size());
    if (!first && !points) return fmt("waypoints of trajectory %zu of %zu in space", i, have.size());
    for (int k = 0; k < 3; ++k) {
      line = points = false;
      for (auto& c : c2[k]) if (c.line && same(c, d.t, *v[k], nullptr)) line = true;
      for (auto& c : c2[k]) if (!c.line && same(c, d.wt, *w[k], nullptr)) points = true;
      if (!line) return fmt("axis %d over time of trajectory %zu of %zu", k, i, have.size());
      if (!first && !points) return fmt("waypoints over time of trajectory %zu of %zu, axis %d", i, have.size(), k);
    }
  }
  if (last) {
    const V3& p = last->r.position;
    bool seen = false;
    for (auto& c : c3) if (!c.line && same(c, Vec{p[0]}, Vec{p[1]}, nullptr) && c.z == Vec{p[2]}) seen = true;
    if (!seen) return "vehicle in space";
    for (int k = 0; k < 3; ++k) {
      seen = false;
      for (auto& c : c2[k]) if (!c.line && same(c, Vec{last->t}, Vec{p[k]}, nullptr)) seen = true;
      if (!seen) return fmt("vehicle over time, axis %d", k);
    }
  }
  size_t most = 2 * have.size() + 1;
  if (have.size() > 4) most = 9;  // the first, three more complete ones and the vehicle
  if (c3.size() > most) return fmt("only %zu curves (%zu drawn after %zu trajectories)", most, c3.size(), have.size());
  return "";
}
struct Look {
  long number;
  // quietly waits until the screen shows it, without touching the plotter
  bool shows(const std::vector<Drawn>& have, const Update* last, const std::string& log) {
    std::string m;
    bool ok = waitFor([&] { return (m = missing(number, have, last)).empty(); }, 12);
    vf::count("screens_compared");
    if (!ok) vf::viol("C28.shown", fmt("%s: not on the screen: %s", log.c_str(), m.c_str()));
    return ok;
  }
};

static void runCase(vf::Ctx& x) {
  vf::Rng& g = x.rng;
  vf::evaluated();
  tc_ns = (long)(g.logu(1e-3, 5e-3) * 1e9);
  auto& scr = plt::screen();
  { std::lock_guard<std::mutex> l(scr.m); scr.figures.clear(); scr.current = 0; scr.shown = scr.blocked = scr.closed = 0; }
  lingerSeed = (unsigned)g.u64();
  scr.delay = lingering;
  std::string log;
  DynamicTrajectory d;
  double speed = g.logu(1, 5);
  d.setSpeed(speed);
  V3 p(g.normal() * 5, g.normal() * 5, g.normal());
  d.updateVehiclePosition(p);
  auto w = route(g, p, g.i(1, 4), "w", speed);
  d.setWaypoints(w);
  float t = (float)g.uni(0, 0.1);
  at(d, t, false);
  if (!settle(d, t)) { vf::viol("C28.generated", "no trajectory"); return; }
  long number = g.i(1, 6);
  // the plotter lives where something else was
  std::vector<char> room(sizeof(TrajectoryPlotter) + 64, (char)g.i(0, 1));
  char* where = (char*)(((uintptr_t)room.data() + 63) / 64 * 64);
  std::memset(where, g.p(0.5) ? 1 : 0, sizeof(TrajectoryPlotter));
  TrajectoryPlotter* plotter = new (where) TrajectoryPlotter(number);
  std::vector<Drawn> have;
  std::vector<Update> updates;
  Look look{number};
  int ops = g.i(2, 12), added = 0;
  bool good = true;
  for (int k = 0; k < ops && good; ++k) {
    int op = have.empty() ? 0 : g.i(0, 5);
    if (op <= 1) {  // another trajectory, or the same again
      if (!have.empty() && g.p(0.6)) {
        V3 q = listOf(d).back().getCurrentPosition() + V3(g.normal(), g.normal(), 0).normalized() * speed;
        t = (float)(d.getMinTime() + 0.01);
        at(d, t, false);
        if (g.p(0.6)) d.appendWaypoint(waypoint(q, fmt("a%d", added++)));
        else d.setWaypoints(route(g, q, g.i(1, 3), fmt("s%d_", added++), speed));
        if (!waitFor([&] { at(d, t, false); return atRest(d); }, 4)) {
          waitFor([&] { at(d, t, false); return !d.getComputingNewTrajectoryStatus(); }, 25);
          t -= 50; at(d, t, false); settle(d, t); }
        log += "new ";
      } else if (!have.empty() && g.p(0.4)) {  // a moved waypoint
        List l = owned(listOf(d));
        if (!l.empty()) {
          auto& m = l[g.i(0, (int)l.size() - 1)];
          V3 q = m.getCurrentPosition() + V3(g.normal(), g.normal(), g.normal());
          at(d, t, false);
          d.modifyWaypoint(m.getName(), q, false);
          waitFor([&] { for (auto& e : listOf(d)) if (e.getName() == m.getName() && (e.getCurrentPosition() - q).norm() == 0) return true; return false; }, 10);
          log += "move ";
        }
      }
      double comp = d.getTimeCompensation();
      int ahead = d.getRemainingWaypoints();
      double a = d.getMinTime(), b = d.getMaxTime();
      plotter->plotTraj(d);
      log += "plot ";
      vf::count("trajectories_plotted");
      VF_EXPECT(d.getTimeCompensation() == comp && d.getRemainingWaypoints() == ahead && d.getMinTime() == a && d.getMaxTime() == b && atRest(d), "C28.disturbed", "%s: plotting changed the trajectory", log.c_str());
      Drawn n;
      n.from = a;
      n.to = b;
      for (auto& q : listOf(d)) { V3 c = q.getCurrentPosition(); n.wt.push_back(q.getTime()); n.wx.push_back(c[0]); n.wy.push_back(c[1]); n.wz.push_back(c[2]); }
      // the times are read off the screen and judged, then the values
      std::string why = "no line over time";
      bool found = waitFor([&] {
        std::lock_guard<std::mutex> l(scr.m);
        auto& c = scr.figures[number * 3 + 1].axes[1].curves;
        for (auto& q : c) if (q.line) {
          bool old = false;
          for (auto& h : have) old |= h.t == q.x && h.x == q.y;
          if (old) continue;
          n.t = q.x;
          return true;
        }
        // the same trajectory again: its line is there twice
        for (size_t i = have.size(); i-- > 0;) if (have[i].from == a && have[i].to == b) { n.t = have[i].t; return true; }
        return false;
      }, 12);
      if (!found) { vf::viol("C28.shown", fmt("%s: the line of a plotted trajectory is not on the screen", log.c_str())); good = false; break; }
      bool grid = !n.t.empty() && std::abs(n.t[0] - a) < 1e-9 * (1 + std::abs(a));
      for (size_t i = 1; grid && i < n.t.size(); ++i) grid = n.t[i] > n.t[i - 1] && n.t[i] - n.t[i - 1] < 0.1 + 1e-9 * (1 + std::abs(a));
      if (grid) grid = n.t.back() <= b + 1e-9 && n.t.back() > b - 0.2001;
      if (b - a < 0.11) grid = true;
      if (!grid) { vf::viol("C28.grid", fmt("%s: trajectory from %.9g to %.9g, line of %zu points from %.9g to %.9g", log.c_str(), a, b, n.t.size(), n.t.empty() ? 0 : n.t.front(), n.t.empty() ? 0 : n.t.back())); good = false; break; }
      for (double s : n.t) { V3 q = at(d, s).position; n.x.push_back(q[0]); n.y.push_back(q[1]); n.z.push_back(q[2]); vf::count("points_compared"); }
      have.push_back(n);
    } else {  // the vehicle flies on
      int m = g.p(0.5) ? 1 : g.i(2, 8);
      for (int i = 0; i < m; ++i) {
        Update u;
        t += (float)g.uni(0, 0.02);
        u.t = t;
        d.evaluateTrajectory(t, u.r);
        plotter->setUAVposition(u.r, u.t);
        updates.push_back(u);
        vf::count("vehicle_updates");
        if (g.p(0.5)) realSleep(g.i(1, 300) * 1000L);
      }
      log += fmt("fly%d ", m);
    }
    if (g.p(0.6)) good = look.shows(have, updates.empty() ? nullptr : &updates.back(), log);
  }
  if (good && !have.empty()) good = look.shows(have, updates.empty() ? nullptr : &updates.back(), log);
  vf::distinct(log + fmt("%.17g", d.getMaxTime()));
  if (x.idx < 3) vf::sample(log);
  // ---- the end: references over time, then the drawing thread is gone -------------
  plotter->~TrajectoryPlotter();
  std::lock_guard<std::mutex> l(scr.m);
  VF_EXPECT(scr.blocked == 1, "C28.end", "%s: figures held open %ld times", log.c_str(), scr.blocked);
  Vec ts;
  for (auto& u : updates) ts.push_back(u.t);
  for (int i = 0; i < 3; ++i) {
    Vec v[3];
    for (auto& u : updates) for (int k = 0; k < 3; ++k) v[k].push_back(u.r[i][k]);
    // one of the figures has, in one axes, all three curves
    bool found = false;
    static const char* name[3] = {"position", "velocity", "acceleration"};
    for (auto& f : scr.figures) {
      if (f.first == number * 3 || f.first == number * 3 + 1) continue;
      for (auto& a : f.second.axes) {
        if (a.second.title.find(name[i]) == std::string::npos) continue;
        bool all = true;
        for (int k = 0; k < 3; ++k) { bool one = false; for (auto& c : a.second.curves) one |= same(c, ts, v[k], nullptr); all &= one; }
        found |= all;
      }
    }
    vf::count("reference_plots");
    VF_EXPECT(found, "C28.references", "%s: the vehicle's %s over time (%zu points) is not plotted at the end", log.c_str(), name[i], ts.size());
  }
}
int main(int argc, char** argv) { begin(argv[0]); return vf::drive(argc, argv, "C28", runCase); }
