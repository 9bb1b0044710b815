// C22: one generator used by several threads.
#include "dt.hpp"
using namespace dt;
using vf::fmt;

struct Shared {
  std::mutex m;
  std::vector<V3> positions;  // every position ever asked for
  void add(const V3& p) { std::lock_guard<std::mutex> l(m); positions.push_back(p); }
  double distance(const V3& p) {
    std::lock_guard<std::mutex> l(m);
    double d = 1e300;
    for (auto& q : positions) d = std::min(d, (p - q).norm());
    return d;
  }
};

static void runCase(vf::Ctx& x) {
  vf::Rng& g = x.rng;
  vf::evaluated();
  Jitter delayed(g, 0.6, true);
  tc_ns = (long)(g.logu(2e-4, 3e-3) * 1e9);
  DynamicTrajectory d;
  Shared sh;
  double speed = g.logu(1, 5);
  d.setSpeed(speed);
  V3 p(g.normal(), g.normal(), g.normal());
  d.updateVehiclePosition(p);
  bool flying = g.p(0.3);
  DynamicWaypoint::Vector w = route(g, p, g.i(1, 3), "w", speed * 2);
  for (auto& q : w) sh.add(q.getOriginalPosition());
  V3 last = w.back().getOriginalPosition();
  std::atomic<bool> stop{false}, calm{false};
  std::atomic<long> evals{0}, asks{0}, reads{0}, swaps{0};
  std::vector<std::thread> th;
  int appenders = g.i(1, 2), each = g.i(1, 3), flyers = g.i(1, 2), readers = g.i(1, 2), movers = g.i(0, 2);
  bool before = g.p(0.5);  // threads begin before the first trajectory exists
  if (!before) { d.setWaypoints(w); at(d, 0.01, false); }
  std::atomic<int> working{0};
  std::vector<uint64_t> seeds;
  for (int i = 0; i < 16; ++i) seeds.push_back(g.u64());
  int sn = 0;
  auto flyer = [&](uint64_t s, bool plot) {
    user_thread = true;
    vf::Rng r(s);
    double t = 0.01;
    while (!stop) {
      int k = r.i(0, 5);
      bool forPlot = plot || k == 0;
      double tt = k == 1 ? 1e6 : t;
      if (k == 1) forPlot = true;
      References ref;
      ref.position = ref.velocity = ref.acceleration = V3::Zero();
      d.evaluateTrajectory((float)tt, ref, k == 2, forPlot);
      ++evals;
      if (!ref.position.allFinite() || (k != 2 && !finite(ref))) vf::viol("C22.finite", fmt("reference at %.9g not finite", tt));
      if (k == 1) {
        double e = sh.distance(ref.position);
        if (e > 1e-3 || ref.velocity.norm() > 1e-2) vf::viol("C22.torn", fmt("the reference after the end, %s moving at %.3g, is %.3g from every waypoint ever asked for", show(ref.position).c_str(), ref.velocity.norm(), e));
      }
      if (flying && t < 1.0) t += 0.002;
      // right before a waypoint, also one of stitching, no trajectory is generated
      if (!flying && calm && t < 0.4 && d.getGenerateNewTraj() && !d.getComputingNewTrajectoryStatus()) t += 0.001;
      if (calm) realSleep(2000000); else if (r.p(0.5)) realSleep(r.i(1, 300) * 1000L);
    }
  };
  auto appender = [&](uint64_t s, int id) {
    user_thread = true;
    vf::Rng r(s);
    for (int i = 0; i < each; ++i) {
      V3 q = last + V3(r.normal(), r.normal(), r.normal()) * speed * 2 + V3(10 + id, 0, 0);
      sh.add(q);
      d.appendWaypoint(waypoint(q, fmt("a%d_%d", id, i)));
      ++asks;
      realSleep(r.i(1, 30000) * 1000L);
    }
    --working;
  };
  auto mover = [&](uint64_t s, int id) {
    user_thread = true;
    vf::Rng r(s);
    for (int i = 0; i < 4; ++i) {
      std::string nm = fmt("a%d_%d", r.i(0, appenders - 1), r.i(0, each - 1));
      V3 q = last + V3(r.normal(), r.normal(), r.normal()) * speed * 2 + V3(10, id, 0);
      sh.add(q);
      int k = r.i(0, 3);
      if (k == 0) d.modifyWaypoint(nm, q, true);
      else if (k == 1) d.modifyWaypoint(nm, q, false);
      else { V3 q2 = q + V3(1, 1, 1); sh.add(q2); d.modifyWaypoints({{nm, q}, {fmt("a0_%d", r.i(0, each - 1)), q2}}); }
      ++asks;
      realSleep(r.i(1, 20000) * 1000L);
    }
    --working;
  };
  auto reader = [&](uint64_t s) {
    user_thread = true;
    vf::Rng r(s);
    while (!stop) {
      switch (r.i(0, 11)) {
        case 0: { auto l = d.getDynamicWaypoints(); for (size_t i = 1; i < l.size(); ++i) if (!(l[i].getTime() > l[i - 1].getTime())) vf::viol("C22.list", "times of the list do not increase"); break; }
        case 1: { auto l = d.getNextTrajectoryWaypoints(); for (size_t i = 1; i < l.size(); ++i) if (!(l[i].getTime() > l[i - 1].getTime())) vf::viol("C22.list", "times of the waypoints ahead do not increase"); break; }
        case 2: if (d.getRemainingWaypoints() < 0) vf::viol("C22.remaining", "negative number of waypoints"); break;
        case 3: { double v = d.getMaxTime(); if (!std::isfinite(v)) vf::viol("C22.finite", "end not finite"); break; }
        case 4: { double v = d.getMinTime(); if (!std::isfinite(v)) vf::viol("C22.finite", "start not finite"); break; }
        case 5: { double v = d.getTimeCompensation(); if (!std::isfinite(v)) vf::viol("C22.finite", "compensation not finite"); break; }
        case 6: { double v = d.getSpeed(); if (v != speed) vf::viol("C22.speed", fmt("speed %g", v)); break; }
        case 7: if (d.getWasTrajectoryRegenerated()) ++swaps; break;
        case 8: d.getGenerateNewTraj(); break;
        case 9: d.getComputingNewTrajectoryStatus(); break;
        case 10: d.setSpeed(speed); break;
        default: d.updateVehiclePosition(p + V3(r.normal(), r.normal(), r.normal()) * 0.01); break;
      }
      ++reads;
      if (calm) realSleep(2000000); else if (r.p(0.5)) realSleep(r.i(1, 300) * 1000L);
    }
  };
  working = appenders + movers;
  for (int i = 0; i < flyers; ++i) th.emplace_back(flyer, seeds[sn++], i > 0);
  for (int i = 0; i < readers; ++i) th.emplace_back(reader, seeds[sn++]);
  if (before) d.setWaypoints(w);
  for (int i = 0; i < appenders; ++i) th.emplace_back(appender, seeds[sn++], i);
  for (int i = 0; i < movers; ++i) th.emplace_back(mover, seeds[sn++], i);
  bool done = waitFor([&] { return working == 0; }, 60);
  calm = true;  // locks are not fair: without pauses a thread may wait for ever
  bool rest = done && waitFor([&] { return atRest(d); }, flying ? 5 : 60);
  stop = true;
  for (auto& t : th) t.join();
  vf::count("evaluations_by_threads", evals);
  vf::count("requests_by_threads", asks);
  vf::count("reads_by_threads", reads);
  vf::count("regenerations_seen", swaps);
  VF_EXPECT(done, "C22.stuck", "threads making requests do not finish");
  if (!rest) { VF_EXPECT(flying, "C22.unfinished", "requests of threads are not fulfilled within 60 s (%s%s); compensation %.4g, from %.4g: %s", d.getGenerateNewTraj() ? "asked " : "", d.getComputingNewTrajectoryStatus() ? "generating" : "", d.getTimeCompensation(), d.getMinTime(), names(listOf(d)).c_str()); vf::count("close_to_waypoint"); return; }
  lookedAround();
  // exactly once, in each thread's order
  std::map<std::string, int> n;
  std::string order;
  std::vector<int> seen(appenders, 0);
  bool inorder = true;
  for (auto& q : owned(listOf(d))) {
    ++n[q.getName()];
    order += q.getName() + " ";
    int id, i;
    if (sscanf(q.getName().c_str(), "a%d_%d", &id, &i) == 2) { inorder = inorder && seen[id] == i; ++seen[id]; }
  }
  vf::distinct(order + fmt("%.9g", d.getMaxTime()));
  if (x.idx < 3) vf::sample(fmt("%d flying, %d reading, %d appending, %d moving: %s", flyers, readers, appenders, movers, order.c_str()));
  bool once = true;
  for (auto& c : n) once = once && c.second == 1;
  bool all = true;
  for (int i = 0; i < appenders; ++i) all = all && seen[i] == each;
  if (!flying) { for (auto& q : w) all = all && n.count(q.getName()); }
  vf::count("appended_by_threads", appenders * each);
  VF_EXPECT(once && inorder && all, "C22.exactly_once", "appended by threads (%d times %d): %s", appenders, each, order.c_str());
}
int main(int argc, char** argv) { begin(argv[0]); return vf::drive(argc, argv, "C22", runCase); }
