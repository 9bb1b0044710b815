// C23: a generator can be destroyed at any moment.
#include <dirent.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#include "dt.hpp"
using namespace dt;
using vf::fmt;

static int threads() {
  int n = 0;
  DIR* d = opendir("/proc/self/task");
  while (dirent* e = readdir(d)) if (e->d_name[0] != '.') ++n;
  closedir(d);
  return n;
}

static const char* PHASES[] = {"unused", "configured", "requested", "beginning", "optimising", "generated", "flown", "requested_again", "second_beginning", "second_optimising", "close_to_waypoint", "moved", "over", "asked_for_nothing"};

static void life(vf::Rng& g, int phase) {
  openGate();
  tc_ns = (long)((phase == 10 ? 0.3 : g.logu(5e-4, 3e-3)) * 1e9);
  int before = threads();
  auto d = std::make_unique<DynamicTrajectory>();
  double speed = g.logu(1, 5);
  V3 p(g.normal(), g.normal(), g.normal());
  auto w = route(g, p, g.i(1, 3), "w", speed * 2);
  auto again = [&] {
    int k = g.i(0, 3);
    if (k == 0) d->setWaypoints(route(g, p, 2, "x", speed * 2));
    else if (k == 1) d->appendWaypoint(waypoint(p + V3(5, 5, 5) * speed, "y"));
    else if (k == 2) d->modifyWaypoint("w0", p + V3(3, 1, 1) * speed, true);
    else d->modifyWaypoints({{"w0", p + V3(3, 1, 1) * speed}});
  };
  if (phase >= 1) { d->setSpeed(speed); d->updateVehiclePosition(p); }
  if (phase >= 3 && phase <= 4) closeGate();
  if (phase >= 2 && phase != 13) d->setWaypoints(w);
  if (phase == 13) d->setWaypoints({});
  if (phase == 2 && g.p(0.5)) realSleep(g.i(1, 2000) * 1000L);
  if (phase == 3 || phase == 4) {
    VF_EXPECT(waitFor([] { return blocked > 0; }, 10), "C23.began", "no generation begins");
    if (phase == 4) { long q = passes; step(); waitFor([&] { return passes > q; }, 5); waitFor([] { return blocked > 0; }, 10); }
  }
  if (phase == 5) { long q = optimisations; (void)q; realSleep(g.i(1, 200) * 1000000L); }
  if (phase >= 6 && phase != 13) {
    at(*d, 0.01, false);
    settle(*d, 0.01f);
    if (g.p(0.5)) { d->getDynamicWaypoints(); d->getMaxTime(); }
  }
  if (phase == 7) { again(); if (g.p(0.7)) realSleep(g.i(1, 3000) * 1000L); }
  if (phase == 8 || phase == 9) {
    closeGate();
    again();
    waitFor([] { return blocked > 0; }, 1);
    if (phase == 9) { long q = passes; step(); waitFor([&] { return passes > q; }, 2); waitFor([] { return blocked > 0; }, 2); }
    if (g.p(0.4)) again();
  }
  if (phase == 10) { d->appendWaypoint(waypoint(p + V3(9, 9, 9) * speed, "z")); lookedAround(); }
  if (phase == 11) { d->modifyWaypoint("w0", p + V3(2, 1, 1), false); if (g.p(0.5)) realSleep(500000); }
  if (phase == 12) at(*d, 1000, false);
  // the end; a generation that stands still goes on while the end waits for it
  std::thread opener;
  bool held = gated;
  if (held) opener = std::thread([] { user_thread = true; realSleep(3000000); openGate(); });
  double t0 = realNow();
  d.reset();
  double took = realNow() - t0;
  if (held) opener.join();
  long a = passes + idle + optimisations;
  vf::maxv("destruction_s", took);
  bool gone = waitFor([&] { return threads() <= before; }, 3);
  realSleep(300000);
  VF_EXPECT(gone, "C23.threads", "destroyed while %s: %d threads before, %d after", PHASES[phase], before, threads());
  VF_EXPECT(passes + idle + optimisations == a, "C23.active", "destroyed while %s: still at work afterwards", PHASES[phase]);
  vf::count(fmt("destroyed_%s", PHASES[phase]));
  vf::count("lives");
}

static void runCase(vf::Ctx& x) {
  vf::Rng& g = x.rng;
  vf::evaluated();
  Jitter delayed(g, 0.6, true);
  int phase = g.i(0, 13);
  uint64_t s = g.u64();
  size_t bytes[3];
  for (int i = 0; i < 3; ++i) {
    vf::Rng r(s);
    life(r, phase);
    bytes[i] = __sanitizer_get_current_allocated_bytes();
  }
  // the same life again leaves nothing behind
  long g1 = (long)bytes[1] - (long)bytes[0], g2 = (long)bytes[2] - (long)bytes[1];
  vf::maxv("growth", std::min(g1, g2));
  VF_EXPECT(std::min(g1, g2) < 64, "C23.leak", "each life while %s leaves %ld bytes behind", PHASES[phase], std::min(g1, g2));
  // several at a time, destroyed in any order
  if (g.p(0.2)) {
    std::vector<std::unique_ptr<DynamicTrajectory>> v;
    for (int i = 0; i < 3; ++i) {
      v.emplace_back(new DynamicTrajectory);
      v.back()->setSpeed(2);
      if (g.p(0.7)) v.back()->setWaypoints(route(g, V3(0, 0, 0), 2, "w", 4));
    }
    int k = g.i(0, 2);
    v.erase(v.begin() + k);
    if (g.p(0.5)) realSleep(g.i(1, 50) * 1000000L);
    v.clear();
    vf::count("several");
  }
  vf::distinct(fmt("%d %llx", phase, (unsigned long long)s));
  if (x.idx < 3) vf::sample(fmt("three times created and destroyed while %s", PHASES[phase]));
}
int main(int argc, char** argv) {
  begin(argv[0]);
  std::thread([] { user_thread = true; }).join();  // a sanitizer may start a thread of its own with the first one
  return vf::drive(argc, argv, "C23", runCase);
}
