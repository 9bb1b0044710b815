// C22: threads that watch a generator while another one changes its trajectory,
// one change at a time.
#include "dt.hpp"
using namespace dt;
using vf::fmt;

struct Report { List ahead; };
struct Look { int kind; References r; std::string list; double v; };

static std::string text(const List& l) {
  std::string s;
  for (auto& e : l) s += fmt("%s@%.17g:%s/%s;", e.getName().c_str(), e.getTime(), show(e.getOriginalPosition()).c_str(), show(e.getCurrentPosition()).c_str());
  return s;
}
static bool suffix(const std::string& s, const std::string& of) {
  return s.size() <= of.size() && of.compare(of.size() - s.size(), s.size(), s) == 0 && (s.size() == of.size() || of[of.size() - s.size() - 1] == ';' || s.empty());
}
struct State {
  References r;
  std::string list;
  double end, start;
  State(DynamicTrajectory& d, double t) : r(at(d, t)), list(text(listOf(d))), end(d.getMaxTime()), start(d.getMinTime()) {}
};

static bool equal(const References& a, const References& b) {
  auto near = [](const V3& p, const V3& q) { return (p - q).norm() <= 1e-9 * (1 + p.norm() + q.norm()); };
  return near(a.position, b.position) && near(a.velocity, b.velocity) && near(a.acceleration, b.acceleration);
}

static void runCase(vf::Ctx& x) {
  vf::Rng& g = x.rng;
  vf::evaluated();
  tc_ns = (long)(g.logu(2e-4, 3e-3) * 1e9);
  DynamicTrajectory d;
  double speed = g.logu(1, 5);
  d.setSpeed(speed);
  V3 p(g.normal(), g.normal(), g.normal());
  d.updateVehiclePosition(p);
  auto w = route(g, p, g.i(3, 5), "w", speed * 2);
  V3 last = w.back().getOriginalPosition();
  d.setWaypoints(w);
  double T = 0.01;
  if (!settle(d, T)) { vf::count("not_settled"); return; }
  if (!lookedAround()) { vf::count("not_settled"); return; }
  VF_EXPECT(d.getWasTrajectoryRegenerated(), "C22.reported", "the first trajectory is not reported");
  VF_EXPECT(!d.getWasTrajectoryRegenerated(), "C22.reported", "the first trajectory is reported twice");

  std::mutex m;
  std::vector<Report> reports;      // under m
  std::atomic<long> told{0}, polls{0};
  std::atomic<bool> stop{false};
  std::atomic<double> probe{-1};    // time the looker evaluates at, or none
  std::vector<Look> looked;         // under m
  std::atomic<long> looks{0};
  int pause = g.p(0.5) ? 0 : g.i(1, 40);
  std::thread poller([&] {
    user_thread = true;
    while (!stop) {
      ++polls;
      if (d.getWasTrajectoryRegenerated()) {
        Report r;
        r.ahead = d.getNextTrajectoryWaypoints();
        std::lock_guard<std::mutex> l(m);
        reports.push_back(std::move(r));
        ++told;
      } else if (pause) realSleep(pause * 1000L);
    }
  });
  std::thread looker([&] {
    user_thread = true;
    while (!stop) {
      double t = probe;
      if (t < 0) { realSleep(100000); continue; }
      Look r;
      r.kind = (int)(looks % 8) - 3;
      if (r.kind <= 0) r.r = at(d, t);
      else if (r.kind == 1) r.list = text(listOf(d));
      else if (r.kind == 2) { auto l = d.getNextTrajectoryWaypoints(); r.list = text(List(l.begin(), l.end())); }
      else if (r.kind == 3) r.v = d.getMaxTime();
      else r.v = d.getMinTime();
      {
        std::lock_guard<std::mutex> l(m);
        if (probe == t && looked.size() < 20000) looked.push_back(r);
      }
      ++looks;
      realSleep(20000);  // locks are not fair
    }
  });
  auto end = [&] { stop = true; poller.join(); looker.join(); };

  Jitter delayed(g, 0.7, true);
  std::string history;
  long want = 0;
  int n = g.i(2, 5), appended = 0;
  bool fine = true;
  for (int i = 0; i < n && fine; ++i) {
    List l = listOf(d);
    double comp = d.getTimeCompensation();
    int kind = g.i(0, 9);  // move, append, set
    bool set = kind > 7, append = kind > 4;
    int k = -1;
    if (!append) {
      std::vector<int> ahead;
      for (size_t j = 0; j < l.size(); ++j) if (own(l[j]) && l[j].getTime() > T + std::max(0.0, comp) + 0.3) ahead.push_back((int)j);
      if (ahead.empty()) append = true, set = false; else k = ahead[g.i(0, (int)ahead.size() - 1)];
    }
    // where a change shows best: around the waypoint moved, or anywhere
    double t = append ? T + g.uni(0, 1) * (l.back().getTime() - T) : l[k].getTime() - comp - g.uni(0, 0.6) * (l[k].getTime() - comp - T) / 3;
    t = (float)t;
    State before(d, t);
    { std::lock_guard<std::mutex> lk(m); looked.clear(); probe = t; }
    long had = looks;
    waitFor([&] { return looks > had + 9; }, 5);
    std::string name;
    V3 q;
    if (append) {
      q = last + V3(g.normal(), g.normal(), g.normal()).normalized() * g.uni(0.5, 2) * speed * 2;
      last = q;
      name = fmt("a%d", appended++);
      if (set) {
        DynamicWaypoint::Vector v;
        v.push_back(waypoint(q, name));
        int more = g.i(0, 2);
        for (int j = 0; j < more; ++j) {
          last += V3(g.normal(), g.normal(), g.normal()).normalized() * g.uni(0.5, 2) * speed * 2;
          v.push_back(waypoint(last, fmt("a%d", appended++)));
        }
        d.setWaypoints(v);
      } else d.appendWaypoint(waypoint(q, name));
    } else {
      name = l[k].getName();
      q = l[k].getCurrentPosition() + V3(g.normal(), g.normal(), g.normal()) * 0.7 + V3(0.05, 0.05, 0.05);
      if (l[k].getCurrentPosition() == last) last = q;
      d.modifyWaypoint(name, q, false);
    }
    history += (set ? "set " : append ? "append " : "move ") + name + " ";
    ++want;
    if (append) {
      bool done = waitFor([&] {
        at(d, T, false);
        // right before a waypoint, also one of stitching, no trajectory is generated
        if (d.getGenerateNewTraj() && !d.getComputingNewTrajectoryStatus() && told < want) T += 0.002;
        return atRest(d);
      }, 40);
      if (!done) { vf::count("not_settled"); fine = false; break; }
    }
    bool reported = waitFor([&] { return told >= want; }, 10);
    if (!reported) {
      bool there = false;
      for (auto& e : listOf(d)) if (e.getName() == name && (e.getCurrentPosition() - q).norm() == 0) there = true;
      if (there) vf::viol("C22.unreported", fmt("%s: the change came into effect and a thread that asks all the time (%ld times) is not told", history.c_str(), (long)polls));
      else vf::viol("C22.lost", fmt("%s: the change did not come into effect within 10 s: %s", history.c_str(), names(listOf(d)).c_str()));
      fine = false;
      break;
    }
    lookedAround(5);
    had = looks;
    waitFor([&] { return looks > had + 9; }, 5);
    State after(d, t);
    std::vector<Look> seen;
    { std::lock_guard<std::mutex> lk(m); probe = -1; seen.swap(looked); }
    vf::count("changes_reported");
    vf::count(set ? "set_anew" : append ? "appended" : "moved");
    if (told != want) { vf::viol("C22.reported", fmt("%s: %ld changes, %ld reports", history.c_str(), want, (long)told)); fine = false; break; }
    // whoever is told sees it
    {
      std::lock_guard<std::mutex> lk(m);
      bool shown = false;
      for (auto& e : reports.back().ahead) if (e.getName() == name && (e.getCurrentPosition() - q).norm() == 0) shown = true;
      if (!shown) { vf::viol("C22.early", fmt("%s: told of the change, a thread is still given the waypoints before it: %s", history.c_str(), names(reports.back().ahead).c_str())); fine = false; break; }
    }
    // every evaluation is that before or that after
    long old = 0, fresh = 0;
    for (auto& r : seen) {
      if (r.kind == 1 || r.kind == 2) {
        vf::count("lists_seen");
        bool fit = r.kind == 1 ? r.list == before.list || r.list == after.list : suffix(r.list, before.list) || suffix(r.list, after.list);
        if (fit) continue;
        vf::viol("C22.mixed_list", fmt("%s: a list %s that is neither part of that before, %s, nor of that after, %s", history.c_str(), r.list.c_str(), before.list.c_str(), after.list.c_str()));
        fine = false;
        break;
      }
      if (r.kind > 2) {
        vf::count("times_seen");
        double a = r.kind == 3 ? before.end : before.start, b = r.kind == 3 ? after.end : after.start;
        if (std::abs(r.v - a) <= 1e-9 * (1 + std::abs(a)) || std::abs(r.v - b) <= 1e-9 * (1 + std::abs(b))) continue;
        vf::viol("C22.mixed_time", fmt("%s: the %s is told as %.9g, before it was %.9g, after %.9g", history.c_str(), r.kind == 3 ? "end" : "start", r.v, a, b));
        fine = false;
        break;
      }
      if (equal(r.r, before.r)) { ++old; continue; }
      if (equal(r.r, after.r)) { ++fresh; continue; }
      vf::viol("C22.mixed", fmt("%s: at %.9g the reference %s %s %s is neither that before, %s %s %s, nor that after, %s %s %s", history.c_str(), t,
                                show(r.r.position).c_str(), show(r.r.velocity).c_str(), show(r.r.acceleration).c_str(),
                                show(before.r.position).c_str(), show(before.r.velocity).c_str(), show(before.r.acceleration).c_str(),
                                show(after.r.position).c_str(), show(after.r.velocity).c_str(), show(after.r.acceleration).c_str()));
      fine = false;
      break;
    }
    vf::count("references_before_a_change", old);
    vf::count("references_after_a_change", fresh);
  }
  end();
  vf::count("polls", polls);
  vf::distinct(history + fmt("%.9g", d.getMaxTime()));
  if (x.idx < 2) vf::sample(history);
}
int main(int argc, char** argv) { begin(argv[0]); return vf::drive(argc, argv, "C22", runCase); }
