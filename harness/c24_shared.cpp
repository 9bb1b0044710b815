// C24: trajectories shared between threads.
#include <thread>
#include "gen.hpp"
#include "dynamic_trajectory_generator/thread_safe_trajectory.hpp"
using vf::fmt;

struct Ref {  // a trajectory and what it must answer
  std::shared_ptr<mtg::Trajectory> traj;
  double tmax = 0;
  size_t segments = 0;
  double tag = 0;  // constant coefficient that tells trajectories apart
};

static Ref make(vf::Rng& g, int id) {
  Ref r;
  int K = g.i(1, 5), N = g.i(2, 8), D = g.i(1, 4);
  mtg::Segment::Vector s = gen::segments(g, K, N, D, true);
  r.tag = 1000.0 * (id + 1);
  // every segment constant in its first dimension: a reader knows whose value it got
  Eigen::VectorXd c = Eigen::VectorXd::Zero(N);
  c[0] = r.tag;
  for (auto& q : s) { q[0] = mtg::Polynomial(c); r.tmax += q.getTime(); }
  r.segments = K;
  r.traj = std::make_shared<mtg::Trajectory>();
  r.traj->setSegments(s);
  return r;
}
static ThreadSafeTrajectory wrap(const Ref& r) { auto p = r.traj; return ThreadSafeTrajectory(std::move(p)); }

static bool answers(const ThreadSafeTrajectory& t, const Ref& r, vf::Rng& g) {
  vf::count("objects_compared");
  if (t.getMinTime() != 0 || std::abs(t.getMaxTime() - r.tmax) > 1e-12 * r.tmax) return false;
  if (t.getSegments().size() != r.segments || t.getSegments() != r.traj->segments()) return false;
  mtg::Vertex::Vector a, b;
  b = t.getWaypoints();
  r.traj->getVertices(0, &a);
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (!a[i].isEqualTol(b[i], 1e-12)) return false;
  for (int i = 0; i < 4; ++i) {
    double s = g.uni(0, r.tmax);
    int k = g.i(0, 3);
    if (t.evaluate(s, k) != r.traj->evaluate(s, k)) return false;
    if (k == 0 && t.evaluate(s) != r.traj->evaluate(s, 0)) return false;
  }
  return true;
}

static void sequential(vf::Rng& g) {
  std::vector<Ref> refs;
  for (int i = 0; i < 3; ++i) refs.push_back(make(g, i));
  struct Slot { ThreadSafeTrajectory t; int id = -1; };
  std::vector<std::unique_ptr<Slot>> s;
  for (int i = 0; i < 3; ++i) s.emplace_back(new Slot);
  std::string log;
  int n = g.i(3, 14);
  for (int k = 0; k < n; ++k) {
    int a = g.i(0, 2), b = g.i(0, 2), r = g.i(0, 2), op = std::max(0, g.i(-2, 5));
    log += fmt("%d:%d,%d ", op, a, b);
    switch (op) {
      case 0: s[a]->t = wrap(refs[r]); s[a]->id = r; break;             // move assignment from a temporary
      case 1: s[a]->t = s[b]->t; s[a]->id = s[b]->id; break;             // also to itself
      case 2: { ThreadSafeTrajectory c(s[b]->t); s[a]->t = c; s[a]->id = s[b]->id; break; }
      case 3: { ThreadSafeTrajectory c(s[b]->t), e(std::move(c)); s[a]->t = e; s[a]->id = s[b]->id; break; }
      case 4: { std::unique_ptr<Slot> o(new Slot); o->t = s[b]->t; o->id = s[b]->id; s[a] = std::move(o); break; }
      default: { const ThreadSafeTrajectory& c = s[b]->t; ThreadSafeTrajectory e(c); s[a]->t = std::move(e); s[a]->id = s[b]->id; break; }
    }
    for (int i = 0; i < 3; ++i) {
      auto& t = s[i]->t;
      bool null = s[i]->id < 0;
      vf::count(null ? "empty" : "filled");
      VF_EXPECT((t == nullptr) == null && (t != nullptr) == !null, "C24.null", "%s: comparison with nullptr of %s object", log.c_str(), null ? "an empty" : "a filled");
      if (!null) VF_EXPECT(answers(t, refs[s[i]->id], g), "C24.value", "%s: object %d does not answer as its trajectory %d", log.c_str(), i, s[i]->id);
      for (int j = 0; j < 3; ++j) {
        bool same = s[i]->id == s[j]->id;
        vf::count("comparisons");
        VF_EXPECT((t == s[j]->t) == same && (t != s[j]->t) == !same, "C24.equal", "%s: objects %d (%d) and %d (%d) compare wrong", log.c_str(), i, s[i]->id, j, s[j]->id);
      }
    }
  }
  vf::distinct(log + fmt("%g", refs[0].tmax));
  // the trajectory lives as long as an object shares it
  std::weak_ptr<mtg::Trajectory> w = refs[0].traj;
  {
    ThreadSafeTrajectory a = wrap(refs[0]), b(a);
    for (auto& q : s) q->t = a;
    long users = w.use_count();
    VF_EXPECT(users >= 2, "C24.shared", "%ld users", users);
    refs[0].traj.reset();
    a = wrap(refs[1]);
    VF_EXPECT(!w.expired() && b.evaluate(0)[0] == refs[0].tag, "C24.alive", "trajectory gone while shared");
    vf::count("shared_life");
    for (auto& q : s) q->t = a;
    b = a;
  }
  VF_EXPECT(w.expired(), "C24.freed", "trajectory kept though nobody shares it");
}

static void concurrent(vf::Rng& g) {
  std::vector<Ref> refs;
  for (int i = 0; i < 4; ++i) refs.push_back(make(g, i));
  ThreadSafeTrajectory x = wrap(refs[0]), y = wrap(refs[1]);
  std::atomic<bool> stop{false};
  std::atomic<long> reads{0}, writes{0}, changes{0};
  auto known = [&](double tag) { for (auto& r : refs) if (r.tag == tag) return true; return false; };
  auto reader = [&](uint64_t seed) {
    vf::Rng r(seed);
    double lastTag = 0;
    while (!stop) {
      ThreadSafeTrajectory& o = r.p(0.5) ? x : y;
      switch (r.i(0, 6)) {
        case 0: { double v = o.evaluate(r.uni(0, 0.01))[0]; if (!known(v)) vf::viol("C24.torn", fmt("read %.9g", v)); if (v != lastTag) { ++changes; lastTag = v; } break; }
        case 1: { auto v = o.evaluate(0.005, 1); if (v[0] != 0) vf::viol("C24.torn", fmt("derivative %.9g", v[0])); break; }
        case 2: { double m = o.getMaxTime(); bool k = false; for (auto& q : refs) k = k || std::abs(q.tmax - m) < 1e-12 * m; if (!k || o.getMinTime() != 0) vf::viol("C24.torn", fmt("end at %.9g", m)); break; }
        case 3: { auto s = o.getSegments(); double tag = s[0][0].getCoefficients(0)[0]; bool k = false; for (auto& q : refs) k = k || (q.tag == tag && q.segments == s.size()); if (!k) vf::viol("C24.torn", "segments of no trajectory"); break; }
        case 4: { auto w = o.getWaypoints(); bool k = false; for (auto& q : refs) k = k || w.size() == q.segments + 1; if (!k) vf::viol("C24.torn", "waypoints of no trajectory"); break; }
        case 5: { ThreadSafeTrajectory c(o); double v = c.evaluate(0)[0]; if (!known(v) || c.evaluate(0)[0] != v || !(c == c) || c == nullptr) vf::viol("C24.torn", "a copy changes"); break; }
        default: { bool e = o == (r.p(0.5) ? x : y); bool n = o != nullptr; if (!n) vf::viol("C24.torn", "empty"); (void)e; break; }
      }
      ++reads;
    }
  };
  auto writer = [&](uint64_t seed) {
    vf::Rng r(seed);
    int n = 60;
    for (int i = 0; i < n; ++i) {
      switch (r.i(0, 4)) {
        case 0: x = wrap(refs[r.i(0, 3)]); break;
        case 1: y = wrap(refs[r.i(0, 3)]); break;
        case 2: x = y; break;
        case 3: y = x; break;
        default: { ThreadSafeTrajectory c(r.p(0.5) ? x : y); x = std::move(c); break; }
      }
      ++writes;
      if (r.p(0.3)) std::this_thread::yield();
    }
  };
  std::vector<std::thread> rd, wr;
  for (int i = 0, n = g.i(1, 4); i < n; ++i) rd.emplace_back(reader, g.u64());
  for (int i = 0, n = g.i(1, 3); i < n; ++i) wr.emplace_back(writer, g.u64());
  for (auto& t : wr) t.join();
  stop = true;
  for (auto& t : rd) t.join();
  vf::count("concurrent_reads", reads);
  vf::count("concurrent_writes", writes);
  vf::count("changes_seen", changes);
}

static void runCase(vf::Ctx& x) {
  vf::evaluated();
  sequential(x.rng);
  concurrent(x.rng);
  if (x.idx < 1) vf::sample("random copies, moves and assignments of three objects, then readers and writers on two objects");
}
int main(int argc, char** argv) { gen::quiet(argv[0]); return vf::drive(argc, argv, "C24", runCase); }
