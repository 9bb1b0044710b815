// Support of the monitors of the online generator.  Included once per program:
// it takes over the process's steady clock and nanosleep, so that a monitor
// chooses how long a generation appears to take and at which point of it the
// internal threads stand still while the user goes on.
#pragma once
#include <dlfcn.h>
#include <nlopt.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <time.h>
#include <condition_variable>
#include <thread>
#include "gen.hpp"
#include "dynamic_trajectory_generator/dynamic_trajectory.hpp"

namespace dt {
using namespace dynamic_traj_generator;
typedef Eigen::Vector3d V3;

inline thread_local bool user_thread = false;  // set by threads of the monitor
inline std::atomic<long> clock_ns{1000000000}, tc_ns{1000000};
inline std::atomic<long> idle{0};       // times an internal thread went to sleep
inline std::atomic<long> passes{0};     // internal looks at the clock
inline std::atomic<long> blocked{0};    // internal threads standing at the gate
inline std::atomic<bool> gated{false};  // gate closed
inline std::atomic<long> permits{0};
inline std::atomic<long> optimisations{0};  // numerical optimisations started
inline std::atomic<long> running{0};        // ... and not finished
inline std::atomic<int> jitter{0};      // per mille of the locks an internal thread leaves that it then loses time at
inline std::atomic<bool> jitter_users{false};  // threads of the monitor lose time, too
inline std::atomic<long> delays{0};

inline void realSleep(long ns) {
  timespec ts{ns / 1000000000L, ns % 1000000000L};
  syscall(SYS_nanosleep, &ts, nullptr);
}
inline double realNow() {
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}
inline thread_local bool optimising = false;
// The gate stands where an internal thread looks at the clock before it has
// started the numerical optimiser and where it starts it.
inline void passGate() {
  if (gated) {
    ++blocked;
    double end = realNow() + 30;  // a monitor that forgets the gate loses nothing but time
    while (gated && realNow() < end) {
      long p = permits.load();
      if (p > 0 && permits.compare_exchange_strong(p, p - 1)) break;
      realSleep(20000);
    }
    --blocked;
  }
}
inline long internalClock() {
  if (!optimising) passGate();
  ++passes;
  return clock_ns += tc_ns;
}
// a long wait is longer on a busy machine: the time of a running optimisation
// does not count
inline bool waitFor(const std::function<bool()>& f, double seconds) {
  double end = realNow() + seconds, hard = end + 240;
  while (!f()) {
    double now = realNow();
    if (seconds >= 3 && running > 0) end = std::min(hard, std::max(end, now + seconds));
    if (now > end) return f();
    realSleep(100000);
  }
  return true;
}
inline void closeGate() { permits = 0; gated = true; }
inline void openGate() { gated = false; }
inline void step() { ++permits; }
}  // namespace dt

namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept {
  long v = dt::user_thread ? dt::clock_ns.load() : dt::internalClock();
  return time_point(duration(v));
}
}}}
extern "C" nlopt_result nlopt_optimize(nlopt_opt opt, double* x, double* f) {
  static auto real = (nlopt_result(*)(nlopt_opt, double*, double*))dlsym(RTLD_NEXT, "nlopt_optimize");
  if (dt::user_thread) return real(opt, x, f);
  dt::passGate();
  dt::optimising = true;
  ++dt::optimisations;
  ++dt::running;
  nlopt_result r = real(opt, x, f);
  --dt::running;
  return r;
}
extern "C" int nanosleep(const struct timespec* r, struct timespec*) {
  if (dt::user_thread) { dt::realSleep(r->tv_sec || r->tv_nsec > 100000 ? 100000 : r->tv_nsec); return 0; }
  ++dt::idle;
  dt::realSleep(r->tv_sec || r->tv_nsec > 200000 ? 200000 : r->tv_nsec);
  return 0;
}
// Delays before internal threads take a lock and after they leave it, so that the user comes between two
// critical sections.  (The race detector needs these calls for itself.)
#if !defined(__SANITIZE_THREAD__)
namespace dt {
inline void loseTime() {
  int j = jitter;
  if (j > 0 && (jitter_users || !user_thread)) {
    static std::atomic<unsigned long> n{0};
    unsigned long h = (n += 0x9e3779b97f4a7c15UL);
    h ^= h >> 30; h *= 0xbf58476d1ce4e5b9UL; h ^= h >> 27; h *= 0x94d049bb133111ebUL; h ^= h >> 31;
    if ((long)(h % 1000) < j) { ++delays; realSleep(1000 + (long)((h >> 20) % 1500000)); }
  }
}
}  // namespace dt
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) {
  static int (*real)(pthread_mutex_t*) = nullptr;
  if (!real) real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock");
  dt::loseTime();
  return real(m);
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m) {
  static int (*real)(pthread_mutex_t*) = nullptr;
  if (!real) real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
  int r = real(m);
  dt::loseTime();
  return r;
}
#endif
extern "C" int clock_nanosleep(clockid_t, int flags, const struct timespec* r, struct timespec* rem) {
  if (flags == 0) return nanosleep(r, rem);
  return 0;
}

namespace dt {
// delays during one case
struct Jitter {
  long before = delays;
  Jitter(vf::Rng& g, double p, bool users = false) { jitter_users = users && g.p(0.5); jitter = g.p(p) ? g.i(50, 400) : 0; }
  ~Jitter() { jitter = 0; jitter_users = false; if (delays > before) vf::count("delays_between_critical_sections", delays - before); }
};
inline void begin(const char* name) {
  gen::quiet(name);
  user_thread = true;
  if (!freopen("/dev/null", "w", stdout)) abort();
}
inline DynamicWaypoint waypoint(const V3& p, const std::string& name) {
  DynamicWaypoint w;
  w.resetWaypoint(p);
  w.setName(name);
  return w;
}
// nothing requested, nothing being generated (asked in this order: a request is
// taken over by a generation before it stops being reported as requested)
inline bool atRest(const DynamicTrajectory& d) { return !d.getGenerateNewTraj() && !d.getComputingNewTrajectoryStatus(); }
// evaluates at t until every request has led to its trajectory
inline bool settle(DynamicTrajectory& d, float t, double seconds = 25) {
  return waitFor([&] { References r; d.evaluateTrajectory(t, r); return atRest(d); }, seconds);
}
// the internal thread has looked for work at least twice since
inline bool lookedAround(double seconds = 20) {
  // a thread that does not sleep at all waits in another way: three seconds do
  long i = idle;
  if (!waitFor([&] { return idle > i; }, 3)) return true;
  return waitFor([&] { return idle >= i + 3; }, seconds);
}
inline References at(DynamicTrajectory& d, double t, bool plot = true) {
  References r;
  r.position = r.velocity = r.acceleration = V3::Zero();
  d.evaluateTrajectory((float)t, r, false, plot);
  static thread_local unsigned nth = 0;
  if (plot && ++nth % 4 == 0) { References q; d.evaluateTrajectory((float)t, q, true, true); }
  return r;
}
inline std::string show(const V3& v) { return vf::fmt("(%.9g,%.9g,%.9g)", v[0], v[1], v[2]); }
inline double err(const References& a, const References& b) {
  return std::max({(a.position - b.position).norm(), (a.velocity - b.velocity).norm(), (a.acceleration - b.acceleration).norm()});
}
inline bool finite(const References& r) { return r.position.allFinite() && r.velocity.allFinite() && r.acceleration.allFinite(); }
typedef std::vector<DynamicWaypoint> List;
inline List listOf(DynamicTrajectory& d) { auto q = d.getDynamicWaypoints(); return List(q.begin(), q.end()); }
// waypoints the user asked for without a name, known by their position
inline std::vector<V3> nameless;
inline bool own(const DynamicWaypoint& w) {
  if (w.getName() == "") { for (auto& p : nameless) if ((w.getOriginalPosition() - p).norm() == 0) return true; return false; }
  return w.getName() != "stitching_point";
}
inline List owned(const List& l) { List o; for (auto& w : l) if (own(w)) o.push_back(w); return o; }
inline std::string names(const List& l) { std::string s; for (auto& w : l) s += vf::fmt("%s@%.4g ", w.getName().c_str(), w.getTime()); return s; }
// a random way through space, waypoints at least 0.3 m from each other
inline DynamicWaypoint::Vector route(vf::Rng& g, const V3& from, int n, const std::string& prefix, double reach) {
  DynamicWaypoint::Vector w;
  V3 p = from;
  for (int i = 0; i < n; ++i) {
    V3 u(g.normal(), g.normal(), 0.3 * g.normal());
    p += u.normalized() * g.logu(0.4, 2) * reach;
    w.push_back(waypoint(p, prefix + std::to_string(i)));
  }
  return w;
}
}  // namespace dt
