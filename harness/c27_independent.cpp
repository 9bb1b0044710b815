// C27: objects used by different threads do not influence each other.
#include "dt.hpp"
#include "mav_trajectory_generation/io.h"
#include "mav_trajectory_generation/trajectory_sampling.h"
using namespace dt;
using vf::fmt;

typedef std::vector<double> Out;
static void put(Out& o, const Eigen::VectorXd& v) { for (int i = 0; i < v.size(); ++i) o.push_back(v[i]); }
static void put(Out& o, const mtg::Trajectory& t) {
  for (auto& s : t.segments()) {
    o.push_back(s.getTime());
    for (int d = 0; d < s.D(); ++d) put(o, s[d].getCoefficients(0));
  }
}

template <int N>
static Out library(uint64_t seed) {
  vf::Rng g(seed);
  Out o;
  int D = g.i(1, 3);
  Eigen::VectorXd lo = Eigen::VectorXd::Constant(D, -8), hi = Eigen::VectorXd::Constant(D, 8);
  int k = N / 2 - 1;
  auto v = mtg::createRandomVertices(k, g.i(1, 4), lo, hi, g.i(0, 1000));
  for (auto& q : v) { Eigen::VectorXd p; q.getConstraint(0, &p); put(o, p); }
  double vm = g.uni(1, 5), am = g.uni(1, 8);
  auto T = mtg::estimateSegmentTimes(v, vm, am);
  for (double t : T) o.push_back(t);
  mtg::PolynomialOptimization<N> lin(D);
  lin.setupFromVertices(v, T, k);
  lin.solveLinear();
  mtg::Trajectory a;
  lin.getTrajectory(&a);
  put(o, a);
  o.push_back(lin.computeCost());
  o.push_back(lin.computeMaximumOfMagnitude(1, nullptr).value);
  mtg::NonlinearOptimizationParameters par;
  par.max_iterations = 60;
  static const mtg::NonlinearOptimizationParameters::TimeAllocMethod ms[] = {par.kSquaredTime, par.kRichterTime, par.kSquaredTimeAndConstraints, par.kRichterTimeAndConstraints, par.kMellingerOuterLoop};
  par.time_alloc_method = ms[g.i(0, 4)];
  if (par.time_alloc_method == par.kMellingerOuterLoop) { par.algorithm = nlopt::LD_LBFGS; par.max_iterations = 15; }
  par.random_seed = 7;
  mtg::PolynomialOptimizationNonLinear<N> non(D, par);
  non.setupFromVertices(v, T, k);
  non.addMaximumMagnitudeConstraint(1, vm);
  non.addMaximumMagnitudeConstraint(2, am);
  o.push_back(non.optimize());
  mtg::Trajectory b;
  non.getTrajectory(&b);
  put(o, b);
  double x = 0, y = 0;
  b.computeMaxVelocityAndAcceleration(&x, &y);
  o.push_back(x);
  o.push_back(y);
  b.scaleSegmentTimesToMeetConstraints(vm, am);
  put(o, b);
  mtg::Trajectory c;
  if (mtg::trajectoryFromYaml(mtg::trajectoryToYaml(b), &c)) put(o, c);
  std::vector<Eigen::VectorXd> s;
  std::vector<double> st;
  b.evaluateRange(0, b.getMaxTime(), 0.1, 0, &s, &st);
  for (auto& q : s) put(o, q);
  mtg::Polynomial p(gen::coeffs(g, 8, 1)), q(gen::coeffs(g, 5, 1));
  put(o, (p * q).getCoefficients(0));
  std::vector<double> cand;
  if (p.computeMinMaxCandidates(0, 2, 0, &cand)) for (double t : cand) o.push_back(t);
  Eigen::VectorXd base(12);
  mtg::Polynomial::baseCoeffsWithTime(12, g.i(0, 4), g.uni(0, 3), &base);
  put(o, base);
  vf::count("library_tasks");
  return o;
}

static Out generator(uint64_t seed) {
  vf::Rng g(seed);
  Out o;
  DynamicTrajectory d;
  double speed = g.logu(1, 5);
  d.setSpeed(speed);
  V3 p(g.normal(), g.normal(), g.normal());
  d.updateVehiclePosition(p);
  auto w = route(g, p, g.i(1, 3), "w", speed * 2);
  d.setWaypoints(w);
  at(d, 0, false);
  settle(d, 0.f);
  auto collect = [&] {
    List l = listOf(d);
    double comp = d.getTimeCompensation();
    o.push_back(comp);
    for (auto& q : l) {
      o.push_back(q.getTime());
      put(o, q.getCurrentPosition());
      References r = at(d, q.getTime() - comp + 0.05);
      put(o, r.position);
      put(o, r.velocity);
      put(o, r.acceleration);
    }
  };
  collect();
  // moved while flown
  at(d, 0.1, false);
  V3 q = w.back().getOriginalPosition() + V3(1, 0.5, 0.2);
  d.modifyWaypoint(w.back().getName(), q, false);
  waitFor([&] { List l = listOf(d); return (l.back().getCurrentPosition() - q).norm() == 0; }, 20);
  collect();
  vf::count("generator_tasks");
  return o;
}

static Out task(uint64_t seed) {
  switch (seed % 5) {
    case 0: return library<6>(seed);
    case 1: return library<8>(seed);
    case 2: return library<10>(seed);
    default: return generator(seed);
  }
}

static void runCase(vf::Ctx& x) {
  vf::Rng& g = x.rng;
  vf::evaluated();
  tc_ns = 100;  // the time a generation takes is that of the process, keep it negligible
  int n = g.i(2, 5);
  std::vector<uint64_t> seeds;
  for (int i = 0; i < n; ++i) seeds.push_back(g.u64() & 0xffffffff);
  if (g.p(0.3)) seeds[1] = seeds[0];  // twice the same
  std::vector<Out> alone, together(n);
  for (auto s : seeds) alone.push_back(task(s));
  std::vector<std::thread> th;
  std::atomic<int> ready{0};
  for (int i = 0; i < n; ++i) th.emplace_back([&, i] {
    user_thread = true;
    ++ready;
    while (ready < n) {}
    together[i] = task(seeds[i]);
  });
  for (auto& t : th) t.join();
  for (int i = 0; i < n; ++i) {
    bool same = alone[i].size() == together[i].size();
    size_t where = 0;
    for (size_t k = 0; same && k < alone[i].size(); ++k) {
      double a = alone[i][k], b = together[i][k];
      // a generator's times contain how long its generation took
      bool eq = seeds[i] % 5 < 3 ? memcmp(&a, &b, sizeof(double)) == 0 : std::fabs(a - b) <= 1e-4 * (1 + std::fabs(a));
      if (!eq) { same = false; where = k; }
    }
    vf::count("results_compared", alone[i].size());
    vf::distinct(fmt("%llx", (unsigned long long)seeds[i]));
    if (!same) vf::viol("C27.result", fmt("task %llu (%s): %zu numbers alone, %zu among %d threads, first difference at %zu: %.17g / %.17g", (unsigned long long)seeds[i], seeds[i] % 5 < 3 ? "library" : "generator", alone[i].size(), together[i].size(), n, where, where < alone[i].size() ? alone[i][where] : 0, where < together[i].size() ? together[i][where] : 0));
  }
  vf::count("groups");
  if (x.idx < 2) vf::sample(fmt("%d tasks alone and at the same time", n));
}
int main(int argc, char** argv) { begin(argv[0]); return vf::drive(argc, argv, "C27", runCase); }
