// C12: the nonlinear optimiser returns the best solution it found, in place,
// still meeting constraints, continuity and bounds; its report is about it.
#include <dlfcn.h>
#include <nlopt.h>
#include "lin.hpp"
#include "mav_trajectory_generation/polynomial_optimization_nonlinear.h"
using namespace mtg;
using vf::fmt;
typedef NonlinearOptimizationParameters P;

// What the numerical optimiser handed back to the library.
struct Seen { int calls = 0, depth = 0, ret = 0; double minf = 0; std::vector<double> x0, x; };
static Seen seen;
extern "C" nlopt_result nlopt_optimize(nlopt_opt o, double* x, double* f) {
  typedef nlopt_result (*F)(nlopt_opt, double*, double*);
  static F real = (F)dlsym(RTLD_NEXT, "nlopt_optimize");
  unsigned n = nlopt_get_dimension(o);
  std::vector<double> x0(x, x + n);
  ++seen.depth;
  nlopt_result r = real(o, x, f);
  if (--seen.depth == 0) { ++seen.calls; seen.ret = r; seen.minf = *f; seen.x0 = x0; seen.x.assign(x, x + n); }
  return r;
}

struct Limit { int q; double v; };
template <int N>
struct Eval { double traj, time, soft, softTotal, total; std::vector<double> maxima; };

template <int N>
static Eval<N> evaluate(PolynomialOptimizationNonLinear<N>& o, const P& par, const std::vector<Limit>& lim, const lin::Problem& p) {
  Eval<N> e{};
  Trajectory t;
  o.getTrajectory(&t);
  double tot = 0;
  for (auto& s : t.segments()) tot += s.getTime();
  for (int d = 0; d < p.D; ++d) e.traj += (double)lin::cost(t.segments(), d, p.k);
  bool lin1 = par.time_alloc_method == P::kRichterTime || par.time_alloc_method == P::kRichterTimeAndConstraints;
  e.time = par.time_penalty * (lin1 ? tot : tot * tot);
  for (auto& l : lim) {
    double m = o.getPolynomialOptimizationRef().computeMaximumOfMagnitude(l.q, nullptr).value;
    e.maxima.push_back(m);
    double z = std::exp((m - l.v) / l.v * par.soft_constraint_weight);
    e.soft += std::min(1e12, z);
    e.softTotal += std::min(1e9, z);
  }
  e.total = e.traj + e.time + (par.use_soft_constraints ? e.soft : 0);
  return e;
}
static double costScale(const Segment::Vector& s, const lin::Problem& p) {
  double c = 0;
  for (auto& q : s) for (int d = 0; d < p.D; ++d) { double a = ref::absEval(ref::deriv(gen::refPoly(q[d]), p.k), q.getTime()); c += a * a * q.getTime(); }
  return c;
}

template <int N>
static void one(vf::Ctx& x) {
  vf::Rng& g = x.rng;
  lin::Problem p = lin::problem(g, N, g.p(0.3) ? 1 : 4);
  for (double& T : p.T) T = std::max(T, 0.15);
  if (g.p(0.1)) for (auto& v : p.v) for (int q = 0; q < N / 2; ++q) if (!v.hasConstraint(q)) v.addConstraint(q, Eigen::VectorXd::Zero(p.D));
  const double tol = N == 6 ? 1e-11 : N == 8 ? 1e-9 : 1e-8;
  P par;
  static const P::TimeAllocMethod ms[] = {P::kSquaredTime, P::kRichterTime, P::kSquaredTimeAndConstraints, P::kRichterTimeAndConstraints, P::kMellingerOuterLoop};
  par.time_alloc_method = ms[g.i(0, 4)];
  bool mel = par.time_alloc_method == P::kMellingerOuterLoop;
  bool timeOnly = par.time_alloc_method == P::kSquaredTime || par.time_alloc_method == P::kRichterTime;
  bool rest = mel && g.p(0.6);
  if (rest) for (auto& v : p.v) for (int q = 1; q < N / 2; ++q) if (v.hasConstraint(q)) v.addConstraint(q, Eigen::VectorXd::Zero(p.D));
  par.max_iterations = g.p(0.3) ? g.i(1, 12) : g.i(13, x.thorough ? 600 : 150);
  par.f_rel = g.p(0.5) ? 0.05 : 1e-4;
  par.time_penalty = g.logu(0.05, 5000);
  par.soft_constraint_weight = g.p(0.3) ? 1e-3 : g.logu(0.5, 150);
  par.random_seed = 12345;
  bool cobyla = false;
  if (mel) { par.algorithm = nlopt::LD_LBFGS; par.max_iterations = std::min(par.max_iterations, 40); }
  else if (g.p(0.2)) { par.algorithm = g.p(0.5) ? nlopt::LN_SBPLX : nlopt::LN_COBYLA; cobyla = par.algorithm == nlopt::LN_COBYLA; }
  par.use_soft_constraints = !(cobyla && g.p(0.5));
  std::string what = fmt("method %d algorithm %d iterations<=%d penalty %.3g weight %.3g soft %d; ", (int)par.time_alloc_method, (int)par.algorithm, par.max_iterations, par.time_penalty, par.soft_constraint_weight, (int)par.use_soft_constraints) + lin::show(p);

  // the linear solution the optimisation starts from
  PolynomialOptimization<N> lo(p.D);
  lo.setupFromVertices(p.v, p.T, p.k);
  lo.solveLinear();
  std::vector<Limit> lim;
  int nl = g.i(0, 2);
  if (nl >= 1) lim.push_back({1, lo.computeMaximumOfMagnitude(1, nullptr).value * g.uni(0.4, 1.6) + 1e-3});
  if (nl == 2) lim.push_back({2, lo.computeMaximumOfMagnitude(2, nullptr).value * g.uni(0.4, 1.6) + 1e-3});
  if (nl && g.p(0.2)) lim.erase(lim.begin());
  // a limit on a derivative beyond the acceleration, in any place
  if (g.p(0.25)) {
    int q = g.i(3, 4);
    Limit l{q, lo.computeMaximumOfMagnitude(q, nullptr).value * (g.p(0.5) ? g.uni(0.4, 1.6) : g.logu(2, 1e3)) + 1e-3};
    lim.insert(lim.begin() + g.i(0, (int)lim.size()), l);
    vf::count("limits_on_higher_derivatives");
  }
  // limits that the free derivatives run into
  if (!mel && !timeOnly && lo.getNumberFreeConstraints() > 0 && g.p(0.5)) {
    std::vector<Eigen::VectorXd> f0;
    lo.getFreeConstraints(&f0);
    lim.clear();
    for (int q = 1; q <= 2; ++q) {
      double m = 0;
      int idx = 0;
      for (int v = 0; v <= p.K(); ++v) for (int e = 0; e < N / 2; ++e) if (!p.v[v].hasConstraint(e)) { if (e == q) for (auto& f : f0) m = std::max(m, std::abs(f[idx])); ++idx; }
      if (m > 0 && g.p(0.7)) lim.push_back({q, m * g.uni(1.02, 1.3)});
    }
    par.soft_constraint_weight = 1e-3;
    par.time_penalty = std::max(1.0, 20 * lo.computeCost());
    par.f_rel = 1e-4;
    par.max_iterations = 200;
  }

  auto run = [&](PolynomialOptimizationNonLinear<N>& o, Trajectory* t) {
    o.setupFromVertices(p.v, p.T, p.k);
    for (auto& l : lim)
      if (!o.addMaximumMagnitudeConstraint(l.q, l.v)) vf::viol("C12.limit.refused", what);
    if (g.p(0.5) || timeOnly || mel) o.solveLinear();
    seen = Seen();
    int rc = o.optimize();
    o.getTrajectory(t);
    return rc;
  };
  PolynomialOptimizationNonLinear<N> start(p.D, par);
  start.setupFromVertices(p.v, p.T, p.k);
  for (auto& l : lim) start.addMaximumMagnitudeConstraint(l.q, l.v);
  start.solveLinear();
  Eval<N> before = evaluate(start, par, lim, p);
  std::vector<Eigen::VectorXd> fr0, fr;
  start.getPolynomialOptimizationRef().getFreeConstraints(&fr0);

  PolynomialOptimizationNonLinear<N> o(p.D, par);
  Trajectory t;
  int rc = run(o, &t);
  Seen nl1 = seen;
  vf::evaluated();
  vf::count(fmt("method_%d", (int)par.time_alloc_method));
  vf::count(fmt("algorithm_%d", (int)par.algorithm));
  OptimizationInfo info = o.getOptimizationInfo();
  if (info.stopping_reason != rc) vf::viol("C12.info.reason", fmt("reported %d returned %d; ", info.stopping_reason, rc) + what);
  if (rc <= 0) vf::count("failures");
  // ---- constraints, continuity, times -------------------------------------------
  lin::Problem r = p;
  o.getPolynomialOptimizationRef().getSegmentTimes(&r.T);
  bool good = (int)r.T.size() == p.K();
  for (double T : r.T) good &= std::isfinite(T) && T >= 0.1 * (1 - 1e-12);
  if (!good) { std::string s; for (double T : r.T) s += fmt(" %g", T); vf::viol("C12.times", "returned times" + s + "; " + what); return; }
  if (t.getSegmentTimes() != r.T) { vf::viol("C12.times.trajectory", "the trajectory's segment times are not the optimiser's; " + what); return; }
  double tmin = *std::min_element(r.T.begin(), r.T.end()), tmax = *std::max_element(r.T.begin(), r.T.end());
  // without a price on time the cost falls for ever as times grow: beyond this
  // spread the splines are too badly conditioned to judge
  if (tmax > 1e3 || tmax / tmin > 300) { vf::count("extreme_times"); if (mel) return; }
  else lin::checkSpline(r, t.segments(), tol * (tmax / tmin > 40 ? 100 : 1), "C12", what);
  double tot = 0;
  for (double T : r.T) tot += T;
  if (std::abs(t.getMaxTime() - tot) > 1e-9 * tot) vf::viol("C12.total", what);
  // ---- time-only methods: polynomials are the linear optimum of these times -----
  if ((timeOnly || mel) && tmax / tmin < 40)
    for (int d = 0; d < p.D; ++d) {
      double gap = 0;
      int nf = 0;
      if (!lin::suboptimality(r, t.segments(), d, &gap, &nf) || nf == 0) continue;
      vf::count("linear_optimum_checks");
      vf::maxv("linear_gap", gap);
      if (!(gap <= (N <= 8 ? 1e-7 : 1e-4))) vf::viol("C12.linear", fmt("dimension %d costs %.3g times more than necessary for the returned times; ", d, gap) + what);
    }
  // ---- costs ----------------------------------------------------------------------
  Eval<N> after = evaluate(o, par, lim, p);
  double cs = costScale(t.segments(), p);
  if (!(std::abs(o.getCost() - after.traj) <= 1e-10 * cs)) vf::viol("C12.cost", fmt("getCost %.12g, integral %.12g; ", o.getCost(), after.traj) + what);
  double tc = after.traj + par.time_penalty * tot * tot + after.softTotal;
  if (!(std::abs(o.getTotalCostWithSoftConstraints() - tc) <= 1e-10 * cs + 1e-7 * tc)) vf::viol("C12.totalcost", fmt("total cost %.12g, expected %.12g; ", o.getTotalCostWithSoftConstraints(), tc) + what);
  double slack = 1e-10 * cs + 1e-7 * (after.time + after.soft);
  if (!mel) {
    // the report is about the result
    vf::count("reports");
    if (!(std::abs(info.cost_trajectory - after.traj) <= 1e-10 * cs) || !(std::abs(info.cost_time - after.time) <= 1e-9 * after.time) ||
        (par.use_soft_constraints && !(std::abs(info.cost_soft_constraints - after.soft) <= 1e-6 * after.soft)))
      vf::viol("C12.info.costs", fmt("reported costs %.12g %.12g %.12g, result has %.12g %.12g %.12g; ", info.cost_trajectory, info.cost_time, info.cost_soft_constraints, after.traj, after.time, after.soft) + what);
    if (info.n_iterations < 1 || info.n_iterations > par.max_iterations + 2) vf::viol("C12.info.iterations", fmt("%d iterations; ", info.n_iterations) + what);
    for (size_t k = 0; k < lim.size(); ++k) {
      auto it = info.maxima.find(lim[k].q);
      if (it == info.maxima.end() || !(std::abs(it->second.value - after.maxima[k]) <= 1e-9 * after.maxima[k])) vf::viol("C12.info.maxima", fmt("reported maximum of derivative %d is %g, result has %g; ", lim[k].q, it == info.maxima.end() ? -1.0 : it->second.value, after.maxima[k]) + what);
    }
    // nlopt's best is what the library hands out
    if (nl1.calls == 1 && nl1.ret > 0) {
      vf::count("best_found_returned");
      if (!(std::abs(nl1.minf - after.total) <= slack)) vf::viol("C12.best", fmt("the best objective found was %.12g, the solution handed out has %.12g; ", nl1.minf, after.total) + what);
    }
    // ---- bounds of free derivatives --------------------------------------------------
    o.getPolynomialOptimizationRef().getFreeConstraints(&fr);
    bool inside = true;
    for (double T : p.T) inside &= T >= 0.13;
    if (!timeOnly) {
      int idx = 0;
      for (int v = 0; v <= p.K(); ++v) for (int q = 0; q < N / 2; ++q) if (!p.v[v].hasConstraint(q)) {
        for (auto& l : lim) if (l.q == q)
          for (int d = 0; d < p.D; ++d) {
            double b = std::max(l.v, std::abs(fr0[d][idx]));
            vf::count("bounded_free_values");
            if (std::abs(fr0[d][idx]) * 1.11 > l.v) inside = false;
            if (std::abs(fr[d][idx]) > 0.999 * b) vf::count("free_values_at_bound");
            if (!(std::abs(fr[d][idx]) <= b * (1 + 1e-9))) vf::viol("C12.bound", fmt("free derivative %d of vertex %d dim %d is %g, limit %g, started at %g; ", q, v, d, fr[d][idx], l.v, fr0[d][idx]) + what);
          }
        ++idx;
      }
    }
    // ---- no worse than where it started -----------------------------------------------
    if (inside && par.use_soft_constraints && !cobyla) {  // COBYLA may shift the start itself
      vf::count("compared_with_start");
      if (after.total < before.total * 0.99) vf::count("improved");
      if (!(after.total <= before.total * (1 + 1e-7) + slack)) vf::viol("C12.worse", fmt("objective %.12g at the start, %.12g at the end; ", before.total, after.total) + what);
    }
    // with hard limits: a feasible start stays feasible
    if (!par.use_soft_constraints && rc > 0) {
      bool f0 = true, f1 = true;
      for (size_t k = 0; k < lim.size(); ++k) { f0 &= before.maxima[k] <= lim[k].v; f1 &= after.maxima[k] <= lim[k].v + 0.1 + 1e-3 * lim[k].v; }
      if (f0) { vf::count("hard_limits_feasible_start"); if (!f1) vf::count("hard_limits_lost"); }
    }
  } else {
    // Mellinger: the best times found keep their proportions ...
    if (nl1.calls == 1 && nl1.ret > 0 && nl1.x.size() == r.T.size()) {
      double k0 = r.T[0] / nl1.x[0];
      bool same = true;
      for (size_t i = 0; i < r.T.size(); ++i) same &= std::abs(r.T[i] / nl1.x[i] / k0 - 1) < 1e-6 && (!lim.empty() || std::abs(k0 - 1) < 1e-9);
      vf::count("mellinger_best_times");
      if (!same) { std::string u; for (size_t i = 0; i < r.T.size(); ++i) u += fmt(" %.9g/%.9g", r.T[i], nl1.x[i]); vf::viol("C12.mellinger.best", "returned times / best times found" + u + "; " + what); }
    }
    // ... and are finally stretched to the limits
    std::vector<double> before_t = t.getSegmentTimes();
    double v = 1e300, a = 1e300;
    for (auto& l : lim) if (l.q <= 2) (l.q == 1 ? v : a) = l.v;
    if (rest && !lim.empty()) {
      bool over = false;
      for (size_t k = 0; k < lim.size(); ++k) over |= lim[k].q <= 2 && after.maxima[k] > lim[k].v * 1.0021;
      if (!over) vf::count("mellinger_within_limits");
      else if (Trajectory(t).scaleSegmentTimesToMeetConstraints(v, a)) vf::viol("C12.mellinger.limits", fmt("limit exceeded: %g > %g; ", after.maxima[0], lim[0].v) + what);
      else vf::count("mellinger_scaling_refused");
    }
    if (lim.empty()) {
      vf::count("mellinger_unlimited");
      if (rc > 0 && !(after.traj <= before.traj * (1 + 1e-7) + 1e-10 * cs)) vf::viol("C12.mellinger.worse", fmt("cost %.12g at the start, %.12g at the end; ", before.traj, after.traj) + what);
    }
  }
  // ---- repeatable -------------------------------------------------------------------
  if (g.p(0.25)) {
    // ... also when it tells what it does
    std::ostringstream told;
    std::streambuf* was = nullptr;
    P par2 = par;
    if (g.p(0.5)) {
      par2.print_debug_info = g.p(0.7);
      par2.print_debug_info_time_allocation = !par2.print_debug_info || g.p(0.7);
      was = std::cout.rdbuf(told.rdbuf());
      vf::count("repeated_with_debug_output");
    }
    PolynomialOptimizationNonLinear<N> o2(p.D, par2);
    Trajectory t2;
    int rc2 = run(o2, &t2);
    if (was) std::cout.rdbuf(was);
    if (rc2 != rc || !(t2 == t) || t2.getSegmentTimes() != t.getSegmentTimes()) vf::viol("C12.repeat", "a second run of the same problem differs; " + what);
    vf::count("repeated");
  }
  vf::distinct(vf::fnv(r.T.data(), r.T.size() * 8, gen::hashVec(t.segments()[0][0].getCoefficients(0))));
  vf::sample(what);
}
static void runCase(vf::Ctx& x) {
  switch (x.idx % 3) { case 0: one<6>(x); break; case 1: one<8>(x); break; default: one<10>(x); }
}
int main(int c, char** v) { gen::quiet(v[0]); return vf::drive(c, v, "C12", runCase); }
